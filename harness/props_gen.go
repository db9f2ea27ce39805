package main

import (
	"fmt"
	"strings"
)

// ---------------------------------------------------------------------------
// C29: the packages expanded from the shipped templates (built in with the tag gen) against the shipped ones.

func init() {
	register(&Prop{ID: "C29",
		Rule:  "the shipped templates are expanded by the generator for the four widths and compiled into the harness; random histories are then applied in lock step to the expanded package, to the package shipped for that width and to the reference; some histories also call absent trees and, for IP trees, pass malformed networks and addresses; non-trivial: at least two entries, a delete that removed something and a mutation after it",
		Quick: 48000, Thorough: 600000,
		Gen: func(g *G) *Case {
			f := []string{"strtree", "iptree", "domaintree"}[g.Int(3)]
			w := widths[1+g.Int(4)]
			c := genLinear(g, f, 60, true, true)
			c.Pkg = fmt.Sprintf("%s%d", f, w)
			c.Cfg["vals"] = fmt.Sprintf("u%d", w)
			spliceDiff(g, c)
			return c
		},
		Run: func(c *Case, st *Stats) error {
			if c.Pkg == "" {
				return nil
			}
			if pkgs["gen-"+c.Pkg] == nil {
				harnessFail("package %q is not built in", "gen-"+c.Pkg)
			}
			h, err := runDiff(c, st, []string{c.Pkg, "gen-" + c.Pkg})
			if err != nil {
				return err
			}
			if strings.HasPrefix(c.Pkg, "strtree") {
				// the dump is an observable of string trees
				lin := *c
				lin.Ops = nil
				for _, o := range c.Ops {
					if o.O != "absent" {
						lin.Ops = append(lin.Ops, o)
					}
				}
				for _, n := range []string{c.Pkg, "gen-" + c.Pkg} {
					_, s, m, err := runLinear(&lin, pkgs[n], newStats(), histOpt{noFull: true})
					if err != nil {
						return err
					}
					if err := checkDump(pkgs[n], s, m); err != nil {
						return errf("%s: %v", n, err)
					}
				}
			}
			st.class("pkg:" + c.Pkg)
			classHist(st, c, h)
			if ntHist(h) {
				st.nt()
			}
			return nil
		}})
}
