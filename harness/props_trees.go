package main

import (
	"fmt"
	"math"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/infobloxopen/go-trees/dltree"
	"github.com/infobloxopen/go-trees/domain"
)

func ntHist(h *counters) bool {
	return h.maxLen >= 2 && h.delHit >= 1 && h.afterDel >= 1
}

func classHist(st *Stats, c *Case, h *counters) {
	st.class("pkg:" + c.Pkg)
	if h.delHit > 0 {
		st.class("successful delete")
	}
	if h.delMiss > 0 {
		st.class("delete of nothing")
	}
	if h.delMany > 0 {
		st.class("delete of several entries")
	}
	if h.repl > 0 {
		st.class("value replaced")
	}
	if h.switches > 0 {
		st.class("copying and in-place mixed")
	}
	if h.emptied > 0 {
		st.class("emptied by delete")
	}
	switch {
	case h.maxLen >= 100:
		st.class("100 or more entries")
	case h.maxLen >= 10:
		st.class("10 to 99 entries")
	}
	if cmp, ok := c.Cfg["cmp"]; ok && cmp != "" {
		st.class("custom comparator")
	}
	if c.Cfg["start"] == "nil" {
		st.class("started from a nil tree")
	}
}

// linearProp registers a property decided by linear histories against the reference model.
func linearProp(id string, rule string, quick, thorough int, gen func(g *G) *Case, opt func(c *Case, p *Pkg, st *Stats) histOpt, nt func(c *Case, h *counters) bool) {
	register(&Prop{ID: id, Rule: rule, Quick: quick, Thorough: thorough, Gen: gen,
		Run: func(c *Case, st *Stats) error {
			p := pkgs[c.Pkg]
			if p == nil {
				harnessFail("unknown package %q", c.Pkg)
			}
			o := histOpt{}
			if opt != nil {
				o = opt(c, p, st)
			}
			h, _, _, err := runLinear(c, p, st, o)
			if err != nil {
				return err
			}
			classHist(st, c, h)
			if nt(c, h) {
				st.nt()
			}
			return nil
		}})
}

func genFam(fams []string, maxPool int) func(g *G) *Case {
	names := pkgsOf(fams...)
	return func(g *G) *Case {
		return genLinear(g, pick(g, names), maxPool, true, true)
	}
}

func lateInit() {
	histRule := "random histories over a pool of related keys, compared step by step with a reference map; non-trivial: at least two entries at once, a delete that removed something, and a mutation after it"
	nth := func(c *Case, h *counters) bool { return ntHist(h) }

	linearProp("C01", histRule, 120000, 1000000, genFam([]string{"str"}, 300), nil, nth)
	props["C01"].Exhaust = exhaustStr

	linearProp("C02", histRule+"; human spellings drawn among case, escape and trailing-dot variants", 80000, 1000000,
		func(g *G) *Case {
			c := genLinear(g, "dltree", 200, true, true)
			if g.P(15) {
				c.Cfg["keys"] = "raw"
				c.Keys = genRawKeys(g, min(len(c.Keys), 40))
			}
			return c
		},
		func(c *Case, p *Pkg, st *Stats) histOpt {
			n := 0
			return histOpt{after: func(step int, op *Op, s Sub, m Model) error {
				n++
				if n%5 != 0 {
					return nil
				}
				return checkHumanKeys(s, m)
			}, final: checkHumanKeys}
		}, nth)

	// --- balance
	regBalance()

	// --- numeric trees
	num := genFam([]string{"num"}, 120)
	linearProp("C04", histRule, 150000, 1200000, num, nil, nth)
	linearProp("C05", histRule, 150000, 1200000, num, nil, nth)
	linearProp("C06", "random histories, delete-heavy; non-trivial: a delete that removed something while something else stayed, or a delete of several entries", 150000, 1200000,
		func(g *G) *Case {
			c := num(g)
			for i := range c.Ops {
				if g.P(30) {
					c.Ops[i].O = "del"
					c.Ops[i].N, c.Ops[i].T = 0, 0
				}
			}
			return c
		}, nil, func(c *Case, h *counters) bool { return h.delHit > 0 && h.maxLen >= 3 && h.delMany+h.delMiss > 0 })
	shapeOpt := func(c *Case, p *Pkg, st *Stats) histOpt {
		return histOpt{after: func(step int, op *Op, s Sub, m Model) error {
			_, err := s.(shaper).Shape()
			return err
		}, final: func(s Sub, m Model) error {
			sh, err := s.(shaper).Shape()
			if err != nil {
				return err
			}
			if strings.Count(sh, "*") != m.Len() {
				return errf("structure holds %d data nodes for %d entries: %s", strings.Count(sh, "*"), m.Len(), sh)
			}
			// the same contents built afresh, in two orders and two modes
			ents, _ := m.List()
			for mode := 0; mode < 4; mode++ {
				t := p.New(c.Cfg)
				for i := range ents {
					j := i
					if mode&1 == 1 {
						j = len(ents) - 1 - i
					}
					k := keyOfID(ents[j].K)
					if mode&2 == 2 {
						t = t.Inp(&k, 0, ents[j].V)
					} else {
						t = t.Ins(&k, 0, ents[j].V)
					}
				}
				sh2, err := t.(shaper).Shape()
				if err != nil {
					return err
				}
				if sh2 != sh {
					return errf("same contents, different structure: %s by the history, %s built in order %d", sh, sh2, mode)
				}
			}
			return nil
		}}
	}
	linearProp("C07", histRule+"; structure compared with the same contents built afresh", 70000, 900000, num, shapeOpt, nth)
	linearProp("C08", "random histories in which every argument has scrambled bits past its length and lengths outside the range, against the reference and against the same history with plain arguments; non-trivial: at least two entries and a delete or lookup with a scrambled argument", 80000, 1000000,
		func(g *G) *Case {
			c := num(g)
			for i := range c.Ops {
				if c.Ops[i].W < 3 {
					c.Ops[i].W = g.U64()>>1 + 3
				}
			}
			// keep ends of the length range present
			for i := range c.Keys {
				if g.P(20) {
					p := maskPfx(0, c.Keys[i].Hi, 0, []int{0, pkgs[c.Pkg].Bits}[g.Int(2)])
					c.Keys[i].Hi, c.Keys[i].B = p.hi, p.b
				}
			}
			return c
		}, func(c *Case, p *Pkg, st *Stats) histOpt {
			return histOpt{final: func(s Sub, m Model) error {
				d := cloneCase(c)
				for i := range d.Ops {
					d.Ops[i].W = 0
				}
				_, t, _, err := runLinear(d, p, st, histOpt{noFull: true})
				if err != nil {
					return errf("plain arguments: %v", err)
				}
				a, err := s.(shaper).Shape()
				if err != nil {
					return err
				}
				b, err := t.(shaper).Shape()
				if err != nil {
					return err
				}
				if a != b {
					return errf("structure differs: %s with varied arguments, %s with plain ones", a, b)
				}
				return nil
			}}
		}, func(c *Case, h *counters) bool { return h.maxLen >= 2 && h.delHit+h.getHit > 0 })

	// --- IP trees
	ip := genFam([]string{"ip"}, 120)
	linearProp("C09", histRule, 90000, 800000, ip, nil, nth)
	linearProp("C10", "random histories, delete-heavy; non-trivial: a delete that removed something, with at least three entries, and a delete of several or of nothing", 90000, 800000,
		func(g *G) *Case {
			c := ip(g)
			for i := range c.Ops {
				if g.P(35) {
					c.Ops[i].O = "del"
					c.Ops[i].N, c.Ops[i].T = 0, 0
				}
			}
			return c
		}, nil, func(c *Case, h *counters) bool { return h.delHit > 0 && h.maxLen >= 3 && h.delMany+h.delMiss > 0 })
	linearProp("C11", histRule+"; everything yielded is inserted into an empty tree, which must answer alike", 90000, 700000, ip,
		func(c *Case, p *Pkg, st *Stats) histOpt {
			return histOpt{final: func(s Sub, m Model) error {
				for mode := 0; mode < 2; mode++ {
					ents, _ := collect(s.Enum(""), m.Len())
					t := p.New(c.Cfg)
					for _, e := range ents {
						k := keyOfID(e.K)
						if mode == 1 {
							t = t.Inp(&k, 0, e.V)
						} else {
							t = t.Ins(&k, 0, e.V)
						}
					}
					if err := checkFull("rebuilt from its enumeration", p.Fam, t, m, c.Keys, 1); err != nil {
						return err
					}
				}
				return nil
			}}
		}, nth)
	regUpdate()

	// --- domain trees
	dom := genFam([]string{"dom"}, 100)
	linearProp("C13", histRule, 24000, 600000, dom, nil, nth)
	delGen := func(kind string) func(g *G) *Case {
		return func(g *G) *Case {
			c := dom(g)
			for i := range c.Ops {
				o := &c.Ops[i]
				if (o.O == "del" || o.O == "dels" || o.O == "delrun") && g.P(80) {
					if o.O == "delrun" && kind == "dels" {
						o.N = 0
					}
					if o.O != "delrun" {
						o.O = kind
					}
				}
				if g.P(20) {
					o.O, o.N, o.T = kind, 0, 0
				}
			}
			return c
		}
	}
	delNT := func(kind string) func(c *Case, h *counters) bool {
		return func(c *Case, h *counters) bool { return h.delHit > 0 && h.maxLen >= 3 && h.afterDel > 0 }
	}
	linearProp("C14", "random histories heavy in Delete; non-trivial: a successful delete with at least three entries and a mutation after it", 24000, 600000, delGen("del"), nil, delNT("del"))
	linearProp("C15", "random histories heavy in DeleteSubdomains; non-trivial: a successful delete with at least three entries and a mutation after it", 24000, 600000, delGen("dels"), nil, delNT("dels"))
	linearProp("C16", histRule+"; enumerated twice, keys parsed by the library, tree rebuilt from the sequence", 20000, 500000, dom,
		func(c *Case, p *Pkg, st *Stats) histOpt {
			return histOpt{final: func(s Sub, m Model) error {
				a, _ := collect(s.Enum(""), m.Len())
				b, _ := collect(s.Enum(""), m.Len())
				if len(a) != len(b) {
					return errf("two enumerations yield %d and %d entries", len(a), len(b))
				}
				t := p.New(c.Cfg)
				for i := range a {
					if a[i].Raw != b[i].Raw || !same(a[i].V, b[i].V) {
						return errf("two enumerations differ at %d: %q=%s and %q=%s", i, a[i].Raw, show(a[i].V), b[i].Raw, show(b[i].V))
					}
					n, err := domain.MakeNameFromString(a[i].Raw)
					if err != nil {
						return errf("yielded key %q does not parse: %v", a[i].Raw, err)
					}
					k := Key{}
					for _, l := range libLabels(n) {
						k.L = append(k.L, BS(l))
					}
					if canonOf(k.L) != a[i].K {
						return errf("yielded key %q parses to other labels", a[i].Raw)
					}
					if i%2 == 0 {
						t = t.Ins(&k, 0, a[i].V)
					} else {
						t = t.Inp(&k, 0, a[i].V)
					}
				}
				return checkFull("rebuilt from its enumeration", p.Fam, t, m, c.Keys, 1)
			}}
		}, nth)

	regPersist()
	regInplace()
	regSnapshot()
	regDiff()
	regOpaque()
	regNil()
	regIPMem()
	regDot()
	regSweeps()
	regCost()
	regBig()
	regHeap()
	regLadder()
	regHeld()
}

func init() { lateInit() }

// libLabels lists a name's labels as the library iterates them.
func libLabels(n domain.Name) []string {
	var out []string
	n.GetLabels(func(l string) error { out = append(out, l); return nil })
	return out
}

// keyOfID turns a prefix identity back into a key.
func keyOfID(id string) Key {
	if len(id) != 18 {
		return Key{}
	}
	var k Key
	k.F = int(id[0])
	for i := 0; i < 8; i++ {
		k.Hi = k.Hi<<8 | uint64(id[1+i])
		k.Lo = k.Lo<<8 | uint64(id[9+i])
	}
	k.B = int(id[17])
	return k
}

// checkHumanKeys: every human-readable key yielded addresses the very entry it was yielded for.
func checkHumanKeys(s Sub, m Model) error {
	if !allLabels(m) {
		return nil
	}
	t := s.(*dlSub).t
	hs, _ := collect(s.Enum("human"), m.Len())
	want, _ := m.List()
	if len(hs) != len(want) {
		return errf("human-readable enumeration yields %d entries of %d", len(hs), len(want))
	}
	for i, e := range hs {
		v, ok := t.Get(e.Raw)
		if !ok || !same(v, want[i].V) {
			return errf("key %q yielded for label %q finds (%s, %v), expected %s", e.Raw, want[i].K, show(v), ok, show(want[i].V))
		}
		if l, err := domain.MakeLabel(e.Raw); err != nil || l != want[i].K {
			return errf("key %q yielded for label %q decodes to (%q, %v)", e.Raw, want[i].K, l, err)
		}
	}
	return nil
}

// ---------------------------------------------------------------------------
// C03

var cmpCalls int

// cmpFuse makes the comparator "fault" panic when it has counted down to zero.
var cmpFuse int

type faultPanic struct{}

// withFault runs f with a comparator that panics on its n-th call and tells whether it did.
func withFault(n int, f func()) (hit bool) {
	cmpFuse = n
	defer func() {
		cmpFuse = 0
		if r := recover(); r != nil {
			if _, hit = r.(faultPanic); !hit {
				panic(r)
			}
		}
	}()
	f()
	return false
}

func init() {
	comparators["fault"] = func(a, b string) int {
		if cmpFuse > 0 {
			if cmpFuse--; cmpFuse == 0 {
				panic(faultPanic{})
			}
		}
		return strings.Compare(a, b)
	}
	comparators["count"] = func(a, b string) int { cmpCalls++; return strings.Compare(a, b) }
}

func regBalance() {
	names := pkgsOf("str", "dl", "dom")
	register(&Prop{ID: "C03",
		Rule:  "random histories biased to runs (ascending, descending, strided) of inserts and deletes on pools of up to 1500 keys; after mutations the dumped structure is checked against the red-black rules, the comparator is counted, and domain trees are walked by reflection; non-trivial: at least 8 entries and at least one successful delete",
		Quick: 12000, Thorough: 300000,
		Gen: func(g *G) *Case {
			pkg := pick(g, names)
			if g.P(30) {
				pkg = "strtree"
			}
			p := pkgs[pkg]
			c := &Case{Pkg: pkg, Cfg: map[string]string{}}
			if p.Fam == "str" {
				c.Cfg["cmp"] = []string{"count", "count", "", "huge", "rev", "asym"}[g.Int(6)]
			}
			n := []int{g.Range(2, 8), g.Range(6, 24), g.Range(16, 64), g.Range(64, 200), g.Range(300, 1500)}[g.W(25, 35, 28, 10, 2)]
			if p.Fam == "dom" {
				// many labels on one level, some below them
				up := []BS{}
				for i := g.Int(3); i > 0; i-- {
					up = append(up, BS{'A' + byte(g.Int(3))})
				}
				for i := 0; i < n; i++ {
					l := append([]BS(nil), up...)
					l = append(l, BS(strings.ToUpper(fmt.Sprintf("%0*d", []int{1, 2, 3, 4}[g.Int(4)], g.Int(2*n)))))
					if g.P(15) {
						l = append(l, genLabel(g, 20))
					}
					c.Keys = append(c.Keys, Key{L: fitName(l)})
				}
			} else {
				c.Keys = genKeys(g, p, n)
				if p.Fam == "str" && g.P(50) {
					c.Keys = nil
					for i := 0; i < n; i++ {
						c.Keys = append(c.Keys, Key{S: BS(fmt.Sprintf("%05d", i))})
					}
				}
			}
			nk := len(c.Keys)
			ik := []string{"insrun", "inprun"}
			for i := g.Range(1, 4); i > 0; i-- {
				c.Ops = append(c.Ops, Op{O: ik[g.Int(2)], K: g.Int(nk), N: g.Range(1, nk), T: g.Int(4), V: g.Int(50)})
				if g.P(70) {
					c.Ops = append(c.Ops, Op{O: "delrun", K: g.Int(nk), N: g.Range(1, nk), T: g.Int(4)})
				}
				mx := opMix{[]string{"ins", "inp", "del"}, []int{g.Range(1, 30), g.Range(1, 30), g.Range(1, 60)}}
				if p.Fam == "dom" {
					mx = opMix{[]string{"ins", "inp", "del", "dels"}, []int{g.Range(1, 30), g.Range(1, 30), g.Range(1, 50), g.Range(0, 10)}}
				}
				c.Ops = append(c.Ops, genOps(g, mx, nk, g.Range(0, min(60, 2*nk)))...)
			}
			return c
		},
		Run: func(c *Case, st *Stats) error {
			p := pkgs[c.Pkg]
			n := 0
			check := func(s Sub, m Model) error {
				if d, ok := s.Dot(); ok {
					if err := checkRB(d, m.Len()); err != nil {
						return err
					}
				}
				if p.Fam == "dom" {
					_, big, err := walkBalance(s.Obj())
					if err != nil {
						return err
					}
					if big >= 16 {
						st.class("domain level with 16 or more labels")
					}
				}
				if c.Cfg["cmp"] == "count" && c.Cfg["start"] != "nil" {
					lim := maxHeight(m.Len())
					for i := range c.Keys {
						if i%7 != n%7 && len(c.Keys) > 14 {
							continue
						}
						cmpCalls = 0
						s.Get("get", &c.Keys[i], 0)
						if cmpCalls > lim {
							return errf("lookup of %q took %d comparisons with %d entries, more than %d", string(c.Keys[i].S), cmpCalls, m.Len(), lim)
						}
					}
				}
				return nil
			}
			h, _, _, err := runLinear(c, p, st, histOpt{noFull: true, after: func(step int, op *Op, s Sub, m Model) error {
				n++
				size := m.Len()
				if size > 24 && n%(size/8) != 0 {
					return nil
				}
				return check(s, m)
			}, final: func(s Sub, m Model) error {
				if err := check(s, m); err != nil {
					return err
				}
				return checkFull("end", p.Fam, s, m, c.Keys, 0)
			}})
			if err != nil {
				return err
			}
			classHist(st, c, h)
			if h.maxLen >= 8 && h.delHit > 0 {
				st.nt()
			}
			return nil
		},
		Exhaust: func(tier string, emit func(*Case) bool) {
			// all insertion orders of up to 6 (7) keys, followed by the deletion of each pair of them
			exhaustPerm(tier, "C03", []string{"strtree", "dltree", "strtree8"}, emit)
		},
	})
}

// exhaustPerm enumerates insertion permutations and deletions.
func exhaustPerm(tier, id string, names []string, emit func(*Case) bool) {
	max := 5
	if tier == "thorough" {
		max = 7
	}
	for n := 1; n <= max; n++ {
		perm := make([]int, n)
		for i := range perm {
			perm[i] = i
		}
		var rec func(i int) bool
		rec = func(i int) bool {
			if i == n {
				for d := -1; d < n; d++ {
					for e := -1; e < n; e++ {
						if d < 0 && e >= 0 || e == d && d >= 0 {
							continue
						}
						name := names[(n+d+e+perm[0]+2)%len(names)]
						c := &Case{Prop: id, Pkg: name, Cfg: map[string]string{}}
						for j := 0; j < n; j++ {
							c.Keys = append(c.Keys, Key{S: BS{'A' + byte(j)}})
						}
						for j, x := range perm {
							kind := "ins"
							if (j+d)%2 == 0 {
								kind = "inp"
							}
							c.Ops = append(c.Ops, Op{O: kind, K: x, V: j})
						}
						if d >= 0 {
							c.Ops = append(c.Ops, Op{O: "del", K: d})
						}
						if e >= 0 {
							c.Ops = append(c.Ops, Op{O: "del", K: e})
						}
						if !emit(c) {
							return false
						}
					}
				}
				return true
			}
			for j := i; j < n; j++ {
				perm[i], perm[j] = perm[j], perm[i]
				if !rec(i + 1) {
					return false
				}
				perm[i], perm[j] = perm[j], perm[i]
			}
			return true
		}
		if !rec(0) {
			return
		}
	}
}

func exhaustStr(tier string, emit func(*Case) bool) {
	exhaustPerm(tier, "C01", pkgsOf("str"), emit)
}

// ---------------------------------------------------------------------------
// C12: updating descendants

func regUpdate() {
	register(&Prop{ID: "C12",
		Rule:  "random histories on the IP tree interleaved with descendant updates whose callback updates a pseudo-random subset; calls, their order-free set, keys, current values and the resulting contents compared with the reference; some callbacks read the tree, enumerate it and copy from it; non-trivial: an update of a stored target with at least one descendant",
		Quick: 80000, Thorough: 1000000,
		Gen: func(g *G) *Case {
			c := genLinear(g, "iptree", 60, true, true)
			// fewer deletes, more updates
			var ops []Op
			for _, o := range c.Ops {
				if o.O == "delrun" {
					continue
				}
				if o.O == "del" && g.P(70) {
					o.O = "ins"
				}
				ops = append(ops, o)
				if g.P(30) {
					ops = append(ops, Op{O: "upd", K: g.Int(len(c.Keys)), V: 1000 + g.Int(1000), W: g.U64()>>1 + 1})
				}
			}
			c.Ops = append(ops, Op{O: "upd", K: g.Int(len(c.Keys)), V: 5000, W: g.U64()>>1 + 1})
			if g.P(30) {
				c.Cfg["vals"] = "weird"
			}
			return c
		},
		Run: func(c *Case, st *Stats) error { return runUpdates(c, st) },
	})
}

// runUpdates executes a history with "upd" operations: the history between them is run by runLinear on
// the same tree.
func runUpdates(c *Case, st *Stats) error {
	p := pkgs[c.Pkg]
	cur := p.New(c.Cfg)
	m := newModel(p, c.Cfg)
	mode := valMode(p, c.Cfg)
	h := &counters{}
	calls := 0
	hit := false
	if len(c.Keys) == 0 {
		return nil
	}
	apply := func(i int, o *Op, kind string, ki, v int, w uint64) error {
		k := &c.Keys[((ki%len(c.Keys))+len(c.Keys))%len(c.Keys)]
		what := fmt.Sprintf("step %d (%s %s)", i, kind, keyText(p.Fam, k))
		switch kind {
		case "ins":
			cur = cur.Ins(k, w, val(mode, v))
			m.Insert(k, w, val(mode, v))
		case "inp":
			cur = cur.Inp(k, w, val(mode, v))
			m.Insert(k, w, val(mode, v))
		case "del":
			want := m.Del("del", k)
			t, ok := cur.Del("del", k, w)
			if ok != want {
				return errf("%s: reported %v, expected %v", what, ok, want)
			}
			cur = t
		case "get", "enum":
			return checkFull(what, p.Fam, cur, m, []Key{*k}, w)
		case "upd":
			sel := func(id string) bool {
				x := w
				for _, b := range []byte(id) {
					x = mix(x ^ uint64(b))
				}
				return w%5 != 0 && (w%5 == 1 || x%3 != 0)
			}
			n := 0
			nv := func(id string) interface{} { return val(mode, v+int(id[17])*131+len(id)) }
			model0 := m.Clone()
			want := m.Update(k, func(e Ent) (interface{}, bool) {
				return nv(e.K), sel(e.K)
			})
			var got []Ent
			_, stored := model0.Get("exact", k)
			limit := model0.Len()*2 + 4
			inside := ""
			err := doUpdate(cur, k, w, func(e Ent) (interface{}, bool) {
				n++
				if n > limit {
					panic("callback called more often than there are entries")
				}
				got = append(got, e)
				if w%7 == 3 && inside == "" && n <= 40 {
					inside = reenter(cur, model0, e, c.Keys, w+uint64(n))
				}
				if !strings.HasPrefix(e.K, string([]byte{4})) && !strings.HasPrefix(e.K, string([]byte{6})) || len(e.K) != 18 {
					return nil, false
				}
				return nv(e.K), sel(e.K)
			})
			if err != nil {
				return errf("%s: %v", what, err)
			}
			if inside != "" {
				return errf("%s: inside the callback: %s", what, inside)
			}
			if stored && len(want) > 0 {
				hit = true
				st.class("update with descendants")
			} else if stored {
				st.class("update of a leaf")
			} else {
				st.class("update of an absent target")
			}
			calls += len(got)
			wm := map[string]interface{}{}
			for _, e := range want {
				wm[e.K] = e.V
			}
			seen := map[string]bool{}
			for _, e := range got {
				v0, ok := wm[e.K]
				if !ok {
					return errf("%s: callback called for %s which is not a stored network strictly inside (stored target: %v)", what, e.Raw, stored)
				}
				if seen[e.K] {
					return errf("%s: callback called twice for %s", what, e.Raw)
				}
				seen[e.K] = true
				if !same(v0, e.V) {
					return errf("%s: callback for %s got value %s, expected %s", what, e.Raw, show(e.V), show(v0))
				}
			}
			if len(got) != len(want) {
				return errf("%s: callback called %d times, expected %d", what, len(got), len(want))
			}
			return checkFull(what, p.Fam, cur, m, c.Keys, w)
		}
		if m.Len() > h.maxLen {
			h.maxLen = m.Len()
		}
		return nil
	}
	for i := range c.Ops {
		o := &c.Ops[i]
		if o.O == "insrun" || o.O == "inprun" || o.O == "delrun" {
			stride := []int{1, -1, 2, 7}[o.T%4]
			for j := 0; j < o.N; j++ {
				if err := apply(i, o, o.O[:3], o.K+j*stride, o.V+j, o.W); err != nil {
					return err
				}
			}
			continue
		}
		if err := apply(i, o, o.O, o.K, o.V, o.W); err != nil {
			return err
		}
	}
	if err := checkFull("end", p.Fam, cur, m, c.Keys, 1); err != nil {
		return err
	}
	if hit && calls > 0 {
		st.nt()
	}
	return nil
}

// reenter uses the tree from inside an update's callback: the network the callback is asked about still has its
// value, the tree can be enumerated, and a tree copied from it has what is inserted.
func reenter(s Sub, m Model, e Ent, keys []Key, w uint64) string {
	for i := range keys {
		k := &keys[i]
		if pm, ok := m.(*pfxModel); !ok || pm.norm(k).id() != e.K {
			continue
		}
		if v, ok := s.Get("get", k, w); !ok || !same(v, e.V) {
			return fmt.Sprintf("%s has (%s, %v), expected (%s, true)", e.Raw, show(v), ok, show(e.V))
		}
		if ents, closed := collect(s.Enum(""), m.Len()); !closed || len(ents) != m.Len() {
			return fmt.Sprintf("an enumeration yields %d entries of %d", len(ents), m.Len())
		}
		o := &keys[w%uint64(len(keys))]
		marker := val("int", 77)
		if v, ok := s.Ins(o, w, marker).Get("get", o, w); !ok || !same(v, marker) {
			return fmt.Sprintf("a copying insert of %s stores (%s, %v), expected (%s, true)", keyText("ip", o), show(v), ok, show(marker))
		}
		break
	}
	return ""
}

// ---------------------------------------------------------------------------
// Persistence: a graph of versions derived by copying operations only.

type version struct {
	s    Sub
	m    Model
	dot  string
	raws []string
	par  int
}

func snap(s Sub, m Model, fam string) (v version) {
	v.s, v.m = s, m
	if d, ok := s.Dot(); ok {
		v.dot = d
	}
	for _, em := range enumModes(fam) {
		es, _ := collect(s.Enum(em), m.Len())
		for _, e := range es {
			v.raws = append(v.raws, e.Raw)
		}
	}
	return v
}

func (v *version) check(what, fam string, keys []Key, w uint64, light bool) error {
	if err := checkGets(what, fam, v.s, v.m, keys, w); err != nil {
		return err
	}
	if light {
		return nil
	}
	if err := checkEmpty(what, v.s, v.m); err != nil {
		return err
	}
	if err := checkEnum(what, fam, v.s, v.m); err != nil {
		return err
	}
	x := snap(v.s, v.m, fam)
	if x.dot != v.dot {
		return errf("%s: dumped structure changed from %q to %q", what, v.dot, x.dot)
	}
	if strings.Join(x.raws, "\n") != strings.Join(v.raws, "\n") {
		return errf("%s: enumeration changed from %q to %q", what, v.raws, x.raws)
	}
	return nil
}

func pick2(a []string, x uint64) string { return a[x%uint64(len(a))] }

func genPersist(g *G, pkg string) *Case {
	p := pkgs[pkg]
	c := &Case{Pkg: pkg, Cfg: map[string]string{}}
	if p.Fam == "str" {
		c.Cfg["cmp"] = pick(g, cmpNames)
	}
	n := []int{g.Range(1, 5), g.Range(4, 16), g.Range(12, 40)}[g.W(30, 45, 25)]
	c.Keys = genKeys(g, p, n)
	nk := len(c.Keys)
	// a base, built in place or by copying
	kind := []string{"insrun", "inprun"}[g.Int(2)]
	if g.P(75) {
		c.Ops = append(c.Ops, Op{O: kind, K: g.Int(nk), N: g.Range(1, nk), T: g.Int(4) << 16, V: g.Int(100), W: g.U64() >> 1})
		if g.P(30) {
			c.Ops = append(c.Ops, Op{O: "delrun", K: g.Int(nk), N: g.Range(1, nk/2+1), T: g.Int(4) << 16, W: g.U64() >> 1})
		}
	}
	mx := mixFor(g, p.Fam, false, true)
	ops := genOps(g, mx, nk, g.Range(2, 45))
	for i := range ops {
		if g.P(50) {
			ops[i].T = -1 // the latest version
		} else {
			ops[i].T = g.Int(64)
		}
	}
	if p.Fam == "str" && g.P(20) { // some updates end early, by a comparator that panics
		c.Cfg["cmp"] = "fault"
		for i := range ops {
			if (ops[i].O == "ins" || ops[i].O == "del") && g.P(40) {
				ops[i].O = "f" + ops[i].O
			}
		}
	}
	c.Ops = append(c.Ops, ops...)
	if g.P(6) {
		c.Cfg["drop"] = strconv.Itoa(g.Int(1 << 20))
	}
	return c
}

func runPersist(c *Case, st *Stats) error {
	p := pkgs[c.Pkg]
	if p == nil {
		harnessFail("unknown package %q", c.Pkg)
	}
	if len(c.Keys) == 0 {
		return nil
	}
	mode := valMode(p, c.Cfg)
	s0 := p.New(c.Cfg)
	if c.Cfg["start"] == "nil" {
		s0 = s0.NilOf()
	}
	m0 := newModel(p, c.Cfg)
	vs := []version{snap(s0, m0, p.Fam)}
	branched := map[int]int{}
	forks, delHits := 0, 0
	baseSize := 0
	for i := range c.Ops {
		o := &c.Ops[i]
		switch o.O {
		case "insrun", "inprun", "delrun":
			if len(vs) > 1 {
				continue
			}
			// the base is built by linear use, then frozen
			stride := []int{1, -1, 2, 7}[(o.T>>16)%4]
			s, m := vs[0].s, vs[0].m
			for j := 0; j < o.N; j++ {
				k := &c.Keys[((o.K+j*stride)%len(c.Keys)+len(c.Keys))%len(c.Keys)]
				switch o.O {
				case "insrun":
					s = s.Ins(k, o.W, val(mode, o.V+j))
					m.Insert(k, o.W, val(mode, o.V+j))
				case "inprun":
					if s.IsNil() && p.Fam != "num" {
						s = s.Ins(k, o.W, val(mode, o.V+j))
					} else {
						s = s.Inp(k, o.W, val(mode, o.V+j))
					}
					m.Insert(k, o.W, val(mode, o.V+j))
				case "delrun":
					m.Del("del", k)
					s, _ = s.Del("del", k, o.W)
				}
			}
			vs[0] = snap(s, m, p.Fam)
			baseSize = m.Len()
			continue
		}
		bi := len(vs) - 1
		if o.T >= 0 {
			bi = o.T % len(vs)
		}
		b := &vs[bi]
		k := &c.Keys[o.K%len(c.Keys)]
		what := fmt.Sprintf("step %d (%s %s on version %d)", i, o.O, keyText(p.Fam, k), bi)
		// one question asked of several versions in turn
		x := mix(uint64(i)<<32 ^ uint64(o.K) ^ o.W ^ 0x62)
		gm := pick2(getModes(p.Fam), x)
		qk, qw := &c.Keys[(x>>8)%uint64(len(c.Keys))], x>>16&0xffff
		if (x>>40)%3 == 0 {
			qk = k
		}
		ask := func(j int) error {
			gv, gok := vs[j].s.Get(gm, qk, qw)
			mv, mok := vs[j].m.Get(gm, qk)
			return cmpGet(fmt.Sprintf("%s: %s %s on version %d", what, gm, keyText(p.Fam, qk), j), gv, gok, mv, mok)
		}
		if err := ask(bi); err != nil {
			return err
		}
		switch o.O {
		case "ins", "inp":
			v := val(mode, o.V)
			m := b.m.Clone()
			m.Insert(k, o.W, v)
			s := b.s.Ins(k, o.W, v)
			vs = append(vs, version{})
			b = &vs[bi]
			vs[len(vs)-1] = snap(s, m, p.Fam)
		case "del", "dels":
			m := b.m.Clone()
			want := m.Del(o.O, k)
			s, ok := b.s.Del(o.O, k, o.W)
			if ok != want {
				return errf("%s: reported %v, expected %v", what, ok, want)
			}
			if ok {
				delHits++
			}
			vs = append(vs, version{})
			b = &vs[bi]
			vs[len(vs)-1] = snap(s, m, p.Fam)
		case "fins", "fdel":
			if withFault(1+o.V%9, func() {
				if o.O == "fins" {
					b.s.Ins(k, o.W, val(mode, o.V))
				} else {
					b.s.Del("del", k, o.W)
				}
			}) {
				st.class("update ended by a panic of the comparator")
			}
			if err := b.check(what+", ended by a panic of the comparator", p.Fam, c.Keys, o.W, false); err != nil {
				return err
			}
			continue
		case "enum":
			if err := b.check(what, p.Fam, c.Keys, o.W, false); err != nil {
				return err
			}
			continue
		default:
			gv, gok := b.s.Get(o.O, k, o.W)
			mv, mok := b.m.Get(o.O, k)
			if err := cmpGet(what, gv, gok, mv, mok); err != nil {
				return err
			}
			continue
		}
		branched[bi]++
		if branched[bi] == 2 {
			forks++
		}
		nv := &vs[len(vs)-1]
		nv.par = bi
		for _, j := range []int{len(vs) - 1, bi, len(vs) - 1, int((x >> 44) % uint64(len(vs))), bi} {
			if err := ask(j); err != nil {
				return err
			}
		}
		if err := nv.check(what+": the new version", p.Fam, c.Keys, o.W, false); err != nil {
			return err
		}
		if err := b.check(what+": the version it was derived from", p.Fam, c.Keys, o.W, false); err != nil {
			return err
		}
		if len(vs) > 4 {
			j := int(mix(o.W+uint64(i)) % uint64(len(vs)))
			if err := vs[j].check(fmt.Sprintf("%s: version %d", what, j), p.Fam, c.Keys, o.W, true); err != nil {
				return err
			}
		}
	}
	for j := range vs {
		if err := vs[j].check(fmt.Sprintf("at the end: version %d", j), p.Fam, c.Keys, uint64(j), false); err != nil {
			return err
		}
	}
	// some versions are dropped and their memory is collected: the others have to stay as they are
	if d, err := strconv.Atoi(c.Cfg["drop"]); err == nil && len(vs) > 2 {
		st.class("versions dropped and collected")
		x := mix(uint64(d))
		drop := x >> 4
		if x&3 == 0 { // all but one
			drop = ^(1 << ((x >> 16) % uint64(min(len(vs), 60))))
		}
		for j := range vs {
			if drop>>uint(j%60)&1 == 1 {
				vs[j] = version{}
			}
		}
		for j := 0; j < 2; j++ {
			runtime.GC() // finalizers run soon after
			time.Sleep(200 * time.Microsecond)
		}
		for j := range vs {
			if vs[j].s == nil {
				continue
			}
			if err := vs[j].check(fmt.Sprintf("with other versions dropped: version %d", j), p.Fam, c.Keys, uint64(j), false); err != nil {
				return err
			}
		}
	}
	st.class("pkg:" + c.Pkg)
	if forks > 0 {
		st.class("divergent successors of one version")
	}
	if delHits > 0 {
		st.class("successful delete")
	}
	if baseSize >= 8 {
		st.class("base of 8 or more entries")
	}
	if len(vs) >= 4 && forks > 0 && delHits > 0 {
		st.nt()
	}
	return nil
}

func regPersist() {
	rule := "random version graphs: copying inserts and deletes applied to arbitrary earlier versions (half the time the latest), every version's lookups, enumeration and dump compared with its own reference after use and at the end; non-trivial: at least four versions, one with two successors, and a successful delete"
	for _, x := range []struct {
		id   string
		fams []string
		q, t int
	}{{"C17", []string{"str", "dl"}, 36000, 250000}, {"C18", []string{"num", "ip"}, 24000, 250000}, {"C19", []string{"dom"}, 8000, 170000}} {
		names := pkgsOf(x.fams...)
		register(&Prop{ID: x.id, Rule: rule, Quick: x.q, Thorough: x.t,
			Gen: func(g *G) *Case {
				n := pick(g, names)
				if len(names) > 5 && g.P(20) {
					n = []string{names[0], "dltree", "numtree64", "iptree", "numtree32"}[g.Int(5)]
					ok := false
					for _, y := range names {
						ok = ok || y == n
					}
					if !ok {
						n = names[0]
					}
				}
				return genPersist(g, n)
			}, Run: runPersist})
	}
}

// ---------------------------------------------------------------------------
// C20: in-place and copying insertion are interchangeable

func regInplace() {
	names := pkgsOf("str", "dl", "num", "ip", "dom")
	register(&Prop{ID: "C20",
		Rule:  "random histories run three times - as drawn, all insertions copying, all insertions in place - each against the reference, and the three results against each other; non-trivial: the drawn history switches between the modes at least once and holds at least two entries",
		Quick: 48000, Thorough: 400000,
		Gen: func(g *G) *Case { return genLinear(g, pick(g, names), 80, true, true) },
		Run: func(c *Case, st *Stats) error {
			p := pkgs[c.Pkg]
			h, a, m, err := runLinear(c, p, st, histOpt{})
			if err != nil {
				return errf("as drawn: %v", err)
			}
			// identity: in-place insertion takes effect on the tree it is called on (by construction the
			// adapter keeps the same tree object for every kind but the numeric ones)
			_, b, _, err := runLinear(c, p, st, histOpt{force: "ins", noFull: true})
			if err != nil {
				return errf("all copying: %v", err)
			}
			_, d, _, err := runLinear(c, p, st, histOpt{force: "inp", noFull: true})
			if err != nil {
				return errf("all in place: %v", err)
			}
			for _, x := range []struct {
				n string
				s Sub
			}{{"all copying", b}, {"all in place", d}, {"as drawn", a}} {
				if err := checkFull(x.n, p.Fam, x.s, m, c.Keys, 1); err != nil {
					return err
				}
			}
			for _, em := range enumModes(p.Fam) {
				ea, _ := collect(a.Enum(em), m.Len())
				for _, x := range []Sub{b, d} {
					eb, _ := collect(x.Enum(em), m.Len())
					for i := range ea {
						if ea[i].K != eb[i].K {
							return errf("enumeration order differs between insertion modes at %d: %q and %q", i, ea[i].Raw, eb[i].Raw)
						}
					}
				}
			}
			classHist(st, c, h)
			if h.switches > 0 && h.maxLen >= 2 {
				st.nt()
			}
			return nil
		}})
}

// ---------------------------------------------------------------------------
// C26: enumerations are snapshots

func regSnapshot() {
	names := pkgsOf("str", "dl", "num", "ip", "dom")
	register(&Prop{ID: "C26",
		Rule:  "random schedules of opening enumerations on any version, receiving a few elements from any of them, and copying inserts and deletes on any version in between; every enumeration must yield its opening contents and close; non-trivial: an update between two elements received from one enumeration of a tree of at least two entries",
		Quick: 64000, Thorough: 350000,
		Gen: func(g *G) *Case {
			c := genPersist(g, pick(g, names))
			var ops []Op
			for _, o := range c.Ops {
				ops = append(ops, o)
				if o.O == "insrun" || o.O == "inprun" || o.O == "delrun" {
					continue
				}
				for g.P(40) {
					switch g.Int(3) {
					case 0:
						t := -1
						if g.P(50) {
							t = g.Int(64)
						}
						ops = append(ops, Op{O: "open", T: t, W: uint64(g.Int(2))})
					default:
						ops = append(ops, Op{O: "pull", T: g.Int(8), N: g.Range(1, 3)})
					}
				}
			}
			c.Ops = ops
			return c
		},
		Run: runSnapshot})
}

func runSnapshot(c *Case, st *Stats) error {
	p := pkgs[c.Pkg]
	if len(c.Keys) == 0 {
		return nil
	}
	mode := valMode(p, c.Cfg)
	type ver struct {
		s Sub
		m Model
	}
	vs := []ver{{p.New(c.Cfg), newModel(p, c.Cfg)}}
	type en struct {
		next   func() (Ent, bool)
		m      Model
		got    []Ent
		closed bool
		upd    bool // an update happened since the first element
		mid    bool
		from   int
		mode   string
	}
	var ens []*en
	interesting := false
	pull := func(e *en) error {
		if e.closed || len(e.got) > e.m.Len() {
			return nil
		}
		x, ok := e.next()
		if !ok {
			e.closed = true
			if y, again := e.next(); again {
				return errf("enumeration of version %d yields %q after it was closed", e.from, y.Raw)
			}
			return nil
		}
		if e.upd {
			interesting = true
		}
		e.got = append(e.got, x)
		return nil
	}
	for i := range c.Ops {
		o := &c.Ops[i]
		bi := len(vs) - 1
		if o.T >= 0 && o.O != "pull" {
			bi = o.T % len(vs)
		}
		k := &c.Keys[o.K%len(c.Keys)]
		switch o.O {
		case "insrun", "inprun", "delrun":
			if len(vs) > 1 || len(ens) > 0 {
				continue
			}
			stride := []int{1, -1, 2, 7}[(o.T>>16)%4]
			for j := 0; j < o.N; j++ {
				k := &c.Keys[((o.K+j*stride)%len(c.Keys)+len(c.Keys))%len(c.Keys)]
				v := val(mode, o.V+j)
				switch o.O {
				case "insrun":
					vs[0].s = vs[0].s.Ins(k, o.W, v)
					vs[0].m.Insert(k, o.W, v)
				case "inprun":
					vs[0].s = vs[0].s.Inp(k, o.W, v)
					vs[0].m.Insert(k, o.W, v)
				case "delrun":
					vs[0].m.Del("del", k)
					vs[0].s, _ = vs[0].s.Del("del", k, o.W)
				}
			}
		case "ins", "inp":
			v := val(mode, o.V)
			m := vs[bi].m.Clone()
			m.Insert(k, o.W, v)
			vs = append(vs, ver{vs[bi].s.Ins(k, o.W, v), m})
			for _, e := range ens {
				e.upd = e.upd || len(e.got) > 0 && e.from == bi
			}
		case "del", "dels":
			m := vs[bi].m.Clone()
			want := m.Del(o.O, k)
			s, ok := vs[bi].s.Del(o.O, k, o.W)
			if ok != want {
				return errf("step %d (%s %s): reported %v, expected %v", i, o.O, keyText(p.Fam, k), ok, want)
			}
			vs = append(vs, ver{s, m})
			for _, e := range ens {
				e.upd = e.upd || len(e.got) > 0 && e.from == bi && ok
			}
		case "open":
			if len(ens) >= 12 {
				continue
			}
			em := enumModes(p.Fam)
			md := em[int(o.W)%len(em)]
			ens = append(ens, &en{next: vs[bi].s.Enum(md), m: vs[bi].m, from: bi, mode: md})
		case "pull":
			if len(ens) == 0 {
				continue
			}
			e := ens[o.T%len(ens)]
			for j := 0; j < o.N; j++ {
				if err := pull(e); err != nil {
					return err
				}
			}
		}
	}
	// drain in turn, one element at a time
	for open := true; open; {
		open = false
		for _, e := range ens {
			if !e.closed && len(e.got) <= e.m.Len() {
				open = true
				if err := pull(e); err != nil {
					return err
				}
			}
		}
	}
	for i, e := range ens {
		if err := cmpEnum(fmt.Sprintf("enumeration %d of version %d %s", i, e.from, e.mode), e.got, e.closed, e.m); err != nil {
			return err
		}
	}
	for i := range vs {
		if err := checkFull(fmt.Sprintf("version %d at the end", i), p.Fam, vs[i].s, vs[i].m, c.Keys, 1); err != nil {
			return err
		}
	}
	st.class("pkg:" + c.Pkg)
	if len(ens) > 1 {
		st.class("several enumerations at once")
	}
	if interesting {
		st.nt()
	}
	return nil
}

// ---------------------------------------------------------------------------
// C30 and C29: lock-step differential runs

// runDiff applies one history to several packages of one family; all must answer as the first one does,
// and as the reference does.
func runDiff(c *Case, st *Stats, names []string) (*counters, error) {
	type inst struct {
		p *Pkg
		s Sub
	}
	h := &counters{}
	if len(c.Keys) == 0 {
		return h, nil
	}
	var is []inst
	for _, n := range names {
		p := pkgs[n]
		if p == nil {
			harnessFail("unknown package %q", n)
		}
		s := p.New(c.Cfg)
		if c.Cfg["start"] == "nil" {
			s = s.NilOf()
		}
		is = append(is, inst{p, s})
	}
	fam := is[0].p.Fam
	m := newModel(is[0].p, c.Cfg)
	mode := c.Cfg["vals"]
	cmpAll := func(what string) error {
		for _, em := range enumModes(fam) {
			ref, _ := collect(is[0].s.Enum(em), m.Len())
			if err := cmpEnum(what+": "+names[0], ref, true, m); err != nil {
				return err
			}
			for j := 1; j < len(is); j++ {
				got, closed := collect(is[j].s.Enum(em), m.Len())
				if !closed || len(got) != len(ref) {
					return errf("%s: %s yields %d entries, %s %d", what, names[j], len(got), names[0], len(ref))
				}
				for x := range ref {
					if got[x].Raw != ref[x].Raw || !same(got[x].V, ref[x].V) {
						return errf("%s: entry %d is %q=%s in %s and %q=%s in %s", what, x, got[x].Raw, show(got[x].V), names[j], ref[x].Raw, show(ref[x].V), names[0])
					}
				}
			}
		}
		e0, sup := is[0].s.Empty()
		for j := 1; j < len(is) && sup; j++ {
			if e, _ := is[j].s.Empty(); e != e0 {
				return errf("%s: IsEmpty is %v in %s and %v in %s", what, e, names[j], e0, names[0])
			}
		}
		for x := range c.Keys {
			k := &c.Keys[x]
			mv, mok := m.Get("get", k)
			for j := range is {
				gv, gok := is[j].s.Get("get", k, uint64(x))
				if err := cmpGet(fmt.Sprintf("%s: %s: get %s", what, names[j], keyText(fam, k)), gv, gok, mv, mok); err != nil {
					return err
				}
			}
		}
		return nil
	}
	anyNil := func() bool {
		for j := range is {
			if is[j].s.IsNil() {
				return true
			}
		}
		return false
	}
	step := 0
	every := max(1, len(c.Keys)/4)
	do := func(i int, kind string, ki, v int, w uint64) error {
		k := &c.Keys[((ki%len(c.Keys))+len(c.Keys))%len(c.Keys)]
		what := fmt.Sprintf("step %d (%s %s)", i, kind, keyText(fam, k))
		if kind == "inp" && anyNil() {
			kind = "ins"
		}
		switch kind {
		case "ins", "inp":
			vv := val(mode, v)
			before := m.Len()
			m.Insert(k, w, vv)
			if m.Len() == before {
				h.repl++
			}
			for j := range is {
				if kind == "ins" {
					is[j].s = is[j].s.Ins(k, w, vv)
				} else {
					is[j].s = is[j].s.Inp(k, w, vv)
				}
			}
			h.mut(kind)
		case "del", "dels":
			want := m.Del(kind, k)
			for j := range is {
				s, ok := is[j].s.Del(kind, k, w)
				if ok != want {
					return errf("%s: %s reported %v, expected %v", what, names[j], ok, want)
				}
				if s.IsNil() != is[j].s.IsNil() {
					return errf("%s: %s: nil-ness of the tree changed", what, names[j])
				}
				is[j].s = s
			}
			if want {
				h.delHit++
			} else {
				h.delMiss++
			}
			h.mut(kind)
		case "enum":
			return cmpAll(what)
		case "mal":
			// a malformed network or address: nothing found and nothing changed, by every one of them
			api := ((v % 8) + 8) % 8
			n, ip := malNet(k, w), malIP(k, w)
			if (api == 1 || api == 3) && anyNil() {
				return nil
			}
			desc := fmt.Sprintf("step %d: %s(%s)", i, rawNames[api], malText(api, n, ip))
			for j := range is {
				t, r, ok := is[j].s.(ipRaw).Raw(api, n, ip, val(mode, v))
				if ok {
					return errf("%s: %s reported true", desc, names[j])
				}
				if (api == 4 || api == 5) && !isZero(r) {
					return errf("%s: %s found nothing but returned %s", desc, names[j], show(r))
				}
				if t != nil {
					is[j].s = t
				}
			}
			return cmpAll(desc)
		case "absent":
			e := newModel(is[0].p, c.Cfg)
			for j := range is {
				z := is[j].s.NilOf()
				if err := nilActsEmpty(what+": an absent "+names[j], is[j].p, z, e, c.Keys[:min(len(c.Keys), 8)]); err != nil {
					return err
				}
				for _, dm := range []string{"del", "dels"} {
					if dm == "dels" && fam != "dom" {
						continue
					}
					t, ok := z.Del(dm, k, w)
					if ok {
						return errf("%s: %s from an absent %s reported true", what, dm, names[j])
					}
					if err := nilActsEmpty(what+": deleted from an absent "+names[j], is[j].p, t, e, []Key{*k}); err != nil {
						return err
					}
				}
			}
			return nil
		default:
			mv, mok := m.Get(kind, k)
			for j := range is {
				gv, gok := is[j].s.Get(kind, k, w)
				if err := cmpGet(what+": "+names[j], gv, gok, mv, mok); err != nil {
					return err
				}
			}
			return nil
		}
		if m.Len() > h.maxLen {
			h.maxLen = m.Len()
		}
		step++
		if step%every == 0 {
			return cmpAll(what)
		}
		return nil
	}
	for i := range c.Ops {
		o := &c.Ops[i]
		if strings.HasSuffix(o.O, "run") {
			stride := []int{1, -1, 2, 7}[o.T%4]
			for j := 0; j < o.N; j++ {
				if err := do(i, o.O[:3], o.K+j*stride, o.V+j, o.W); err != nil {
					return h, err
				}
			}
			continue
		}
		if err := do(i, o.O, o.K, o.V, o.W); err != nil {
			return h, err
		}
	}
	return h, cmpAll("end")
}

// spliceDiff adds calls on absent trees and, for IP trees, calls with malformed arguments to a history.
func spliceDiff(g *G, c *Case) {
	fam := pkgs[c.Pkg].Fam
	if len(c.Keys) == 0 || !g.P(25) {
		return
	}
	var ops []Op
	for _, o := range c.Ops {
		ops = append(ops, o)
		if fam == "ip" {
			for g.P(40) {
				ops = append(ops, Op{O: "mal", K: g.Int(len(c.Keys)), W: g.U64() >> 1, V: g.Int(1000)})
			}
		}
		if g.P(10) {
			ops = append(ops, Op{O: "absent", K: g.Int(len(c.Keys)), W: g.U64() >> 1})
		}
	}
	c.Ops = ops
}

func regDiff() {
	fams := []struct{ fam, gen string }{{"str", "strtree"}, {"ip", "iptree"}, {"dom", "domaintree"}}
	register(&Prop{ID: "C30",
		Rule:  "random histories applied in lock step to the generic package and to the fixed-width package of a width, values drawn over the whole width (its ends and single bits included); lookups, flags, emptiness and the exact sequence of enumerated keys and values must agree; some histories also call absent trees and, for IP trees, pass malformed networks and addresses, which must find and change nothing in either; non-trivial: at least two entries, a delete that removed something and a mutation after it",
		Quick: 48000, Thorough: 600000,
		Gen: func(g *G) *Case {
			f := fams[g.Int(3)]
			c := genLinear(g, f.gen, 80, true, true)
			w := widths[1+g.Int(4)]
			c.Kind = fmt.Sprintf("%d", w)
			c.Cfg["vals"] = fmt.Sprintf("u%d", w)
			spliceDiff(g, c)
			return c
		},
		Run: func(c *Case, st *Stats) error {
			gp := pkgs[c.Pkg]
			if gp == nil || c.Kind == "" {
				return nil
			}
			c2 := *c
			h, err := runDiff(&c2, st, []string{c.Pkg, c.Pkg + c.Kind})
			if err != nil {
				return err
			}
			st.class("pkg:" + c.Pkg + c.Kind)
			classHist(st, c, h)
			if ntHist(h) {
				st.nt()
			}
			return nil
		}})
}

// ---------------------------------------------------------------------------
// C31: values are opaque

func regOpaque() {
	names := []string{"strtree", "dltree", "numtree32", "numtree64", "iptree", "domaintree"}
	register(&Prop{ID: "C31",
		Rule:  "random histories on the generic packages with values drawn from nil, typed nils, slices, maps, functions, channels, pointers, NaN, and the library's own tree and node types, compared by identity; version graphs and descendant updates included; non-trivial: at least two entries and a delete or replacement",
		Quick: 60000, Thorough: 700000,
		Gen: func(g *G) *Case {
			n := pick(g, names)
			if g.P(20) {
				n = "iptree"
			}
			var c *Case
			switch {
			case g.P(20):
				c = genPersist(g, n)
				c.Kind = "persist"
			case n == "iptree" && g.P(40):
				c = props["C12"].Gen(g)
				c.Kind = "update"
			default:
				c = genLinear(g, n, 60, true, true)
			}
			c.Cfg["vals"] = "weird"
			for i := range c.Ops {
				if c.Ops[i].O == "ins" || c.Ops[i].O == "inp" {
					c.Ops[i].V = g.Int(len(weirdTable))
				}
			}
			return c
		},
		Run: func(c *Case, st *Stats) error {
			switch c.Kind {
			case "persist":
				return runPersistNoDot(c, st)
			case "update":
				return runUpdates(c, st)
			}
			p := pkgs[c.Pkg]
			h, _, _, err := runLinear(c, p, st, histOpt{})
			if err != nil {
				return err
			}
			classHist(st, c, h)
			if h.maxLen >= 2 && h.delHit+h.repl > 0 {
				st.nt()
			}
			return nil
		}})
}

// noDot hides the dump: printing a value is not part of storing it.
type noDot struct{ Sub }

func (n noDot) Dot() (string, bool)                     { return "", false }
func (n noDot) Ins(k *Key, w uint64, v interface{}) Sub { return noDot{n.Sub.Ins(k, w, v)} }
func (n noDot) Inp(k *Key, w uint64, v interface{}) Sub { return noDot{n.Sub.Inp(k, w, v)} }
func (n noDot) Del(m string, k *Key, w uint64) (Sub, bool) {
	s, ok := n.Sub.Del(m, k, w)
	return noDot{s}, ok
}
func (n noDot) NilOf() Sub { return noDot{n.Sub.NilOf()} }

func runPersistNoDot(c *Case, st *Stats) error {
	p := *pkgs[c.Pkg]
	orig := pkgs[c.Pkg]
	p.New = func(cfg map[string]string) Sub { return noDot{orig.New(cfg)} }
	pkgs[c.Pkg] = &p
	defer func() { pkgs[c.Pkg] = orig }()
	return runPersist(c, st)
}

// ---------------------------------------------------------------------------
// C27: dumps

func regDot() {
	names := pkgsOf("str", "dl", "num")
	register(&Prop{ID: "C27",
		Rule:  "random histories with awkward keys and values (quotes, backslashes, newlines, arbitrary bytes); the dump is parsed and its data vertices, in left-to-right order, compared with the enumeration and with the quoting of keys and values; non-trivial: at least three data vertices",
		Quick: 120000, Thorough: 500000,
		Gen: func(g *G) *Case {
			size := 40
			if g.P(3) {
				size = 600
			}
			c := genLinear(g, pick(g, names), size, true, true)
			if pkgs[c.Pkg].Width == 0 && g.P(60) {
				c.Cfg["vals"] = "str"
			}
			return c
		},
		Run: func(c *Case, st *Stats) error {
			p := pkgs[c.Pkg]
			n := 0
			h, _, _, err := runLinear(c, p, st, histOpt{noFull: true, after: func(step int, op *Op, s Sub, m Model) error {
				n++
				if n > 12 && n%8 != 0 || n > 100 && n%64 != 0 {
					return nil
				}
				return checkDump(p, s, m)
			}, final: func(s Sub, m Model) error { return checkDump(p, s, m) }})
			if err != nil {
				return err
			}
			for _, nl := range []Sub{p.New(c.Cfg), p.New(c.Cfg).NilOf()} {
				if err := checkDump(p, nl, newModel(p, c.Cfg)); err != nil {
					return errf("empty or nil tree: %v", err)
				}
			}
			classHist(st, c, h)
			if h.maxLen >= 3 {
				st.nt()
			}
			return nil
		}})
}

// checkDump parses the dump of s and compares it with the contents m.
func checkDump(p *Pkg, s Sub, m Model) error {
	d, _ := s.Dot()
	ns, err := parseDot(d)
	if err != nil {
		return errf("%v in %q", err, d)
	}
	em := enumModes(p.Fam)[0]
	ents, _ := collect(s.Enum(em), m.Len())
	var want []string
	for _, e := range ents {
		switch p.Fam {
		case "num":
			want = append(want, e.Raw)
		default:
			k := fmt.Sprintf("%q", e.K)
			k = k[1 : len(k)-1]
			if p.Width > 0 {
				want = append(want, fmt.Sprintf(`label="k: \"%s\" v: \"%d\"" `, k, e.V))
			} else if e.V == nil {
				want = append(want, fmt.Sprintf(`label="%s" `, k))
			} else {
				v := fmt.Sprintf("%q", fmt.Sprintf("%#v", e.V))
				want = append(want, fmt.Sprintf(`label="k: \"%s\" v: \"%s\"" `, k, v[1:len(v)-1]))
			}
		}
	}
	if len(ents) == 0 {
		if len(ns) > 1 || len(ns) == 1 && !dotIsNil(ns[0]) {
			return errf("empty tree dumped as %q", d)
		}
		return nil
	}
	if len(ns) == 0 {
		return errf("tree of %d entries dumped as %q", len(ents), d)
	}
	// left-to-right order of data vertices
	var order []int
	if p.Fam == "num" {
		var pre func(i int)
		pre = func(i int) {
			if dotIsNil(ns[i]) {
				return
			}
			if strings.Contains(ns[i].attr, ", v: ") {
				order = append(order, i)
			}
			for _, k := range ns[i].kids {
				pre(k)
			}
		}
		pre(0)
	} else {
		var in func(i int)
		in = func(i int) {
			// a nil vertex carries no fillcolor of a data vertex with key nil: both are told apart by children
			if isNilVertex(ns, i) {
				return
			}
			if ns[i].kids != nil {
				in(ns[i].kids[0])
			}
			order = append(order, i)
			if ns[i].kids != nil {
				in(ns[i].kids[1])
			}
		}
		in(0)
	}
	if len(order) != len(ents) {
		return errf("dump has %d data vertices for %d entries: %q", len(order), len(ents), d)
	}
	for j, i := range order {
		at := ns[i].attr
		if p.Fam != "num" {
			if !strings.HasPrefix(at, want[j]) {
				return errf("vertex N%d (place %d) is %q, expected it to start with %q", i, j, at, want[j])
			}
			continue
		}
		hexw := 16
		key := ents[j].Raw[:16]
		if p.Bits == 32 {
			hexw = 8
			key = key[:8]
		}
		v := fmt.Sprintf("%q", fmt.Sprintf("%#v", ents[j].V))
		bits := ents[j].Raw[strings.IndexByte(ents[j].Raw, '/')+1:]
		wantAttr := fmt.Sprintf(`label="k: %s, b: %s, v: \"%s\""`, key[:hexw], bits, v[1:len(v)-1])
		if at != wantAttr {
			return errf("vertex N%d (place %d) is %q, expected %q", i, j, at, wantAttr)
		}
	}
	return nil
}

// isNilVertex tells the nil vertex from a data vertex whose key is spelled nil: nil vertices are dumped
// as exactly what an empty tree is dumped as.
func isNilVertex(ns []dotNode, i int) bool { return ns[i].kids == nil && ns[i].attr == nilAttr() }

var nilAttr = sync.OnceValue(func() string {
	d := dltree.NewTree().Dot()
	i, j := strings.Index(d, "["), strings.LastIndex(d, "]")
	if i < 0 || j < i {
		return `label="nil" style=filled fontcolor=white fillcolor=black`
	}
	return d[i+1 : j]
})

var _ = math.MaxInt
