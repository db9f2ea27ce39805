package main

import (
	"strconv"
	"strings"
)

// Enumerated families: every small tree of a kind, every operation on it.

// runSweep builds the tree of a case and then tries every deletion and every copying insertion of a pool
// key on it, each from the very same tree.
func runSweep(c *Case, st *Stats) error {
	p := pkgs[c.Pkg]
	if p == nil {
		harnessFail("package %q", c.Pkg)
	}
	_, cur, m, err := runLinear(c, p, st, histOpt{noFull: true})
	if err != nil {
		return err
	}
	if err := checkFull("built", p.Fam, cur, m, c.Keys, 0); err != nil {
		return err
	}
	var w uint64
	if len(c.Ops) > 0 {
		w = c.Ops[0].W
	}
	mode := valMode(p, c.Cfg)
	persist := c.Prop == "C17" || c.Prop == "C18" || c.Prop == "C19" || c.Prop == "C26"
	shape0 := ""
	if s, ok := cur.(shaper); ok {
		if shape0, err = s.Shape(); err != nil {
			return err
		}
	}
	dels := []string{"del"}
	if p.Fam == "dom" {
		dels = []string{"del", "dels"}
	}
	after := func(what string, t Sub, m2 Model) error {
		if err := checkFull(what, p.Fam, t, m2, c.Keys, w); err != nil {
			return err
		}
		if s, ok := t.(shaper); ok {
			sh, err := s.Shape()
			if err != nil {
				return errf("%s: %v", what, err)
			}
			if c.Prop == "C07" {
				f := plain(p, p.New(c.Cfg))
				ents, _ := m2.List()
				for i := range ents {
					k := keyOfID(ents[i].K)
					f = f.Ins(&k, 0, ents[i].V)
				}
				sh2, err := f.(shaper).Shape()
				if err != nil {
					return errf("%s: built afresh: %v", what, err)
				}
				if sh != sh2 {
					return errf("%s: structure %s, built afresh %s", what, sh, sh2)
				}
			}
		}
		if p.Fam == "str" || p.Fam == "dl" {
			if d, ok := t.Dot(); ok {
				if err := checkRB(d, m2.Len()); err != nil {
					return errf("%s: %v", what, err)
				}
			}
		}
		if persist {
			return checkFull(what+": the tree it was derived from", p.Fam, cur, m, c.Keys, 0)
		}
		return nil
	}
	for i := range c.Keys {
		k := &c.Keys[i]
		for _, d := range dels {
			m2 := m.Clone()
			want := m2.Del(d, k)
			t, ok := cur.Del(d, k, w)
			what := d + " " + keyText(p.Fam, k)
			if ok != want {
				return errf("%s: reported %v, expected %v", what, ok, want)
			}
			if err := after(what, t, m2); err != nil {
				return err
			}
		}
		if cur.IsNil() && p.Fam != "num" && c.cfg("start") != "nil" {
			continue
		}
		m2 := m.Clone()
		m2.Insert(k, w, val(mode, 500+i))
		if err := after("ins "+keyText(p.Fam, k), cur.Ins(k, w, val(mode, 500+i)), m2); err != nil {
			return err
		}
	}
	if err := checkFull("at the end", p.Fam, cur, m, c.Keys, 0); err != nil {
		return err
	}
	if s, ok := cur.(shaper); ok {
		sh, err := s.Shape()
		if err != nil {
			return err
		}
		if sh != shape0 {
			return errf("operations on the tree changed its structure from %s to %s", shape0, sh)
		}
	}
	st.class("enumerated tree")
	if m.Len() >= 2 {
		st.nt()
	}
	return nil
}

// attachSweep adds an enumerated family to a property.
func attachSweep(id string, ex func(tier string, emit func(*Case) bool)) {
	p := props[id]
	run := p.Run
	p.Run = func(c *Case, st *Stats) error {
		if c.Kind == "sweep" {
			return runSweep(c, st)
		}
		return run(c, st)
	}
	prev := p.Exhaust
	p.Exhaust = func(tier string, emit func(*Case) bool) {
		stop := false
		if prev != nil {
			prev(tier, func(c *Case) bool {
				stop = !emit(c)
				return !stop
			})
		}
		if !stop {
			ex(tier, emit)
		}
	}
	if strings.Contains(p.Rule, "an enumerated family") {
		return
	}
	p.Rule += "; besides, an enumerated family of small trees with every operation tried on each (non-trivial: two or more entries)"
}

// universe is a list of keys forming a complete binary tree of prefixes (or names).
type universe struct {
	pkgs []string
	keys []Key
	slow bool // smaller subsets only
}

// prefixUniverse lists the prefixes of lengths off..off+depth that extend a fixed prefix of off bits.
func prefixUniverse(f int, width, off, depth int, pk ...string) universe {
	return prefixesIn(f, width, off, depth, 0x20010db85bd1e995, 0xc6a4a7935bd1e995, pk...)
}

// everywhere lists small universes at every depth, below all zeros, all ones and others.
func everywhere(f int, width int, pk ...string) (out []universe) {
	for off := 0; off+2 <= width; off++ {
		for _, b := range []uint64{0, ^uint64(0), 0x20010db85bd1e995} {
			if off == 0 && b != 0 {
				continue
			}
			out = append(out, prefixesIn(f, width, off, 2, b, b*5, pk...))
		}
	}
	return
}

func prefixesIn(f int, width, off, depth int, hi0, lo0 uint64, pk ...string) universe {
	u := universe{pkgs: pk}
	for l := 0; l <= depth; l++ {
		for x := 0; x < 1<<uint(l); x++ {
			p := maskPfx(f, hi0, lo0, off)
			for i := 0; i < l; i++ {
				if x>>uint(l-1-i)&1 == 1 {
					if b := off + i; b < 64 {
						p.hi |= 1 << uint(63-b)
					} else {
						p.lo |= 1 << uint(127-b)
					}
				}
			}
			u.keys = append(u.keys, Key{F: f, Hi: p.hi, Lo: p.lo, B: off + l})
		}
	}
	if off+depth > width {
		harnessFail("universe %d+%d", off, depth)
	}
	return u
}

// nameUniverse lists the names of up to depth labels from {A, B} below a name of off labels.
func nameUniverse(off, depth int, pk ...string) universe {
	u := universe{pkgs: pk}
	for l := 0; l <= depth; l++ {
		for x := 0; x < 1<<uint(l); x++ {
			k := Key{}
			for i := 0; i < off; i++ {
				k.L = append(k.L, BS{'0' + byte(i%10)})
			}
			for i := 0; i < l; i++ {
				k.L = append(k.L, BS{'A' + byte(x>>uint(l-1-i)&1)})
			}
			u.keys = append(u.keys, k)
		}
	}
	return u
}

// subsetsOf emits a case for every subset of at most max keys of a universe; insertion order, mode and
// package rotate.
func subsetsOf(id, kind string, u universe, max int, ops func(c *Case, sub []int), emit func(*Case) bool) bool {
	n := len(u.keys)
	var sub []int
	count := 0
	var rec func(i int) bool
	rec = func(i int) bool {
		h := mix(uint64(count) + 77)
		count++
		c := &Case{Prop: id, Kind: kind, Pkg: u.pkgs[h>>8%uint64(len(u.pkgs))], Cfg: map[string]string{}, Keys: u.keys}
		if len(sub) > 0 {
			for j := range sub {
				x := sub[j]
				switch h & 3 {
				case 1:
					x = sub[len(sub)-1-j]
				case 2:
					x = sub[(j+int(h>>16&7))%len(sub)]
				}
				o := Op{O: "ins", K: x, V: x + 8}
				if h>>4&1 == 1 || h>>5&1 == 1 && j&1 == 1 {
					o.O = "inp"
				}
				if h>>6&1 == 1 {
					o.W = mix(h+uint64(j))>>1 + 3
				}
				c.Ops = append(c.Ops, o)
			}
		}
		if ops != nil {
			ops(c, sub)
		}
		if !emit(c) {
			return false
		}
		if len(sub) == max {
			return true
		}
		for j := i; j < n; j++ {
			sub = append(sub, j)
			if !rec(j + 1) {
				return false
			}
			sub = sub[:len(sub)-1]
		}
		return true
	}
	return rec(0)
}

// sweepUniverses emits the subsets of universes: all subsets of the small ones in the thorough tier.
func sweepUniverses(id, kind string, quickMax int, us []universe, big []universe, bigMax int, ops func(*Case, []int)) func(string, func(*Case) bool) {
	return func(tier string, emit func(*Case) bool) {
		max := quickMax
		if tier == "thorough" {
			max = 99
		}
		for _, u := range us {
			m := max
			if u.slow {
				m = min(quickMax/2, max)
				if tier == "thorough" {
					m = 4
				}
			}
			if !subsetsOf(id, kind, u, m, ops, emit) {
				return
			}
		}
		if tier == "thorough" {
			for _, u := range big {
				if !subsetsOf(id, kind, u, bigMax, ops, emit) {
					return
				}
			}
		}
	}
}

func regSweeps() {
	n32, n64 := []string{"numtree32"}, []string{"numtree64"}
	numU := []universe{
		prefixUniverse(0, 32, 0, 3, n32...), prefixUniverse(0, 32, 6, 3, n32...), prefixUniverse(0, 32, 29, 3, n32...),
		prefixUniverse(0, 64, 0, 3, n64...), prefixUniverse(0, 64, 30, 3, n64...), prefixUniverse(0, 64, 61, 3, n64...),
	}
	numBig := []universe{prefixUniverse(0, 32, 0, 4, n32...), prefixUniverse(0, 32, 28, 4, n32...), prefixUniverse(0, 64, 0, 4, n64...), prefixUniverse(0, 64, 60, 4, n64...)}
	for _, id := range []string{"C04", "C05", "C06", "C07", "C08", "C18"} {
		attachSweep(id, sweepUniverses(id, "sweep", 4, numU, numBig, 4, nil))
	}
	for _, id := range []string{"C04", "C05", "C06", "C07"} {
		attachSweep(id, sweepUniverses(id, "sweep", 2, append(everywhere(0, 32, n32...), everywhere(0, 64, n64...)...), nil, 0, nil))
	}
	ips := pkgsOf("ip")
	ipU := []universe{}
	for _, off := range []int{0, 29} {
		ipU = append(ipU, prefixUniverse(4, 32, off, 3, ips...))
	}
	for _, off := range []int{0, 61, 62, 63, 64, 125} {
		ipU = append(ipU, prefixUniverse(6, 128, off, 3, ips...))
	}
	ipBig := []universe{prefixUniverse(6, 128, 60, 4, ips...), prefixUniverse(6, 128, 61, 4, ips...), prefixUniverse(6, 128, 62, 4, ips...), prefixUniverse(6, 128, 63, 4, ips...)}
	for _, id := range []string{"C09", "C10", "C11", "C18"} {
		attachSweep(id, sweepUniverses(id, "sweep", 3, ipU, ipBig, 4, nil))
	}
	for _, id := range []string{"C09", "C10", "C11"} {
		attachSweep(id, sweepUniverses(id, "sweep", 2, append(everywhere(4, 32, ips...), everywhere(6, 128, ips...)...), nil, 0, nil))
	}
	only := func(us []universe, pk string) (out []universe) {
		for _, u := range us {
			out = append(out, universe{pkgs: []string{pk}, keys: u.keys})
		}
		return
	}
	attachSweep("C12", sweepUniverses("C12", "", 3, only(ipU, "iptree"), only(ipBig, "iptree"), 4, func(c *Case, sub []int) {
		for i := range c.Keys {
			c.Ops = append(c.Ops, Op{O: "upd", K: i, V: 100 + i, W: mix(uint64(len(c.Ops)*31+i))>>1 + 1})
		}
	}))
	attachSweep("C12", sweepUniverses("C12", "", 2, append(everywhere(4, 32, "iptree"), everywhere(6, 128, "iptree")...), nil, 0, func(c *Case, sub []int) {
		for i := range c.Keys {
			c.Ops = append(c.Ops, Op{O: "upd", K: i, V: 100 + i, W: mix(uint64(len(c.Ops)*31+i))>>1 + 1})
		}
	}))
	doms := pkgsOf("dom")
	domU := []universe{nameUniverse(0, 3, doms...), nameUniverse(124, 3, doms...), nameUniverse(1, 3, doms...)}
	domU[1].slow = true
	domBig := []universe{nameUniverse(0, 4, doms...)}
	for _, id := range []string{"C13", "C14", "C15", "C16", "C19"} {
		attachSweep(id, sweepUniverses(id, "sweep", 4, domU, domBig, 4, nil))
	}
	for id, names := range map[string][]string{"C01": pkgsOf("str"), "C02": {"dltree"}, "C03": {"strtree", "dltree"}, "C17": {"strtree", "dltree", "strtree16"}} {
		attachSweep(id, stateSweep(id, names))
	}
}

// announce records the case about to run, so that a worker which dies names it.
var announce = func(*Case) {}

// stateSweep explores every tree reachable over a few keys by inserting and deleting, taking two trees for
// the same state when they have the same dump, and emits a case per state.
func stateSweep(id string, names []string) func(string, func(*Case) bool) {
	return func(tier string, emit func(*Case) bool) {
		nk := 8
		if tier == "thorough" {
			nk = 10
			if id == "C03" || id == "C17" {
				nk = 11
			}
		}
		for _, name := range names {
			p := pkgs[name]
			type state struct {
				s   Sub
				ops []Op
			}
			cfg := map[string]string{}
			var keys []Key
			for i := 0; i < nk; i++ {
				keys = append(keys, Key{S: BS("K" + strconv.Itoa(i))})
			}
			first := plain(p, p.New(cfg))
			d0, ok := first.Dot()
			if !ok {
				continue
			}
			seen := map[string]bool{d0: true}
			queue := []state{{s: first}}
			for len(queue) > 0 && len(seen) < 200000 {
				x := queue[0]
				queue = queue[1:]
				c := &Case{Prop: id, Kind: "sweep", Pkg: name, Cfg: cfg, Keys: keys, Ops: x.ops}
				if !emit(c) {
					return
				}
				for i := range keys {
					for d := 0; d < 2; d++ {
						op := Op{O: "ins", K: i, V: i}
						if d == 1 {
							op.O = "del"
						}
						ops := append(x.ops[:len(x.ops):len(x.ops)], op)
						next := &Case{Prop: id, Kind: "sweep", Pkg: name, Cfg: cfg, Keys: keys, Ops: ops}
						announce(next)
						t, bad := step(x.s, &keys[i], op, val(valMode(p, cfg), i))
						if bad {
							emit(next)
							return
						}
						dot, _ := t.Dot()
						if !seen[dot] {
							seen[dot] = true
							queue = append(queue, state{t, ops})
						}
					}
				}
			}
		}
	}
}

func step(s Sub, k *Key, op Op, v interface{}) (t Sub, bad bool) {
	defer func() {
		if recover() != nil {
			bad = true
		}
	}()
	if op.O == "ins" {
		return s.Ins(k, 0, v), false
	}
	t, _ = s.Del("del", k, 0)
	return t, false
}
