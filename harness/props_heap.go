package main

import (
	"runtime"
	"strconv"
)

// What stays behind when every tree is gone: rounds of building, using and dropping trees, each round with keys
// of its own; the heap must not grow from round to round.

//go:noinline
func heapRound(p *Pkg, n int, seed uint64, round int) {
	r := &rnd{mix(seed + uint64(round)*0x9e37)}
	shape := "rand"
	if p.Fam == "ip" {
		shape = []string{"v4", "rand", "seam"}[seed%3]
	}
	keys := bulkKeys(p, n, shape, r.next())
	tag := "R" + strconv.Itoa(round) + "X"
	for i := range keys {
		k := &keys[i]
		switch p.Fam {
		case "str", "dl":
			k.S = BS(tag + strconv.Itoa(i))
		case "dom":
			k.L = append(k.L[:min(len(k.L), 2)], BS(tag+strconv.Itoa(i)))
		}
	}
	cfg := map[string]string{}
	mode := valMode(p, cfg)
	cur := plain(p, p.New(cfg))
	for i := range keys {
		if i > 0 && r.n(2) == 0 {
			cur = cur.Inp(&keys[i], 0, val(mode, i+100))
		} else {
			cur = cur.Ins(&keys[i], 0, val(mode, i+100))
		}
		if i%4 == 0 {
			x := keys[i] // something absent
			x.S = append(append(BS{}, x.S...), 'Z')
			x.L = append(append([]BS{}, x.L...), BS(tag+"Y"+strconv.Itoa(i)))
			x.Hi ^= 1 << uint(63-r.n(32))
			for _, gm := range getModes(p.Fam) {
				cur.Get(gm, &x, 0)
			}
			cur.Del("del", &x, 0)
		}
	}
	for i := range keys {
		for _, gm := range getModes(p.Fam) {
			cur.Get(gm, &keys[i], 0)
		}
	}
	for _, em := range enumModes(p.Fam) {
		collect(cur.Enum(em), n+16)
	}
	if p.Name == "iptree" {
		root := Key{F: keys[0].F}
		cur = cur.Inp(&root, 0, val(mode, 1))
		doUpdate(cur, &root, 0, func(e Ent) (interface{}, bool) { return e.V, len(e.K)%2 == 0 })
	}
	d := "del"
	if p.Fam == "dom" && seed&1 == 1 {
		d = "dels"
	}
	for i := range keys {
		if i%2 == 0 {
			cur, _ = cur.Del(d, &keys[i], 0)
			if cur.IsNil() {
				return
			}
		}
		if i == n/2 {
			small := plain(p, p.New(cfg))
			for j := 0; j < 40; j++ {
				small = small.Ins(&keys[j], 0, val(mode, j))
			}
			small.Dot()
		}
	}
}

func runHeap(c *Case, st *Stats) error {
	p := pkgs[c.Pkg]
	seed, _ := strconv.Atoi(c.cfg("seed"))
	if p == nil {
		return nil
	}
	const n = 2000
	var ms runtime.MemStats
	last, grown, most := uint64(0), 0, uint64(0)
	for round := 0; round < 10; round++ {
		heapRound(p, n, uint64(seed), round)
		runtime.GC()
		runtime.GC()
		runtime.ReadMemStats(&ms)
		if round >= 2 {
			if ms.HeapObjects < last+n/8 {
				st.class("heap: " + c.Pkg)
				st.nt()
				return nil
			}
			grown++
			most = max(most, ms.HeapObjects-last)
		}
		last = ms.HeapObjects
	}
	return errf("%d rounds of building, using and dropping a tree of %d entries leave up to %d objects behind each time", grown, n, most)
}

func regHeap() {
	p := props["C35"]
	run := p.Run
	p.Run = func(c *Case, st *Stats) error {
		if c.Kind == "heap" {
			return runHeap(c, st)
		}
		return run(c, st)
	}
	prev := p.Exhaust
	p.Exhaust = func(tier string, emit func(*Case) bool) {
		for i, name := range pkgsOf("str", "dl", "num", "ip", "dom") {
			for s := 0; s < 2; s++ {
				if tier != "thorough" && s > 0 && pkgs[name].Width > 0 {
					continue
				}
				if !emit(&Case{Kind: "heap", Pkg: name, Cfg: map[string]string{"seed": strconv.Itoa(i + 5*s)}}) {
					return
				}
			}
		}
		if prev != nil {
			prev(tier, emit)
		}
	}
	p.Rule += "; besides, rounds of building, using and dropping trees with ever new keys, after which the heap must not have grown from round to round"
}
