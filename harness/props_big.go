package main

import (
	"runtime"
	"sort"
	"strconv"
)

// Very large trees and very long histories: a few cases per check, each beyond 2^16 entries or operations.

// bulkModel gives a reference holding the entries (keys[i], vals[i]), later ones winning.
func bulkModel(p *Pkg, cfg map[string]string, keys []Key, v func(i int) interface{}) Model {
	m := newModel(p, cfg)
	om, ok := m.(*ordModel)
	if !ok {
		for i := range keys {
			m.Insert(&keys[i], 0, v(i))
		}
		return m
	}
	ix := make([]int, len(keys))
	for i := range ix {
		ix[i] = i
	}
	sort.SliceStable(ix, func(a, b int) bool { return om.cmp(string(keys[ix[a]].S), string(keys[ix[b]].S)) < 0 })
	for _, i := range ix {
		s := string(keys[i].S)
		if n := len(om.ents); n > 0 && om.cmp(om.ents[n-1].k, s) == 0 {
			e := &om.ents[n-1]
			e.v, e.spell = v(i), append(e.spell, s)
			continue
		}
		om.ents = append(om.ents, ordEnt{k: s, v: v(i), spell: []string{s}})
	}
	return m
}

// bigGets looks up every key, or one in stride of them.
func bigGets(what string, p *Pkg, s Sub, m Model, keys []Key, stride int) error {
	modes := getModes(p.Fam)
	for i := 0; i < len(keys); i++ {
		k := &keys[i]
		if stride > 1 && i%stride != 0 && i < len(keys)-64 {
			continue
		}
		for _, gm := range modes {
			gv, gok := s.Get(gm, k, 0)
			mv, mok := m.Get(gm, k)
			if gok != mok || gok && !same(gv, mv) {
				return cmpGet(what+": "+gm+" "+keyText(p.Fam, k), gv, gok, mv, mok)
			}
		}
	}
	return nil
}

func bigFull(what string, p *Pkg, s Sub, m Model, keys []Key, stride int) error {
	if err := bigGets(what, p, s, m, keys, stride); err != nil {
		return err
	}
	if err := checkEmpty(what, s, m); err != nil {
		return err
	}
	return checkEnum(what, p.Fam, s, m)
}

// runBig builds a tree of n entries, changes it, and takes it down again.
func runBig(c *Case, st *Stats) error {
	p := pkgs[c.Pkg]
	n, _ := strconv.Atoi(c.cfg("n"))
	seed, _ := strconv.Atoi(c.cfg("seed"))
	if p == nil || n < 1 || n > 400000 {
		return nil
	}
	cfg := map[string]string{}
	mode := valMode(p, cfg)
	if c.Prop == "C27" {
		n = min(n, 20000) // dumping takes quadratic time
	}
	keys := bulkKeys(p, n, c.cfg("shape"), uint64(seed))
	r := &rnd{mix(uint64(seed) + 77)}
	value := func(i int) interface{} { return val(mode, i+100) }
	build := func(k, phase int) bool { // in place?
		switch c.cfg("build") {
		case "inp":
			return true
		case "ins":
			return false
		}
		return k>>uint(10)&1 == phase
	}
	cur := plain(p, p.New(cfg))
	first := cur
	var extra []Key // entries besides keys
	for i := range keys {
		if i > 0 && build(i, 0) {
			cur = cur.Inp(&keys[i], 0, value(i))
		} else {
			cur = cur.Ins(&keys[i], 0, value(i))
		}
	}
	m := bulkModel(p, cfg, keys, value)
	if err := bigFull("built", p, cur, m, keys, 1); err != nil {
		return err
	}
	if c.Prop == "C27" {
		if err := checkDump(p, cur, m); err != nil {
			return err
		}
		for i := range keys {
			if i%4 != 0 {
				cur, _ = cur.Del("del", &keys[i], 0)
				m.Del("del", &keys[i])
			}
		}
		st.class("large dump: " + c.Pkg + " " + c.cfg("shape"))
		st.nt()
		return checkDump(p, cur, m)
	}
	if e, ok := first.Empty(); ok && !e {
		return errf("the tree the first insertion was derived from is not empty any more")
	}
	if p.Fam == "str" || p.Fam == "dl" || p.Fam == "dom" {
		if _, _, err := walkBalance(cur.Obj()); err != nil {
			return err
		}
	}
	if p.Name == "iptree" && c.Prop == "C12" {
		// one update over everything
		calls := map[string]int{}
		root := Key{F: keys[0].F}
		rv := value(len(keys))
		if keys[0].F == 6 && keys[0].Hi == 0x20010db8_00000000 {
			// keep networks outside the target, too
			root.Hi, root.B = keys[0].Hi, 58
		}
		cur = cur.Inp(&root, 0, rv)
		m.Insert(&root, 0, rv)
		extra = append(extra, root)
		f := func(e Ent) (interface{}, bool) {
			h := 0
			for i := 0; i < len(e.K); i++ {
				h = h*31 + int(e.K[i])
			}
			return h, h%3 != 0
		}
		want := m.Update(&root, f)
		var wrong error
		expect := map[string]interface{}{}
		for _, e := range want {
			expect[e.K] = e.V
		}
		if err := doUpdate(cur, &root, 0, func(e Ent) (interface{}, bool) {
			calls[e.K]++
			if v, ok := expect[e.K]; wrong == nil && (!ok || !same(v, e.V)) {
				wrong = errf("update of everything: called for %q with %s, expected %v %s", e.Raw, show(e.V), ok, show(v))
			}
			return f(e)
		}); err != nil {
			return err
		}
		if wrong != nil {
			return wrong
		}
		if len(calls) != len(expect) {
			return errf("update of everything: called for %d networks, expected %d", len(calls), len(expect))
		}
		for k, n := range calls {
			if n != 1 {
				return errf("update of everything: called %d times for %q", n, k)
			}
		}
		if err := bigFull("after the update", p, cur, m, keys, 5); err != nil {
			return err
		}
	}
	// an enumeration that is left standing while the tree is changed by copying, and the older tree
	older, olderM := cur, m
	next := older.Enum(enumModes(p.Fam)[0])
	var got []Ent
	for i := 0; i < 3; i++ {
		if e, ok := next(); ok {
			got = append(got, e)
		}
	}
	m = m.Clone()
	dels := 120
	for i := 0; i < dels; i++ {
		k := keys[r.n(n)]
		d := "del"
		switch p.Fam {
		case "dom":
			if i%3 == 0 {
				d = "dels"
			}
			if i%4 == 0 && len(k.L) > 1 {
				k.L = k.L[:len(k.L)-1]
			}
		case "num", "ip":
			if i%4 == 0 {
				x := maskPfx(k.F, k.Hi, k.Lo, max(0, k.B-r.n(6)))
				k.Hi, k.Lo, k.B = x.hi, x.lo, x.b
			}
		}
		want := m.Del(d, &k)
		t, ok := cur.Del(d, &k, 0)
		if ok != want {
			return errf("%s %s: reported %v, expected %v", d, keyText(p.Fam, &k), ok, want)
		}
		cur = t
		if i%5 == 0 {
			k := keys[r.n(n)]
			cur = cur.Ins(&k, 0, value(i))
			m.Insert(&k, 0, value(i))
		}
	}
	if err := bigFull("after some deletes", p, cur, m, keys, 3); err != nil {
		return err
	}
	// long histories: many operations on few of the keys
	few := keys[:min(len(keys), 48)]
	churn := n
	if p.Fam == "dom" {
		churn = n / 3
	}
	ct := plain(p, p.New(cfg))
	cm := newModel(p, cfg)
	for i := 0; i < churn; i++ {
		k := &few[r.n(len(few))]
		switch r.n(3) {
		case 0:
			want := cm.Del("del", k)
			t, ok := ct.Del("del", k, 0)
			if ok != want {
				return errf("operation %d: del %s: reported %v, expected %v", i, keyText(p.Fam, k), ok, want)
			}
			ct = t
		case 1:
			ct = ct.Ins(k, 0, value(i))
			cm.Insert(k, 0, value(i))
		default:
			if p.Fam != "num" && ct.IsNil() {
				ct = plain(p, p.New(cfg))
			}
			ct = ct.Inp(k, 0, value(i))
			cm.Insert(k, 0, value(i))
		}
		if i&(i+1) == 0 || i%16384 == 0 {
			if err := bigFull("after "+strconv.Itoa(i+1)+" operations on few keys", p, ct, cm, few, 1); err != nil {
				return err
			}
		}
	}
	if err := bigFull("after many operations on few keys", p, ct, cm, few, 1); err != nil {
		return err
	}
	if p.Fam == "str" || p.Fam == "dl" || p.Fam == "dom" {
		if _, _, err := walkBalance(ct.Obj()); err != nil {
			return err
		}
	}
	// the older tree and the enumeration started on it
	for {
		e, ok := next()
		if !ok {
			break
		}
		got = append(got, e)
		if len(got) > olderM.Len() {
			break
		}
	}
	if err := cmpEnum("enumeration started before the deletes", got, len(got) <= olderM.Len(), olderM); err != nil {
		return err
	}
	if err := bigFull("the tree the others were derived from", p, older, olderM, keys, 3); err != nil {
		return err
	}
	// taking it down, in another order than it was built
	present := map[string]bool{}
	l, _ := m.List()
	for _, e := range l {
		present[e.K] = true
	}
	step := 7919
	for n%step == 0 {
		step++
	}
	simple := p.Fam == "str" || p.Fam == "dl" || p.Fam == "dom"
	for j, i := 0, r.n(n); j < n; j, i = j+1, (i+step)%n {
		k := &keys[i]
		t, ok := cur.Del("del", k, 0)
		if simple {
			id := string(k.S)
			if p.Fam == "dom" {
				id = canonOf(k.L)
			}
			if ok != present[id] {
				return errf("taking down: del %s: reported %v, expected %v", keyText(p.Fam, k), ok, present[id])
			}
			delete(present, id)
		}
		cur = t
	}
	for i := range extra {
		cur, _ = cur.Del("del", &extra[i], 0)
	}
	if err := bigFull("taken down", p, cur, newModel(p, cfg), few, 1); err != nil {
		return err
	}
	if err := bigGets("the tree the others were derived from", p, older, olderM, few, 1); err != nil {
		return err
	}
	runtime.KeepAlive(first)
	st.class("very large tree: " + c.Pkg + " " + c.cfg("shape"))
	st.nt()
	return nil
}

func regBig() {
	shapes := map[string][]string{"str": {"rand", "asc", "desc"}, "dl": {"rand", "desc", "asc"}, "num": {"rand", "asc"}, "ip": {"seam", "low", "v4", "rand"}, "dom": {"asc", "wide", "rand", "desc"}}
	attach := func(id string, fams ...string) {
		p := props[id]
		run := p.Run
		p.Run = func(c *Case, st *Stats) error {
			if c.Kind == "big" {
				return runBig(c, st)
			}
			return run(c, st)
		}
		prev := p.Exhaust
		names := pkgsOf(fams...)
		if id == "C12" {
			names = []string{"iptree"}
		}
		p.Exhaust = func(tier string, emit func(*Case) bool) {
			stop := false
			h := uint64(0)
			for _, ch := range id {
				h = mix(h ^ uint64(ch))
			}
			for i, name := range names {
				ss := shapes[pkgs[name].Fam]
				for j := range ss {
					n := 65600 + int(h%4000)
					if id == "C27" {
						n = 2100 + int(h%400)
						if tier == "thorough" {
							n *= 5
						}
					}
					if tier != "thorough" {
						if j > 0 && (id != "C12" || j > 1) {
							continue
						}
					} else if j == 0 && id != "C27" {
						n += 70000
					}
					c := &Case{Kind: "big", Pkg: name, Cfg: map[string]string{"n": strconv.Itoa(n), "seed": strconv.Itoa(int(h>>40) + i),
						"shape": ss[(i+j+int(h>>8))%len(ss)], "build": []string{"", "ins", "inp"}[(i+j+int(h>>16))%3]}}
					if stop = !emit(c); stop {
						return
					}
				}
			}
			if prev != nil && !stop {
				prev(tier, emit)
			}
		}
		if id == "C27" {
			p.Rule += "; besides, dumps of trees of thousands of entries"
			return
		}
		p.Rule += "; besides, trees of more than 65536 entries, changed, enumerated and taken down, and as many operations on few keys"
	}
	for _, id := range []string{"C01", "C30"} {
		attach(id, "str")
	}
	attach("C02", "dl")
	attach("C03", "str", "dl")
	for _, id := range []string{"C04", "C05", "C06", "C07"} {
		attach(id, "num")
	}
	for _, id := range []string{"C09", "C10", "C11", "C12"} {
		attach(id, "ip")
	}
	for _, id := range []string{"C13", "C14", "C15", "C16", "C19"} {
		attach(id, "dom")
	}
	attach("C17", "str", "dl")
	attach("C18", "num", "ip")
	attach("C27", "str", "dl", "num")
	attach("C20", "str", "dl", "num", "ip", "dom")
	attach("C26", "str", "dl", "num", "ip", "dom")
}
