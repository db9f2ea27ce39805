package main

import (
	"runtime"
	"strconv"
	"time"
)

// A ladder: one tree grown an entry at a time and taken down again, with every kind of operation tried at every
// size up to a few hundred and around some larger round ones. It is for behaviour that hangs on an exact size.

// rungs says whether operations are tried at size n.
func rungs(n, dense int) bool {
	if n <= dense {
		return true
	}
	for _, x := range []int{256, 300, 400, 500, 512, 600, 640, 700, 750, 768, 800, 900, 1000, 1024, 1200, 1250, 1280, 1500, 1536, 1600, 1792, 2000, 2048, 2500, 2560, 3000, 3072, 4000, 4096, 5000} {
		if n >= x-1 && n <= x+1 {
			return true
		}
	}
	return false
}

func quiet(base int) error {
	n := 0
	for i := 0; i < 400; i++ {
		if n = runtime.NumGoroutine(); n <= base {
			return nil
		}
		if i < 50 {
			runtime.Gosched()
		} else {
			time.Sleep(time.Duration(i/10) * time.Millisecond)
		}
	}
	buf := make([]byte, 1<<16)
	buf = buf[:runtime.Stack(buf, true)]
	return errf("%d goroutines left running by operations that are finished\n%s", n-base, trimStack(string(buf)))
}

func runLadder(c *Case, st *Stats) error {
	p := pkgs[c.Pkg]
	n, _ := strconv.Atoi(c.cfg("n"))
	dense, _ := strconv.Atoi(c.cfg("dense"))
	seed, _ := strconv.Atoi(c.cfg("seed"))
	if p == nil || n < 1 || n > 20000 {
		return nil
	}
	base := runtime.NumGoroutine()
	if procBase > 0 {
		base, procBase = min(base, procBase), 0
	}
	cfg := map[string]string{}
	mode := valMode(p, cfg)
	keys := bulkKeys(p, n+2, c.cfg("shape"), uint64(seed))
	r := &rnd{mix(uint64(seed) + 5)}
	value := func(i int) interface{} { return val(mode, i+100) }
	cur, m := plain(p, p.New(cfg)), newModel(p, cfg)
	em := enumModes(p.Fam)[0]

	// rung tries the operations on the tree as it is: used keys are keys[lo:hi].
	rung := func(what string, lo, hi int) error {
		size := m.Len()
		what += " to " + strconv.Itoa(size) + " entries: "
		if err := checkEnum(what, p.Fam, cur, m); err != nil {
			return err
		}
		if err := checkEmpty(what, cur, m); err != nil {
			return err
		}
		if size%64 == 0 || size%100 == 0 {
			if err := checkGets(what, p.Fam, cur, m, keys[lo:hi], 0); err != nil {
				return err
			}
		}
		var some []Key
		if hi > lo {
			some = append(some, keys[lo], keys[hi-1], keys[lo+(hi-lo)/2])
			for i := 0; i < 4; i++ {
				some = append(some, keys[lo+r.n(hi-lo)])
			}
		}
		fresh := keys[len(keys)-1]
		some = append(some, fresh)
		if err := checkGets(what, p.Fam, cur, m, some, 0); err != nil {
			return err
		}
		next := cur.Enum(em)
		var got []Ent
		for i := 0; i < min(size, 1+r.n(size+1)); i++ {
			if e, ok := next(); ok {
				got = append(got, e)
			}
		}
		for i := range some {
			k := &some[i]
			if i > 3 && i < len(some)-1 {
				break
			}
			dels := []string{"del"}
			if p.Fam == "dom" {
				dels = append(dels, "dels")
			}
			for _, d := range dels {
				m2 := m.Clone()
				want := m2.Del(d, k)
				t, ok := cur.Del(d, k, 0)
				if ok != want {
					return errf("%s%s %s: reported %v, expected %v", what, d, keyText(p.Fam, k), ok, want)
				}
				if err := checkGets(what+"after "+d, p.Fam, t, m2, some, 0); err != nil {
					return err
				}
				if i == 2 || i == len(some)-1 && size%3 == 0 {
					if err := checkEnum(what+"after "+d+" "+keyText(p.Fam, k), p.Fam, t, m2); err != nil {
						return err
					}
				}
				if err := checkEmpty(what+"after "+d, t, m2); err != nil {
					return err
				}
			}
			m2 := m.Clone()
			m2.Insert(k, 0, value(n+i))
			t := cur.Ins(k, 0, value(n+i))
			if err := checkGets(what+"after ins", p.Fam, t, m2, some, 0); err != nil {
				return err
			}
			if i == 0 || i == len(some)-1 {
				if err := checkEnum(what+"after ins "+keyText(p.Fam, k), p.Fam, t, m2); err != nil {
					return err
				}
			}
		}
		for {
			e, ok := next()
			if !ok {
				break
			}
			if got = append(got, e); len(got) > size {
				break
			}
		}
		if err := cmpEnum(what+"enumeration consumed meanwhile", got, len(got) <= size, m); err != nil {
			return err
		}
		if err := checkEnum(what+"afterwards", p.Fam, cur, m); err != nil {
			return err
		}
		if c.Prop == "C27" {
			if err := checkDump(p, cur, m); err != nil {
				return errf("%s%v", what, err)
			}
		}
		if p.Fam == "str" || p.Fam == "dl" || p.Fam == "dom" {
			if _, _, err := walkBalance(cur.Obj()); err != nil {
				return errf("%s%v", what, err)
			}
		}
		if p.Name == "iptree" && (c.Prop == "C12" || c.Prop == "C36") && size > 0 {
			root := Key{F: keys[0].F}
			f := func(e Ent) (interface{}, bool) { return size, (size+len(e.K)+int(e.K[len(e.K)-2]))%2 == 0 }
			if _, ok := m.Get("exact", &root); !ok {
				// an update of a network that is not stored does nothing
				if err := doUpdate(cur, &root, 0, func(Ent) (interface{}, bool) { return "wrong", true }); err != nil {
					return err
				}
				if err := checkEnum(what+"after an update of nothing", p.Fam, cur, m); err != nil {
					return err
				}
			}
			t, m2 := cur.Ins(&root, 0, value(1)), m.Clone()
			m2.Insert(&root, 0, value(1))
			// copied, so that the values of the ladder's own tree stay: the nodes of the two are shared
			cp := plain(p, p.New(cfg))
			ents, _ := collect(t.Enum(""), m2.Len())
			for i := range ents {
				k := keyOfID(ents[i].K)
				cp = cp.Inp(&k, 0, ents[i].V)
			}
			want := m2.Update(&root, f)
			calls := 0
			if err := doUpdate(cp, &root, 0, func(e Ent) (interface{}, bool) { calls++; return f(e) }); err != nil {
				return err
			}
			if calls != len(want) {
				return errf("%san update called back %d times, expected %d", what, calls, len(want))
			}
			if err := checkEnum(what+"after an update", p.Fam, cp, m2); err != nil {
				return err
			}
		}
		if c.Prop == "C36" {
			if err := quiet(base); err != nil {
				return errf("%s%v", what, err)
			}
		}
		return nil
	}

	if err := rung("new tree", 0, 0); err != nil {
		return err
	}
	for i := 0; i < n; i++ {
		k := &keys[i]
		switch {
		case c.cfg("build") == "ins" || c.cfg("build") != "inp" && r.n(2) == 0:
			older, olderM := cur, m
			if rungs(olderM.Len(), dense) {
				m = m.Clone()
			}
			cur = cur.Ins(k, 0, value(i))
			m.Insert(k, 0, value(i))
			if olderM != m && i%4 == 0 {
				if err := checkEnum("the tree of "+strconv.Itoa(olderM.Len())+" entries that was inserted into", p.Fam, older, olderM); err != nil {
					return err
				}
			}
		default:
			cur = cur.Inp(k, 0, value(i))
			m.Insert(k, 0, value(i))
		}
		if rungs(m.Len(), dense) {
			if err := rung("grown", 0, i+1); err != nil {
				return err
			}
		}
	}
	// keys are taken down in another order
	for i := n - 1; i > 0; i-- {
		j := r.n(i + 1)
		keys[i], keys[j] = keys[j], keys[i]
	}
	for i := 0; i < n; i++ {
		want := m.Del("del", &keys[i])
		t, ok := cur.Del("del", &keys[i], 0)
		if ok != want {
			return errf("taking down to %d: del %s: reported %v, expected %v", m.Len(), keyText(p.Fam, &keys[i]), ok, want)
		}
		cur = t
		if rungs(m.Len(), dense) && (m.Len() > 24 || want) {
			if err := rung("taken down", i+1, n); err != nil {
				return err
			}
		}
	}
	if err := rung("taken down", 0, n); err != nil {
		return err
	}
	st.class("ladder: " + c.Pkg + " " + c.cfg("shape"))
	st.nt()
	return nil
}

func regLadder() {
	shapes := map[string][]string{"str": {"rand", "asc", "desc"}, "dl": {"rand", "desc", "asc"}, "num": {"rand", "asc"}, "ip": {"seam", "low", "v4", "rand"}, "dom": {"asc", "wide", "rand", "desc"}}
	attach := func(id string, fams ...string) {
		p := props[id]
		run := p.Run
		p.Run = func(c *Case, st *Stats) error {
			if c.Kind == "ladder" {
				return runLadder(c, st)
			}
			return run(c, st)
		}
		prev := p.Exhaust
		names := pkgsOf(fams...)
		if id == "C12" {
			names = []string{"iptree"}
		}
		p.Exhaust = func(tier string, emit func(*Case) bool) {
			stop := false
			h := uint64(1)
			for _, ch := range id {
				h = mix(h ^ uint64(ch))
			}
			for i, name := range names {
				ss := shapes[pkgs[name].Fam]
				for j := range ss {
					n, dense := 1100, 260
					if j == 0 && pkgs[name].Width == 0 {
						n = 5010
					}
					if tier == "thorough" {
						n, dense = 5010, 600
						if pkgs[name].Fam == "dom" { // costs grow with the square of dense
							dense = 360
						}
					} else if j > 0 && pkgs[name].Width > 0 {
						continue
					}
					if id == "C27" {
						n, dense = min(n, 1100), min(dense, 600)
					}
					c := &Case{Kind: "ladder", Pkg: name, Cfg: map[string]string{"n": strconv.Itoa(n), "dense": strconv.Itoa(dense), "seed": strconv.Itoa(int(h>>40) + i*7 + j),
						"shape": ss[(i+j+int(h>>8))%len(ss)], "build": []string{"", "ins", "inp"}[(i+j+int(h>>16))%3]}}
					if stop = !emit(c); stop {
						return
					}
				}
			}
			if prev != nil && !stop {
				prev(tier, emit)
			}
		}
		p.Rule += "; besides, trees grown and taken down one entry at a time with every operation tried at every size up to 260 and around larger round sizes"
	}
	attach("C01", "str")
	attach("C02", "dl")
	attach("C03", "str", "dl")
	for _, id := range []string{"C04", "C05", "C06", "C07"} {
		attach(id, "num")
	}
	for _, id := range []string{"C09", "C10", "C11", "C12"} {
		attach(id, "ip")
	}
	for _, id := range []string{"C13", "C14", "C15", "C16", "C19"} {
		attach(id, "dom")
	}
	attach("C17", "str", "dl")
	attach("C18", "num", "ip")
	attach("C27", "str", "dl", "num")
	for _, id := range []string{"C20", "C26", "C36"} {
		attach(id, "str", "dl", "num", "ip", "dom")
	}
	attach("C30", "str", "ip", "dom")
}
