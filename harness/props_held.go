package main

import "strconv"

// One tree object that lives long: it is filled and changed in place only, thousands of times, and asked the
// same questions in the same few spellings between the changes; copying operations are tried on it and
// dropped. This is where indices, memos and counters kept beside the nodes go stale.

// heldSpell gives one of three spellings of a key, always the same ones for the same key.
func heldSpell(i, j int) uint64 {
	if j == 0 {
		return 0
	}
	return mix(uint64(i)*3+uint64(j)) | 1
}

func runHeld(c *Case, st *Stats) error {
	p := pkgs[c.Pkg]
	n, _ := strconv.Atoi(c.cfg("n"))
	seed, _ := strconv.Atoi(c.cfg("seed"))
	if p == nil || n < 8 || n > 50000 {
		return nil
	}
	cfg := map[string]string{}
	mode := valMode(p, cfg)
	pool := bulkKeys(p, n/2+8, c.cfg("shape"), uint64(seed))
	r := &rnd{mix(uint64(seed) + 55)}
	for i := range pool {
		k := &pool[i]
		if (p.Fam == "ip" || p.Fam == "num") && r.n(5) > 1 { // single addresses
			switch {
			case p.Fam == "num":
				k.B = p.Bits
			case k.F == 4:
				k.B = 32
			default:
				k.B = 128
			}
		}
	}
	cur, m := p.New(cfg), newModel(p, cfg)
	ask := func(what string, i int) error {
		k := &pool[i]
		for j := 0; j < 3; j++ {
			w := heldSpell(i, j)
			for _, gm := range getModes(p.Fam) {
				gv, gok := cur.Get(gm, k, w)
				mv, mok := m.Get(gm, k)
				if err := cmpGet(what+": "+gm+" "+keyText(p.Fam, k), gv, gok, mv, mok); err != nil {
					return err
				}
			}
			if p.Fam == "str" {
				break
			}
		}
		return nil
	}
	used, moved := 1, 0
	for i := 0; i < n; i++ {
		at := r.n(used)
		switch r.n(8) {
		case 0, 1, 2:
			if used < len(pool) {
				at = used
				used++
			}
		case 3, 4:
			at = r.n(min(used, 24))
		}
		k := &pool[at]
		what := "operation " + strconv.Itoa(i)
		if err := ask(what+", before", at); err != nil {
			return err
		}
		v := val(mode, i+100)
		w := heldSpell(at, r.n(3))
		switch x := r.n(20); {
		case x == 0: // a deletion that is dropped, or now and then kept
			d := "del"
			if p.Fam == "dom" && r.n(2) == 0 {
				d = "dels"
			}
			m2 := m.Clone()
			want := m2.Del(d, k)
			t, ok := cur.Del(d, k, w)
			if ok != want {
				return errf("%s: %s %s: reported %v, expected %v", what, d, keyText(p.Fam, k), ok, want)
			}
			if err := checkGets(what+", result of "+d, p.Fam, t, m2, pool[max(0, at-2):min(used, at+2)], 0); err != nil {
				return err
			}
			if r.n(100) == 0 && !(t.IsNil() && p.Fam != "num") {
				cur, m = t, m2
				moved++
			}
		case x == 1:
			m2 := m.Clone()
			m2.Insert(k, 0, v)
			t := cur.Ins(k, w, v)
			if err := checkGets(what+", result of ins", p.Fam, t, m2, pool[max(0, at-2):min(used, at+2)], 0); err != nil {
				return err
			}
			if r.n(100) == 0 {
				cur, m = t, m2
				moved++
			}
		case x == 2 && p.Name == "iptree" && (c.Prop == "C12" || c.Prop == "C36"):
			f := func(e Ent) (interface{}, bool) { return i, (i+int(e.K[len(e.K)-2]))%2 == 0 }
			want := m.Update(k, f)
			calls := 0
			if err := doUpdate(cur, k, 0, func(e Ent) (interface{}, bool) { calls++; return f(e) }); err != nil {
				return err
			}
			if calls != len(want) {
				return errf("%s: an update called back %d times, expected %d", what, calls, len(want))
			}
		default:
			cur = cur.Inp(k, w, v)
			m.Insert(k, 0, v)
		}
		if err := ask(what+", afterwards", at); err != nil {
			return err
		}
		if err := ask(what+", another key", r.n(used)); err != nil {
			return err
		}
		if used < len(pool) && i%8 == 0 {
			if err := ask(what+", a key to come", used); err != nil {
				return err
			}
		}
		if i&(i+1) == 0 || i%512 == 0 || i < 24 {
			if err := checkFull(what, p.Fam, cur, m, pool[:min(used, 200)], 0); err != nil {
				return err
			}
			if p.Fam == "str" || p.Fam == "dl" || p.Fam == "dom" {
				if _, _, err := walkBalance(cur.Obj()); err != nil {
					return errf("%s: %v", what, err)
				}
			}
		}
	}
	if err := checkFull("at the end", p.Fam, cur, m, pool, 0); err != nil {
		return err
	}
	st.class("held: " + c.Pkg + " " + c.cfg("shape"))
	st.nt()
	return nil
}

func regHeld() {
	shapes := map[string][]string{"str": {"rand", "asc", "desc"}, "dl": {"rand", "desc", "asc"}, "num": {"rand", "asc"}, "ip": {"seam", "low", "v4", "rand"}, "dom": {"asc", "wide", "rand", "desc"}}
	attach := func(id string, fams ...string) {
		p := props[id]
		run := p.Run
		p.Run = func(c *Case, st *Stats) error {
			if c.Kind == "held" {
				return runHeld(c, st)
			}
			return run(c, st)
		}
		prev := p.Exhaust
		names := pkgsOf(fams...)
		if id == "C12" {
			names = []string{"iptree"}
		}
		p.Exhaust = func(tier string, emit func(*Case) bool) {
			stop := false
			h := uint64(2)
			for _, ch := range id {
				h = mix(h ^ uint64(ch))
			}
			for i, name := range names {
				ss := shapes[pkgs[name].Fam]
				for j := range ss {
					n := 2500
					if tier == "thorough" {
						n = 20000
					} else if j > 1 && pkgs[name].Width > 0 {
						continue
					}
					c := &Case{Kind: "held", Pkg: name, Cfg: map[string]string{"n": strconv.Itoa(n), "seed": strconv.Itoa(int(h>>40) + i*7 + j), "shape": ss[(i+j+int(h>>8))%len(ss)]}}
					if stop = !emit(c); stop {
						return
					}
				}
			}
			if prev != nil && !stop {
				prev(tier, emit)
			}
		}
		p.Rule += "; besides, trees that are changed in place over and over and asked the same questions in between"
	}
	attach("C01", "str")
	attach("C02", "dl")
	attach("C03", "str", "dl")
	for _, id := range []string{"C04", "C05", "C06", "C07", "C08"} {
		attach(id, "num")
	}
	for _, id := range []string{"C09", "C10", "C11", "C12"} {
		attach(id, "ip")
	}
	for _, id := range []string{"C13", "C14", "C15", "C16"} {
		attach(id, "dom")
	}
	attach("C20", "str", "dl", "num", "ip", "dom")
	attach("C30", "str", "ip", "dom")
}
