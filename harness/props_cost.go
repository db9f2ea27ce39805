package main

import (
	"fmt"
	"reflect"
	"runtime"
	"strconv"
	"strings"
	"time"
	"weak"
)

// C34 to C36: what trees cost – memory taken by updates, memory kept, goroutines left.

func regCost() {
	regLocal()
	regRetain()
	regQuiesce()
}

// ---------------------------------------------------------------------------
// C34: updates and lookups touch a path, not the tree

// bulkKeys derives the n keys of a large tree.
func bulkKeys(p *Pkg, n int, shape string, seed uint64) []Key {
	r := &rnd{seed}
	out := make([]Key, 0, n)
	bit := func(hi, lo *uint64, b int) {
		if b < 64 {
			*hi |= 1 << uint(63-b)
		} else {
			*lo |= 1 << uint(127-b)
		}
	}
	for i := 0; i < n; i++ {
		k := Key{}
		switch p.Fam {
		case "str", "dl":
			switch shape {
			case "asc":
				k.S = BS(fmt.Sprintf("%06d", i))
			case "desc":
				k.S = BS(fmt.Sprintf("%06d", n-i))
			default:
				k.S = BS(fmt.Sprintf("%d-%d", r.n(1000000), i))
			}
		case "num", "ip":
			width, off := p.Bits, 0
			if p.Fam == "ip" {
				k.F = 6
				width = 128
				switch shape {
				case "v4":
					k.F, width = 4, 32
				case "low": // one /64
					off = 64
					k.Hi = 0x20010db8_00000000
				case "seam":
					off = 58
					k.Hi = 0x20010db8_00000000
				}
			}
			switch {
			case shape == "asc" || shape == "low" && i%2 == 0:
				b := min(off+20, width)
				for j := 0; j < b-off; j++ {
					if i>>uint(b-off-1-j)&1 == 1 {
						bit(&k.Hi, &k.Lo, off+j)
					}
				}
				k.B = b
			case i%9 == 0 && shape != "asc": // a chain of nested prefixes
				k.Hi, k.Lo = 0x20010db8_12345678&(^uint64(0)<<0), 0x9abcdef012345678
				k.B = off + r.n(width-off+1)
			default:
				k.Hi |= r.next() >> uint(min(off, 63)) >> uint(off/64)
				k.Lo = r.next()
				k.B = off + 12 + r.n(width-off-12+1)
				if k.B > width {
					k.B = width
				}
			}
			f := k.F
			m := maskPfx(f, k.Hi, k.Lo, k.B)
			k.Hi, k.Lo = m.hi, m.lo
			if p.Fam == "num" {
				k.Lo = 0
			}
		case "dom":
			l := func(x int) BS { return BS(strings.ToUpper("L" + strconv.Itoa(x))) }
			switch shape {
			case "asc":
				k.L = []BS{l(i)}
			case "desc":
				k.L = []BS{l(0), l(1), l(n - i)}
			case "wide":
				k.L = []BS{l(i % 40), l(i / 40)}
			default:
				for d := 1 + r.n(4); d > 0; d-- {
					k.L = append(k.L, l(r.n(12)))
				}
				k.L = append(k.L, l(i))
			}
		}
		out = append(out, k)
	}
	return out
}

// pathLen bounds the number of nodes between the root and a key.
func pathLen(p *Pkg, n int, k *Key) int {
	switch p.Fam {
	case "str", "dl":
		return maxHeight(n)
	case "num":
		return p.Bits + 1
	case "ip":
		return 132
	}
	return (len(k.L) + 2) * (maxHeight(n) + 1)
}

func regLocal() {
	shapes := map[string][]string{"str": {"asc", "desc", "rand"}, "dl": {"asc", "desc", "rand"}, "num": {"asc", "rand"}, "ip": {"v4", "low", "seam", "rand"}, "dom": {"asc", "desc", "wide", "rand"}}
	names := pkgsOf("str", "dl", "num", "ip", "dom")
	register(&Prop{ID: "C34",
		Rule:  "trees of 2000 to 6000 entries of several shapes; memory allocated by single copying inserts, deletes and lookups of present, absent and inner keys is measured and compared with a bound linear in the length of the path; non-trivial: a delete that removed something and an insertion were measured where the bound is below a quarter of the entries",
		Quick: 3840, Thorough: 15360,
		Gen: func(g *G) *Case {
			c := &Case{Pkg: pick(g, names), Cfg: map[string]string{}}
			p := pkgs[c.Pkg]
			n := g.Range(2000, 6000)
			if p.Fam == "ip" || p.Fam == "dom" {
				n += 3000
			}
			c.Cfg["n"] = strconv.Itoa(n)
			c.Cfg["shape"] = pick(g, shapes[p.Fam])
			c.Cfg["seed"] = strconv.Itoa(g.Int(1 << 30))
			c.Cfg["build"] = pick(g, []string{"inp", "ins"})
			if g.P(12) {
				c.Cfg["chain"] = strconv.Itoa([]int{g.Range(50, 300), g.Range(1000, 3000)}[g.W(92, 8)])
			}
			for i := g.Range(3, 12); i > 0; i-- {
				o := Op{O: pick(g, []string{"ins", "del", "get", "ins", "del"}), K: g.Int(n), V: g.Int(100), N: g.Int(4)}
				if p.Fam == "dom" && o.O == "del" && g.P(50) {
					o.O = "dels"
				}
				if p.Fam != "str" && g.P(60) { // a spelling; the same one whenever the operation is measured
					o.W = g.U64()>>1 | 1
				}
				c.Ops = append(c.Ops, o)
			}
			return c
		},
		Run: func(c *Case, st *Stats) error {
			p := pkgs[c.Pkg]
			n, _ := strconv.Atoi(c.Cfg["n"])
			seed, _ := strconv.Atoi(c.Cfg["seed"])
			if p == nil || n < 1 || n > 100000 {
				return nil
			}
			keys := bulkKeys(p, n, c.Cfg["shape"], uint64(seed))
			cur := p.New(map[string]string{})
			mode := valMode(p, c.Cfg)
			for i := range keys {
				if c.Cfg["build"] == "ins" {
					cur = cur.Ins(&keys[i], 0, val(mode, i+100))
				} else {
					cur = cur.Inp(&keys[i], 0, val(mode, i+100))
				}
			}
			sawIns, sawDel, small := false, false, true
			st.class("pkg:" + c.Pkg + " " + c.Cfg["shape"])
			for i := range c.Ops {
				o := &c.Ops[i]
				k := keys[((o.K%n)+n)%n]
				switch o.N {
				case 1: // something else, probably absent
					k.S = append(append(BS{}, k.S...), 'X')
					k.L = append(append([]BS{}, k.L...), BS("X"))
					if p.Fam == "num" || p.Fam == "ip" {
						k.Hi ^= 1 << uint(63-o.V%32)
						m := maskPfx(k.F, k.Hi, k.Lo, k.B)
						k.Hi, k.Lo = m.hi, m.lo
					}
				case 2: // something above
					if len(k.L) > 0 {
						k.L = k.L[:len(k.L)-1]
					}
					if k.B > 2 {
						k.B -= 1 + o.V%(k.B-1)
						m := maskPfx(k.F, k.Hi, k.Lo, k.B)
						k.Hi, k.Lo = m.hi, m.lo
					}
				}
				path := pathLen(p, n, &k)
				limit := uint64(64 + 8*path)
				if limit > uint64(n)/4 {
					small = false
				}
				v := val(mode, o.V)
				var ok bool
				var res interface{}
				f := func() {
					switch o.O {
					case "ins":
						res = cur.Ins(&k, o.W, v)
					case "del", "dels":
						res, ok = cur.Del(o.O, &k, o.W)
					default:
						res, _ = cur.Get("get", &k, o.W)
					}
				}
				if p.Fam == "num" && o.O == "get" {
					f = func() { res, _ = cur.Get("match", &k, o.W) }
				}
				objs, byts := measure(f, limit)
				runtime.KeepAlive(res)
				if objs > limit || byts > limit*160 {
					return errf("%s %s with %d entries allocated %d objects, %d bytes; a path has at most %d nodes", o.O, keyText(p.Fam, &k), n, objs, byts, path)
				}
				sawIns = sawIns || o.O == "ins"
				sawDel = sawDel || ok
			}
			if sawIns && sawDel && small {
				st.nt()
			}
			if m, _ := strconv.Atoi(c.cfg("chain")); m > 0 && m <= 10000 {
				st.class("chain of operations")
				return costChain(p, cur, keys, m, uint64(seed), mode)
			}
			return nil
		}})
}

// costChain measures every operation of a chain of them, each on the result of the one before.
func costChain(p *Pkg, cur Sub, keys []Key, m int, seed uint64, mode string) error {
	r := &rnd{mix(seed + 99)}
	n := len(keys)
	bursts := 0
	dels := []int{0, 30, 50, 100}[r.n(4)] // percentage of deletes
	for i := 0; i < m; i++ {
		k := keys[r.n(n)]
		if r.n(8) == 0 {
			k.S = append(append(BS{}, k.S...), 'Y')
			k.L = append(append([]BS{}, k.L...), BS("Y"))
			if p.Fam == "num" || p.Fam == "ip" {
				k.Hi ^= 1 << uint(63-r.n(32))
				x := maskPfx(k.F, k.Hi, k.Lo, k.B)
				k.Hi, k.Lo = x.hi, x.lo
			}
		}
		path := pathLen(p, n+m, &k)
		limit := uint64(64 + 8*path)
		v := val(mode, i)
		var res Sub
		what := "ins"
		var w uint64
		if p.Fam != "str" && r.n(2) == 0 {
			w = r.next() | 1
		}
		f := func() { res = cur.Ins(&k, w, v) }
		if r.n(100) < dels {
			what = "del"
			f = func() { res, _ = cur.Del("del", &k, w) }
		}
		if cur.IsNil() && p.Fam != "num" {
			return nil
		}
		var a, b runtime.MemStats
		runtime.ReadMemStats(&a)
		f()
		runtime.ReadMemStats(&b)
		objs, byts := b.Mallocs-a.Mallocs, b.TotalAlloc-a.TotalAlloc
		if objs > limit || byts > limit*160 {
			if objs > limit+uint64(n)/2 {
				bursts++
			}
			if objs, byts = measure(f, limit); objs > limit || byts > limit*160 {
				return errf("operation %d of a chain: %s %s with %d entries allocated %d objects, %d bytes; a path has at most %d nodes", i, what, keyText(p.Fam, &k), n, objs, byts, path)
			}
			if bursts > 2 {
				return errf("operation %d of a chain: %s %s with %d entries: now and then as much is allocated as there are entries (%d times)", i, what, keyText(p.Fam, &k), n, bursts)
			}
		}
		cur = res
	}
	return nil
}

// measure gives what one call of f allocates: the least of up to eight calls, as other goroutines may
// allocate meanwhile.
func measure(f func(), limit uint64) (objs, byts uint64) {
	var a, b runtime.MemStats
	objs, byts = 1<<62, 1<<62
	for i := 0; i < 8; i++ {
		runtime.ReadMemStats(&a)
		f()
		runtime.ReadMemStats(&b)
		objs = min(objs, b.Mallocs-a.Mallocs)
		byts = min(byts, b.TotalAlloc-a.TotalAlloc)
		if objs <= limit && byts <= limit*160 {
			break
		}
	}
	return
}

// ---------------------------------------------------------------------------
// C35: a tree keeps what it stores and nothing else

type payload struct {
	n   int
	pad [6]int // not a tiny object: those share memory
}

// genChurn draws a history that removes much of what it inserts.
func genChurn(g *G, pkg string) *Case {
	c := genLinear(g, pkg, 120, true, true)
	delete(c.Cfg, "start")
	nk := len(c.Keys)
	for i := g.Int(3); i > 0; i-- {
		c.Ops = append(c.Ops, Op{O: pick(g, []string{"insrun", "inprun"}), K: g.Int(nk), N: g.Range(1, nk), T: g.Int(4), V: g.Int(100), W: g.U64() >> 1})
		c.Ops = append(c.Ops, Op{O: "delrun", K: g.Int(nk), N: g.Range(1, nk), T: g.Int(4), W: g.U64() >> 1})
	}
	if g.P(50) {
		c.Ops = append(c.Ops, genOps(g, mixFor(g, pkgs[pkg].Fam, true, true), nk, g.Int(8))...)
	}
	return c
}

func regRetain() {
	names := pkgsOf("str", "dl", "num", "ip", "dom")
	generic := []string{"strtree", "dltree", "numtree32", "numtree64", "iptree", "domaintree"}
	register(&Prop{ID: "C35",
		Rule:  "random histories that remove much of what they insert; (a) generic trees store pointers watched by weak references: after dropping all older trees and collecting garbage, exactly the stored ones are alive; (b) the objects reachable from the tree are counted and compared with a tree built afresh from the same contents; non-trivial: a successful delete or a replaced value, with something else stored at the end",
		Quick: 60000, Thorough: 240000,
		Gen: func(g *G) *Case {
			if g.P(35) {
				c := genChurn(g, pick(g, generic))
				c.Kind = "weak"
				return c
			}
			return genChurn(g, pick(g, names))
		},
		Run: func(c *Case, st *Stats) error {
			if pkgs[c.Pkg] == nil {
				return nil
			}
			if c.Kind == "weak" {
				return runWeak(c, st)
			}
			return runSize(c, st)
		}})
}

// eachMutation calls f for every insertion and deletion of a history.
func eachMutation(c *Case, f func(kind string, k *Key, v int, w uint64)) {
	nk := len(c.Keys)
	if nk == 0 {
		return
	}
	one := func(kind string, ki, v int, w uint64) {
		switch kind {
		case "ins", "inp", "del", "dels":
			f(kind, &c.Keys[((ki%nk)+nk)%nk], v, wOf(c.Cfg, w))
		}
	}
	for i := range c.Ops {
		op := &c.Ops[i]
		switch op.O {
		case "insrun", "inprun", "delrun":
			stride := []int{1, -1, 2, 7}[op.T%4]
			for j := 0; j < op.N; j++ {
				one(op.O[:3], op.K+j*stride, op.V+j, op.W)
			}
		default:
			one(op.O, op.K, op.V, op.W)
		}
	}
}

//go:noinline
func buildWeak(c *Case, p *Pkg) (cur Sub, m Model, refs []weak.Pointer[payload], lost bool) {
	cur = p.New(c.Cfg)
	m = newModel(p, c.Cfg)
	eachMutation(c, func(kind string, k *Key, v int, w uint64) {
		switch kind {
		case "ins", "inp":
			x := &payload{n: len(refs)}
			refs = append(refs, weak.Make(x))
			if kind == "ins" {
				cur = cur.Ins(k, w, x)
			} else {
				cur = cur.Inp(k, w, x)
			}
			m.Insert(k, w, len(refs)-1)
		default:
			if m.Del(kind, k) {
				lost = true
			}
			cur, _ = cur.Del(kind, k, w)
		}
	})
	return
}

func runWeak(c *Case, st *Stats) error {
	p := pkgs[c.Pkg]
	if p.Width > 0 {
		return nil
	}
	cur, m, refs, lost := buildWeak(c, p)
	alive := map[int]bool{}
	ents, _ := m.List()
	for _, e := range ents {
		alive[e.V.(int)] = true
	}
	var bad string
	for try := 0; try < 12; try++ {
		if try > 0 {
			time.Sleep(time.Duration(try*try) * time.Millisecond)
		}
		runtime.GC()
		bad = ""
		for i, r := range refs {
			if got := r.Value() != nil; got != alive[i] {
				if alive[i] {
					return errf("the value of insertion %d is stored but was collected", i)
				}
				bad = fmt.Sprintf("the value of insertion %d, since removed or replaced, is kept alive by the tree of %d entries", i, len(ents))
				break
			}
		}
		if bad == "" {
			break
		}
	}
	runtime.KeepAlive(cur)
	if bad != "" {
		return errf("%s", bad)
	}
	st.class("pkg:" + c.Pkg + " weak references")
	if (lost || len(refs) > len(ents)) && len(ents) > 0 {
		st.nt()
	}
	return nil
}

// reach counts the objects reachable from a library value, not entering values of other packages.
func reach(obj interface{}) int {
	n := 0
	seen := map[uintptr]bool{}
	var visit func(v reflect.Value)
	visit = func(v reflect.Value) {
		switch v.Kind() {
		case reflect.Interface:
			if !v.IsNil() {
				visit(v.Elem())
			}
		case reflect.Ptr:
			if v.IsNil() || seen[v.Pointer()] || !strings.Contains(v.Type().Elem().PkgPath(), "go-trees/") && !strings.HasPrefix(v.Type().Elem().PkgPath(), "vharness/gen") {
				return
			}
			seen[v.Pointer()] = true
			n++
			visit(v.Elem())
		case reflect.Struct:
			for i := 0; i < v.NumField(); i++ {
				visit(v.Field(i))
			}
		case reflect.Slice:
			if !v.IsNil() {
				n += v.Cap() / 8
			}
			fallthrough
		case reflect.Array:
			for i := 0; i < v.Len(); i++ {
				visit(v.Index(i))
			}
		case reflect.Map:
			n += v.Len()
			it := v.MapRange()
			for it.Next() {
				visit(it.Key())
				visit(it.Value())
			}
		}
	}
	visit(reflect.ValueOf(obj))
	return n
}

// keyOfEnt turns a listed entry of a model back into a key.
func keyOfEnt(fam string, e Ent) Key {
	switch fam {
	case "num", "ip":
		return keyOfID(e.K)
	case "dom":
		k := Key{}
		for s := e.K; s != ""; {
			l := int(s[0])
			k.L = append(k.L, BS(s[1:1+l]))
			s = s[1+l:]
		}
		return k
	}
	return Key{S: BS(e.K)}
}

func runSize(c *Case, st *Stats) error {
	p := pkgs[c.Pkg]
	cur := p.New(c.Cfg)
	m := newModel(p, c.Cfg)
	lost := false
	eachMutation(c, func(kind string, k *Key, v int, w uint64) {
		switch kind {
		case "ins":
			cur = cur.Ins(k, w, tokVal(p, v))
			m.Insert(k, w, tokVal(p, v))
		case "inp":
			cur = cur.Inp(k, w, tokVal(p, v))
			m.Insert(k, w, tokVal(p, v))
		default:
			if m.Del(kind, k) {
				lost = true
			}
			cur, _ = cur.Del(kind, k, w)
		}
	})
	ents, _ := m.List()
	fresh := p.New(c.Cfg)
	for i := range ents {
		k := keyOfEnt(p.Fam, ents[i])
		fresh = fresh.Ins(&k, 0, ents[i].V)
	}
	a, b := reach(cur.Obj()), reach(fresh.Obj())
	if a > 2*b+16 {
		return errf("%d objects are reachable from the tree of %d entries; built afresh it has %d", a, len(ents), b)
	}
	st.class("pkg:" + c.Pkg + " size")
	if lost && len(ents) > 0 {
		st.nt()
	}
	return nil
}

func tokVal(p *Pkg, v int) interface{} {
	if p.Width > 0 {
		return val(valMode(p, nil), v)
	}
	return v
}

// ---------------------------------------------------------------------------
// C36: finished operations leave nothing running

func regQuiesce() {
	names := pkgsOf("str", "dl", "num", "ip", "dom")
	register(&Prop{ID: "C36",
		Rule:  "random histories, interleaved enumerations consumed to the end, descendant updates, enumerations of nil and empty trees; at the end the number of goroutines has to return to what it was; non-trivial: at least one enumeration of two or more entries, or an update",
		Quick: 40000, Thorough: 200000,
		Gen: func(g *G) *Case {
			var c *Case
			switch g.W(40, 25, 35) {
			case 0:
				c = genLinear(g, pick(g, names), 40, true, true)
				c.Kind = "linear"
			case 1:
				c = props["C12"].Gen(g)
				c.Kind = "update"
			default:
				c = props["C26"].Gen(g)
				c.Kind = "snapshot"
			}
			return c
		},
		Run: func(c *Case, st *Stats) error {
			p := pkgs[c.Pkg]
			if p == nil {
				return nil
			}
			before := runtime.NumGoroutine()
			if procBase > 0 { // some values are made before the first case
				before, procBase = min(before, procBase), 0
			}
			var err error
			var h *counters
			switch c.Kind {
			case "linear":
				h, _, _, err = runLinear(c, p, st, histOpt{})
				if err == nil {
					err = checkEnum("nil tree", p.Fam, p.New(c.Cfg).NilOf(), newModel(p, c.Cfg))
				}
			case "update":
				err = runUpdates(c, st)
			default:
				err = props["C26"].Run(c, st)
			}
			if err != nil {
				return err
			}
			after := 0
			for i := 0; i < 400; i++ {
				if after = runtime.NumGoroutine(); after <= before {
					break
				}
				if i < 50 {
					runtime.Gosched()
				} else {
					time.Sleep(time.Duration(i/10) * time.Millisecond)
				}
			}
			if after > before {
				buf := make([]byte, 1<<16)
				buf = buf[:runtime.Stack(buf, true)]
				return errf("%d goroutines left running by operations that are finished\n%s", after-before, trimStack(string(buf)))
			}
			st.class("kind:" + c.Kind)
			if h == nil || h.maxLen >= 2 {
				st.nt()
			}
			return nil
		}})
}
