package main

import (
	"errors"
	"fmt"
	"reflect"
	"runtime"
	"strconv"
	"strings"
	"sync"

	"github.com/infobloxopen/go-trees/domain"
	"pgregory.net/rapid"
)

// ---------------------------------------------------------------------------
// C25: concurrent use. The case gives the shared tree's history and one list of operations per
// goroutine (T 1..gMax); the harness is built with the race detector, which reports any conflicting
// accesses that are not ordered, whatever the interleaving of this run.

const gMax = 4

func init() {
	register(&Prop{ID: "C25",
		Rule:  "a shared tree built by a random history, then up to 4 goroutines released together, each running its own random list of lookups, enumerations (also partly interleaved with updates), dumps, copying inserts and deletes on the shared tree and on trees it derived, using absent trees and malformed networks, and parsing, printing, extracting and stepping through names; built with the race detector; the first cases of each process, and some later ones, have every goroutine work on a tree of its own instead, so that what a package sets up at first use is set up concurrently; non-trivial: a shared tree of two or more entries, and two or more goroutines of which one derives a new tree; or two or more goroutines on trees of their own",
		Quick: 7200, Thorough: 120000,
		Exhaust: concCold,
		Gen: func(g *G) *Case {
			names := pkgsOf("str", "dl", "num", "ip", "dom")
			pk := pick(g, names)
			if g.P(8) {
				return genCold(g, pk)
			}
			size := 30
			if g.P(5) {
				size = 400
			}
			c := genLinear(g, pk, size, true, true)
			if c.Cfg["cmp"] != "" && g.P(60) {
				delete(c.Cfg, "cmp")
			}
			if len(c.Ops) > 60 {
				c.Ops = c.Ops[:60]
			}
			if size > 30 && len(c.Keys) > 60 { // a shared tree that is large for sure
				c.Ops = append([]Op{{O: "inprun", N: len(c.Keys), T: 1, V: 9}}, c.Ops...)
			}
			// Goroutine operations carry the prefix "g" and the goroutine in T; the others build the shared tree.
			gs := g.Range(2, gMax)
			for t := 1; t <= gs; t++ {
				n := g.Range(1, 14)
				for i := 0; i < n; i++ {
					o := []string{"gget", "gins", "gdel", "gdels", "genum", "gdot", "gname", "gmix", "gnil"}[g.W(26, 20, 12, 5, 10, 3, 16, 8, 4)]
					c.Ops = append(c.Ops, Op{O: o, T: t, K: g.Int(len(c.Keys)), V: g.Int(64), W: g.U64() >> 1, N: g.Int(3)})
				}
			}
			if g.P(15) {
				c.Cfg["rep"] = []string{"4", "16", "40"}[g.Int(3)]
			}
			return c
		},
		Run: runConc})
}

// genCold makes a case whose goroutines each work on a tree of their own, in nearly the same order. What
// such goroutines have in common is what the packages share behind the scenes.
func genCold(g *G, pk string) *Case {
	c := genLinear(g, pk, 8, true, true)
	delete(c.Cfg, "cmp")
	delete(c.Cfg, "start")
	c.Cfg["own"] = "1"
	c.Ops = nil
	ops := []Op{}
	add := func(o string, n int) {
		for i := 0; i < n; i++ {
			ops = append(ops, Op{O: o, K: g.Int(len(c.Keys)), V: i, W: g.U64() >> 1, N: 1})
		}
	}
	kinds := []string{"gins", "ginp", "gget", "genum", "gmix", "gdot", "gname", "gdel", "gdels", "gnil", "gupd"}
	for i := range kinds[1:] { // any order
		j := i + g.Int(len(kinds)-i)
		kinds[i], kinds[j] = kinds[j], kinds[i]
	}
	add("ginp", g.Int(3))
	for _, k := range kinds {
		add(k, 1+g.Int(6))
	}
	for t := 1; t <= g.Range(2, gMax); t++ {
		for _, o := range ops {
			o.T = t
			c.Ops = append(c.Ops, o)
		}
	}
	return c
}

// concCold gives every shard one such case of every package before anything else: what is set up at first
// use is then set up while other goroutines use it as well. The packages come in another order on each shard.
func concCold(tier string, emit func(*Case) bool) {
	names := pkgsOf("str", "dl", "num", "ip", "dom")
	const shards = 8
	for i := 0; i < len(names)*shards; i++ {
		pk := names[(i/shards+i%shards*7)%len(names)]
		c := rapid.Custom(func(t *rapid.T) *Case { return genCold(newG(t), pk) }).Example(i + 1)
		if !emit(c) {
			return
		}
	}
}

func runConc(c *Case, st *Stats) error {
	p := pkgs[c.Pkg]
	if p == nil || len(c.Keys) == 0 {
		return nil
	}
	build := *c
	build.Ops = nil
	lists := make([][]Op, gMax+1)
	derives := false
	for _, o := range c.Ops {
		if o.O[0] == 'g' && o.O != "get" {
			if o.T >= 1 && o.T <= gMax {
				lists[o.T] = append(lists[o.T], o)
				derives = derives || o.O == "gins" || o.O == "gdel" || o.O == "gdels" || o.O == "gmix"
			}
			continue
		}
		build.Ops = append(build.Ops, o)
	}
	own := c.Cfg["own"] != ""
	var shared Sub
	var before version
	m := newModel(p, c.Cfg)
	if !own {
		var err error
		if _, shared, m, err = runLinear(&build, p, newStats(), histOpt{noFull: true}); err != nil {
			return err
		}
		before = snap(shared, m, p.Fam)
	}
	what := make([][]string, gMax+1)
	for t := range lists {
		for i, o := range lists[t] {
			what[t] = append(what[t], fmt.Sprintf("step %d (%s %s)", i, o.O, keyText(p.Fam, &c.Keys[((o.K%len(c.Keys))+len(c.Keys))%len(c.Keys)])))
		}
	}
	errs := make([]error, gMax+1)
	start := make(chan struct{})
	var wg sync.WaitGroup
	active := 0
	for t := 1; t <= gMax; t++ {
		if len(lists[t]) == 0 {
			continue
		}
		active++
		wg.Add(1)
		go func(t int, priv Model, view Model) {
			defer wg.Done()
			defer func() {
				if r := recover(); r != nil {
					buf := make([]byte, 4000)
					buf = buf[:runtime.Stack(buf, false)]
					errs[t] = fmt.Errorf("goroutine %d: panic: %v\n%s", t, r, trimStack(string(buf)))
				}
			}()
			<-start
			reps, _ := strconv.Atoi(c.Cfg["rep"])
			for r := 0; r <= reps; r++ {
				tree := shared
				if own {
					tree = p.New(c.Cfg)
				}
				if err := concList(p, c, lists[t], what[t], tree, priv.Clone(), view, own); err != nil {
					errs[t] = fmt.Errorf("goroutine %d: %v", t, err)
					return
				}
			}
		}(t, m.Clone(), m.Clone())
	}
	close(start)
	wg.Wait()
	for _, e := range errs {
		if e != nil {
			return e
		}
	}
	if own {
		st.class("own:" + c.Pkg)
		if active >= 2 {
			st.nt()
		}
		return nil
	}
	if err := before.check("the shared tree afterwards", p.Fam, c.Keys, 1, false); err != nil {
		return err
	}
	st.class("pkg:" + c.Pkg)
	st.class(fmt.Sprintf("goroutines:%d", active))
	if m.Len() >= 2 && active >= 2 && derives {
		st.nt()
	}
	return nil
}

func concList(p *Pkg, c *Case, ops []Op, whats []string, shared Sub, own, view Model, alone bool) error {
	cur := shared
	mode := valMode(p, c.Cfg)
	for i := range ops {
		o := &ops[i]
		k := &c.Keys[((o.K%len(c.Keys))+len(c.Keys))%len(c.Keys)]
		w := wOf(c.Cfg, o.W)
		what := whats[i]
		on, om := cur, own
		if o.N == 0 && !alone {
			on, om = shared, view
		}
		switch o.O {
		case "gget":
			gm := getModes(p.Fam)
			q := gm[o.V%len(gm)]
			gv, gok := on.Get(q, k, w)
			mv, mok := om.Get(q, k)
			if err := cmpGet(what, gv, gok, mv, mok); err != nil {
				return err
			}
		case "ginp": // trees of the goroutine's own only
			if !alone || cur.IsNil() {
				continue
			}
			v := val(mode, o.V)
			cur = cur.Inp(k, w, v)
			own.Insert(k, w, v)
		case "gins":
			v := val(mode, o.V)
			if o.N == 0 && !alone {
				own = view.Clone()
			}
			cur = on.Ins(k, w, v)
			own.Insert(k, w, v)
		case "gdel", "gdels":
			kind := o.O[1:]
			if kind == "dels" && p.Fam != "dom" {
				kind = "del"
			}
			if o.N == 0 && !alone {
				own = view.Clone()
			}
			s, ok := on.Del(kind, k, w)
			if want := own.Del(kind, k); want != ok {
				return errf("%s: reported %v, expected %v", what, ok, want)
			}
			cur = s
		case "genum":
			if err := checkEnum(what, p.Fam, on, om); err != nil {
				return err
			}
		case "gmix":
			// an enumeration consumed between updates derived from the same tree
			em := enumModes(p.Fam)[0]
			next := on.Enum(em)
			var got []Ent
			closed := false
			s := on
			for j := 0; j < om.Len()+1; j++ {
				e, ok := next()
				if !ok {
					closed = true
					break
				}
				got = append(got, e)
				if j < 6 {
					k2 := &c.Keys[(o.K+j)%len(c.Keys)]
					if (o.V+j)%3 == 0 {
						s, _ = s.Del("del", k2, w)
					} else {
						s = s.Ins(k2, w, val(mode, o.V+j))
					}
				}
			}
			if !closed {
				if _, ok := next(); !ok {
					closed = true
				}
			}
			if err := cmpEnum(what, got, closed, om); err != nil {
				return err
			}
		case "gdot":
			on.Dot()
		case "gname":
			if err := concName(o, what); err != nil {
				return err
			}
		case "gnil":
			if err := concNil(p, c, on, om, o, k, w, what); err != nil {
				return err
			}
		case "gupd": // trees of the goroutine's own only
			if !alone || c.Pkg != "iptree" || cur.IsNil() {
				continue
			}
			v := val(mode, o.V)
			n := 0
			want := own.Update(k, func(Ent) (interface{}, bool) { return v, true })
			if err := doUpdate(cur, k, w, func(Ent) (interface{}, bool) { n++; return v, true }); err != nil {
				return errf("%s: %v", what, err)
			}
			if n != len(want) {
				return errf("%s: called back %d times, expected %d", what, n, len(want))
			}
		}
	}
	return nil
}

// concNil uses an absent tree and, for IP trees, a malformed network or address.
func concNil(p *Pkg, c *Case, on Sub, om Model, o *Op, k *Key, w uint64, what string) error {
	if c.Cfg["cmp"] != "" {
		return nil
	}
	z := on.NilOf()
	none := newModel(p, c.Cfg)
	if err := nilActsEmpty(what, p, z, none, c.Keys[:1]); err != nil {
		return err
	}
	if _, ok := z.Del("del", k, w); ok {
		return errf("%s: deleted from a nil tree", what)
	}
	v := val(valMode(p, c.Cfg), o.V)
	one := newModel(p, c.Cfg)
	one.Insert(k, w, v)
	if err := checkFull(what+" inserted into a nil tree", p.Fam, z.Ins(k, w, v), one, c.Keys[:1], w); err != nil {
		return err
	}
	if raw, ok := on.(ipRaw); ok {
		api := []int{0, 2, 4, 5, 6, 7}[o.V%6]
		n, ip := malNet(k, o.W), malIP(k, o.W)
		t, r, ok := raw.Raw(api, n, ip, v)
		if ok || (api == 4 || api == 5) && !isZero(r) {
			return errf("%s: %s(%s) reported %v, %v", what, rawNames[api], malText(api, n, ip), r, ok)
		}
		if t != nil {
			return checkFull(what+": "+rawNames[api]+" of something malformed", p.Fam, t, om, c.Keys[:1], w)
		}
	}
	return nil
}

// concName parses, prints and steps through a name made from the operation's selector.
func concName(o *Op, what string) error {
	r := &rnd{o.W}
	var ls []BS
	labels, length := 5, 4
	switch o.V % 9 {
	case 3: // many labels
		labels, length = 127, 1
	case 5: // long ones
		labels, length = 3, 63
	case 7: // refused, each goroutine for its own reason
		return concBad(r, what)
	case 8: // labels beyond what fits
		return concHuman(r, what)
	}
	for n := r.n(labels) + 1; n > 0; n-- {
		var l BS
		for x := r.n(length) + 1; x > 0; x-- {
			l = append(l, upByte([]byte("AbC9.\\-\x00\xff~z")[r.n(11)]))
		}
		ls = append(ls, l)
	}
	s := spellName(ls, o.W|1)
	n, err := domain.MakeNameFromString(s)
	if err != nil {
		return errf("%s: %s refused: %v", what, cut(s), err)
	}
	if n.String() != s {
		return errf("%s: %s prints as %s", what, cut(s), cut(n.String()))
	}
	switch o.V % 4 {
	case 0:
		n = domain.MakeNameFromReflection(reflect.ValueOf(n))
	case 1:
		n = domain.MakeNameFromReflection(reflect.ValueOf(s))
	case 2:
		n = domain.MakeNameFromReflection(reflect.ValueOf(&s))
	}
	if n.String() != s {
		return errf("%s: %s prints as %s", what, cut(s), cut(n.String()))
	}
	for _, off := range []int{-1, 1 << 20} {
		if l, next := n.GetLabel(off); next != -1 {
			return errf("%s: %s: GetLabel(%d) gives %q, %d", what, cut(s), off, l, next)
		}
	}
	seen := 0
	stop := errors.New("enough")
	if err := n.GetLabels(func(string) error {
		if seen++; seen == len(ls) {
			return stop
		}
		return nil
	}); err != stop || seen != len(ls) {
		return errf("%s: %s: label iteration returned %v after %d labels", what, cut(s), err, seen)
	}
	got := libLabels(n)
	if len(got) != len(ls) {
		return errf("%s: %s has %d labels, expected %d", what, cut(s), len(got), len(ls))
	}
	off := 0
	for j := range got {
		if got[j] != string(ls[j]) {
			return errf("%s: %s: label %d is %q, expected %q", what, cut(s), j, got[j], string(ls[j]))
		}
		l, next := n.GetLabel(off)
		if l != got[j] {
			return errf("%s: %s: GetLabel(%d) gives %q, expected %q", what, cut(s), off, l, got[j])
		}
		off = next
		h := domain.MakeHumanReadableLabel(l)
		if h != humanLabel(ls[j]) {
			return errf("%s: label %q prints as %q, expected %q", what, l, h, humanLabel(ls[j]))
		}
		b, err := domain.MakeLabel(h)
		if err != nil || b != l {
			return errf("%s: label %q reads back as %q, %v", what, h, b, err)
		}
	}
	return nil
}

// concHuman makes byte strings of any length human-readable, and asks for a name in what is none.
func concHuman(r *rnd, what string) error {
	b := make([]byte, 60+r.n(240))
	for i := range b {
		b[i] = byte(r.next())
	}
	want := ""
	for _, x := range b {
		if e := humanByte(x); len(want)+len(e) <= 252 {
			want += e
		} else {
			break
		}
	}
	if got := domain.MakeHumanReadableLabel(string(b)); got != want {
		return errf("%s: MakeHumanReadableLabel(%s) = %s, expected %s", what, cut(string(b)), cut(got), cut(want))
	}
	for _, v := range []interface{}{r.n(100), "a..b", []string{"a"}} {
		if err := func() (err error) {
			defer func() {
				r := recover()
				if _, ok := r.(error); !ok {
					err = errf("%s: no name in %T, but the panic was %v", what, v, r)
				}
			}()
			n := domain.MakeNameFromReflection(reflect.ValueOf(v))
			return errf("%s: got %s from %v", what, n, v)
		}(); err != nil {
			return err
		}
	}
	return nil
}

// concBad parses something that is no name.
func concBad(r *rnd, what string) error {
	long := strings.Repeat("x", 64+r.n(40))
	many := strings.Repeat("y.", 128+r.n(40))
	bad := []struct {
		s   string
		err error
	}{{"a." + long + ".b", domain.ErrLabelTooLong}, {many, domain.ErrTooManyLabels}, {"a..b", domain.ErrEmptyLabel},
		{"a\\25", domain.ErrInvalidEscape}, {"b\\256.c", domain.ErrInvalidEscape},
		{strings.Repeat(long[:60]+".", 6), domain.ErrNameTooLong}}[r.n(6)]
	_, err := domain.MakeNameFromString(bad.s)
	if bad.err == domain.ErrTooManyLabels && errors.Is(err, domain.ErrNameTooLong) {
		return nil // true as well
	}
	if err == nil || !errors.Is(err, bad.err) {
		return errf("%s: %s: error %v, expected %v", what, cut(bad.s), err, bad.err)
	}
	if bad.err == domain.ErrLabelTooLong {
		if _, err := domain.MakeLabel(long); !errors.Is(err, domain.ErrLabelTooLong) {
			return errf("%s: label %s: error %v", what, cut(long), err)
		}
	}
	return nil
}
