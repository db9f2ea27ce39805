package main

import (
	"fmt"
	"reflect"
	"strings"
)

// counters describe what a history contained.
type counters struct {
	ins, inp, repl, insNew   int
	delHit, delMiss, delMany int
	getHit, getMiss, getAnc  int
	afterDel                 int // mutations after a successful delete
	switches                 int // changes between copying and in-place mutation
	maxLen                   int
	enums                    int
	upds, updCalls           int
	emptied                  int
	lastMut                  string
}

func (h *counters) mut(kind string) {
	if h.delHit > 0 {
		h.afterDel++
	}
	if h.lastMut != "" && (h.lastMut == "inp") != (kind == "inp") {
		h.switches++
	}
	h.lastMut = kind
}

func newModel(p *Pkg, cfg map[string]string) Model {
	switch p.Fam {
	case "str":
		return newOrdModel(cmpOf(cfg["cmp"]))
	case "dl":
		m := newOrdModel(cmpLenLex)
		m.raw = true
		return m
	case "num":
		return newPfxModel(p.Bits)
	case "ip":
		return newPfxModel(0)
	case "dom":
		return newDomModel()
	}
	harnessFail("family %q", p.Fam)
	return nil
}

// valMode is the value mode for a package under a configuration.
func valMode(p *Pkg, cfg map[string]string) string {
	if p.Width > 0 {
		return fmt.Sprintf("u%d", p.Width)
	}
	return cfg["vals"]
}

func getModes(fam string) []string {
	if fam == "num" {
		return []string{"match", "exact", "find"}
	}
	return []string{"get"}
}

func isZero(v interface{}) bool {
	if v == nil {
		return true
	}
	switch v.(type) {
	case uint8, uint16, uint32, uint64:
		return reflect.ValueOf(v).IsZero()
	}
	return false
}

// cmpGet compares a lookup with the reference.
func cmpGet(what string, gv interface{}, gok bool, mv interface{}, mok bool) error {
	if wn, ok := gv.(wrongNode); ok {
		return errf("%s: %s", what, wn.s)
	}
	if gok != mok {
		return errf("%s: got (%s, %v), expected (%s, %v)", what, show(gv), gok, show(mv), mok)
	}
	if gok {
		if !same(gv, mv) {
			return errf("%s: got %s, expected %s", what, show(gv), show(mv))
		}
	} else if !isZero(gv) {
		return errf("%s: nothing found but value %s returned", what, show(gv))
	}
	return nil
}

func keyText(fam string, k *Key) string {
	switch fam {
	case "str", "dl":
		return fmt.Sprintf("%q", string(k.S))
	case "num":
		return fmt.Sprintf("%016x/%d", k.Hi, k.B)
	case "ip":
		n, _ := ipArgs(k, 0)
		return n.String()
	case "dom":
		return fmt.Sprintf("%q", spellName(k.L, 0))
	}
	return "?"
}

// collect reads an enumeration, at most max entries beyond which it stops.
func collect(next func() (Ent, bool), max int) (out []Ent, closed bool) {
	for {
		e, ok := next()
		if !ok {
			return out, true
		}
		out = append(out, e)
		if len(out) > max {
			return out, false
		}
	}
}

// cmpEnum compares yielded entries with the reference.
func cmpEnum(what string, got []Ent, closed bool, m Model) error {
	want, ordered := m.List()
	if !closed {
		return errf("%s: more than %d entries yielded", what, len(want))
	}
	if ordered {
		if len(got) != len(want) {
			return errf("%s: %d entries yielded, expected %d: %s", what, len(got), len(want), entsText(got))
		}
		om, isOrd := m.(*ordModel)
		for i := range got {
			if isOrd && !om.raw {
				okSpell := false
				for _, s := range om.ents[i].spell {
					if s == got[i].K {
						okSpell = true
					}
				}
				if om.cmp(got[i].K, want[i].K) != 0 || !okSpell {
					return errf("%s: entry %d has key %q, expected %q", what, i, got[i].K, want[i].K)
				}
			} else if got[i].K != want[i].K {
				return errf("%s: entry %d has key %q (%s), expected %q", what, i, got[i].K, got[i].Raw, want[i].K)
			}
			if !same(got[i].V, want[i].V) {
				return errf("%s: entry %d (key %q) has value %s, expected %s", what, i, got[i].Raw, show(got[i].V), show(want[i].V))
			}
		}
		return nil
	}
	wm := make(map[string]interface{}, len(want))
	for _, e := range want {
		wm[e.K] = e.V
	}
	seen := make(map[string]bool, len(got))
	for _, e := range got {
		v, ok := wm[e.K]
		if !ok {
			return errf("%s: yielded %q which is not stored", what, e.Raw)
		}
		if seen[e.K] {
			return errf("%s: yielded %q twice", what, e.Raw)
		}
		seen[e.K] = true
		if !same(e.V, v) {
			return errf("%s: %q has value %s, expected %s", what, e.Raw, show(e.V), show(v))
		}
	}
	if len(got) != len(want) {
		for _, e := range want {
			if !seen[e.K] {
				return errf("%s: %d entries yielded, expected %d; missing %q", what, len(got), len(want), e.K)
			}
		}
	}
	return nil
}

func entsText(es []Ent) string {
	var s []string
	for i, e := range es {
		if i > 8 {
			s = append(s, "...")
			break
		}
		s = append(s, fmt.Sprintf("%q=%s", e.Raw, show(e.V)))
	}
	return strings.Join(s, " ")
}

func enumModes(fam string) []string {
	if fam == "dl" {
		return []string{"raw", "human"}
	}
	return []string{""}
}

// allLabels reports whether every key is a binary label which has a spelling.
func allLabels(m Model) bool {
	l, _ := m.List()
	for _, e := range l {
		if len(e.K) > 63 {
			return false
		}
		for i := 0; i < len(e.K); i++ {
			if e.K[i] >= 'a' && e.K[i] <= 'z' {
				return false
			}
		}
	}
	return true
}

// checkEnum runs every enumeration of s against m.
func checkEnum(what, fam string, s Sub, m Model) error {
	for _, em := range enumModes(fam) {
		if em == "human" && !allLabels(m) {
			continue
		}
		got, closed := collect(s.Enum(em), m.Len())
		if err := cmpEnum(what+" enumeration "+em, got, closed, m); err != nil {
			return err
		}
	}
	return nil
}

func checkEmpty(what string, s Sub, m Model) error {
	if e, ok := s.Empty(); ok && e != (m.Len() == 0) {
		return errf("%s: IsEmpty is %v with %d entries", what, e, m.Len())
	}
	return nil
}

// checkGets looks up every pool key with every lookup method.
func checkGets(what, fam string, s Sub, m Model, keys []Key, w uint64) error {
	for i := range keys {
		k := &keys[i]
		kw := w
		if w != 0 {
			kw = mix(w + uint64(i))
		}
		for _, gm := range getModes(fam) {
			gv, gok := s.Get(gm, k, kw)
			mv, mok := m.Get(gm, k)
			if err := cmpGet(fmt.Sprintf("%s: %s %s", what, gm, keyText(fam, k)), gv, gok, mv, mok); err != nil {
				return err
			}
		}
	}
	return nil
}

func checkFull(what, fam string, s Sub, m Model, keys []Key, w uint64) error {
	if err := checkGets(what, fam, s, m, keys, w); err != nil {
		return err
	}
	if err := checkEmpty(what, s, m); err != nil {
		return err
	}
	return checkEnum(what, fam, s, m)
}

// histOpt tunes a linear history.
type histOpt struct {
	// after is called after every mutation.
	after func(step int, op *Op, s Sub, m Model) error
	// final is called at the end.
	final func(s Sub, m Model) error
	// noFull disables the periodic full comparison.
	noFull bool
	// every forces the full comparison interval (0: by size).
	every int
	// copyOnly / inpOnly force the insertion mode.
	force string
	// sub replaces the package's empty tree.
	sub Sub
}

func wOf(cfg map[string]string, w uint64) uint64 {
	if cfg["spell"] == "plain" || cfg["keys"] == "raw" {
		return 0
	}
	return w
}

// runLinear executes a history on one tree and its reference, comparing all along.
func runLinear(c *Case, p *Pkg, st *Stats, o histOpt) (*counters, Sub, Model, error) {
	h := &counters{}
	if p == nil {
		harnessFail("unknown package %q", c.Pkg)
	}
	cur := o.sub
	if cur == nil {
		cur = p.New(c.Cfg)
	}
	if c.cfg("start") == "nil" {
		cur = cur.NilOf()
	}
	m := newModel(p, c.Cfg)
	mode := valMode(p, c.Cfg)
	every := o.every
	if every == 0 {
		every = 1
		if len(c.Keys) > 10 {
			every = len(c.Keys) / 5
		}
	}
	sinceFull := 0
	if len(c.Keys) == 0 {
		return h, cur, m, nil
	}
	do := func(step int, op *Op, kind string, ki int, v int, w uint64) error {
		k := &c.Keys[((ki%len(c.Keys))+len(c.Keys))%len(c.Keys)]
		w = wOf(c.Cfg, w)
		if o.force != "" && (kind == "ins" || kind == "inp") {
			kind = o.force
		}
		if kind == "inp" && cur.IsNil() && p.Fam != "num" {
			kind = "ins"
		}
		what := fmt.Sprintf("step %d (%s %s)", step, kind, keyText(p.Fam, k))
		// the same question before and after a change, with no other in between
		again := func() error { return nil }
		switch kind {
		case "ins", "inp", "del", "dels":
			x := mix(uint64(step)<<32 ^ uint64(ki)<<8 ^ w ^ 0x61)
			modes := getModes(p.Fam)
			gm := modes[x%uint64(len(modes))]
			qk := &c.Keys[(x>>8)%uint64(len(c.Keys))]
			qw := wOf(c.Cfg, x>>16&0xffff)
			ask := func(when string) error {
				gv, gok := cur.Get(gm, qk, qw)
				mv, mok := m.Get(gm, qk)
				return cmpGet(what+": "+when+" "+gm+" "+keyText(p.Fam, qk), gv, gok, mv, mok)
			}
			if err := ask("before it"); err != nil {
				return err
			}
			again = func() error { return ask("the same question right after it:") }
		}
		switch kind {
		case "ins", "inp":
			vv := val(mode, v)
			before := m.Len()
			if kind == "ins" {
				h.ins++
				cur = cur.Ins(k, w, vv)
			} else {
				h.inp++
				cur = cur.Inp(k, w, vv)
			}
			h.mut(kind)
			m.Insert(k, w, vv)
			if m.Len() == before {
				h.repl++
			} else {
				h.insNew++
			}
			if m.Len() > h.maxLen {
				h.maxLen = m.Len()
			}
		case "del", "dels":
			before := m.Len()
			want := m.Del(kind, k)
			t, ok := cur.Del(kind, k, w)
			if ok != want {
				return errf("%s: reported %v, expected %v", what, ok, want)
			}
			cur = t
			if ok {
				h.delHit++
				if before-m.Len() > 1 {
					h.delMany++
				}
				if m.Len() == 0 {
					h.emptied++
				}
			} else {
				h.delMiss++
			}
			h.mut(kind)
		case "get", "match", "exact", "find":
			gv, gok := cur.Get(kind, k, w)
			mv, mok := m.Get(kind, k)
			if mok {
				h.getHit++
			} else {
				h.getMiss++
			}
			return cmpGet(what, gv, gok, mv, mok)
		case "enum":
			h.enums++
			return checkEnum(what, p.Fam, cur, m)
		case "empty":
			return checkEmpty(what, cur, m)
		default:
			harnessFail("unknown op %q", kind)
		}
		if err := again(); err != nil {
			return err
		}
		for _, gm := range getModes(p.Fam) {
			gv, gok := cur.Get(gm, k, w)
			mv, mok := m.Get(gm, k)
			if err := cmpGet(what+": afterwards "+gm, gv, gok, mv, mok); err != nil {
				return err
			}
		}
		if o.after != nil {
			if err := o.after(step, op, cur, m); err != nil {
				return errf("%s: %v", what, err)
			}
		}
		if !o.noFull {
			sinceFull++
			if sinceFull >= every {
				sinceFull = 0
				if err := checkFull(what, p.Fam, cur, m, c.Keys, wOf(c.Cfg, w)); err != nil {
					return err
				}
			}
		}
		return nil
	}
	for i := range c.Ops {
		op := &c.Ops[i]
		switch op.O {
		case "insrun", "inprun", "delrun":
			// a run over the pool: N keys from K on, stride from W
			stride := []int{1, -1, 2, 7}[op.T%4]
			for j := 0; j < op.N; j++ {
				if err := do(i, op, op.O[:3], op.K+j*stride, op.V+j, op.W); err != nil {
					return h, cur, m, err
				}
			}
		default:
			if err := do(i, op, op.O, op.K, op.V, op.W); err != nil {
				return h, cur, m, err
			}
		}
	}
	if !o.noFull {
		if err := checkFull("end", p.Fam, cur, m, c.Keys, wOf(c.Cfg, uint64(len(c.Ops)))); err != nil {
			return h, cur, m, err
		}
	}
	if o.final != nil {
		if err := o.final(cur, m); err != nil {
			return h, cur, m, err
		}
	}
	return h, cur, m, nil
}

// opMix gives weights of operation kinds for a history.
type opMix struct {
	names   []string
	weights []int
}

func (g *G) op(mx opMix) string { return mx.names[g.W(mx.weights...)] }

// mixFor draws an operation mix: insert-heavy, balanced or delete-heavy.
func mixFor(g *G, fam string, inplace, deletes bool) opMix {
	ins, inp, del, get := 30, 30, 30, 10
	switch g.Int(6) {
	case 0:
		ins, inp = 50, 0
	case 1:
		ins, inp = 0, 50
	case 2:
		del = 55
	case 3:
		del = 12
	case 4:
		ins, inp, del = 15, 15, 40
	}
	if !inplace {
		ins, inp = ins+inp, 0
	}
	if !deletes {
		del = 0
	}
	mx := opMix{[]string{"ins", "inp", "del", "enum"}, []int{ins, inp, del, 2}}
	switch fam {
	case "num":
		mx.names = append(mx.names, "match", "exact", "find")
		mx.weights = append(mx.weights, get/2, get/4+1, get/4+1)
	case "dom":
		mx.weights[2] = del * 2 / 3
		mx.names = append(mx.names, "get", "dels")
		mx.weights = append(mx.weights, get, del/3)
	default:
		mx.names = append(mx.names, "get")
		mx.weights = append(mx.weights, get)
	}
	return mx
}

// genOps draws n operations over nk keys.
func genOps(g *G, mx opMix, nk, n int) []Op {
	ops := make([]Op, 0, n)
	// a hot subset makes keys meet again
	hot := 0
	if nk > 6 && g.P(40) {
		hot = g.Range(2, 6)
	}
	for i := 0; i < n; i++ {
		op := Op{O: g.op(mx), V: i + 1}
		if hot > 0 && g.P(40) {
			op.K = g.Int(hot)
		} else {
			op.K = g.Int(nk)
		}
		if g.P(60) {
			op.W = g.U64()>>1 + 1
		} else if g.P(50) {
			op.W = uint64(g.Int(3))
		}
		if g.P(15) {
			op.V = g.Int(8) // boundary values
		} else if g.mg() {
			op.V = numTok(g.mInt())
		}
		ops = append(ops, op)
	}
	return ops
}

// genLinear draws a linear history for a package.
func genLinear(g *G, pkg string, maxPool int, inplace, deletes bool) *Case {
	p := pkgs[pkg]
	c := &Case{Pkg: pkg, Cfg: map[string]string{}}
	if p.Fam == "str" {
		c.Cfg["cmp"] = pick(g, cmpNames)
	}
	if g.P(8) {
		c.Cfg["start"] = "nil"
		delete(c.Cfg, "cmp")
	}
	n := poolSize(g, maxPool)
	c.Keys = genKeys(g, p, n)
	nk := len(c.Keys)
	mx := mixFor(g, p.Fam, inplace, deletes)
	// bulk phase
	if nk >= 8 && g.P(50) {
		kind := "insrun"
		if inplace && g.P(50) {
			kind = "inprun"
		}
		c.Ops = append(c.Ops, Op{O: kind, K: g.Int(nk), N: g.Range(nk/2, nk), T: g.Int(4), V: g.Int(1000), W: g.U64() >> 1})
	}
	nops := g.Range(1, 6+min(3*nk, 120))
	if g.mg() {
		if k := g.mUpTo(400); k >= 0 {
			nops = k + g.Int(6)
		}
	}
	c.Ops = append(c.Ops, genOps(g, mx, nk, nops)...)
	if nk >= 8 && deletes && g.P(40) {
		c.Ops = append(c.Ops, Op{O: "delrun", K: g.Int(nk), N: g.Range(nk/3, nk), T: g.Int(4), W: g.U64() >> 1})
		c.Ops = append(c.Ops, genOps(g, mx, nk, g.Range(0, 12))...)
	}
	return c
}
