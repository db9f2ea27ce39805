package main

import (
	"fmt"
	"github.com/infobloxopen/go-trees/iptree"
	"net"
	"strings"
)

// ---------------------------------------------------------------------------
// C24: absent trees and malformed addresses

func regNil() {
	names := pkgsOf("str", "dl", "num", "ip", "dom")
	register(&Prop{ID: "C24",
		Rule:  "kind nil: every read, delete and dump on a nil tree with random keys, then a history that starts from the nil tree; kind mal: histories on IP trees interleaved with calls taking nil, wrong-length, mixed-family or non-contiguous-mask arguments; non-trivial: a nil tree that goes on to hold an entry, or a malformed call on a tree of at least two entries",
		Quick: 48000, Thorough: 500000,
		Gen: func(g *G) *Case {
			if g.P(50) {
				c := genLinear(g, pick(g, pkgsOf("ip")), 30, true, true)
				c.Kind = "mal"
				var ops []Op
				for _, o := range c.Ops {
					ops = append(ops, o)
					for g.P(50) {
						ops = append(ops, Op{O: "mal", K: g.Int(len(c.Keys)), T: g.Int(8), W: g.U64() >> 1, V: g.Int(100)})
					}
				}
				c.Ops = ops
				return c
			}
			c := genLinear(g, pick(g, names), 12, true, true)
			c.Kind = "nil"
			c.Cfg["start"] = "nil"
			delete(c.Cfg, "cmp")
			if len(c.Ops) > 20 {
				c.Ops = c.Ops[:20]
			}
			return c
		},
		Run: func(c *Case, st *Stats) error {
			if c.Kind == "mal" {
				return runMalformed(c, st)
			}
			p := pkgs[c.Pkg]
			z := p.New(c.Cfg).NilOf()
			m := newModel(p, c.Cfg)
			if err := nilActsEmpty("nil tree", p, z, m, c.Keys); err != nil {
				return err
			}
			for i := range c.Keys {
				for _, mode := range []string{"del", "dels"} {
					if mode == "dels" && p.Fam != "dom" {
						continue
					}
					t, ok := z.Del(mode, &c.Keys[i], uint64(i))
					if ok {
						return errf("%s of %s from a nil tree reported true", mode, keyText(p.Fam, &c.Keys[i]))
					}
					if err := nilActsEmpty("after delete from a nil tree", p, t, m, c.Keys); err != nil {
						return err
					}
					z2 := t.Ins(&c.Keys[i], 0, val(valMode(p, c.Cfg), 3))
					m2 := newModel(p, c.Cfg)
					m2.Insert(&c.Keys[i], 0, val(valMode(p, c.Cfg), 3))
					if err := checkFull("insert into what a delete from a nil tree returned", p.Fam, z2, m2, c.Keys, 1); err != nil {
						return err
					}
				}
				t := z.Ins(&c.Keys[i], uint64(i), val(valMode(p, c.Cfg), i))
				m1 := newModel(p, c.Cfg)
				m1.Insert(&c.Keys[i], uint64(i), val(valMode(p, c.Cfg), i))
				if err := checkFull("insert into a nil tree", p.Fam, t, m1, c.Keys, 1); err != nil {
					return err
				}
				if p.Fam == "num" {
					t = p.New(c.Cfg).NilOf().Inp(&c.Keys[i], uint64(i), val(valMode(p, c.Cfg), i))
					if err := checkFull("in-place insert into a nil tree", p.Fam, t, m1, c.Keys, 1); err != nil {
						return err
					}
				}
			}
			h, _, _, err := runLinear(c, p, st, histOpt{})
			if err != nil {
				return err
			}
			st.class("nil:" + c.Pkg)
			if h.maxLen >= 1 {
				st.nt()
			}
			return nil
		}})
}

func nilActsEmpty(what string, p *Pkg, z Sub, m Model, keys []Key) error {
	if err := checkFull(what, p.Fam, z, m, keys, 1); err != nil {
		return err
	}
	if d, ok := z.Dot(); ok {
		ns, err := parseDot(d)
		if err != nil {
			return errf("%s: dump: %v", what, err)
		}
		if len(ns) > 1 || len(ns) == 1 && !dotIsNil(ns[0]) {
			return errf("%s: dumped as %q", what, d)
		}
	}
	return nil
}

// malNet builds a malformed network (never a valid one) and malIP a malformed address from a selector.
func malNet(k *Key, w uint64) *net.IPNet {
	r := &rnd{w}
	n, _ := ipArgs(k, 0)
	switch r.n(9) {
	case 0:
		return nil
	case 1: // wrong-length address
		l := []int{0, 1, 3, 5, 8, 12, 15, 17, 20, 32}[r.n(10)]
		b := make([]byte, l)
		copy(b, n.IP)
		n.IP = b
	case 2: // wrong-length mask
		l := []int{0, 1, 3, 5, 8, 15, 17}[r.n(7)]
		b := make([]byte, l)
		for i := range b {
			b[i] = 0xff
		}
		if l == 0 {
			b = nil
		}
		n.Mask = b
	case 3: // mask of the other family
		if len(n.IP) == 4 {
			n.Mask = net.CIDRMask(r.n(129), 128)
		} else {
			n.Mask = net.CIDRMask(r.n(33), 32)
		}
	case 4: // mapped IPv4 address with a 4-byte mask
		ip := net.IPv4(byte(r.n(256)), 1, 2, 3)
		n.IP, n.Mask = ip, net.CIDRMask(r.n(33), 32)
	case 5, 6: // non-contiguous mask
		b := []byte(n.Mask)
		for i := range b {
			b[i] = byte(r.next())
		}
		ones := true
		good := true
		for i := 0; i < len(b)*8; i++ {
			bit := b[i/8]>>uint(7-i%8)&1 == 1
			if bit && !ones {
				good = false
			}
			ones = ones && bit
		}
		if good {
			b[len(b)-1] = 1
			b[0] = 0x7f
		}
	case 7: // a hole or a stray bit in a proper mask
		b := []byte(n.Mask)
		ones, bits := n.Mask.Size()
		if ones < bits-1 {
			i := ones + 1 + r.n(bits-ones-1)
			b[i/8] |= 1 << uint(7-i%8)
		} else {
			i := r.n(bits - 2)
			b[i/8] &^= 1 << uint(7-i%8)
		}
	case 8:
		n.IP = nil
	}
	return n
}

func malIP(k *Key, w uint64) net.IP {
	r := &rnd{w}
	l := []int{-1, 0, 1, 2, 3, 5, 6, 7, 8, 12, 15, 17, 20, 32}[r.n(14)]
	if l < 0 {
		return nil
	}
	b := make([]byte, l)
	n, _ := ipArgs(k, 0)
	copy(b, n.IP)
	return b
}

func runMalformed(c *Case, st *Stats) error {
	p := pkgs[c.Pkg]
	if len(c.Keys) == 0 {
		return nil
	}
	// plain operations run through runLinear; malformed calls are spliced in by its after-hook order
	cur := p.New(c.Cfg)
	m := newModel(p, c.Cfg)
	mode := valMode(p, c.Cfg)
	bad := 0
	apply := func(i int, o *Op, kind string, ki, v int, w uint64) error {
		k := &c.Keys[((ki%len(c.Keys))+len(c.Keys))%len(c.Keys)]
		what := fmt.Sprintf("step %d (%s %s)", i, kind, keyText(p.Fam, k))
		switch kind {
		case "ins":
			cur = cur.Ins(k, w, val(mode, v))
			m.Insert(k, w, val(mode, v))
		case "inp":
			cur = cur.Inp(k, w, val(mode, v))
			m.Insert(k, w, val(mode, v))
		case "del":
			want := m.Del("del", k)
			t, ok := cur.Del("del", k, w)
			if ok != want {
				return errf("%s: reported %v, expected %v", what, ok, want)
			}
			cur = t
		case "mal":
			if m.Len() >= 2 {
				bad++
			}
			api := o.T % 8
			n, ip := malNet(k, w), malIP(k, w)
			desc := fmt.Sprintf("step %d: %s(%s)", i, rawNames[api], malText(api, n, ip))
			z := cur.NilOf()
			for ti, s := range []Sub{cur, z} {
				if ti == 1 && (api == 1 || api == 3) {
					continue
				}
				mm := m
				if ti == 1 {
					mm = newModel(p, c.Cfg)
					desc += " on a nil tree"
				}
				t, r, ok := s.(ipRaw).Raw(api, n, ip, val(mode, v))
				if ok {
					return errf("%s reported true", desc)
				}
				if it, is := s.Obj().(*iptree.Tree); is && ti == 0 && n != nil && api == 4 {
					calls := 0
					it.UpdateDescendants(n, func(iptree.Pair) (interface{}, bool) {
						calls++
						return val(mode, v), true
					})
					if calls > 0 {
						return errf("step %d: UpdateDescendants(%s) called back %d times", i, malText(api, n, ip), calls)
					}
				}
				if (api == 4 || api == 5) && !isZero(r) {
					return errf("%s found nothing but returned %s", desc, show(r))
				}
				if t != nil {
					if err := checkFull(desc+": the result", p.Fam, t, mm, c.Keys, w); err != nil {
						return err
					}
				}
				if err := checkFull(desc+": the tree", p.Fam, s, mm, c.Keys, w); err != nil {
					return err
				}
			}
		default:
			return checkFull(what, p.Fam, cur, m, []Key{*k}, w)
		}
		return nil
	}
	for i := range c.Ops {
		o := &c.Ops[i]
		if strings.HasSuffix(o.O, "run") {
			stride := []int{1, -1, 2, 7}[o.T%4]
			for j := 0; j < o.N; j++ {
				if err := apply(i, o, o.O[:3], o.K+j*stride, o.V+j, o.W); err != nil {
					return err
				}
			}
			continue
		}
		if err := apply(i, o, o.O, o.K, o.V, o.W); err != nil {
			return err
		}
	}
	st.class("malformed:" + c.Pkg)
	if bad > 0 {
		st.nt()
	}
	return nil
}

func malText(api int, n *net.IPNet, ip net.IP) string {
	if api == 2 || api == 3 || api == 5 || api == 7 {
		return fmt.Sprintf("%x", []byte(ip))
	}
	if n == nil {
		return "nil"
	}
	return fmt.Sprintf("%x/%x", []byte(n.IP), []byte(n.Mask))
}

// ---------------------------------------------------------------------------
// C32: no memory shared with callers

func regIPMem() {
	register(&Prop{ID: "C32",
		Rule:  "random histories on IP trees in which every address, mask and yielded key is overwritten right after the call, arguments carry spare capacity, and argument memory is compared before and after; contents must stay those of the reference; non-trivial: at least two entries and an enumeration or update whose keys were overwritten",
		Quick: 96000, Thorough: 500000,
		Gen: func(g *G) *Case {
			if g.P(30) {
				c := props["C12"].Gen(g)
				c.Kind = "update"
				return c
			}
			return genLinear(g, pick(g, pkgsOf("ip")), 40, true, true)
		},
		Run: func(c *Case, st *Stats) error {
			orig := pkgs[c.Pkg]
			if orig == nil || orig.Fam != "ip" {
				return nil
			}
			p := *orig
			hook := &ipHook{scramble: true, seed: uint64(len(c.Ops)) + 1}
			p.New = func(cfg map[string]string) Sub {
				s := orig.New(cfg)
				s.(ipRaw).Hook(hook)
				return s
			}
			if c.Kind == "update" {
				pkgs[c.Pkg] = &p
				defer func() { pkgs[c.Pkg] = orig }()
				if err := runUpdates(c, st); err != nil {
					return err
				}
				if hook.problem != "" {
					return errf("%s", hook.problem)
				}
				return nil
			}
			h, _, _, err := runLinear(c, &p, st, histOpt{after: func(step int, op *Op, s Sub, m Model) error {
				if hook.problem != "" {
					return errf("%s", hook.problem)
				}
				return nil
			}})
			if err != nil {
				return err
			}
			if hook.problem != "" {
				return errf("%s", hook.problem)
			}
			classHist(st, c, h)
			if h.maxLen >= 2 {
				st.nt()
			}
			return nil
		}})
}
