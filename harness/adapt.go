package main

import (
	"bytes"
	"encoding/hex"
	"fmt"
	"net"
	"strconv"
	"strings"

	"github.com/infobloxopen/go-trees/dltree"
	"github.com/infobloxopen/go-trees/domain"
	"github.com/infobloxopen/go-trees/domaintree"
	"github.com/infobloxopen/go-trees/iptree"
	"github.com/infobloxopen/go-trees/numtree"
	"github.com/infobloxopen/go-trees/strtree"
)

// Sub is a tree of the code under test, whatever its kind. Every method gives a wrapper; the wrapped
// values are those the package returns.
type Sub interface {
	Ins(k *Key, w uint64, v interface{}) Sub
	Inp(k *Key, w uint64, v interface{}) Sub
	Get(m string, k *Key, w uint64) (interface{}, bool)
	Del(m string, k *Key, w uint64) (Sub, bool)
	// Enum starts an enumeration; each call of the result receives one entry.
	Enum(m string) func() (Ent, bool)
	Empty() (empty, supported bool)
	Dot() (string, bool)
	IsNil() bool
	// NilOf gives the absent tree of the same type.
	NilOf() Sub
	// Obj is the library's own tree value.
	Obj() interface{}
}

// Pkg describes one package under test.
type Pkg struct {
	Name  string
	Fam   string // str dl num ip dom
	Width int    // value width, 0 for interface{} values
	Bits  int    // key width of numeric trees
	New   func(cfg map[string]string) Sub
	// CmpCount counts comparator calls (string trees).
}

var pkgs = map[string]*Pkg{}
var pkgNames []string

func addPkg(p *Pkg) {
	pkgs[p.Name] = p
	pkgNames = append(pkgNames, p.Name)
}

func pkgsOf(fams ...string) []string {
	var out []string
	for _, n := range pkgNames {
		for _, f := range fams {
			if pkgs[n].Fam == f {
				out = append(out, n)
			}
		}
	}
	return out
}

// conv converts values between the harness and a package's value type.
type conv[V any] struct {
	to   func(interface{}) V
	from func(V) interface{}
}

func anyConv() conv[interface{}] {
	id := func(v interface{}) interface{} { return v }
	return conv[interface{}]{id, id}
}

// ---------------------------------------------------------------------------
// String trees

type strTree[T, V, P any] interface {
	Insert(string, V) T
	InplaceInsert(string, V)
	Get(string) (V, bool)
	Delete(string) (T, bool)
	Enumerate() chan P
	IsEmpty() bool
	Dot() string
}

type strSub[T strTree[T, V, P], V, P any] struct {
	t     T
	c     conv[V]
	pair  func(P) (string, V)
	isNil func(T) bool
}

func (s *strSub[T, V, P]) with(t T) Sub { c := *s; c.t = t; return &c }
func (s *strSub[T, V, P]) Ins(k *Key, w uint64, v interface{}) Sub {
	return s.with(s.t.Insert(string(k.S), s.c.to(v)))
}
func (s *strSub[T, V, P]) Inp(k *Key, w uint64, v interface{}) Sub {
	s.t.InplaceInsert(string(k.S), s.c.to(v))
	return s
}
func (s *strSub[T, V, P]) Get(_ string, k *Key, w uint64) (interface{}, bool) {
	v, ok := s.t.Get(string(k.S))
	return s.c.from(v), ok
}
func (s *strSub[T, V, P]) Del(_ string, k *Key, w uint64) (Sub, bool) {
	t, ok := s.t.Delete(string(k.S))
	return s.with(t), ok
}
func (s *strSub[T, V, P]) Enum(string) func() (Ent, bool) {
	ch := s.t.Enumerate()
	return func() (Ent, bool) {
		p, ok := <-ch
		if !ok {
			return Ent{}, false
		}
		k, v := s.pair(p)
		return Ent{K: k, V: s.c.from(v), Raw: k}, true
	}
}
func (s *strSub[T, V, P]) Empty() (bool, bool) { return s.t.IsEmpty(), true }
func (s *strSub[T, V, P]) Dot() (string, bool) { return s.t.Dot(), true }
func (s *strSub[T, V, P]) IsNil() bool         { return s.isNil(s.t) }
func (s *strSub[T, V, P]) NilOf() Sub          { var z T; return s.with(z) }
func (s *strSub[T, V, P]) Obj() interface{}    { return s.t }

func addStr[T strTree[T, V, P], V, P any](name string, width int, c conv[V], pair func(P) (string, V), isNil func(T) bool, mk func(cmpFn) T, def func() T) {
	addPkg(&Pkg{Name: name, Fam: "str", Width: width, New: func(cfg map[string]string) Sub {
		f, ok := comparators[cfg["cmp"]]
		if !ok {
			harnessFail("comparator %q", cfg["cmp"])
		}
		s := &strSub[T, V, P]{c: c, pair: pair, isNil: isNil}
		if f == nil {
			s.t = def()
		} else {
			s.t = mk(f)
		}
		return s
	}})
}

// ---------------------------------------------------------------------------
// Label tree

type dlSub struct{ t *dltree.Tree }

// dlHuman picks between the human-readable and the binary interface.
func dlHuman(w uint64) bool { return w&1 == 1 }

// strict says whether Ent.K must be exactly canonical; human keys are decoded with the reference.
func dlSpell(k *Key, w uint64) string {
	if w>>1 == 0 {
		return humanLabel(k.S)
	}
	r := &rnd{w >> 1}
	s := spellLabel(k.S, r)
	if r.n(3) == 0 {
		s += "."
	}
	return s
}

func (s *dlSub) Ins(k *Key, w uint64, v interface{}) Sub {
	if dlHuman(w) {
		return &dlSub{s.t.Insert(dlSpell(k, w), v)}
	}
	return &dlSub{s.t.RawInsert(string(k.S), v)}
}
func (s *dlSub) Inp(k *Key, w uint64, v interface{}) Sub {
	if dlHuman(w) {
		s.t.InplaceInsert(dlSpell(k, w), v)
	} else {
		s.t.RawInplaceInsert(string(k.S), v)
	}
	return s
}
func (s *dlSub) Get(_ string, k *Key, w uint64) (interface{}, bool) {
	if dlHuman(w) {
		return s.t.Get(dlSpell(k, w))
	}
	return s.t.RawGet(string(k.S))
}
func (s *dlSub) Del(_ string, k *Key, w uint64) (Sub, bool) {
	var (
		t  *dltree.Tree
		ok bool
	)
	if dlHuman(w) {
		t, ok = s.t.Delete(dlSpell(k, w))
	} else {
		t, ok = s.t.RawDelete(string(k.S))
	}
	return &dlSub{t}, ok
}
func (s *dlSub) Enum(m string) func() (Ent, bool) {
	if m == "human" {
		ch := s.t.Enumerate()
		return func() (Ent, bool) {
			p, ok := <-ch
			if !ok {
				return Ent{}, false
			}
			l, bad, dots := parseLabelRef(p.Key)
			if bad != 0 || dots {
				return Ent{K: "unparsable label " + fmt.Sprintf("%q", p.Key), V: p.Value, Raw: p.Key}, true
			}
			return Ent{K: string(l), V: p.Value, Raw: p.Key}, true
		}
	}
	ch := s.t.RawEnumerate()
	return func() (Ent, bool) {
		p, ok := <-ch
		if !ok {
			return Ent{}, false
		}
		return Ent{K: p.Key, V: p.Value, Raw: p.Key}, true
	}
}
func (s *dlSub) Empty() (bool, bool) { return s.t.IsEmpty(), true }
func (s *dlSub) Dot() (string, bool) { return s.t.Dot(), true }
func (s *dlSub) IsNil() bool         { return s.t == nil }
func (s *dlSub) NilOf() Sub          { return &dlSub{} }
func (s *dlSub) Obj() interface{}    { return s.t }

// ---------------------------------------------------------------------------
// Numeric trees

type numTree[T any, K uint32 | uint64] interface {
	Insert(K, int, interface{}) T
	InplaceInsert(K, int, interface{}) T
	Match(K, int) (interface{}, bool)
	ExactMatch(K, int) (interface{}, bool)
	FindNode(K, int) T
	Delete(K, int) (T, bool)
	Enumerate() chan T
	Children() (T, T)
	Dot() string
}

type numNode struct {
	nil  bool
	key  uint64 // left-aligned, as stored
	bits int
	leaf bool
	val  interface{}
}

type numSub[T numTree[T, K], K uint32 | uint64] struct {
	t     T
	width int
	fld   func(T) numNode
}

const numPlain = 0 // w == 0: arguments passed as they are

// numArgs gives the arguments for a key: with w != 0 the bits past the length are scrambled and the
// ends of the length range may be overrun.
func numArgs(k *Key, w uint64, width int) (uint64, int) {
	hi, b := k.Hi, k.B
	if b < 0 {
		b = 0
	}
	if b > width {
		b = width
	}
	if w == numPlain {
		return hi, b
	}
	r := &rnd{w}
	p := maskPfx(0, hi, 0, b)
	switch r.n(4) {
	case 0:
		hi = p.hi | ^maskPfx(0, ^uint64(0), 0, b).hi
	case 1:
		hi = p.hi
	default:
		hi = p.hi | (r.next() &^ maskPfx(0, ^uint64(0), 0, b).hi)
	}
	if b == 0 {
		b = []int{0, 0, -1, -8, -255, -256, -257, -1 << 31, -1 << 63, -1 << 32}[r.n(10)]
	} else if b == width {
		b = []int{width, width, width + 1, width + 7, 255, 256, 256 + width - 1, 257, 1 << 31, 1 << 32, 1<<32 + 3, 1<<63 - 1, 300}[r.n(13)]
	}
	return hi, b
}

func (s *numSub[T, K]) with(t T) Sub { c := *s; c.t = t; return &c }
func (s *numSub[T, K]) a(k *Key, w uint64) (K, int) {
	hi, b := numArgs(k, w, s.width)
	return K(hi >> uint(64-s.width)), b
}
func (s *numSub[T, K]) Ins(k *Key, w uint64, v interface{}) Sub {
	x, b := s.a(k, w)
	return s.with(s.t.Insert(x, b, v))
}
func (s *numSub[T, K]) Inp(k *Key, w uint64, v interface{}) Sub {
	x, b := s.a(k, w)
	s.t = s.t.InplaceInsert(x, b, v)
	return s
}
func (s *numSub[T, K]) Get(m string, k *Key, w uint64) (interface{}, bool) {
	x, b := s.a(k, w)
	switch m {
	case "exact":
		return s.t.ExactMatch(x, b)
	case "find":
		n := s.fld(s.t.FindNode(x, b))
		if n.nil {
			return nil, false
		}
		if b < 0 {
			b = 0
		}
		if b > s.width {
			b = s.width
		}
		want := maskPfx(0, uint64(x)<<uint(64-s.width), 0, b)
		got := maskPfx(0, n.key, 0, n.bits)
		if got != want || !n.leaf {
			return wrongNode{fmt.Sprintf("node key %016x bits %d leaf %v instead of key %016x bits %d with data", n.key, n.bits, n.leaf, want.hi, b)}, true
		}
		return n.val, true
	}
	return s.t.Match(x, b)
}

// wrongNode stands for a node that does not carry what was asked for.
type wrongNode struct{ s string }

func (s *numSub[T, K]) Del(_ string, k *Key, w uint64) (Sub, bool) {
	x, b := s.a(k, w)
	t, ok := s.t.Delete(x, b)
	return s.with(t), ok
}
func (s *numSub[T, K]) Enum(string) func() (Ent, bool) {
	ch := s.t.Enumerate()
	return func() (Ent, bool) {
		t, ok := <-ch
		if !ok {
			return Ent{}, false
		}
		n := s.fld(t)
		if n.nil {
			return Ent{K: "nil node", Raw: "nil node"}, true
		}
		raw := numText(n.key, n.bits)
		if !n.leaf {
			return Ent{K: "node without data " + raw, Raw: raw}, true
		}
		return Ent{K: maskPfx(0, n.key, 0, n.bits).id(), V: n.val, Raw: raw}, true
	}
}
func (s *numSub[T, K]) Empty() (bool, bool) { return false, false }
func (s *numSub[T, K]) Dot() (string, bool) { return s.t.Dot(), true }
func (s *numSub[T, K]) IsNil() bool         { return s.fld(s.t).nil }
func (s *numSub[T, K]) NilOf() Sub          { var z T; return s.with(z) }
func (s *numSub[T, K]) Obj() interface{}    { return s.t }

// shape checks compactness and returns the structure as text (keys masked); err describes a violation.
func (s *numSub[T, K]) Shape() (string, error) {
	var sb strings.Builder
	var walk func(t T) error
	walk = func(t T) error {
		n := s.fld(t)
		if n.nil {
			sb.WriteString("-")
			return nil
		}
		p := maskPfx(0, n.key, 0, n.bits)
		if n.bits < 0 || n.bits > s.width {
			return errf("node length %d outside 0..%d", n.bits, s.width)
		}
		fmt.Fprintf(&sb, "(%016x/%d", p.hi, n.bits)
		if n.leaf {
			sb.WriteString("*")
		}
		l, r := t.Children()
		for i, c := range []T{l, r} {
			m := s.fld(c)
			if m.nil {
				if !n.leaf {
					return errf("node %016x/%d has no data and lacks child %d", p.hi, n.bits, i)
				}
				continue
			}
			if m.bits <= n.bits {
				return errf("child %016x/%d not longer than its parent %016x/%d", m.key, m.bits, p.hi, n.bits)
			}
			q := maskPfx(0, m.key, 0, m.bits)
			if !p.contains(q) {
				return errf("child %016x/%d outside its parent %016x/%d", q.hi, m.bits, p.hi, n.bits)
			}
			if int(q.hi>>uint(63-n.bits)&1) != i {
				return errf("child %016x/%d on side %d of parent %016x/%d", q.hi, m.bits, i, p.hi, n.bits)
			}
		}
		if err := walk(l); err != nil {
			return err
		}
		if err := walk(r); err != nil {
			return err
		}
		sb.WriteString(")")
		return nil
	}
	err := walk(s.t)
	return sb.String(), err
}

type shaper interface{ Shape() (string, error) }

// ---------------------------------------------------------------------------
// IP trees

type ipTree[T, V, P any] interface {
	InsertNet(*net.IPNet, V) T
	InplaceInsertNet(*net.IPNet, V)
	InsertIP(net.IP, V) T
	InplaceInsertIP(net.IP, V)
	GetByNet(*net.IPNet) (V, bool)
	GetByIP(net.IP) (V, bool)
	DeleteByNet(*net.IPNet) (T, bool)
	DeleteByIP(net.IP) (T, bool)
	Enumerate() chan P
}

type ipSub[T ipTree[T, V, P], V, P any] struct {
	t     T
	c     conv[V]
	pair  func(P) (*net.IPNet, V)
	isNil func(T) bool
	// hook sees every address object passed in and out (memory isolation checks).
	hook *ipHook
}

// ipHook records what was passed to the tree and lets the caller scramble it.
type ipHook struct {
	scramble bool
	problem  string
	seed     uint64
}

func (h *ipHook) after(what string, n *net.IPNet, ip net.IP, keepIP, keepMask []byte) {
	if h == nil {
		return
	}
	if n != nil {
		if !bytes.Equal(n.IP[:cap(n.IP)], keepIP) || !bytes.Equal(n.Mask[:cap(n.Mask)], keepMask) {
			h.problem = fmt.Sprintf("%s changed the memory of its argument from %x/%x to %x/%x", what, keepIP, keepMask, []byte(n.IP[:cap(n.IP)]), []byte(n.Mask[:cap(n.Mask)]))
		}
		if h.scramble {
			h.scr(n.IP)
			h.scr(n.Mask)
		}
		return
	}
	if !bytes.Equal(ip[:cap(ip)], keepIP) {
		h.problem = fmt.Sprintf("%s changed the memory of its argument from %x to %x", what, keepIP, []byte(ip[:cap(ip)]))
	}
	if h.scramble {
		h.scr(ip)
	}
}
func (h *ipHook) scr(b []byte) {
	for i := range b {
		h.seed = h.seed*6364136223846793005 + 1442695040888963407
		b[i] ^= byte(h.seed>>56) | 1
	}
}

// ipBytes is a fresh byte slice with spare capacity (so an append into it is visible).
func ipBytes(b []byte) []byte {
	o := make([]byte, len(b), len(b)+24)
	copy(o, b)
	for i := len(b); i < cap(o); i++ {
		o[:cap(o)][i] = 0xa5
	}
	return o
}

func v4bytes(hi uint64) []byte {
	return []byte{byte(hi >> 56), byte(hi >> 48), byte(hi >> 40), byte(hi >> 32)}
}
func v6bytes(hi, lo uint64) []byte {
	b := make([]byte, 16)
	for i := 0; i < 8; i++ {
		b[i] = byte(hi >> uint(56-8*i))
		b[8+i] = byte(lo >> uint(56-8*i))
	}
	return b
}

func isMapped(hi, lo uint64) bool { return hi == 0 && lo>>32 == 0xffff }

// ipArgs gives a network or an address for the key. Host bits are scrambled when w says so; single
// addresses may go through the address methods, IPv4 ones in either the 4-byte or the mapped form.
func ipArgs(k *Key, w uint64) (n *net.IPNet, ip net.IP) {
	hi, lo, b := k.Hi, k.Lo, k.B
	if b < 0 {
		b = 0
	}
	r := &rnd{w}
	if k.F == 4 {
		if b > 32 {
			b = 32
		}
		lo = 0
		hi &^= 1<<32 - 1
		m := maskPfx(4, ^uint64(0), 0, b).hi
		if w != 0 {
			switch r.n(3) {
			case 0:
				hi &= m
			case 1:
				hi = hi&m | r.next()&^m
			case 2:
				hi = hi&m | ^m
			}
			if b == 32 {
				switch r.n(3) {
				case 0:
					return nil, net.IP(ipBytes(v4bytes(hi)))
				case 1:
					x := append([]byte{0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0xff, 0xff}, v4bytes(hi)...)
					return nil, net.IP(ipBytes(x))
				}
			}
		}
		return &net.IPNet{IP: net.IP(ipBytes(v4bytes(hi))), Mask: net.IPMask(ipBytes(net.CIDRMask(b, 32)))}, nil
	}
	if b > 128 {
		b = 128
	}
	m := maskPfx(6, ^uint64(0), ^uint64(0), b)
	if w != 0 {
		x, y := r.next(), r.next()
		switch r.n(3) {
		case 0:
			x, y = 0, 0
		case 1:
			x, y = ^uint64(0), ^uint64(0)
		}
		hi = hi&m.hi | x&^m.hi
		lo = lo&m.lo | y&^m.lo
		if b == 128 && !isMapped(hi, lo) && r.n(2) == 0 {
			return nil, net.IP(ipBytes(v6bytes(hi, lo)))
		}
	}
	return &net.IPNet{IP: net.IP(ipBytes(v6bytes(hi, lo))), Mask: net.IPMask(ipBytes(net.CIDRMask(b, 128)))}, nil
}

func (s *ipSub[T, V, P]) with(t T) Sub { c := *s; c.t = t; return &c }

// cp copies a slice including its spare capacity.
func cp(b []byte) []byte { return append([]byte(nil), b[:cap(b)]...) }

func (s *ipSub[T, V, P]) Ins(k *Key, w uint64, v interface{}) Sub {
	n, ip := ipArgs(k, w)
	var t T
	if n == nil {
		keep := cp(ip)
		t = s.t.InsertIP(ip, s.c.to(v))
		s.hook.after("InsertIP", nil, ip, keep, nil)
	} else {
		ki, km := cp(n.IP), cp(n.Mask)
		t = s.t.InsertNet(n, s.c.to(v))
		s.hook.after("InsertNet", n, nil, ki, km)
	}
	return s.with(t)
}
func (s *ipSub[T, V, P]) Inp(k *Key, w uint64, v interface{}) Sub {
	n, ip := ipArgs(k, w)
	if n == nil {
		keep := cp(ip)
		s.t.InplaceInsertIP(ip, s.c.to(v))
		s.hook.after("InplaceInsertIP", nil, ip, keep, nil)
	} else {
		ki, km := cp(n.IP), cp(n.Mask)
		s.t.InplaceInsertNet(n, s.c.to(v))
		s.hook.after("InplaceInsertNet", n, nil, ki, km)
	}
	return s
}
func (s *ipSub[T, V, P]) Get(_ string, k *Key, w uint64) (interface{}, bool) {
	n, ip := ipArgs(k, w)
	var (
		v  V
		ok bool
	)
	if n == nil {
		keep := cp(ip)
		v, ok = s.t.GetByIP(ip)
		s.hook.after("GetByIP", nil, ip, keep, nil)
	} else {
		ki, km := cp(n.IP), cp(n.Mask)
		v, ok = s.t.GetByNet(n)
		s.hook.after("GetByNet", n, nil, ki, km)
	}
	return s.c.from(v), ok
}
func (s *ipSub[T, V, P]) Del(_ string, k *Key, w uint64) (Sub, bool) {
	n, ip := ipArgs(k, w)
	var (
		t  T
		ok bool
	)
	if n == nil {
		keep := cp(ip)
		t, ok = s.t.DeleteByIP(ip)
		s.hook.after("DeleteByIP", nil, ip, keep, nil)
	} else {
		ki, km := cp(n.IP), cp(n.Mask)
		t, ok = s.t.DeleteByNet(n)
		s.hook.after("DeleteByNet", n, nil, ki, km)
	}
	return s.with(t), ok
}

// numText does without fmt, whose pools order goroutines and so could hide data races from the detector.
func numText(key uint64, bits int) string {
	k := strconv.FormatUint(key, 16)
	return strings.Repeat("0", 16-len(k)) + k + "/" + strconv.Itoa(bits)
}

// ipEnt turns a yielded network into an entry; a key that is not canonical becomes an entry that
// equals no model entry.
func ipEnt(n *net.IPNet, v interface{}) Ent {
	if n == nil {
		return Ent{K: "nil network", V: v, Raw: "nil"}
	}
	raw := hex.EncodeToString(n.IP) + "/" + hex.EncodeToString(n.Mask)
	ones, bits := n.Mask.Size()
	var p pfx
	switch {
	case len(n.IP) == 4 && bits == 32:
		p = pfx{f: 4, b: ones}
		for i := 0; i < 4; i++ {
			p.hi |= uint64(n.IP[i]) << uint(56-8*i)
		}
	case len(n.IP) == 16 && bits == 128:
		p = pfx{f: 6, b: ones}
		for i := 0; i < 8; i++ {
			p.hi |= uint64(n.IP[i]) << uint(56-8*i)
			p.lo |= uint64(n.IP[8+i]) << uint(56-8*i)
		}
	default:
		return Ent{K: "malformed network " + raw, V: v, Raw: raw}
	}
	if maskPfx(p.f, p.hi, p.lo, p.b) != p {
		return Ent{K: "unmasked network " + raw, V: v, Raw: raw}
	}
	return Ent{K: p.id(), V: v, Raw: raw}
}

// keptNets holds on to networks handed out by a tree, as a caller collecting them does, together with
// what they were: producing the following ones must not rewrite them.
type keptNets []keptNet

type keptNet struct {
	n        *net.IPNet
	ip, mask []byte
}

func (k *keptNets) add(n *net.IPNet) {
	if n != nil {
		*k = append(*k, keptNet{n, append([]byte{}, n.IP...), append([]byte{}, n.Mask...)})
	}
}

func (k keptNets) changed() string {
	for i, x := range k {
		if !bytes.Equal(x.n.IP, x.ip) || !bytes.Equal(x.n.Mask, x.mask) {
			return fmt.Sprintf("network %x/%x handed out as number %d had become %x/%x by the end", x.ip, x.mask, i, []byte(x.n.IP), []byte(x.n.Mask))
		}
	}
	return ""
}

func (s *ipSub[T, V, P]) Enum(string) func() (Ent, bool) {
	ch := s.t.Enumerate()
	var kept keptNets
	return func() (Ent, bool) {
		p, ok := <-ch
		if !ok {
			if bad := kept.changed(); bad != "" {
				kept = nil
				return Ent{K: bad, Raw: bad}, true
			}
			return Ent{}, false
		}
		n, v := s.pair(p)
		e := ipEnt(n, s.c.from(v))
		if s.hook != nil && s.hook.scramble && n != nil {
			// up to the capacity: the caller may append to what it got
			s.hook.scr(n.IP[:cap(n.IP)])
			s.hook.scr(n.Mask[:cap(n.Mask)])
		}
		kept.add(n)
		return e, true
	}
}
func (s *ipSub[T, V, P]) Empty() (bool, bool) { return false, false }
func (s *ipSub[T, V, P]) Dot() (string, bool) { return "", false }
func (s *ipSub[T, V, P]) IsNil() bool         { return s.isNil(s.t) }
func (s *ipSub[T, V, P]) NilOf() Sub          { var z T; return s.with(z) }
func (s *ipSub[T, V, P]) Obj() interface{}    { return s.t }
func (s *ipSub[T, V, P]) Hook(h *ipHook)      { s.hook = h }

// Raw calls one method of the package with the given arguments.
func (s *ipSub[T, V, P]) Raw(api int, n *net.IPNet, ip net.IP, v interface{}) (t Sub, r interface{}, ok bool) {
	var (
		rt T
		rv V
	)
	switch api {
	case 0:
		return s.with(s.t.InsertNet(n, s.c.to(v))), nil, false
	case 1:
		s.t.InplaceInsertNet(n, s.c.to(v))
		return s, nil, false
	case 2:
		return s.with(s.t.InsertIP(ip, s.c.to(v))), nil, false
	case 3:
		s.t.InplaceInsertIP(ip, s.c.to(v))
		return s, nil, false
	case 4:
		rv, ok = s.t.GetByNet(n)
		return nil, s.c.from(rv), ok
	case 5:
		rv, ok = s.t.GetByIP(ip)
		return nil, s.c.from(rv), ok
	case 6:
		rt, ok = s.t.DeleteByNet(n)
		return s.with(rt), nil, ok
	}
	rt, ok = s.t.DeleteByIP(ip)
	return s.with(rt), nil, ok
}

var rawNames = []string{"InsertNet", "InplaceInsertNet", "InsertIP", "InplaceInsertIP", "GetByNet", "GetByIP", "DeleteByNet", "DeleteByIP"}

type ipRaw interface {
	Raw(api int, n *net.IPNet, ip net.IP, v interface{}) (Sub, interface{}, bool)
	Hook(*ipHook)
}

// doUpdate runs UpdateDescendants of the generic IP tree.
func doUpdate(s Sub, k *Key, w uint64, f func(Ent) (interface{}, bool)) error {
	t, ok := s.Obj().(*iptree.Tree)
	if !ok {
		harnessFail("UpdateDescendants on %T", s.Obj())
	}
	n, _ := ipArgs(k, w)
	if n == nil {
		n, _ = ipArgs(k, 0)
	}
	var hook *ipHook
	if x, ok := s.(*ipSub[*iptree.Tree, interface{}, iptree.Pair]); ok {
		hook = x.hook
	}
	ki, km := cp(n.IP), cp(n.Mask)
	var kept keptNets
	t.UpdateDescendants(n, func(p iptree.Pair) (interface{}, bool) {
		e := ipEnt(p.Key, p.Value)
		if hook != nil && hook.scramble && p.Key != nil {
			hook.scr(p.Key.IP[:cap(p.Key.IP)])
			hook.scr(p.Key.Mask[:cap(p.Key.Mask)])
		}
		kept.add(p.Key)
		return f(e)
	})
	hook.after("UpdateDescendants", n, nil, ki, km)
	if bad := kept.changed(); bad != "" {
		return errf("%s", bad)
	}
	return nil
}

func addIP[T ipTree[T, V, P], V, P any](name string, width int, c conv[V], pair func(P) (*net.IPNet, V), isNil func(T) bool, mk func() T) {
	addPkg(&Pkg{Name: name, Fam: "ip", Width: width, New: func(map[string]string) Sub {
		return &ipSub[T, V, P]{t: mk(), c: c, pair: pair, isNil: isNil}
	}})
}

// ---------------------------------------------------------------------------
// Domain trees

type domTree[T, V, P any] interface {
	Insert(domain.Name, V) T
	InplaceInsert(domain.Name, V)
	Get(domain.Name) (V, bool)
	Delete(domain.Name) (T, bool)
	DeleteSubdomains(domain.Name) (T, bool)
	Enumerate() chan P
}

type domSub[T domTree[T, V, P], V, P any] struct {
	t     T
	c     conv[V]
	pair  func(P) (string, V)
	isNil func(T) bool
}

// domName spells and parses the name; names given to the trees are valid by construction.
func domName(k *Key, w uint64) domain.Name {
	s := spellName(k.L, w)
	n, err := domain.MakeNameFromString(s)
	if err != nil {
		panic(fmt.Sprintf("valid name %q refused: %v", s, err))
	}
	return n
}

func (s *domSub[T, V, P]) with(t T) Sub { c := *s; c.t = t; return &c }
func (s *domSub[T, V, P]) Ins(k *Key, w uint64, v interface{}) Sub {
	return s.with(s.t.Insert(domName(k, w), s.c.to(v)))
}
func (s *domSub[T, V, P]) Inp(k *Key, w uint64, v interface{}) Sub {
	s.t.InplaceInsert(domName(k, w), s.c.to(v))
	return s
}
func (s *domSub[T, V, P]) Get(_ string, k *Key, w uint64) (interface{}, bool) {
	v, ok := s.t.Get(domName(k, w))
	return s.c.from(v), ok
}
func (s *domSub[T, V, P]) Del(m string, k *Key, w uint64) (Sub, bool) {
	var (
		t  T
		ok bool
	)
	if m == "dels" {
		t, ok = s.t.DeleteSubdomains(domName(k, w))
	} else {
		t, ok = s.t.Delete(domName(k, w))
	}
	return s.with(t), ok
}
func (s *domSub[T, V, P]) Enum(string) func() (Ent, bool) {
	ch := s.t.Enumerate()
	return func() (Ent, bool) {
		p, ok := <-ch
		if !ok {
			return Ent{}, false
		}
		k, v := s.pair(p)
		l, bad := parseRef(k)
		if bad != 0 {
			return Ent{K: "unparsable name " + fmt.Sprintf("%q", k), V: s.c.from(v), Raw: k}, true
		}
		if len(l) == 0 && k != "" {
			return Ent{K: "root spelled " + fmt.Sprintf("%q", k), V: s.c.from(v), Raw: k}, true
		}
		return Ent{K: canonOf(l), V: s.c.from(v), Raw: k}, true
	}
}
func (s *domSub[T, V, P]) Empty() (bool, bool) { return false, false }
func (s *domSub[T, V, P]) Dot() (string, bool) { return "", false }
func (s *domSub[T, V, P]) IsNil() bool         { return s.isNil(s.t) }
func (s *domSub[T, V, P]) NilOf() Sub          { var z T; return s.with(z) }
func (s *domSub[T, V, P]) Obj() interface{}    { return s.t }

func addDom[T domTree[T, V, P], V, P any](name string, width int, c conv[V], pair func(P) (string, V), isNil func(T) bool, mk func() T) {
	addPkg(&Pkg{Name: name, Fam: "dom", Width: width, New: func(map[string]string) Sub {
		return &domSub[T, V, P]{t: mk(), c: c, pair: pair, isNil: isNil}
	}})
}

// ---------------------------------------------------------------------------

func init() {
	addStr[*strtree.Tree, interface{}, strtree.Pair]("strtree", 0, anyConv(),
		func(p strtree.Pair) (string, interface{}) { return p.Key, p.Value },
		func(t *strtree.Tree) bool { return t == nil },
		func(f cmpFn) *strtree.Tree { return strtree.NewTreeWithCustomComparison(strtree.Compare(f)) },
		strtree.NewTree)
	addPkg(&Pkg{Name: "dltree", Fam: "dl", New: func(map[string]string) Sub { return &dlSub{dltree.NewTree()} }})
	addPkg(&Pkg{Name: "numtree32", Fam: "num", Bits: 32, New: func(map[string]string) Sub {
		return &numSub[*numtree.Node32, uint32]{width: 32, fld: func(n *numtree.Node32) numNode {
			if n == nil {
				return numNode{nil: true}
			}
			return numNode{key: uint64(n.Key) << 32, bits: int(n.Bits), leaf: n.Leaf, val: n.Value}
		}}
	}})
	addPkg(&Pkg{Name: "numtree64", Fam: "num", Bits: 64, New: func(map[string]string) Sub {
		return &numSub[*numtree.Node64, uint64]{width: 64, fld: func(n *numtree.Node64) numNode {
			if n == nil {
				return numNode{nil: true}
			}
			return numNode{key: n.Key, bits: int(n.Bits), leaf: n.Leaf, val: n.Value}
		}}
	}})
	addIP[*iptree.Tree, interface{}, iptree.Pair]("iptree", 0, anyConv(),
		func(p iptree.Pair) (*net.IPNet, interface{}) { return p.Key, p.Value },
		func(t *iptree.Tree) bool { return t == nil }, iptree.NewTree)
	addDom[*domaintree.Node, interface{}, domaintree.Pair]("domaintree", 0, anyConv(),
		func(p domaintree.Pair) (string, interface{}) { return p.Key, p.Value },
		func(t *domaintree.Node) bool { return t == nil }, func() *domaintree.Node { return new(domaintree.Node) })
}

// altSub is a tree whose plain calls are spelled in every way that means the same: through the binary and
// the human-readable functions of a label tree, with bits past the length and lengths past the ends of the
// range, as addresses or networks, with names written differently.
type altSub struct {
	Sub
	fam string
	n   *uint64
}

// plain gives a tree whose calls with w == 0 use every spelling of the API that means the same.
func plain(p *Pkg, s Sub) Sub {
	if p.Fam == "str" {
		return s
	}
	return altSub{s, p.Fam, new(uint64)}.with(s)
}

// altShaped is one whose shape can be told (numeric trees).
type altShaped struct {
	altSub
	shaper
}

func (s altSub) with(t Sub) Sub {
	a := altSub{t, s.fam, s.n}
	if sh, ok := t.(shaper); ok {
		return altShaped{a, sh}
	}
	return a
}

func (s altSub) w(k *Key, w uint64) uint64 {
	if s.fam != "dl" {
		if w != 0 {
			return w
		}
		*s.n++
		if x := mix(*s.n); x&1 == 1 {
			return x
		}
		return 0
	}
	if w != 0 || len(k.S) == 0 || len(k.S) > 63 {
		return w
	}
	for _, c := range k.S {
		if c >= 'a' && c <= 'z' {
			return w
		}
	}
	*s.n++
	return mix(*s.n) & 1
}

func (s altSub) Ins(k *Key, w uint64, v interface{}) Sub {
	return s.with(s.Sub.Ins(k, s.w(k, w), v))
}
func (s altSub) Inp(k *Key, w uint64, v interface{}) Sub {
	return s.with(s.Sub.Inp(k, s.w(k, w), v))
}
func (s altSub) Get(m string, k *Key, w uint64) (interface{}, bool) {
	return s.Sub.Get(m, k, s.w(k, w))
}
func (s altSub) Del(m string, k *Key, w uint64) (Sub, bool) {
	t, ok := s.Sub.Del(m, k, s.w(k, w))
	return s.with(t), ok
}
func (s altSub) NilOf() Sub { return s.with(s.Sub.NilOf()) }
