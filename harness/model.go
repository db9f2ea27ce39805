package main

import (
	"bytes"
	"math"
	"math/bits"
	"sort"
	"strings"
)

// Ent is one enumerated entry; K is the canonical identity of the key within its tree kind.
type Ent struct {
	K   string
	V   interface{}
	Raw string // the key exactly as yielded
}

// Model is a reference implementation of one tree kind.
type Model interface {
	Clone() Model
	Len() int
	Insert(k *Key, w uint64, v interface{})
	// Get answers lookup mode m.
	Get(m string, k *Key) (interface{}, bool)
	// Del answers delete mode m.
	Del(m string, k *Key) bool
	// List gives all entries; ordered says whether the order is part of the specification.
	List() (ents []Ent, ordered bool)
	// Update applies f to the entries strictly inside k if k is stored.
	Update(k *Key, f func(Ent) (interface{}, bool)) []Ent
}

// ---------------------------------------------------------------------------
// Ordered map with a comparator (string trees and label trees).

type cmpFn func(a, b string) int

func cmpLenLex(a, b string) int {
	if len(a) != len(b) {
		return len(a) - len(b)
	}
	return strings.Compare(a, b)
}

func lowerASCII(s string) string {
	b := []byte(s)
	for i, c := range b {
		if c >= 'A' && c <= 'Z' {
			b[i] = c + 32
		}
	}
	return string(b)
}

func sgn(a, b string) int { return strings.Compare(a, b) }

// comparators: every one is a consistent weak ordering.
var comparators = map[string]cmpFn{
	"":       nil,
	"bytes":  strings.Compare,
	"rev":    func(a, b string) int { return strings.Compare(b, a) },
	"ci":     func(a, b string) int { return strings.Compare(lowerASCII(a), lowerASCII(b)) },
	"lenlex": cmpLenLex,
	"first": func(a, b string) int { // only the first byte counts
		x, y := 0, 0
		if len(a) > 0 {
			x = int(a[0]) + 1
		}
		if len(b) > 0 {
			y = int(b[0]) + 1
		}
		return x - y
	},
	"h8":   func(a, b string) int { return sgn(a, b) * 256 },
	"h16":  func(a, b string) int { return sgn(a, b) * 65536 },
	"h32":  func(a, b string) int { return sgn(a, b) * (1 << 32) },
	"huge": func(a, b string) int { return sgn(a, b) * (1 << 62) },
	"ext": func(a, b string) int {
		switch sgn(a, b) {
		case -1:
			return math.MinInt
		case 1:
			return math.MaxInt
		}
		return 0
	},
	"diff": func(a, b string) int { // difference of first differing bytes, shorter first
		for i := 0; i < len(a) && i < len(b); i++ {
			if a[i] != b[i] {
				return int(a[i]) - int(b[i])
			}
		}
		return len(a) - len(b)
	},
	"asym": func(a, b string) int { // different magnitudes on both sides
		switch sgn(a, b) {
		case -1:
			return -1
		case 1:
			return 7
		}
		return 0
	},
	"asym2": func(a, b string) int {
		switch sgn(a, b) {
		case -1:
			return -3
		case 1:
			return 2
		}
		return 0
	},
}

var cmpNames = []string{"", "", "bytes", "rev", "ci", "lenlex", "first", "h8", "h16", "h32", "huge", "ext", "diff", "asym", "asym2"}

func cmpOf(name string) cmpFn {
	f, ok := comparators[name]
	if !ok {
		harnessFail("unknown comparator %q", name)
	}
	if f == nil {
		return strings.Compare
	}
	return f
}

type ordEnt struct {
	k string
	v interface{}
	// spell lists the spellings under which the entry was stored since it came to be.
	spell []string
}

type ordModel struct {
	cmp  cmpFn
	ents []ordEnt
	raw  bool // keys are identities by themselves (label trees)
}

func newOrdModel(cmp cmpFn) *ordModel { return &ordModel{cmp: cmp} }

func (m *ordModel) Clone() Model {
	return &ordModel{cmp: m.cmp, ents: append([]ordEnt(nil), m.ents...), raw: m.raw}
}
func (m *ordModel) Len() int { return len(m.ents) }
func (m *ordModel) find(k string) (int, bool) {
	i := sort.Search(len(m.ents), func(i int) bool { return m.cmp(m.ents[i].k, k) >= 0 })
	return i, i < len(m.ents) && m.cmp(m.ents[i].k, k) == 0
}
func (m *ordModel) Insert(k *Key, w uint64, v interface{}) {
	s := string(k.S)
	i, ok := m.find(s)
	if ok {
		e := &m.ents[i]
		e.v = v
		for _, x := range e.spell {
			if x == s {
				return
			}
		}
		e.spell = append(append([]string(nil), e.spell...), s)
		return
	}
	m.ents = append(m.ents, ordEnt{})
	copy(m.ents[i+1:], m.ents[i:])
	m.ents[i] = ordEnt{k: s, v: v, spell: []string{s}}
}
func (m *ordModel) Get(_ string, k *Key) (interface{}, bool) {
	if i, ok := m.find(string(k.S)); ok {
		return m.ents[i].v, true
	}
	return nil, false
}
func (m *ordModel) Del(_ string, k *Key) bool {
	i, ok := m.find(string(k.S))
	if ok {
		n := make([]ordEnt, 0, len(m.ents))
		n = append(n, m.ents[:i]...)
		m.ents = append(n, m.ents[i+1:]...)
	}
	return ok
}
func (m *ordModel) List() ([]Ent, bool) {
	out := make([]Ent, len(m.ents))
	for i, e := range m.ents {
		out[i] = Ent{K: e.k, V: e.v}
	}
	return out, true
}
func (m *ordModel) Update(*Key, func(Ent) (interface{}, bool)) []Ent { return nil }

// ---------------------------------------------------------------------------
// Prefix maps (numeric and IP trees).

type pfx struct {
	f      int
	hi, lo uint64
	b      int
}

// maskPfx clears everything past the prefix length; width 32 keys live in the top half of hi.
func maskPfx(f int, hi, lo uint64, b int) pfx {
	switch {
	case b <= 0:
		hi, lo = 0, 0
	case b < 64:
		hi &= ^uint64(0) << uint(64-b)
		lo = 0
	case b == 64:
		lo = 0
	case b < 128:
		lo &= ^uint64(0) << uint(128-b)
	}
	return pfx{f, hi, lo, b}
}

func (p pfx) contains(q pfx) bool {
	if p.f != q.f || p.b > q.b {
		return false
	}
	r := maskPfx(q.f, q.hi, q.lo, p.b)
	return r.hi == p.hi && r.lo == p.lo
}

func (p pfx) less(q pfx) bool {
	if p.f != q.f {
		return p.f < q.f
	}
	if p.hi != q.hi {
		return p.hi < q.hi
	}
	if p.lo != q.lo {
		return p.lo < q.lo
	}
	return p.b < q.b
}

func (p pfx) id() string {
	var b [20]byte
	b[0] = byte(p.f)
	for i := 0; i < 8; i++ {
		b[1+i] = byte(p.hi >> uint(56-8*i))
		b[9+i] = byte(p.lo >> uint(56-8*i))
	}
	b[17] = byte(p.b)
	return string(b[:18])
}

func commonBits(a, b pfx) int {
	n := bits.LeadingZeros64(a.hi ^ b.hi)
	if n == 64 {
		n += bits.LeadingZeros64(a.lo ^ b.lo)
	}
	if n > a.b {
		n = a.b
	}
	if n > b.b {
		n = b.b
	}
	return n
}

type pfxModel struct {
	width int // 32, 64 for numeric trees; 0 for IP trees
	m     map[pfx]interface{}
}

func newPfxModel(width int) *pfxModel { return &pfxModel{width: width, m: map[pfx]interface{}{}} }

// norm gives the prefix a key denotes (without the per-call variation).
func (m *pfxModel) norm(k *Key) pfx {
	b := k.B
	if b < 0 {
		b = 0
	}
	max := m.width
	f := 0
	if max == 0 {
		f = k.F
		max = 128
		if f == 4 {
			max = 32
		}
	}
	if b > max {
		b = max
	}
	return maskPfx(f, k.Hi, k.Lo, b)
}

func (m *pfxModel) Clone() Model {
	c := newPfxModel(m.width)
	for k, v := range m.m {
		c.m[k] = v
	}
	return c
}
func (m *pfxModel) Len() int                               { return len(m.m) }
func (m *pfxModel) Insert(k *Key, w uint64, v interface{}) { m.m[m.norm(k)] = v }
func (m *pfxModel) Get(mode string, k *Key) (interface{}, bool) {
	p := m.norm(k)
	if mode == "exact" || mode == "find" {
		v, ok := m.m[p]
		return v, ok
	}
	for b := p.b; b >= 0; b-- {
		if v, ok := m.m[maskPfx(p.f, p.hi, p.lo, b)]; ok {
			return v, true
		}
	}
	return nil, false
}
func (m *pfxModel) Del(_ string, k *Key) bool {
	p := m.norm(k)
	done := false
	for q := range m.m {
		if p.contains(q) {
			delete(m.m, q)
			done = true
		}
	}
	return done
}
func (m *pfxModel) keys() []pfx {
	ks := make([]pfx, 0, len(m.m))
	for p := range m.m {
		ks = append(ks, p)
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i].less(ks[j]) })
	return ks
}
func (m *pfxModel) List() ([]Ent, bool) {
	ks := m.keys()
	out := make([]Ent, len(ks))
	for i, p := range ks {
		out[i] = Ent{K: p.id(), V: m.m[p]}
	}
	return out, true
}
func (m *pfxModel) Update(k *Key, f func(Ent) (interface{}, bool)) []Ent {
	p := m.norm(k)
	if _, ok := m.m[p]; !ok {
		return nil
	}
	var called []Ent
	for _, q := range m.keys() {
		if q != p && p.contains(q) {
			e := Ent{K: q.id(), V: m.m[q]}
			called = append(called, e)
			if v, upd := f(e); upd {
				m.m[q] = v
			}
		}
	}
	return called
}

// ---------------------------------------------------------------------------
// Domain names: map from canonical label sequence (top-level label first, length-prefixed).

type domModel struct{ m map[string]interface{} }

func newDomModel() *domModel { return &domModel{m: map[string]interface{}{}} }

func canonOf(labels []BS) string {
	var b bytes.Buffer
	for _, l := range labels {
		b.WriteByte(byte(len(l)))
		b.Write(l)
	}
	return b.String()
}

func (m *domModel) Clone() Model {
	c := newDomModel()
	for k, v := range m.m {
		c.m[k] = v
	}
	return c
}
func (m *domModel) Len() int                               { return len(m.m) }
func (m *domModel) Insert(k *Key, w uint64, v interface{}) { m.m[canonOf(k.L)] = v }
func (m *domModel) Get(_ string, k *Key) (interface{}, bool) {
	c := canonOf(k.L)
	v, ok := m.m[""]
	for i := 0; i < len(c); {
		i += 1 + int(c[i])
		if w, ok2 := m.m[c[:i]]; ok2 {
			v, ok = w, true
		}
	}
	if !ok {
		return nil, false
	}
	return v, ok
}
func (m *domModel) Del(mode string, k *Key) bool {
	c := canonOf(k.L)
	if mode == "dels" {
		done := false
		for n := range m.m {
			if strings.HasPrefix(n, c) {
				delete(m.m, n)
				done = true
			}
		}
		return done
	}
	_, ok := m.m[c]
	delete(m.m, c)
	return ok
}
func (m *domModel) List() ([]Ent, bool) {
	ks := make([]string, 0, len(m.m))
	for k := range m.m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	out := make([]Ent, len(ks))
	for i, k := range ks {
		out[i] = Ent{K: k, V: m.m[k]}
	}
	return out, false
}
func (m *domModel) Update(*Key, func(Ent) (interface{}, bool)) []Ent { return nil }
