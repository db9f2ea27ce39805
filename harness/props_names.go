package main

import (
	"context"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"math"
	"os"
	"reflect"
	"strings"

	"github.com/infobloxopen/go-trees/domain"
)

// A text case holds its strings in Keys[i].S.

func textCase(id, kind string, ss ...string) *Case {
	c := &Case{Prop: id, Kind: kind}
	for _, s := range ss {
		c.Keys = append(c.Keys, Key{S: BS(s)})
	}
	return c
}

// wrapTexts are far too long in one way or another, by lengths and counts that are small again in 8, 16 or 20 bits.
func wrapTexts() []string {
	var out []string
	var ns []int
	for _, base := range []int{64, 128, 192, 256, 384, 512, 1024, 4096, 32768, 65536, 131072, 1 << 20} {
		for _, d := range []int{-1, 0, 1, 2, 5, 62, 63, 64} {
			if base < 1<<20 || d >= 0 && d < 3 {
				ns = append(ns, base+d)
			}
		}
	}
	for _, n := range ns {
		out = append(out, strings.Repeat("a", n), strings.Repeat("a", n)+".", "a."+strings.Repeat("B", n)+".c", strings.Repeat("a.", n),
			strings.Repeat("a.", n)+"a", strings.Repeat("\\.", n), strings.Repeat("\\065", n)+"x", "x"+strings.Repeat(".", n),
			strings.Repeat("abcdefg.", n/8)+strings.Repeat("h", n%8), strings.Repeat("\xff", n), strings.Repeat("A", n)+"\\04", strings.Repeat("A", n)+"\\256")
	}
	return out
}

// genText makes name-like strings: valid names, names at the limits, broken escapes, noise.
func genText(g *G) string {
	var sb strings.Builder
	esc := func(n int, style int) { // n label bytes in some spelling
		for i := 0; i < n; i++ {
			switch style {
			case 0:
				sb.WriteByte('a')
			case 1:
				sb.WriteString(ddd(byte(g.Int(256))))
			case 2:
				sb.WriteByte('\\')
				sb.WriteByte(".\\aZ-\xff\x00"[g.Int(7)])
			default:
				switch g.Int(4) {
				case 0:
					sb.WriteString(ddd(byte(g.Int(256))))
				case 1:
					sb.WriteByte('\\')
					sb.WriteByte("._\\xY"[g.Int(5)])
				default:
					c := byte(g.Int(256))
					if c == '.' || c == '\\' {
						c = 'q'
					}
					sb.WriteByte(c)
				}
			}
		}
	}
	kind := g.W(18, 14, 16, 12, 20, 20)
	if g.mg() {
		kind = 6
	}
	switch kind {
	case 6: // literals of the sources as labels, lengths and counts
		for i := g.Range(1, 4); i > 0; i-- {
			switch g.Int(3) {
			case 0:
				sb.Write(g.mStr())
			case 1:
				if k := g.mUpTo(300); k >= 0 {
					esc(k, g.Int(4))
				}
			case 2:
				if k := g.mUpTo(130); k >= 0 {
					sb.WriteString(strings.Repeat("a.", k))
				}
			}
			if g.P(60) {
				sb.WriteByte('.')
			}
		}
		s := sb.String()
		return s[:min(len(s), 700)]
	case 0: // label lengths around the limit
		for i := g.Range(1, 4); i > 0; i-- {
			esc([]int{1, 62, 63, 64, 65, 61}[g.W(30, 15, 30, 15, 5, 5)], g.Int(4))
			if i > 1 || g.P(30) {
				sb.WriteByte('.')
			}
		}
	case 1: // label counts around the limit
		n := g.Range(124, 130)
		for i := 0; i < n; i++ {
			esc(1, g.Int(4))
			if i < n-1 || g.P(40) {
				sb.WriteByte('.')
			}
		}
	case 2: // total length around the limit
		total := g.Range(252, 258)
		left := total
		for left > 1 {
			n := g.Range(1, 63)
			if g.P(40) {
				n = 63
			}
			if n+1 > left || left-(n+1) == 1 {
				n = left - 1
				if n > 63 {
					n = 62
				}
			}
			esc(n, g.Int(4))
			left -= n + 1
			if left > 1 || g.P(40) {
				sb.WriteByte('.')
			}
		}
	case 3: // noise over the syntax alphabet
		for i := g.Range(0, 24); i > 0; i-- {
			sb.WriteByte("..\\\\0125679aZ\x00\xff"[g.Int(15)])
		}
	case 4: // a valid name, mutated a little
		b := []byte(spellName(genDomKeys(g, g.Range(1, 3))[0].L, g.U64()))
		for i := g.Int(4); i > 0; i-- {
			pos := g.Int(len(b) + 1)
			ch := "..\\\\0125679aZ\x00\xff"[g.Int(15)]
			switch g.Int(3) {
			case 0:
				b = append(b[:pos:pos], append([]byte{ch}, b[pos:]...)...)
			case 1:
				if pos < len(b) {
					b = append(b[:pos:pos], b[pos+1:]...)
				}
			case 2:
				if pos < len(b) {
					b[pos] = ch
				}
			}
		}
		return string(b)
	case 5: // a valid name
		ks := genDomKeys(g, g.Range(1, 4))
		return spellName(ks[len(ks)-1].L, g.U64())
	}
	return sb.String()
}

var errBits = []struct {
	e error
	b int
	n string
}{
	{domain.ErrTooManyLabels, eTooMany, "too many labels"},
	{domain.ErrEmptyLabel, eEmpty, "empty label"},
	{domain.ErrLabelTooLong, eLabel, "label too long"},
	{domain.ErrNameTooLong, eName, "name too long"},
	{domain.ErrInvalidEscape, eEscape, "invalid escape"},
}

func errBit(err error) int {
	for _, x := range errBits {
		if err == x.e || errors.Is(err, x.e) {
			return x.b
		}
	}
	return 0
}

func badText(b int) string {
	var s []string
	for _, x := range errBits {
		if b&x.b != 0 {
			s = append(s, x.n)
		}
	}
	return strings.Join(s, ", ")
}

func cut(s string) string {
	if len(s) > 300 {
		return fmt.Sprintf("%q... (%d bytes)", s[:300], len(s))
	}
	return fmt.Sprintf("%q", s)
}

func init() {
	register(&Prop{ID: "C21",
		Rule:  "all strings of up to 5 (thorough 7) bytes over . \\ 0 2 5 6 a, and random strings: names with labels, counts and total lengths around the limits in mixed spellings, mutated valid names, syntax noise; accept/reject and the reported condition compared with a reference parser; non-trivial: a string with an escape, or rejected, or at least three labels",
		Quick: 1280000, Thorough: 5120000,
		Gen: func(g *G) *Case { return textCase("C21", "", genText(g)) },
		Exhaust: func(tier string, emit func(*Case) bool) {
			max := 5
			if tier == "thorough" {
				max = 7
			}
			for _, t := range wrapTexts() {
				if !emit(textCase("C21", "", t)) {
					return
				}
			}
			const alpha = ".\\0256a"
			var rec func(s []byte) bool
			rec = func(s []byte) bool {
				if !emit(textCase("C21", "", string(s))) {
					return false
				}
				if len(s) == max {
					return true
				}
				for i := 0; i < len(alpha); i++ {
					if !rec(append(s[:len(s):len(s)], alpha[i])) {
						return false
					}
				}
				return true
			}
			rec(nil)
		},
		Run: func(c *Case, st *Stats) error {
			for i := range c.Keys {
				s := string(c.Keys[i].S)
				labels, bad := parseRef(s)
				n, err := domain.MakeNameFromString(s)
				if err == nil {
					if bad != 0 {
						return errf("%s accepted although: %s", cut(s), badText(bad))
					}
					got := libLabels(n)
					if len(got) != len(labels) {
						return errf("%s parsed to %d labels, expected %d", cut(s), len(got), len(labels))
					}
					st.class("accepted")
				} else {
					if bad == 0 {
						return errf("%s refused (%v) although it is a valid name of %d labels", cut(s), err, len(labels))
					}
					eb := errBit(err)
					if eb == 0 {
						return errf("%s refused with an undocumented error %v", cut(s), err)
					}
					if eb&bad == 0 {
						return errf("%s refused with %q, but what it violates is: %s", cut(s), err, badText(bad))
					}
					st.class("refused: " + err.Error())
				}
				if bad != 0 || strings.Contains(s, "\\") || len(labels) >= 3 {
					st.nt()
				}
			}
			return nil
		}})

	register(&Prop{ID: "C22",
		Rule:  "random valid names (up to 127 labels, 255 bytes, arbitrary label bytes) in two random spellings; labels by both iterators compared with the reference, offsets outside the name probed, iteration stopped by an error at a random label; non-trivial: at least two labels, or an escape or a lower-case letter in a spelling",
		Quick: 720000, Thorough: 2880000,
		Gen: func(g *G) *Case {
			ks := genDomKeys(g, g.Range(1, 4))
			k := ks[len(ks)-1]
			return &Case{Keys: []Key{k}, Ops: []Op{{O: "spell", W: g.U64() >> 1, T: g.Int(128)}, {O: "spell", W: g.U64() >> 1, T: g.Int(128)}, {O: "spell", W: uint64(g.Int(2))}}}
		},
		Run: runLabels})

	register(&Prop{ID: "C23",
		Rule:  "kind hr: arbitrary byte strings of 0 to 600 bytes (mixes whose escaped length straddles 252) made human-readable and compared with the reference, round-tripped when they are labels; kind dec: arbitrary spellings (valid, mutated, around 63 bytes) decoded and compared with the reference; non-trivial: an escape or a limit is involved",
		Quick: 1200000, Thorough: 4800000,
		Gen: func(g *G) *Case {
			if g.P(50) {
				if g.P(40) {
					return textCase("C23", "hr", string(genLabel(g, 63)))
				}
				n := []int{g.Int(70), g.Range(60, 66), g.Range(240, 260), g.Range(80, 300), g.Int(600)}[g.Int(5)]
				if k := g.mUpTo(600); k >= 0 && g.mg() {
					n = k
				}
				b := make([]byte, 0, n)
				style := g.Int(5)
				for len(b) < n {
					switch style {
					case 0:
						b = append(b, byte(g.Int(256)))
					case 1:
						b = append(b, "aA0.\\\xff"[g.W(30, 30, 20, 10, 5, 5)])
					case 2:
						b = append(b, 'A'+byte(g.Int(26)))
					case 3:
						b = append(b, ".\\"[g.Int(2)])
					case 4:
						b = append(b, "\x00A"[g.W(70, 30)])
					}
				}
				return textCase("C23", "hr", string(b))
			}
			var s string
			switch g.Int(4) {
			case 0: // any spelling of a label
				s = spellLabel(genLabel(g, 63), &rnd{g.U64()})
				if g.P(30) {
					s += "."
				}
			case 1: // around the limit
				var b BS
				n := g.Range(61, 66)
				for len(b) < n {
					b = append(b, upByte(byte(g.Int(256))))
				}
				s = spellLabel(b, &rnd{g.U64()})
				if g.P(30) {
					s += "."
				}
			case 2: // noise
				for i := g.Int(12); i > 0; i-- {
					s += string([]byte{"\\\\0125679aZ.\x00\xff"[g.Int(14)]})
				}
			case 3: // mutated
				b := []byte(spellLabel(genLabel(g, 63), &rnd{g.U64()}))
				for i := g.Range(1, 3); i > 0 && len(b) > 0; i-- {
					b[g.Int(len(b))] = "\\0125679aZ\x00\xff"[g.Int(12)]
				}
				s = string(b)
			}
			return textCase("C23", "dec", s)
		},
		Exhaust: func(tier string, emit func(*Case) bool) {
			// every single byte and pair of syntax bytes as a label, every \DDD, and long runs of each byte
			for b := 0; b < 256; b++ {
				if !emit(textCase("C23", "hr", string([]byte{byte(b)}))) ||
					!emit(textCase("C23", "dec", "\\"+string([]byte{byte(b)}))) ||
					!emit(textCase("C23", "dec", string([]byte{byte(b)}))) {
					return
				}
				for _, n := range []int{62, 63, 64, 65, 125, 126, 127, 251, 252, 253, 254, 300} {
					if !emit(textCase("C23", "hr", strings.Repeat(string([]byte{byte(b)}), n))) {
						return
					}
					for pad := 1; pad <= 4; pad++ {
						if !emit(textCase("C23", "hr", strings.Repeat("x", 252-pad)+strings.Repeat(string([]byte{byte(b)}), 3))) {
							return
						}
					}
				}
			}
			for _, t := range wrapTexts() {
				if !emit(textCase("C23", "dec", t)) || !emit(textCase("C23", "hr", t)) {
					return
				}
			}
			for d := 0; d < 1000; d++ {
				if !emit(textCase("C23", "dec", fmt.Sprintf("a\\%03db", d))) {
					return
				}
			}
		},
		Run: runCodec})

	register(&Prop{ID: "C33",
		Rule:  "names and strings (valid, limit, broken) wrapped as value, pointer, struct field, exported or not, array element or interface content, and values of other types; result compared with the original or with parsing; anything else must panic with an error; non-trivial: a wrapped valid name of at least one label, or an expected panic",
		Quick: 400000, Thorough: 1600000,
		Gen: func(g *G) *Case {
			return &Case{Keys: []Key{{S: BS(genText(g))}}, Ops: []Op{{O: "refl", T: g.Int(64)}, {O: "refl", T: g.Int(64)}}}
		},
		Run: runReflect})
}

type ptrErr struct{ n int }

func (e *ptrErr) Error() string { return "pointer" }

type sliceErr []string

func (e sliceErr) Error() string { return "uncomparable" }

// stopErrors are errors a callback may stop an iteration with.
var stopErrors = []error{errors.New("stop"), io.EOF, (*ptrErr)(nil), &ptrErr{1}, sliceErr{"a"}, errors.New(""), errors.New("stop iterations"),
	domain.ErrEmptyLabel, domain.ErrTooManyLabels, domain.ErrLabelTooLong, domain.ErrNameTooLong, domain.ErrInvalidEscape,
	fmt.Errorf("wrapped: %w", io.EOF), fmt.Errorf("wrapped: %w", domain.ErrEmptyLabel), errors.Join(io.EOF, fs.SkipDir), fs.SkipDir, fs.SkipAll,
	context.Canceled, os.ErrNotExist, io.ErrUnexpectedEOF}

func runLabels(c *Case, st *Stats) error {
	if len(c.Keys) == 0 {
		return nil
	}
	k := &c.Keys[0]
	for i := range c.Ops {
		o := &c.Ops[i]
		s := spellName(k.L, o.W)
		n, err := domain.MakeNameFromString(s)
		if err != nil {
			return errf("valid name %s refused: %v", cut(s), err)
		}
		if n.String() != s {
			return errf("name made from %s prints as %s", cut(s), cut(n.String()))
		}
		got := libLabels(n)
		if len(got) != len(k.L) {
			return errf("%s: %d labels iterated, expected %d", cut(s), len(got), len(k.L))
		}
		for j := range got {
			if got[j] != string(k.L[j]) {
				return errf("%s: label %d is %q, expected %q", cut(s), j, got[j], string(k.L[j]))
			}
		}
		// offsets
		total := totalLen(k.L)
		off := 0
		for j := 0; ; j++ {
			l, next := n.GetLabel(off)
			if len(k.L) == 0 {
				if l != "" || next != 0 {
					return errf("root name: GetLabel(0) gives (%q, %d)", l, next)
				}
				break
			}
			if j >= len(k.L) {
				return errf("%s: stepping goes on after %d labels", cut(s), j)
			}
			if l != string(k.L[j]) {
				return errf("%s: GetLabel(%d) gives %q, expected %q", cut(s), off, l, string(k.L[j]))
			}
			if next == 0 {
				if j != len(k.L)-1 {
					return errf("%s: stepping ends after %d of %d labels", cut(s), j+1, len(k.L))
				}
				break
			}
			if next <= off {
				return errf("%s: GetLabel(%d) gives next offset %d", cut(s), off, next)
			}
			off = next
		}
		bads := []int{-1, -2, math.MinInt, math.MaxInt, -1 << 31, 1 << 31, 1 << 32, total + 1, total + 2, 256, 1000, -total, total + int(o.W%97) + 1}
		if total > 0 {
			bads = append(bads, total)
		}
		for _, b := range bads {
			if b >= 0 && b < total || b == 0 {
				continue
			}
			if _, r := n.GetLabel(b); r != -1 {
				return errf("%s: GetLabel(%d) outside the name gives offset %d, expected -1", cut(s), b, r)
			}
		}
		// first error stops
		if len(k.L) > 0 {
			stop := o.T % len(k.L)
			mark := stopErrors[mix(o.W+uint64(o.T)+uint64(stop)*7)%uint64(len(stopErrors))]
			calls := 0
			err := n.GetLabels(func(l string) error {
				calls++
				if calls > stop+1 {
					return errors.New("called again")
				}
				if calls == stop+1 {
					return mark
				}
				return nil
			})
			if !same(err, mark) || calls != stop+1 {
				return errf("%s: iteration stopped at label %d by %#v made %d calls and returned %#v", cut(s), stop, mark, calls, err)
			}
		}
		if err := n.GetLabels(func(string) error { return nil }); err != nil {
			return errf("%s: iteration returned %v", cut(s), err)
		}
		if len(k.L) >= 2 || strings.Contains(s, "\\") {
			st.nt()
		}
	}
	switch {
	case len(k.L) == 127:
		st.class("127 labels")
	case len(k.L) == 0:
		st.class("root")
	}
	if totalLen(k.L) == 255 {
		st.class("255 bytes")
	}
	return nil
}

func runCodec(c *Case, st *Stats) error {
	for i := range c.Keys {
		s := string(c.Keys[i].S)
		if c.Kind == "hr" {
			want := ""
			full := true
			for j := 0; j < len(s); j++ {
				e := humanByte(s[j])
				if len(want)+len(e) > 252 {
					full = false
					break
				}
				want += e
			}
			got := domain.MakeHumanReadableLabel(s)
			if got != want {
				return errf("MakeHumanReadableLabel(%s) = %s, expected %s", cut(s), cut(got), cut(want))
			}
			if !full {
				st.class("beyond capacity")
				st.nt()
			}
			low := false
			for j := 0; j < len(s); j++ {
				low = low || isLow(s[j])
			}
			if len(s) <= 63 && !low {
				st.class("label round trip")
				l, err := domain.MakeLabel(got)
				if err != nil || l != s {
					return errf("MakeLabel(MakeHumanReadableLabel(%s)) = (%s, %v)", cut(s), cut(l), err)
				}
			}
			if got != s {
				st.nt()
			}
			continue
		}
		want, bad, dots := parseLabelRef(s)
		if dots {
			continue
		}
		l, err := domain.MakeLabel(s)
		if err != nil {
			if bad == 0 {
				return errf("MakeLabel(%s) refused: %v, expected %q", cut(s), err, string(want))
			}
			if errBit(err)&bad == 0 {
				return errf("MakeLabel(%s) refused with %v, but what it violates is: %s", cut(s), err, badText(bad))
			}
			st.class("refused")
			st.nt()
			continue
		}
		if bad != 0 {
			return errf("MakeLabel(%s) accepted as %q although: %s", cut(s), l, badText(bad))
		}
		if l != string(want) {
			return errf("MakeLabel(%s) = %q, expected %q", cut(s), l, string(want))
		}
		st.class("decoded")
		if strings.Contains(s, "\\") || len(want) >= 62 {
			st.nt()
		}
	}
	return nil
}

type (
	namedString string
	namedName   domain.Name
	holder      struct {
		n  domain.Name
		N  domain.Name
		s  string
		S  string
		p  *domain.Name
		q  *string
		I  interface{}
		A  [1]domain.Name
		AS [2]string
		M  map[string]domain.Name
		i  int
		b  []byte
		B  bool
		pp **domain.Name
		np *domain.Name
		ns namedString
		nn namedName
		e  error
		f  func()
	}
)

func callRefl(v reflect.Value) (n domain.Name, p interface{}, panicked bool) {
	defer func() {
		if r := recover(); r != nil {
			p, panicked = r, true
		}
	}()
	n = domain.MakeNameFromReflection(v)
	return
}

func runReflect(c *Case, st *Stats) error {
	if len(c.Keys) == 0 {
		return nil
	}
	s := string(c.Keys[0].S)
	ref, perr := domain.MakeNameFromString(s)
	valid := perr == nil
	name := ref
	if !valid {
		name, _ = domain.MakeNameFromString("a.b\\.c.")
	}
	pn := &name
	h := &holder{n: name, N: name, s: s, S: s, p: pn, q: &s, I: name, A: [1]domain.Name{name}, AS: [2]string{"x.y", s}, M: map[string]domain.Name{"k": name},
		b: []byte(s), pp: &pn, ns: namedString(s), nn: namedName(name), e: errors.New(s)}
	hv := reflect.ValueOf(h).Elem()
	type in struct {
		what string
		v    reflect.Value
		kind int // 0 a name, 1 a string, 2 anything else
	}
	var nilName *domain.Name
	var nilString *string
	ins := []in{
		{"Name", reflect.ValueOf(name), 0},
		{"*Name", reflect.ValueOf(&name), 0},
		{"string", reflect.ValueOf(s), 1},
		{"*string", reflect.ValueOf(&s), 1},
		{"unexported field Name", hv.FieldByName("n"), 0},
		{"exported field Name", hv.FieldByName("N"), 0},
		{"unexported field string", hv.FieldByName("s"), 1},
		{"exported field string", hv.FieldByName("S"), 1},
		{"unexported field *Name", hv.FieldByName("p"), 0},
		{"unexported field *string", hv.FieldByName("q"), 1},
		{"interface content", hv.FieldByName("I").Elem(), 0},
		{"array element", hv.FieldByName("A").Index(0), 0},
		{"string array element", hv.FieldByName("AS").Index(1), 1},
		{"map element", hv.FieldByName("M").MapIndex(reflect.ValueOf("k")), 0},
		{"int", hv.FieldByName("i"), 2},
		{"[]byte", hv.FieldByName("b"), 2},
		{"bool", hv.FieldByName("B"), 2},
		{"**Name", hv.FieldByName("pp"), 2},
		{"nil *Name field", hv.FieldByName("np"), 2},
		{"named string", hv.FieldByName("ns"), 2},
		{"defined type over Name", hv.FieldByName("nn"), 2},
		{"error", hv.FieldByName("e"), 2},
		{"func", hv.FieldByName("f"), 2},
		{"struct", hv, 2},
		{"*struct", reflect.ValueOf(h), 2},
		{"nil *Name", reflect.ValueOf(nilName), 2},
		{"nil *string", reflect.ValueOf(nilString), 2},
		{"interface", hv.FieldByName("I"), 2},
		{"pointer to interface", hv.FieldByName("I").Addr(), 2},
		{"zero reflect.Value", reflect.Value{}, 2},
		{"array", hv.FieldByName("A"), 2},
		{"float", reflect.ValueOf(1.5), 2},
		{"slice of names", reflect.ValueOf([]domain.Name{name}), 2},
		{"*int", reflect.ValueOf(&h.i), 2},
		{"error value", reflect.ValueOf(domain.ErrEmptyLabel), 2},
		{"struct of strings", reflect.ValueOf(struct{ h, c string }{s, s}), 2},
	}
	for i := range c.Ops {
		x := ins[c.Ops[i].T%len(ins)]
		got, p, panicked := callRefl(x.v)
		st.class(x.what)
		if x.kind == 2 || x.kind == 1 && !valid {
			st.nt()
			if !panicked {
				return errf("%s: no panic, returned name %s", x.what, cut(got.String()))
			}
			if _, ok := p.(error); !ok {
				return errf("%s: panic with %T, not an error", x.what, p)
			}
			continue
		}
		if panicked {
			return errf("%s of %s: panic %v", x.what, cut(s), p)
		}
		if got.String() != name.String() {
			return errf("%s: prints as %s, expected %s", x.what, cut(got.String()), cut(name.String()))
		}
		a, b := libLabels(got), libLabels(name)
		if strings.Join(a, "\x00.") != strings.Join(b, "\x00.") || len(a) != len(b) {
			return errf("%s: labels %q, expected %q", x.what, a, b)
		}
		if len(a) > 0 {
			st.nt()
		}
	}
	return nil
}
