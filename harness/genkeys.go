package main

import (
	"bytes"
	"fmt"
	"sort"
)

// Key pools. A pool holds keys that are related to each other (equal under the comparator, containing
// one another, sharing prefixes), because unrelated keys rarely interact.

// size classes
const (
	szTiny = iota
	szSmall
	szMed
	szLarge
	szHuge
)

// longLens are lengths of long keys.
var longLens = []int{512, 1024, 2048, 4096, 8192}

func genStrKeys(g *G, n int) []Key {
	var ks []Key
	scheme := g.Int(8)
	prefix := ""
	if g.P(15) {
		for i := g.Range(1, 300); i > 0; i-- {
			prefix += "p"
		}
	}
	long := n <= 24 && g.P(3)
	for len(ks) < n {
		var b []byte
		if long && g.P(70) { // around the powers of two
			k := longLens[g.Int(len(longLens))] + g.Int(3) - 1
			b = bytes.Repeat([]byte{"aA\x00k"[g.Int(4)]}, max(0, k-len(prefix)))
			if g.P(50) {
				b[g.Int(len(b))] ^= 1 << uint(g.Int(8))
			}
			ks = append(ks, Key{S: BS(prefix + string(b))})
			continue
		}
		if g.mg() {
			if len(ks) > 0 && g.P(40) {
				b = append(b, ks[g.Int(len(ks))].S[len(prefix):]...)
			}
			most := 600
			if n <= 24 {
				most = 5000
			}
			if k := g.mUpTo(most); k >= 0 && g.P(25) {
				b = append(b, bytes.Repeat([]byte{"aA\x00"[g.Int(3)]}, max(0, k-len(b)))...)
			} else {
				b = append(b, g.mStr()...)
			}
			ks = append(ks, Key{S: BS(prefix + string(b))})
			continue
		}
		switch scheme {
		case 0: // few letters
			for i := g.Int(5); i > 0; i-- {
				b = append(b, "abAB"[g.Int(4)])
			}
		case 1: // numbered
			b = []byte(fmt.Sprintf("%03d", g.Int(3*n+1)))
		case 2: // single bytes of every kind, and doubles
			b = append(b, byte(g.Int(256)))
			if g.P(50) {
				b = append(b, byte(g.Int(256)))
			}
		case 3: // arbitrary bytes
			for i := g.Int(9); i > 0; i-- {
				b = append(b, byte(g.Int(256)))
			}
		case 4: // derived from an earlier key
			if len(ks) > 0 && g.P(85) {
				b = append(b, ks[g.Int(len(ks))].S[len(prefix):]...)
				switch g.Int(6) {
				case 0:
					b = append(b, 0)
				case 1:
					b = append(b, byte(g.Int(256)))
				case 2:
					if len(b) > 0 {
						b = b[:len(b)-1]
					}
				case 3:
					if len(b) > 0 {
						b[g.Int(len(b))] ^= 1 << uint(g.Int(8))
					}
				case 4:
					if len(b) > 0 {
						b[g.Int(len(b))] ^= 0x20
					}
				case 5:
					b = append(append([]byte{}, b...), b...)
					if len(b) > 600 {
						b = b[:600]
					}
				}
			} else {
				for i := g.Int(6); i > 0; i-- {
					b = append(b, "aA\x00z\xff"[g.Int(5)])
				}
			}
		case 5: // NUL, high bytes, quotes
			for i := g.Int(4); i > 0; i-- {
				b = append(b, "\x00\xff\x80\"\\\n'"[g.Int(7)])
			}
		case 6: // mixed lengths of one byte
			for i := g.Int(2*n + 2); i > 0 && len(b) < 400; i-- {
				b = append(b, 'k')
			}
		case 7: // valid multi-byte text
			for i := g.Int(4); i > 0; i-- {
				b = append(b, []string{"é", "世", "a", "\u0301", "𝛼", "ß"}[g.Int(6)]...)
			}
		}
		ks = append(ks, Key{S: BS(prefix + string(b))})
		if len(ks) > 4*n {
			break
		}
	}
	if g.P(20) {
		ks[0] = Key{S: BS{}}
	}
	if g.P(35) {
		sort.Slice(ks, func(i, j int) bool { return string(ks[i].S) < string(ks[j].S) })
	}
	return ks
}

// genLabel makes an upper-cased binary label.
func genLabel(g *G, max int) BS {
	var b BS
	if max > 63 {
		max = 63
	}
	if g.mg() {
		b = BS(upBytes(g.mStr()))
		if k := g.mUpTo(63); k >= 0 && g.P(40) {
			for len(b) < k {
				b = append(b, b...)
				if len(b) == 0 {
					b = BS{'A'}
				}
			}
			b = b[:k]
		}
		if len(b) > max {
			b = b[:max]
		}
		if len(b) > 0 {
			return b
		}
	}
	n := 0
	switch g.W(50, 25, 10, 15) {
	case 0:
		n = g.Range(1, 3)
	case 1:
		n = g.Range(1, 8)
	case 2:
		n = g.Range(1, 63)
	case 3:
		n = g.Range(60, 63)
	}
	if n > max {
		n = max
	}
	kind := g.Int(5)
	for len(b) < n {
		var c byte
		switch kind {
		case 0:
			c = "AB"[g.Int(2)]
		case 1:
			c = "ABCXYZ09-_"[g.Int(10)]
		case 2:
			c = pick(g, []byte(".\\ \x00\xff\x7f~!\"@[`{0"))
		case 3:
			c = byte(g.Int(256))
		case 4:
			c = []byte{'A', '.', '\\', 'Z', 0x1f, 0x20, 0x21, 0x7e, 0x7f, 0x80, 0xe1, 0xc1, '@', '[', '9', '/', ':'}[g.Int(17)]
		}
		b = append(b, upByte(c))
	}
	return b
}

// genRawKeys makes keys for the binary interface of label trees only: any bytes, any length.
func genRawKeys(g *G, n int) []Key {
	var ks []Key
	lens := []int{0, 1, 2, 63, 64, 65, 127, 128, 129, 191, 255, 256, 257, 300, 513}
	if n <= 16 && g.P(2) {
		lens = []int{1, 2, 257, 65535, 65536, 65537, 65793}
	} else if n <= 24 && g.P(4) {
		lens = longLens
	}
	base := pick(g, []byte("aAzZ\x00\xff.\\"))
	for len(ks) < n {
		var b BS
		if len(ks) > 0 && g.P(50) {
			b = append(BS(nil), ks[g.Int(len(ks))].S...)
			switch {
			case len(b) > 0 && g.P(50):
				b[g.Int(len(b))] = byte(g.Int(256))
			case len(b) > 0 && g.P(30):
				i := g.Int(len(b))
				b[i] ^= 0x20
			default:
				b = append(b, byte(g.Int(256)))
			}
		} else {
			k := pick(g, lens) + g.Int(2)
			if g.mg() {
				k = max(k, g.mUpTo(5000))
			}
			b = make(BS, k)
			for i := range b {
				b[i] = base
				if g.P(10) {
					b[i] = byte(g.Int(256))
				}
			}
		}
		ks = append(ks, Key{S: b})
	}
	return ks
}

func genDlKeys(g *G, n int) []Key {
	var ks []Key
	for len(ks) < n {
		if len(ks) > 0 && g.P(40) {
			b := append(BS(nil), ks[g.Int(len(ks))].S...)
			switch g.Int(4) {
			case 0:
				b = append(b, upByte(byte(g.Int(256))))
			case 1:
				if len(b) > 0 {
					b = b[:len(b)-1]
				}
			case 2:
				if len(b) > 0 {
					i := g.Int(len(b))
					b[i] = upByte(b[i] ^ 1<<uint(g.Int(8)))
				}
			case 3:
				if len(b) > 0 {
					i := g.Int(len(b))
					b[i] = upByte(byte(g.Int(256)))
				}
			}
			if len(b) > 63 {
				b = b[:63]
			}
			ks = append(ks, Key{S: b})
			continue
		}
		ks = append(ks, Key{S: genLabel(g, 63)})
	}
	if g.P(20) {
		ks[0] = Key{S: BS{}}
	}
	if g.P(35) {
		sort.Slice(ks, func(i, j int) bool { return cmpLenLex(string(ks[i].S), string(ks[j].S)) < 0 })
	}
	return ks
}

// boundaryLens are prefix lengths at which implementations change behaviour.
func boundaryLen(g *G, width int) int {
	if g.mg() {
		if n := g.mUpTo(width); n >= 0 {
			return n
		}
	}
	switch g.Int(4) {
	case 0:
		return g.Int(width + 1)
	case 1:
		c := []int{0, 1, 2, width - 1, width, width / 2, width/2 - 1, width/2 + 1}
		return pick(g, c)
	}
	c := []int{0, 1, 7, 8, 9, 15, 16, 17, 24, 31, 32, 33, 47, 48, 49, 56, 62, 63, 64, 65, 66, 72, 95, 96, 97, 112, 120, 126, 127, 128}
	for {
		x := pick(g, c)
		if x <= width {
			return x
		}
	}
}

func flipBit(hi, lo uint64, i int) (uint64, uint64) {
	if i < 64 {
		return hi ^ 1<<uint(63-i), lo
	}
	return hi, lo ^ 1<<uint(127-i)
}

func genAddr(g *G, width int) (hi, lo uint64) {
	k := g.Int(5)
	if g.mg() {
		k = 5
	}
	switch k {
	case 5: // literals as bytes, 16-bit groups or words
		switch g.Int(4) {
		case 0:
			for i := 0; i < 8; i++ {
				hi, lo = hi<<8|uint64(g.mByte()), lo<<8|uint64(g.mByte())
			}
		case 1:
			hi, lo = g.mInt(), g.mInt()
		case 2:
			hi, lo = g.mInt()<<32|g.mInt()&(1<<32-1), g.U64()
		case 3:
			hi, lo = g.mInt()<<48|g.U64()>>16, g.mInt()
		}
	case 0:
		hi, lo = 0, 0
	case 1:
		hi, lo = ^uint64(0), ^uint64(0)
	case 2:
		hi, lo = g.U64(), g.U64()
	case 3:
		hi, lo = 0x8000000000000000, 0
	case 4:
		hi, lo = 0x20010db800000000|g.U64()>>56, g.U64()&0xff
	}
	if width <= 32 {
		hi &^= 1<<32 - 1
	}
	if width <= 64 {
		lo = 0
	}
	return
}

// genPfxKeys makes prefixes of one family; f is stored in each key.
func genPfxKeys(g *G, n, width, f int) []Key {
	var ks []Key
	scheme := g.Int(5)
	off, span := 0, 3
	var bh, bl uint64
	bh, bl = genAddr(g, width)
	if scheme == 0 { // a complete little space of span bits at some offset
		span = g.Range(1, 4)
		off = []int{0, 0, width - span, width / 2, width/2 - 1, width/2 - 2, g.Int(width - span + 1)}[g.Int(7)]
	}
	for len(ks) < n {
		var k Key
		k.F = f
		switch {
		case scheme == 0:
			hi, lo := bh, bl
			for i := 0; i < span; i++ {
				if g.P(50) {
					hi, lo = flipBit(hi, lo, off+i)
				}
			}
			b := off + g.Int(span+1)
			if g.P(10) {
				b = boundaryLen(g, width)
			}
			p := maskPfx(f, hi, lo, b)
			k.Hi, k.Lo, k.B = p.hi, p.lo, p.b
		case scheme == 1 && g.P(80): // a chain: prefixes of one address
			b := boundaryLen(g, width)
			p := maskPfx(f, bh, bl, b)
			k.Hi, k.Lo, k.B = p.hi, p.lo, p.b
		case len(ks) > 0 && g.P(75): // derived from an earlier prefix
			o := ks[g.Int(len(ks))]
			hi, lo, b := o.Hi, o.Lo, o.B
			switch g.Int(6) {
			case 0: // sibling or cousin: flip a bit inside
				if b > 0 {
					hi, lo = flipBit(hi, lo, g.Int(b))
				}
			case 1: // direct sibling
				if b > 0 {
					hi, lo = flipBit(hi, lo, b-1)
				}
			case 2: // parent or ancestor
				if b > 0 {
					if g.P(50) {
						b--
					} else {
						b = g.Int(b)
					}
				}
			case 3: // descendant
				d := b + 1
				if g.P(50) {
					d = b + g.Int(width-b+1)
				}
				if d > width {
					d = width
				}
				for i := b; i < d; i++ {
					if g.P(50) {
						hi, lo = flipBit(hi, lo, i)
					}
				}
				b = d
			case 4: // same bits, other length
				b = boundaryLen(g, width)
			case 5: // full-length key inside
				for i := b; i < width; i++ {
					if g.P(50) {
						hi, lo = flipBit(hi, lo, i)
					}
				}
				b = width
			}
			p := maskPfx(f, hi, lo, b)
			k.Hi, k.Lo, k.B = p.hi, p.lo, p.b
		default:
			hi, lo := genAddr(g, width)
			if g.P(50) {
				hi, lo = bh, bl
				for i := g.Int(3); i >= 0; i-- {
					hi, lo = flipBit(hi, lo, g.Int(width))
				}
			}
			p := maskPfx(f, hi, lo, boundaryLen(g, width))
			k.Hi, k.Lo, k.B = p.hi, p.lo, p.b
		}
		ks = append(ks, k)
	}
	return ks
}

func genNumKeys(g *G, n, width int) []Key {
	if n > 64 && g.P(60) {
		// many prefixes: dense run of full-length or /24-like keys
		var ks []Key
		b := []int{width, width, 24, width - 3}[g.Int(4)]
		base, _ := genAddr(g, width)
		step := uint64(1) << uint(64-b)
		for i := 0; i < n; i++ {
			p := maskPfx(0, base+uint64(i)*step, 0, b)
			ks = append(ks, Key{Hi: p.hi, B: b})
			if g.P(10) {
				q := maskPfx(0, p.hi, 0, boundaryLen(g, width))
				ks = append(ks, Key{Hi: q.hi, B: q.b})
			}
		}
		return ks
	}
	return genPfxKeys(g, n, width, 0)
}

func genIPKeys(g *G, n int) []Key {
	n4 := g.Int(n + 1)
	switch g.Int(4) {
	case 0:
		n4 = 0
	case 1:
		n4 = n / 4
	case 2:
		n4 = n / 2
	}
	var ks []Key
	if n4 > 0 {
		ks = append(ks, genPfxKeys(g, n4, 32, 4)...)
	}
	if n-n4 > 0 {
		ks = append(ks, genPfxKeys(g, n-n4, 128, 6)...)
	}
	if g.P(25) && len(ks) > 1 { // addresses that look alike across families
		i := g.Int(len(ks))
		k := Key{F: 4, Hi: ks[i].Hi &^ (1<<32 - 1), B: 32}
		ks = append(ks, k, Key{F: 6, Hi: 0, Lo: 0xffff00000000 | k.Hi>>32, B: 128}, Key{F: 6, Hi: 0, Lo: 0xffff00000000, B: 96}, Key{F: 6, Hi: k.Hi, Lo: 0, B: 32})
	}
	return ks
}

func totalLen(l []BS) int {
	n := 0
	for _, x := range l {
		n += 1 + len(x)
	}
	return n
}

func fitName(l []BS) []BS {
	for len(l) > 0 && (totalLen(l) > 255 || len(l) > 127) {
		l = l[:len(l)-1]
	}
	return l
}

func genDomKeys(g *G, n int) []Key {
	var ks []Key
	var alpha []BS
	for i := g.Range(1, 4); i > 0; i-- {
		alpha = append(alpha, genLabel(g, 63))
	}
	shortOnly := g.P(30)
	lab := func() BS {
		if shortOnly {
			return BS{"AB.\x00\xff"[g.W(40, 30, 10, 10, 10)]}
		}
		if g.P(70) {
			return alpha[g.Int(len(alpha))]
		}
		return genLabel(g, 63)
	}
	deep := g.P(12)
	for len(ks) < n {
		var l []BS
		depth := -1
		if g.mg() && g.P(40) {
			depth = g.mUpTo(127)
		}
		switch {
		case depth >= 0:
			for len(l) < depth {
				l = append(l, BS{"AB"[g.W(90, 10)]})
			}
		case deep && g.P(60):
			d := []int{125, 126, 127, 127, 127}[g.Int(5)]
			c := BS{"A."[g.Int(2)]}
			for i := 0; i < d; i++ {
				if g.P(3) {
					l = append(l, BS{"BC"[g.Int(2)]})
				} else {
					l = append(l, c)
				}
			}
		case g.P(5): // as long as a name can be
			for totalLen(l) < 255 {
				m := 255 - totalLen(l) - 1
				if m > 63 {
					m = 63
				}
				if m < 1 {
					break
				}
				x := BS{}
				for len(x) < m {
					x = append(x, upByte(byte(g.Int(256))))
				}
				l = append(l, x)
			}
		case len(ks) > 0 && g.P(75):
			o := ks[g.Int(len(ks))].L
			l = append(l, o...)
			switch g.Int(6) {
			case 0, 1: // child
				for i := g.Range(1, 3); i > 0; i-- {
					l = append(l, lab())
				}
			case 2: // ancestor
				if len(l) > 0 {
					l = l[:g.Int(len(l))]
				}
			case 3: // sibling
				if len(l) > 0 {
					l[len(l)-1] = lab()
				}
			case 4: // other branch on the way
				if len(l) > 0 {
					l[g.Int(len(l))] = lab()
				}
			case 5: // same labels under another top
				l = append([]BS{lab()}, l...)
			}
		default:
			for i := g.Int(5); i > 0; i-- {
				l = append(l, lab())
			}
		}
		l = fitName(l)
		ks = append(ks, Key{L: append([]BS(nil), l...)})
	}
	if g.P(35) {
		ks[g.Int(len(ks))] = Key{}
	}
	return ks
}

func genKeys(g *G, p *Pkg, n int) []Key {
	if n < 1 {
		n = 1
	}
	switch p.Fam {
	case "str":
		return genStrKeys(g, n)
	case "dl":
		return genDlKeys(g, n)
	case "num":
		return genNumKeys(g, n, p.Bits)
	case "ip":
		return genIPKeys(g, n)
	case "dom":
		return genDomKeys(g, n)
	}
	harnessFail("family %q", p.Fam)
	return nil
}

// poolSize draws a size class; weights favour small pools where keys collide.
func poolSize(g *G, max int) int {
	if g.mg() {
		lim := 3 * max
		if max >= 60 {
			lim = 1500
		}
		if n := g.mUpTo(lim); n >= 0 {
			return n + g.Int(3)
		}
	}
	switch g.W(250, 350, 280, 98, 22) {
	case szTiny:
		return g.Range(1, 4)
	case szSmall:
		return g.Range(3, 10)
	case szMed:
		return min(max, g.Range(8, 40))
	case szLarge:
		return min(max, g.Range(40, 160))
	}
	if max >= 60 && g.Int(22) < 2 {
		return g.Range(900, 2600)
	}
	return min(max, g.Range(200, 900))
}
