package main

import (
	_ "embed"
	"go/scanner"
	"go/token"
	"math"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

// A dictionary of the literals that occur in the current sources, for generators: a branch on a particular
// number, byte or string is practically never reached by blind draws. Literals which the sources did not
// contain when dict_base.txt was written are drawn more often. The dictionary only steers generation; the
// oracles never see it, and every case holds its data, so replays do not depend on it.

//go:embed dict_base.txt
var dictBase string

type dictionary struct {
	ints, newInts []uint64
	strs, newStrs []string
}

var dict dictionary

func sourceLiterals(root string) map[string]bool {
	lits := map[string]bool{}
	filepath.Walk(root, func(path string, fi os.FileInfo, err error) error {
		if err != nil {
			return nil
		}
		if fi.IsDir() {
			if fi.Name() == ".git" {
				return filepath.SkipDir
			}
			return nil
		}
		if !strings.HasSuffix(path, ".go") || strings.HasSuffix(path, "_test.go") || fi.Size() > 1<<20 {
			return nil
		}
		src, err := os.ReadFile(path)
		if err != nil {
			return nil
		}
		fs := token.NewFileSet()
		var s scanner.Scanner
		s.Init(fs.AddFile(path, fs.Base(), len(src)), src, nil, 0)
		for {
			_, tok, lit := s.Scan()
			if tok == token.EOF {
				return nil
			}
			switch tok {
			case token.INT, token.CHAR, token.STRING:
				if len(lit) <= 80 && !strings.ContainsAny(lit, "\n") {
					lits[lit] = true
				}
			}
		}
	})
	return lits
}

func loadDict(root string) {
	if root == "" {
		return
	}
	base := map[string]bool{}
	for _, l := range strings.Split(dictBase, "\n") {
		base[l] = true
	}
	var all []string
	for l := range sourceLiterals(root) {
		all = append(all, l)
	}
	sort.Strings(all)
	for _, l := range all {
		var n uint64
		var s string
		isStr := false
		switch l[0] {
		case '"', '`':
			u, err := strconv.Unquote(l)
			if err != nil || u == "" || len(u) > 64 {
				continue
			}
			s, isStr = u, true
		case '\'':
			u, err := strconv.Unquote(l)
			if err != nil {
				continue
			}
			n = uint64([]rune(u)[0])
		default:
			u, err := strconv.ParseUint(l, 0, 64)
			if err != nil {
				continue
			}
			n = u
		}
		if isStr {
			dict.strs = append(dict.strs, s)
			if !base[l] {
				dict.newStrs = append(dict.newStrs, s)
			}
		} else {
			dict.ints = append(dict.ints, n)
			if !base[l] {
				dict.newInts = append(dict.newInts, n)
			}
		}
	}
	// short strings that look like text of the trees' domain also give byte values
	for _, s := range dict.newStrs {
		if len(s) == 1 {
			dict.newInts = append(dict.newInts, uint64(s[0]))
		}
	}
}

// mg reports whether the current draw should come from the dictionary.
func (g *G) mg() bool { return g.magic && g.P(30) }

// mInt draws an integer literal or a neighbour of one.
func (g *G) mInt() uint64 {
	from := dict.ints
	if len(dict.newInts) > 0 && g.P(75) {
		from = dict.newInts
	}
	if len(from) == 0 {
		return g.U64()
	}
	n := from[g.Int(len(from))]
	switch g.Int(5) {
	case 0:
		n++
	case 1:
		n--
	}
	return n
}

// mUpTo draws a dictionary number in [0, max], or -1.
func (g *G) mUpTo(max int) int {
	for i := 0; i < 6; i++ {
		if n := g.mInt(); n <= uint64(max) && n <= math.MaxInt32 {
			return int(n)
		}
	}
	return -1
}

func (g *G) mByte() byte {
	if n := g.mUpTo(255); n >= 0 {
		return byte(n)
	}
	return byte(g.Int(256))
}

// mStr draws a string literal, or a few bytes from integer literals.
func (g *G) mStr() []byte {
	from := dict.strs
	if len(dict.newStrs) > 0 && g.P(75) {
		from = dict.newStrs
	}
	if len(from) == 0 || g.P(25) {
		var b []byte
		for i := g.Range(1, 4); i > 0; i-- {
			b = append(b, g.mByte())
		}
		return b
	}
	s := []byte(from[g.Int(len(from))])
	switch g.Int(8) {
	case 0:
		s = append(s, g.mByte())
	case 1:
		s = append([]byte{g.mByte()}, s...)
	case 2:
		s = s[:g.Int(len(s)+1)]
	}
	return s
}
