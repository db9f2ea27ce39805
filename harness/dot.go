package main

import (
	"fmt"
	"math"
	"reflect"
	"strconv"
	"strings"
)

// dotNode is one vertex of a parsed dump.
type dotNode struct {
	attr string // text between the brackets
	kids []int
}

// parseDot reads a dump and checks that it is one well-formed tree: consecutively numbered vertices,
// every non-root vertex the target of exactly one edge, inner vertices with two children.
func parseDot(s string) ([]dotNode, error) {
	lines := strings.Split(s, "\n")
	if len(lines) < 3 || lines[0] != "digraph d {" || lines[len(lines)-1] != "" || lines[len(lines)-2] != "}" {
		return nil, errf("not a digraph: %.80q", s)
	}
	var ns []dotNode
	type edge struct{ from, a, b int }
	var es []edge
	for _, l := range lines[1 : len(lines)-2] {
		if !strings.HasPrefix(l, "N") {
			return nil, errf("line %q", l)
		}
		sp := strings.IndexByte(l, ' ')
		if sp < 0 {
			return nil, errf("line %q", l)
		}
		id, err := strconv.Atoi(l[1:sp])
		if err != nil {
			return nil, errf("line %q", l)
		}
		rest := l[sp+1:]
		if strings.HasPrefix(rest, "-> {") {
			f := strings.Fields(rest)
			// -> { Na Nb }
			if len(f) != 5 || f[0] != "->" || f[1] != "{" || f[4] != "}" || f[2][0] != 'N' || f[3][0] != 'N' {
				return nil, errf("edge line %q", l)
			}
			a, e1 := strconv.Atoi(f[2][1:])
			b, e2 := strconv.Atoi(f[3][1:])
			if e1 != nil || e2 != nil {
				return nil, errf("edge line %q", l)
			}
			es = append(es, edge{id, a, b})
			continue
		}
		if !strings.HasPrefix(rest, "[") || !strings.HasSuffix(rest, "]") {
			return nil, errf("vertex line %q", l)
		}
		if id != len(ns) {
			return nil, errf("vertex %d declared at position %d", id, len(ns))
		}
		at := rest[1 : len(rest)-1]
		if err := dotAttrs(at); err != nil {
			return nil, errf("vertex line %q: %v", l, err)
		}
		ns = append(ns, dotNode{attr: at})
	}
	if len(ns) == 0 {
		return nil, nil
	}
	indeg := make([]int, len(ns))
	for _, e := range es {
		for _, x := range []int{e.from, e.a, e.b} {
			if x < 0 || x >= len(ns) {
				return nil, errf("edge to undeclared vertex N%d", x)
			}
		}
		if ns[e.from].kids != nil {
			return nil, errf("two edge lines for N%d", e.from)
		}
		ns[e.from].kids = []int{e.a, e.b}
		indeg[e.a]++
		indeg[e.b]++
	}
	for i, d := range indeg {
		if i == 0 && d != 0 || i > 0 && d != 1 {
			return nil, errf("vertex N%d is the target of %d edges", i, d)
		}
	}
	// connected: everything reachable from N0 (indegree one everywhere leaves only cycles to exclude)
	seen := make([]bool, len(ns))
	stack := []int{0}
	n := 0
	for len(stack) > 0 {
		x := stack[len(stack)-1]
		stack = stack[:len(stack)-1]
		if seen[x] {
			return nil, errf("cycle at N%d", x)
		}
		seen[x] = true
		n++
		stack = append(stack, ns[x].kids...)
	}
	if n != len(ns) {
		return nil, errf("%d of %d vertices reachable", n, len(ns))
	}
	return ns, nil
}

// dotAttrs checks name=value pairs where a value is a word or a quoted string with \-escapes.
func dotAttrs(s string) error {
	i := 0
	for i < len(s) {
		j := i
		for j < len(s) && s[j] != '=' {
			if !(isLow(s[j]) || isUp(s[j])) {
				return fmt.Errorf("attribute name at %d", j)
			}
			j++
		}
		if j == i || j >= len(s) {
			return fmt.Errorf("attribute at %d", i)
		}
		j++
		if j < len(s) && s[j] == '"' {
			j++
			for j < len(s) && s[j] != '"' {
				if s[j] == '\\' {
					j++
				}
				j++
			}
			if j >= len(s) {
				return fmt.Errorf("open quote")
			}
			j++
		} else {
			for j < len(s) && s[j] != ' ' {
				j++
			}
		}
		if j < len(s) {
			if s[j] != ' ' {
				return fmt.Errorf("junk after attribute at %d", j)
			}
			j++
		}
		i = j
	}
	return nil
}

// attrValue reads one attribute outside quotes.
func attrValue(s, name string) string {
	val := ""
	eachAttr(s, func(n, v string) {
		if n == name {
			val = v
		}
	})
	return val
}

func eachAttr(s string, f func(name, value string)) {
	for i := 0; i < len(s); {
		j := strings.IndexByte(s[i:], '=')
		if j < 0 {
			return
		}
		name := s[i : i+j]
		j += i + 1
		st := j
		if j < len(s) && s[j] == '"' {
			for j++; j < len(s) && s[j] != '"'; j++ {
				if s[j] == '\\' {
					j++
				}
			}
			j++
		} else {
			for j < len(s) && s[j] != ' ' {
				j++
			}
		}
		f(name, s[st:min(j, len(s))])
		i = j + 1
	}
}

func dotIsNil(n dotNode) bool { return strings.HasPrefix(n.attr, `label="nil"`) && n.kids == nil }

func maxHeight(n int) int { return int(math.Floor(2*math.Log2(float64(n+1)) + 1e-9)) }

// checkRB checks the red-black rules on a dumped tree with n entries.
func checkRB(s string, n int) error {
	ns, err := parseDot(s)
	if err != nil {
		return err
	}
	if n == 0 {
		if len(ns) > 1 || len(ns) == 1 && !dotIsNil(ns[0]) {
			return errf("empty tree dumped as %q", s)
		}
		return nil
	}
	// keys are part of the label, so the colour has to be read as an attribute of its own
	red := func(i int) bool { return attrValue(ns[i].attr, "fillcolor") == "red" }
	isNil := func(i int) bool { return isNilVertex(ns, i) }
	if red(0) {
		return errf("red root")
	}
	count := 0
	var walk func(i int) (h, bh int, err error)
	walk = func(i int) (int, int, error) {
		if isNil(i) {
			return 0, 1, nil
		}
		count++
		r := red(i)
		b := 1
		if r {
			b = 0
		}
		if ns[i].kids == nil {
			return 1, 1 + b, nil
		}
		var hs, bs [2]int
		for x, k := range ns[i].kids {
			if r && !isNil(k) && red(k) {
				return 0, 0, errf("red vertex N%d has red child N%d", i, k)
			}
			h, bh, err := walk(k)
			if err != nil {
				return 0, 0, err
			}
			hs[x], bs[x] = h, bh
		}
		if bs[0] != bs[1] {
			return 0, 0, errf("vertex N%d: %d black nodes on paths to the left, %d to the right", i, bs[0], bs[1])
		}
		return 1 + max(hs[0], hs[1]), bs[0] + b, nil
	}
	h, _, err := walk(0)
	if err != nil {
		return err
	}
	if count != n {
		return errf("dump has %d data vertices for %d entries", count, n)
	}
	if h > maxHeight(n) {
		return errf("height %d with %d entries exceeds %d", h, n, maxHeight(n))
	}
	return nil
}

// walkBalance visits a library value by reflection; every maximal binary tree of nodes that point to
// nodes of their own type must not be higher than 2*log2(n+1). It knows no field names. It returns the
// number of trees found and the size of the largest.
func walkBalance(obj interface{}) (trees, largest int, err error) {
	var visit func(v reflect.Value, depth int)
	selfRefs := map[reflect.Type][]int{}
	self := func(t reflect.Type) []int {
		if r, ok := selfRefs[t]; ok {
			return r
		}
		var out []int
		n := 0
		if t.Kind() == reflect.Struct {
			for i := 0; i < t.NumField(); i++ {
				ft := t.Field(i).Type
				if ft.Kind() == reflect.Ptr && ft.Elem() == t {
					out = append(out, i)
					n++
				} else if ft.Kind() == reflect.Array && ft.Elem().Kind() == reflect.Ptr && ft.Elem().Elem() == t {
					out = append(out, i)
					n += ft.Len()
				}
			}
		}
		if n != 2 {
			out = nil
		}
		selfRefs[t] = out
		return out
	}
	seen := map[uintptr]bool{}
	visit = func(v reflect.Value, depth int) {
		if err != nil || depth > 400 {
			return
		}
		switch v.Kind() {
		case reflect.Interface:
			if !v.IsNil() {
				visit(v.Elem(), depth+1)
			}
		case reflect.Ptr:
			if v.IsNil() || v.Elem().Kind() != reflect.Struct || seen[v.Pointer()] {
				return
			}
			seen[v.Pointer()] = true
			t := v.Elem().Type()
			refs := self(t)
			if refs == nil {
				visit(v.Elem(), depth+1)
				return
			}
			n := 0
			var measure func(p reflect.Value) int
			measure = func(p reflect.Value) int {
				if p.IsNil() || err != nil {
					return 0
				}
				n++
				if n > 1<<20 {
					err = errf("cycle")
					return 0
				}
				e := p.Elem()
				h := 0
				for _, i := range refs {
					f := e.Field(i)
					if f.Kind() == reflect.Array {
						for j := 0; j < f.Len(); j++ {
							h = max(h, measure(f.Index(j)))
						}
					} else {
						h = max(h, measure(f))
					}
				}
				for i := 0; i < e.NumField(); i++ {
					isRef := false
					for _, r := range refs {
						isRef = isRef || r == i
					}
					if !isRef {
						visit(e.Field(i), depth+1)
					}
				}
				return h + 1
			}
			h := measure(v)
			trees++
			if n > largest {
				largest = n
			}
			if err == nil && h > maxHeight(n) {
				err = errf("a tree of %d nodes (%s) has height %d, more than %d", n, t, h, maxHeight(n))
			}
		case reflect.Struct:
			for i := 0; i < v.NumField(); i++ {
				visit(v.Field(i), depth+1)
			}
		case reflect.Array:
			for i := 0; i < v.Len(); i++ {
				visit(v.Index(i), depth+1)
			}
		}
	}
	visit(reflect.ValueOf(obj), 0)
	return
}
