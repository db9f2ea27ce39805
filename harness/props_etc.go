package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"io/fs"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"text/template"
	"time"
)

// ---------------------------------------------------------------------------
// C28: the template generator, run as a program (an unprivileged one, in a scratch directory).

// etcNode is a file or directory of a template tree; Name and Text are templates.
type etcNode struct {
	Name string     `json:"name"`
	Dir  bool       `json:"dir,omitempty"`
	Text BS         `json:"text,omitempty"`
	Kids []*etcNode `json:"kids,omitempty"`
	// Link puts the file or directory elsewhere and a symbolic link (1 relative, 2 absolute) to it here.
	Link int `json:"link,omitempty"`
}

// etcVal is a data value: exactly one field is set (none is null).
type etcVal struct {
	S  *string    `json:"s,omitempty"`
	I  *int       `json:"i,omitempty"`
	B  *bool      `json:"b,omitempty"`
	F  *float64   `json:"f,omitempty"`
	L  []*etcVal  `json:"l,omitempty"`
	M  []etcField `json:"m,omitempty"`
	IL bool       `json:"il,omitempty"` // empty list
	IM bool       `json:"im,omitempty"` // empty map
}

type etcField struct {
	K string  `json:"k"`
	V *etcVal `json:"v"`
	// N stands for K when the keys of the map are numbers.
	N *int `json:"n,omitempty"`
	// Anc gives the value an anchor; Ref writes the value as an alias of it.
	Anc string `json:"anc,omitempty"`
	Ref string `json:"ref,omitempty"`
}

func (f *etcField) key() string {
	if f.N != nil {
		return strconv.Itoa(*f.N)
	}
	return yamlKey(f.K)
}

// mark is what stands before the value, or in its place.
func (f *etcField) mark() (string, bool) {
	switch {
	case f.Ref != "":
		return "*" + f.Ref, true
	case f.Anc != "":
		return "&" + f.Anc + " ", false
	}
	return "", false
}

type etcSpec struct {
	Data *etcVal  `json:"data"`
	Sel  string   `json:"sel"`
	Root *etcNode `json:"root"`
	// At is the directory of the root below the working directory ("" or a relative path); Abs gives -t as an
	// absolute path; Style varies how the path is written.
	At    string `json:"at,omitempty"`
	Abs   bool   `json:"abs,omitempty"`
	Style int    `json:"style,omitempty"`
	// Pick chooses the output that cannot be made or the template that cannot be read.
	Pick int `json:"pick,omitempty"`
	// Stale lists output paths (by index among the outputs) that exist beforehand with other contents.
	Stale []int `json:"stale,omitempty"`
	// Fail names a reason for which the run has to fail.
	Fail string `json:"fail,omitempty"`
	Flow bool   `json:"flow,omitempty"` // data in flow style
	Args int    `json:"args,omitempty"` // order and spelling of the flags
}

func (v *etcVal) value() interface{} {
	switch {
	case v.S != nil:
		return *v.S
	case v.I != nil:
		return *v.I
	case v.B != nil:
		return *v.B
	case v.F != nil:
		return *v.F
	case v.L != nil || v.IL:
		out := []interface{}{}
		for _, x := range v.L {
			out = append(out, x.value())
		}
		return out
	case v.M != nil || v.IM:
		out := map[interface{}]interface{}{}
		for _, f := range v.M {
			if f.N != nil {
				out[*f.N] = f.V.value()
				continue
			}
			out[f.K] = f.V.value()
		}
		return out
	}
	return nil
}

func yamlStr(s string, flow bool) string {
	if !flow && s != "" && strings.Trim(s, "abcdefghijklmnopqrstuvwxyz") == "" && !yamlWord[s] {
		return s
	}
	var sb strings.Builder
	sb.WriteByte('"')
	for _, r := range s {
		switch {
		case r == '"' || r == '\\':
			sb.WriteByte('\\')
			sb.WriteRune(r)
		case r == '\n':
			sb.WriteString(`\n`)
		case r == '\t':
			sb.WriteString(`\t`)
		case r < ' ' || r == 0x7f:
			fmt.Fprintf(&sb, `\x%02x`, r)
		default:
			sb.WriteRune(r)
		}
	}
	sb.WriteByte('"')
	return sb.String()
}

// words a YAML reader takes for something else than a string, or might
var yamlWord = map[string]bool{"y": true, "n": true, "yes": true, "no": true, "on": true, "off": true, "true": true, "false": true, "null": true}

func (v *etcVal) yaml(indent string, flow bool) string {
	switch {
	case v.S != nil:
		return yamlStr(*v.S, flow)
	case v.I != nil:
		return strconv.Itoa(*v.I)
	case v.B != nil:
		return strconv.FormatBool(*v.B)
	case v.F != nil:
		return strconv.FormatFloat(*v.F, 'f', 3, 64)
	case v.L != nil:
		if flow {
			var xs []string
			for _, x := range v.L {
				xs = append(xs, x.yaml("", true))
			}
			return "[" + strings.Join(xs, ", ") + "]"
		}
		s := ""
		for _, x := range v.L {
			s += "\n" + indent + "- " + strings.TrimLeft(x.yaml(indent+"  ", true), "\n ")
		}
		return s
	case v.IL:
		return "[]"
	case v.M != nil:
		if flow {
			var xs []string
			for i := range v.M {
				f := &v.M[i]
				t, ref := f.mark()
				if !ref {
					t += f.V.yaml("", true)
				}
				xs = append(xs, f.key()+": "+t)
			}
			return "{" + strings.Join(xs, ", ") + "}"
		}
		s := ""
		for i := range v.M {
			f := &v.M[i]
			t, ref := f.mark()
			if !ref {
				t += f.V.yaml(indent+"  ", false)
			}
			s += "\n" + indent + f.key() + ": " + t
		}
		return s
	case v.IM:
		return "{}"
	}
	return "null"
}

func yamlKey(k string) string {
	if isIdent(k) && !yamlWord[k] {
		return k
	}
	return yamlStr(k, true)
}

func isIdent(k string) bool {
	for i, r := range k {
		if r != '_' && (r < 'a' || r > 'z') && (r < 'A' || r > 'Z') && (i == 0 || r < '0' || r > '9') {
			return false
		}
	}
	return k != ""
}

// pick returns the part of the data a dotted selector names.
func (v *etcVal) pick(sel string) (*etcVal, bool) {
	if sel == "" {
		return v, true
	}
	for _, p := range strings.Split(sel, ".") {
		ok := false
		for _, f := range v.M {
			if f.K == p && f.N == nil {
				v, ok = f.V, true
				break
			}
		}
		if !ok {
			return nil, false
		}
	}
	return v, true
}

func render(name, text string, data interface{}) (string, error) {
	t, err := template.New(name).Parse(text)
	if err != nil {
		return "", err
	}
	var b bytes.Buffer
	if err := t.Execute(&b, data); err != nil {
		return "", err
	}
	return b.String(), nil
}

var etcKeys = []string{"bits", "ext", "name", "a", "b", "c", "d", "x1", "Type", "list", "m", "a", "b", "name", "bits", "a-b", "é", "8", "no", "null", "A", "a b", "key with many words in it"}
var etcSafe = []string{"go", "8", "16", "uint", "tree", "a-b", "x_y", "v1.2", "Z", "longer-name-part", "é", "q q", "txt.in"}

func genEtcVal(g *G, depth int, safe bool) *etcVal {
	w := []int{40, 15, 10, 4, 10, 25, 3, 2, 3}
	if depth <= 0 {
		w[4], w[5] = 0, 0
	}
	switch g.W(w...) {
	case 0:
		s := pick(g, etcSafe)
		if !safe && g.P(40) {
			s = pick(g, []string{"", "{{.a}}", "line\nbreak", "tab\t", "quote\"s", "back\\slash", "<b>&amp;</b>", "日本", "a: b", "# no", "- x", "%d", "yes", "12", "null", " lead", "trail ", "'", "{", "[", "*", "&a", "!t", "|", ">", "@", "`"})
		}
		return &etcVal{S: &s}
	case 1:
		i := pick(g, []int{0, 1, 8, 16, 32, 64, -3, 1000000, 7})
		return &etcVal{I: &i}
	case 2:
		b := g.P(50)
		return &etcVal{B: &b}
	case 3:
		f := pick(g, []float64{0.5, -1.25, 2.125})
		return &etcVal{F: &f}
	case 4:
		v := &etcVal{}
		for n := g.Range(1, 4); n > 0; n-- {
			d := 0
			if g.P(25) {
				d = depth - 1
			}
			// flow style: no block maps with anchors in there
			v.L = append(v.L, genEtcVal(g, d, safe).unmark())
		}
		return v
	case 5:
		if g.P(8) {
			v := &etcVal{}
			for _, n := range []int{8, 16, -1, 0, 443}[:g.Range(1, 5)] {
				v.M = append(v.M, etcField{N: &n, V: genEtcVal(g, depth-1, safe)})
			}
			return v
		}
		return genEtcMap(g, depth-1)
	case 6:
		return &etcVal{IL: true}
	case 7:
		return &etcVal{IM: true}
	}
	return &etcVal{}
}

func genEtcMap(g *G, depth int) *etcVal {
	v := &etcVal{}
	used := map[string]bool{}
	for n := g.Range(1, 6); n > 0; n-- {
		k := pick(g, etcKeys)
		if used[k] {
			continue
		}
		used[k] = true
		v.M = append(v.M, etcField{K: k, V: genEtcVal(g, depth, true)})
	}
	if g.P(70) && !used["s"] {
		v.M = append(v.M, etcField{K: "s", V: genEtcVal(g, 0, false)})
	}
	if g.P(12) {
		// one value written once and used twice
		if f := &v.M[g.Int(len(v.M))]; isIdent(f.K) && !f.V.marked() {
			f.Anc = fmt.Sprintf("to_%s_%x", f.K, g.U64()>>32)
			v.M = append(v.M, etcField{K: "again", V: f.V, Ref: f.Anc})
		}
	}
	return v
}

// marked tells whether there is an anchor or an alias in v.
func (v *etcVal) marked() bool {
	for i := range v.M {
		if v.M[i].Anc != "" || v.M[i].Ref != "" || v.M[i].V.marked() {
			return true
		}
	}
	for _, x := range v.L {
		if x.marked() {
			return true
		}
	}
	return false
}

// unmark drops the anchors and aliases in v.
func (v *etcVal) unmark() *etcVal {
	for i := range v.M {
		v.M[i].Anc, v.M[i].Ref = "", ""
		v.M[i].V.unmark()
	}
	for _, x := range v.L {
		x.unmark()
	}
	return v
}

// paths lists the field paths of scalar values below v.
func (v *etcVal) paths(prefix string, f func(path string, v *etcVal)) {
	f(prefix, v)
	for _, x := range v.M {
		if x.N == nil {
			x.V.paths(prefix+"."+x.K, f)
		}
	}
}

// exprs lists the template expressions for the values below v.
func (v *etcVal) exprs(prefix string, f func(e string, v *etcVal)) {
	f(prefix, v)
	for _, x := range v.M {
		e := prefix + "." + x.K
		switch {
		case x.N != nil:
			e = fmt.Sprintf("(index %s %d)", prefix, *x.N)
		case !isIdent(x.K):
			e = fmt.Sprintf("(index %s %q)", prefix, x.K)
		case prefix == ".":
			e = "." + x.K
		}
		x.V.exprs(e, f)
	}
	for i, x := range v.L {
		x.exprs(fmt.Sprintf("(index %s %d)", prefix, i), f)
	}
}

type etcGen struct {
	g       *G
	root    interface{}
	scalars []string // safe in names
	all     []string
	lists   []string
	maps    []string
}

func (e *etcGen) action() string {
	g := e.g
	l, r := "{{", "}}"
	switch g.Int(8) {
	case 0:
		l = "{{ "
		r = " }}"
	case 1:
		l = "{{- "
	case 2:
		r = " -}}"
	}
	p := "."
	if len(e.all) > 0 && g.P(85) {
		p = pick(g, e.all)
	}
	switch g.W(50, 10, 8, 8, 6, 6, 6, 6) {
	case 1:
		return l + "if " + p + r + "yes" + "{{else}}no {{end}}"
	case 2:
		if len(e.lists) > 0 {
			return l + "range $i, $e := " + pick(g, e.lists) + r + "{{$i}}={{$e}};\n{{end}}"
		}
	case 3:
		if len(e.maps) > 0 {
			if g.P(40) {
				return l + "range $k, $v := " + pick(g, e.maps) + r + "{{$k}}={{$v}};\n{{end}}"
			}
			return l + "with " + pick(g, e.maps) + r + "{{.a}}|{{.name}}{{else}}-{{end}}"
		}
	case 4:
		return l + "printf \"%v/%q\" " + p + " " + p + r
	case 5:
		return "{{/* a comment */}}"
	case 6:
		return l + "\"{{lit}}\"" + r
	case 7:
		return "{{define \"T\"}}<{{.}}>{{end}}{{template \"T\" " + p + "}}"
	}
	return l + p + r
}

func (e *etcGen) text() BS {
	g := e.g
	var sb strings.Builder
	big := g.P(3)
	defined := false
	for n := g.Int(9); n > 0; n-- {
		switch g.W(40, 45, 15) {
		case 0:
			sb.WriteString(pick(g, []string{"package x", "\n", "\r\n", " ", "\t", "// comment ", "func f() {}\n", "} {", "\\", "\"", "é日", "\x00", "\xff\xfe", "<&>'", "$x", "%s %d"}))
		case 1:
			a := e.action()
			if strings.HasPrefix(a, "{{define") {
				if defined {
					continue
				}
				defined = true
			}
			sb.WriteString(a)
		case 2:
			sb.WriteString(strings.Repeat("word ", g.Range(1, 30)))
		}
		if big {
			sb.WriteString(strings.Repeat("0123456789abcde\n", g.Range(100, 6000)))
		}
	}
	if big && g.P(25) { // megabytes, with something after them
		sb.WriteString(strings.Repeat("fedcba987654321\n", g.Range(1<<16, 3<<16)))
		sb.WriteString(e.action())
	}
	return BS(sb.String())
}

func (e *etcGen) name(mustAct bool) string {
	g := e.g
	s := ""
	for n := g.Range(1, 3); n > 0; n-- {
		switch g.W(50, 50) {
		case 0:
			s += pick(g, []string{"a", "tree", "file.go", "x-", "_t", "README", "q.", "test_", "Z"})
			if g.P(12) {
				s += pick(g, etcOdd)
			}
		case 1:
			if len(e.scalars) > 0 {
				s += pick(g, []string{"{{%s}}", "{{ %s }}", "{{%s -}}"})
				s = strings.Replace(s, "%s", pick(g, e.scalars), 1)
				mustAct = false
			}
		}
	}
	if mustAct {
		if len(e.scalars) > 0 {
			s += "{{" + pick(g, e.scalars) + "}}"
		} else {
			s += "{{\"lit\"}}"
		}
	}
	return s
}

// etcOdd are parts of file names that mean something to shells, patterns, paths or templates elsewhere.
var etcOdd = []string{"*", "?", "[1]", "[", "]", "[!a]", "\\", "$HOME", "~", "%41", "%s", "#", ";", "&", "'", "\"", "|", "!", "..", ".", ".tmpl",
	" ", "`", "=", "@", ",", "^", "{", "}", "{a,b}", ":", "-", "--", "\t", "é", "日本", "(", ")", "+", "\u200b", "a*b", "[a-z]*"}

// etcTaken are the names the harness itself uses in the working directory.
func etcTaken() map[string]bool {
	return map[string]bool{"data.yaml": true, "keep": true, "sub": true, "links": true}
}

// okName tells whether a rendered component names an entry of its own directory.
func okName(s string) bool {
	return s != "" && s != "." && s != ".." && len(s) < 120 && !strings.ContainsAny(s, "/\x00<\n")
}

func (e *etcGen) node(depth int, root bool, names, outs map[string]bool) *etcNode {
	g := e.g
	for try := 0; try < 8; try++ {
		n := &etcNode{Name: e.name(root)}
		if names[n.Name] || strings.ContainsAny(n.Name, "/") || !okName(n.Name) {
			continue
		}
		// components of the path are rendered together with the whole path
		o, err := render("string", "/p/"+n.Name+"/q", e.root)
		if err != nil || !strings.HasPrefix(o, "/p/") || !strings.HasSuffix(o, "/q") {
			continue
		}
		o = o[3 : len(o)-2]
		if !okName(o) || outs[o] || strings.Contains(n.Name, "-}}") && strings.HasSuffix(n.Name, "-}}") && o == "" {
			continue
		}
		if root && o == n.Name {
			continue
		}
		if names[o] && root || root && outs[n.Name] {
			continue
		}
		names[n.Name], outs[o] = true, true
		if g.P(4) {
			n.Link = g.Range(1, 2)
		}
		w := 55
		if root {
			w = 75
		}
		if depth > 0 && g.P(w) {
			n.Dir = true
			cn, co := map[string]bool{}, map[string]bool{}
			kids := g.Int(5)
			if depth > 6 {
				kids = g.Range(1, 2)
			}
			for i := 0; i < kids; i++ {
				if k := e.node(depth-1, false, cn, co); k != nil {
					n.Kids = append(n.Kids, k)
				}
			}
		} else {
			for {
				n.Text = e.text()
				if _, err := render(n.Name, string(n.Text), e.root); err == nil {
					break
				}
			}
		}
		return n
	}
	return nil
}

func newEtcGen(g *G, v *etcVal) *etcGen {
	e := &etcGen{g: g, root: v.value()}
	v.exprs(".", func(p string, x *etcVal) {
		e.all = append(e.all, p)
		switch {
		case x.L != nil || x.IL:
			e.lists = append(e.lists, p)
		case x.M != nil || x.IM:
			e.maps = append(e.maps, p)
		case x.S != nil && okName(*x.S), x.I != nil, x.B != nil:
			e.scalars = append(e.scalars, p)
		}
	})
	return e
}

func genEtc(g *G) *Case {
	for {
		s := &etcSpec{Data: genEtcMap(g, 3), Flow: g.P(30), Args: g.Int(6), Abs: g.P(30), Style: g.Int(4)}
		if len(s.Data.M) == 0 {
			continue
		}
		var sels []string
		s.Data.paths("", func(p string, v *etcVal) {
			if p != "" {
				sels = append(sels, p[1:])
			}
		})
		sort.Strings(sels)
		if g.P(65) {
			// prefer maps, deep ones too
			s.Sel = pick(g, sels)
			for t := 0; t < 6; t++ {
				if v, _ := s.Data.pick(s.Sel); v.M != nil {
					break
				}
				s.Sel = pick(g, sels)
			}
		}
		v, _ := s.Data.pick(s.Sel)
		e := newEtcGen(g, v)
		depth := g.W(20, 30, 25, 15, 5, 5)
		if depth == 5 {
			depth = g.Range(6, 14)
		}
		s.Root = e.node(depth, true, etcTaken(), etcTaken())
		if s.Root == nil {
			continue
		}
		if s.Root.Dir && g.Int(1000) < 8 { // a directory with many entries
			d := s.Root
			for len(d.Kids) > 0 && g.P(60) {
				if k := d.Kids[g.Int(len(d.Kids))]; k.Dir {
					d = k
				} else {
					break
				}
			}
			for i, n := 0, g.Range(60, 1300); i < n; i++ {
				k := &etcNode{Name: fmt.Sprintf("wide%04d.x", i*7919%10007)}
				switch {
				case i%97 == 3:
					k.Dir = true
				case i%5 == 0:
					k.Text = BS(fmt.Sprintf("{{/* %d */}}text %d", i, i))
				}
				d.Kids = append(d.Kids, k)
			}
		}
		if g.P(40) {
			s.At = pick(g, []string{"sub", "sub/deep", "sub/a/b/c/d/e/f/g/h/i/j/k"})
		}
		if s.Root.Dir && len(e.scalars) > 0 && g.P(8) { // names above the template are rendered with it
			at := "zp-{{" + pick(g, e.scalars) + "}}" + pick(g, []string{"", "/sub/q", "/{{" + pick(g, e.scalars) + "}}-r/s"})
			if o, err := render("string", "/p/"+at+"/q", e.root); err == nil && strings.Count(o, "/") == strings.Count(at, "/")+3 && !strings.ContainsAny(o, "\x00\n<") {
				s.At = at
			}
		}
		for i := g.Int(3); i > 0; i-- {
			s.Stale = append(s.Stale, g.Int(8))
		}
		if g.P(25) {
			s.Fail = pick(g, []string{"sel-missing", "sel-deep", "sel-scalar", "data-missing", "data-syntax", "data-list", "no-t", "no-d", "tpl-syntax", "name-syntax", "same-name", "tpl-exec", "no-template", "name-exec", "blocked", "blocked", "unreadable", "no-space", "no-space"})
			s.Pick = g.Int(64)
			s.applyFail(g, sels)
		}
		b, err := json.Marshal(s)
		if err != nil {
			harnessFail("%v", err)
		}
		return &Case{Cfg: map[string]string{"spec": string(b)}}
	}
}

// applyFail turns a run that succeeds into one that has to fail for the reason s.Fail.
func (s *etcSpec) applyFail(g *G, sels []string) {
	var files, dirs []*etcNode
	var walk func(n *etcNode)
	walk = func(n *etcNode) {
		if n.Dir {
			dirs = append(dirs, n)
			for _, k := range n.Kids {
				walk(k)
			}
		} else {
			files = append(files, n)
		}
	}
	walk(s.Root)
	switch s.Fail {
	case "sel-missing":
		s.Sel = "nope"
	case "sel-deep":
		s.Sel = ""
		for _, x := range sels {
			if v, _ := s.Data.pick(x); v.M != nil {
				s.Sel = x + ".nope"
			}
		}
		if s.Sel == "" {
			s.Sel = "nope.deeper"
		}
	case "sel-scalar":
		s.Sel = "nope"
		for _, x := range sels {
			if v, _ := s.Data.pick(x); v.M == nil && !v.IM {
				s.Sel = x + ".a"
			}
		}
	case "no-space":
		if len(files) == 0 {
			s.Fail = "sel-missing"
			s.Sel = "nope"
			return
		}
		f := pick(g, files)
		for i := g.Range(20, 500); i > 0; i-- {
			f.Text = append(f.Text, pick(g, []string{"some more words\n", "{{\"a word\"}}", "{{/* nothing */}}", "0123456789abcdef0123456789abcdef"})...)
		}
	case "tpl-syntax", "tpl-exec":
		if len(files) == 0 {
			s.Fail = "sel-missing"
			s.Sel = "nope"
			return
		}
		f := pick(g, files)
		if s.Fail == "tpl-syntax" {
			f.Text = append(append(BS(nil), f.Text...), pick(g, []string{"{{", "{{.a", "{{end}}", "{{if .a}}", "{{nofunc 1}}", "{{.a.}}", "{{range}}"})...)
		} else {
			f.Text = append(append(BS(nil), f.Text...), pick(g, []string{"{{index 1 2}}", "{{template \"missing\"}}", "{{\"s\".x}}", "{{len 3}}"})...)
		}
	case "name-syntax", "name-exec":
		bad := "bad{{.a"
		if s.Fail == "name-exec" {
			bad = pick(g, []string{"x{{index 1 2}}", "y{{template \"m\"}}", "{{len 3}}", "z{{slice 1 2}}w"})
		}
		if len(dirs) == 0 || g.P(30) {
			s.Root.Name = bad
			return
		}
		d := pick(g, dirs)
		d.Kids = append(d.Kids, &etcNode{Name: bad, Dir: g.P(50)})
	case "same-name":
		s.Root.Name = pick(g, []string{"plain", "plain.txt", "a.b"})
		s.At = strings.ReplaceAll(s.At, "{{", "")
	}
}

func init() {
	register(&Prop{ID: "C28",
		Rule:  "random data documents (nested maps with keys of any kind, lists, scalars, anchors; block and flow style), selectors, and template files or directory trees with templated names and contents, given by relative, absolute or nested paths, some parts reached through symbolic links, with stale outputs lying around; a quarter of the cases have to fail for one reason, a limit on the size of files among them; the program runs in a scratch directory whose whole contents are compared; non-trivial: a directory with at least two entries in all, or a run that has to fail",
		Quick: 12000, Thorough: 150000,
		Gen: genEtc,
		Run: runEtc})
}

var etcSeq int
var etcDropped = -1 // 1 the program runs as nobody, 0 it cannot

func runEtc(c *Case, st *Stats) error {
	if c.Cfg["spec"] == "" {
		return nil
	}
	var s etcSpec
	if err := json.Unmarshal([]byte(c.Cfg["spec"]), &s); err != nil {
		harnessFail("%v", err)
	}
	bin := os.Getenv("VH_ETC")
	base := os.Getenv("VH_SCRATCH")
	if bin == "" || base == "" {
		harnessFail("VH_ETC and VH_SCRATCH are needed")
	}
	etcSeq++
	dir := filepath.Join(base, fmt.Sprintf("etc-%d-%d", os.Getpid(), etcSeq))
	must(os.Mkdir(dir, 0755))
	defer os.RemoveAll(dir)

	v, selOK := s.Data.pick(s.Sel)
	want := map[string]string{} // path below dir -> contents, "/" for a directory
	put := func(p, text string) {
		must(os.MkdirAll(filepath.Join(dir, filepath.Dir(p)), 0755))
		must(os.WriteFile(filepath.Join(dir, p), []byte(text), 0644))
	}
	// data
	doc := strings.TrimLeft(s.Data.yaml("", s.Flow), "\n") + "\n"
	switch s.Args {
	case 2:
		doc = "# data\n---\n" + doc
	case 5:
		doc = "%YAML 1.1\n---\n" + doc + "# the end\n..."
	}
	switch s.Fail {
	case "data-syntax":
		doc = "{ [ :\n" + doc
	case "data-list":
		doc = "- a\n- b\n"
	}
	if s.Fail != "data-missing" {
		put("data.yaml", doc)
	}
	put("keep/me", "untouched")
	// templates and what they have to give
	nodes := 0
	var outs []string
	var data interface{}
	if selOK {
		data = v.value()
	}
	fails := s.Fail != "" && s.Fail != "blocked" && s.Fail != "no-space"
	blocks := 400000 // of 512 bytes that the program may write into a file
	var laid []string
	expect := map[string]string{}
	links := 0
	// lay puts a node into the directory at, which really is the directory real
	var lay func(n *etcNode, at, real string) error
	lay = func(n *etcNode, at, real string) error {
		nodes++
		p, rp := filepath.Join(at, n.Name), filepath.Join(real, n.Name)
		if n.Link != 0 {
			to := fmt.Sprintf("links/l%d", links)
			links++
			must(os.MkdirAll(filepath.Join(dir, real), 0755))
			must(os.MkdirAll(filepath.Join(dir, "links"), 0755))
			t := filepath.Join(dir, to)
			if n.Link == 1 {
				t = strings.Repeat("../", strings.Count(rp, "/")) + to
			}
			must(os.Symlink(t, filepath.Join(dir, rp)))
			rp = to
		}
		laid = append(laid, p)
		o := ""
		if !fails {
			r, err := render("string", dir+"/"+filepath.Join(at, n.Name), data)
			if err != nil {
				return err
			}
			o = strings.TrimPrefix(r, dir+"/")
			outs = append(outs, o)
		}
		if n.Dir {
			must(os.MkdirAll(filepath.Join(dir, rp), 0755))
			if !fails {
				expect[o] = "/"
			}
			for _, k := range n.Kids {
				if err := lay(k, p, rp); err != nil {
					return err
				}
			}
			return nil
		}
		put(rp, string(n.Text))
		if !fails {
			r, err := render(n.Name, string(n.Text), data)
			if err != nil {
				return err
			}
			expect[o] = "f" + r
		}
		return nil
	}
	if s.At != "" {
		must(os.MkdirAll(filepath.Join(dir, s.At), 0755))
	}
	if s.Fail != "no-template" {
		if err := lay(s.Root, s.At, s.At); err != nil {
			// not a case of this property (a shrunk one, say)
			return nil
		}
	}
	if !fails {
		if !selOK {
			return nil
		}
		if r := filepath.Join(s.At, s.Root.Name); outs[0] == r {
			return nil
		}
		if s.Fail != "" {
			s.Stale = nil
		}
		for d := filepath.Dir(outs[0]); d != "."; d = filepath.Dir(d) {
			expect[d] = "/"
		}
		for _, i := range s.Stale {
			o := outs[i%len(outs)]
			if expect[o] == "/" {
				must(os.MkdirAll(filepath.Join(dir, o), 0755))
				if o != "" {
					put(filepath.Join(o, "stale-extra"), "stays")
				}
				continue
			}
			put(o, strings.Repeat("stale contents ", 40)+expect[o])
		}
	}
	switch s.Fail {
	case "blocked": // something of the other kind at the place of an output
		fails = true
		o := outs[s.Pick%len(outs)]
		if _, err := os.Lstat(filepath.Join(dir, o)); err == nil {
			return nil
		}
		if expect[o] == "/" {
			put(o, "")
		} else {
			must(os.MkdirAll(filepath.Join(dir, o), 0755))
		}
	case "no-space": // the largest output does not fit
		fails = true
		size := 0
		for _, x := range expect {
			if x != "/" {
				size = max(size, len(x)-1)
			}
		}
		if size <= 512 {
			return nil
		}
		blocks = (size - 1) / 512
		if s.Pick%3 == 0 {
			blocks = 1 + s.Pick*blocks/64
		}
	case "unreadable":
		if !etcDrops(bin, dir) {
			return nil
		}
		must(os.Chmod(filepath.Join(dir, laid[s.Pick%len(laid)]), 0))
	}
	before := snapDir(dir)
	for k, x := range before {
		want[k] = x
	}
	for k, x := range expect {
		want[k] = x
	}
	// the command
	t := filepath.Join(s.At, s.Root.Name)
	switch {
	case s.Abs:
		t = filepath.Join(dir, t)
	case s.Style == 1:
		t = "./" + t
	case s.Style == 2:
		t = "sub/../" + t
		must(os.MkdirAll(filepath.Join(dir, "sub"), 0755))
		if _, ok := want["sub"]; !ok {
			want["sub"], before["sub"] = "/", "/"
		}
	}
	if s.Style == 3 && s.Root.Dir {
		t += "/"
	}
	var flags [][]string
	if s.Fail != "no-t" {
		flags = append(flags, []string{"-t", t})
	}
	if s.Fail != "no-d" {
		d := "data.yaml"
		if s.Args%2 == 1 {
			d = filepath.Join(dir, d)
		}
		flags = append(flags, []string{"-d", d})
	}
	if s.Sel != "" || s.Args == 3 {
		if s.Args == 4 {
			flags = append(flags, []string{"-s=" + s.Sel})
		} else {
			flags = append(flags, []string{"-s", s.Sel})
		}
	}
	var args []string
	for i := range flags {
		args = append(args, flags[(i+s.Args)%len(flags)]...)
	}
	ok, out := runProg(bin, dir, args, blocks)
	after := snapDir(dir)
	if fails {
		if ok {
			return errf("etc %s ends with status 0 although it has to fail (%s)\n%s", strings.Join(args, " "), s.Fail, out)
		}
		// whatever was there stays as it was
		for k, x := range before {
			if after[k] != x {
				return errf("etc %s fails (%s) and changes %q", strings.Join(args, " "), s.Fail, k)
			}
		}
		st.class("fails:" + s.Fail)
		st.nt()
		return nil
	}
	if !ok {
		return errf("etc %s fails:\n%s\ndata:\n%s", strings.Join(args, " "), out, doc)
	}
	for _, k := range sortedKeys(want) {
		x := want[k]
		y, ok := after[k]
		if !ok {
			return errf("etc %s: %q is missing", strings.Join(args, " "), k)
		}
		if x != y {
			return errf("etc %s: %q holds %s, expected %s", strings.Join(args, " "), k, cut(y), cut(x))
		}
	}
	for _, k := range sortedKeys(after) {
		if _, ok := want[k]; !ok {
			return errf("etc %s: unexpected %q", strings.Join(args, " "), k)
		}
	}
	switch {
	case s.Root.Dir:
		st.class("directory")
	default:
		st.class("file")
	}
	if s.Sel != "" {
		st.class(fmt.Sprintf("selector depth %d", 1+strings.Count(s.Sel, ".")))
	}
	if strings.Count(s.At, "/") > 6 || nodes > 8 {
		st.class("deep or many")
	}
	if len(s.Stale) > 0 {
		st.class("stale outputs")
	}
	if links > 0 {
		st.class("symbolic links")
	}
	if strings.Contains(s.At, "{{") {
		st.class("template below a templated name")
	}
	if s.Root.Dir && nodes >= 3 {
		st.nt()
	}
	return nil
}

func sortedKeys(m map[string]string) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func must(err error) {
	if err != nil {
		harnessFail("%v", err)
	}
}

func snapDir(dir string) map[string]string {
	out := map[string]string{}
	err := filepath.WalkDir(dir, func(p string, d fs.DirEntry, err error) error {
		if err != nil {
			return err
		}
		if p == dir {
			return nil
		}
		rel := strings.TrimPrefix(p, dir+"/")
		if d.IsDir() {
			out[rel] = "/"
			return nil
		}
		if !d.Type().IsRegular() {
			to, _ := os.Readlink(p)
			out[rel] = "?" + d.Type().String() + to
			return nil
		}
		b, err := os.ReadFile(p)
		out[rel] = "f" + string(b)
		return err
	})
	must(err)
	return out
}

func etcCommand(bin, dir string, args []string, drop bool, blocks int) (*exec.Cmd, context.CancelFunc) {
	ctx, cancel := context.WithTimeout(context.Background(), 200*time.Second)
	a := append([]string{"-c", `ulimit -t 20; ulimit -f ` + strconv.Itoa(blocks) + `; exec "$0" "$@"`, bin}, args...)
	cmd := exec.CommandContext(ctx, "/bin/sh", a...)
	cmd.Dir = dir
	cmd.Env = []string{"PATH=/usr/bin:/bin", "HOME=" + dir, "TMPDIR=" + dir}
	if drop {
		cmd.SysProcAttr = &syscall.SysProcAttr{Credential: &syscall.Credential{Uid: 65534, Gid: 65534}}
	}
	return cmd, cancel
}

// etcDrops tells whether the program runs as an unprivileged user.
func etcDrops(bin, dir string) bool {
	if etcDropped < 0 {
		etcDropped = 0
		if os.Getuid() == 0 {
			cmd, cancel := etcCommand(bin, dir, nil, true, 400000)
			cmd.Args = []string{"/bin/sh", "-c", `"$0" -h 2>&1 | grep -q template`, bin}
			if cmd.Run() == nil {
				etcDropped = 1
			}
			cancel()
		}
	}
	return etcDropped == 1
}

// runProg runs the program as an unprivileged user where that is possible, with bounded CPU time and output.
func runProg(bin, dir string, args []string, blocks int) (bool, string) {
	if etcDrops(bin, dir) {
		filepath.WalkDir(dir, func(p string, d fs.DirEntry, err error) error {
			if err == nil {
				os.Lchown(p, 65534, 65534)
			}
			return nil
		})
	}
	cmd, cancel := etcCommand(bin, dir, args, etcDropped == 1, blocks)
	defer cancel()
	out, err := cmd.CombinedOutput()
	if len(out) > 3000 {
		out = out[len(out)-3000:]
	}
	if err == nil {
		return true, string(out)
	}
	if _, ok := err.(*exec.ExitError); !ok {
		harnessFail("cannot run etc: %v", err)
	}
	return false, string(out) + "\n" + err.Error()
}
