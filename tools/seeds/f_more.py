# Planted bugs: rare bytes, sizes and widths.
SEEDS = []
def add(**k): SEEDS.append(k)

NAME = '''
func name(s string) domain.Name {
	n, err := domain.MakeNameFromString(s)
	if err != nil {
		panic(err)
	}
	return n
}
'''
NET = '''
func cidr(s string) *net.IPNet {
	_, n, err := net.ParseCIDR(s)
	if err != nil {
		panic(err)
	}
	return n
}
'''

def head(pkg, imports, path=None):
    return 'package %s_test\n\nimport (\n\t"testing"\n%s)\n' % (pkg, ''.join('\t"%s"\n' % i for i in imports))

R = 'github.com/infobloxopen/go-trees/'
add(id='c23-escape-63rd', prop='C23', pkg='domain',
    edits=[('domain/label.go', "\t\t\tc = byte(code)\n\t\t\tif c >= 'a' && c <= 'z' {\n\t\t\t\tc &= 0xdf\n\t\t\t}\n\n\t\t\tif j >= len(out) {", "\t\t\tc = byte(code)\n\t\t\tif c >= 'a' && c <= 'z' {\n\t\t\t\tc &= 0xdf\n\t\t\t}\n\n\t\t\tif j >= MaxLabel {")],
    needs='a label of exactly 63 bytes whose last byte is spelled as a numeric escape',
    what='the label is refused as too long',
    demo=head('domain', ['strings', R + 'domain']) + '''
func TestSeededDemo(t *testing.T) {
	if s, err := domain.MakeLabel(strings.Repeat("a", 62) + "\\\\000"); err != nil || len(s) != 63 {
		t.Fatal(s, err)
	}
}
''')


add(id='c21-name-255-short-label', prop='C21', pkg='domain',
    edits=[('domain/name.go', "if copied := copy(name[j:], label[:n]); copied < n {", "if copied := copy(name[j:], label[:n]); copied < n || n == 2 && j+n == MaxName {")],
    needs='a name of exactly 255 bytes whose first label is a single byte, but fewer than 127 labels or more than that many characters',
    what='the longest names are refused when their first label is one byte long',
    demo=head('domain', ['strings', R + 'domain']) + '''
func TestSeededDemo(t *testing.T) {
	// 2 + 61 + 3*64 = 255
	s := "a." + strings.Repeat("b", 60) + strings.Repeat("."+strings.Repeat("c", 63), 3)
	if _, err := domain.MakeNameFromString(s); err != nil {
		t.Fatal(err)
	}
}
''')

add(id='c22-getlabels-eof', prop='C22', pkg='domain',
    edits=[('domain/name.go', "\t\tif err := f(n.c[off:next]); err != nil {\n\t\t\treturn err", "\t\tif err := f(n.c[off:next]); err != nil {\n\t\t\tif err == io.EOF {\n\t\t\t\treturn nil\n\t\t\t}\n\n\t\t\treturn err"),
           ('domain/name.go', '\t"fmt"\n', '\t"fmt"\n\t"io"\n')],
    needs='a callback which returns io.EOF',
    what='the iteration stops but reports success',
    demo=head('domain', ['io', R + 'domain']) + NAME + '''
func TestSeededDemo(t *testing.T) {
	if err := name("a.b").GetLabels(func(string) error { return io.EOF }); err != io.EOF {
		t.Fatal(err)
	}
}
''')

add(id='c22-fold-escaped-latin', prop='C22', pkg='domain',
    edits=[('domain/label.go', "\t\t\tc = byte(code)\n\t\t\tif c >= 'a' && c <= 'z' {", "\t\t\tc = byte(code)\n\t\t\tif l := c & 0x7f; l >= 'a' && l <= 'z' {")],
    needs='a numeric escape of a byte 225..250',
    what='its spelling by escape and its spelling by the byte itself denote different labels',
    demo=head('domain', [R + 'domain']) + '''
func TestSeededDemo(t *testing.T) {
	a, _ := domain.MakeLabel("\\xe1")
	b, _ := domain.MakeLabel("\\\\225")
	if a != b {
		t.Fatalf("%q %q", a, b)
	}
}
''')

add(id='c27-dltree-dot-cut', prop='C27', pkg='dltree',
    edits=[('dltree/node.go', "\tqueue := []*node{n}\n\tfor len(queue) > 0 {\n\t\tn := queue[0]\n\t\tbody += fmt.Sprintf(\"N%d %s\\n\", i, n.dotString())", "\tqueue := []*node{n}\n\tfor len(queue) > 0 {\n\t\tn := queue[0]\n\t\tbody += fmt.Sprintf(\"N%d %s\\n\", uint8(i), n.dotString())")],
    needs='dumping a label tree of more than 127 entries',
    what='vertex numbers wrap around',
    demo=head('dltree', ['fmt', 'strings', R + 'dltree']) + '''
func TestSeededDemo(t *testing.T) {
	tr := dltree.NewTree()
	for i := 0; i < 300; i++ {
		tr.RawInplaceInsert(fmt.Sprintf("%06d", i), i)
	}
	if !strings.Contains(tr.Dot(), "\\nN300 [") {
		t.Fatal("no vertex 300")
	}
}
''')

add(id='c12-iptree-exact-64', prop='C12', pkg='iptree',
    edits=[('iptree/iptree.go', "\t\t\t\tfor n := range (*numtree.Node64)(s).Enumerate() {\n\t\t\t\t\tupdateNode64(MSIP, n, callback)", "\t\t\t\tfor n := range (*numtree.Node64)(s).Enumerate() {\n\t\t\t\t\tif n.Bits == 0 && n.Value == nil {\n\t\t\t\t\t\tcontinue\n\t\t\t\t\t}\n\n\t\t\t\t\tupdateNode64(MSIP, n, callback)")],
    needs='a /64 network with the value nil strictly inside the target',
    what='it is not visited',
    demo=head('iptree', ['net', R + 'iptree']) + NET + '''
func TestSeededDemo(t *testing.T) {
	tr := iptree.NewTree().InsertNet(cidr("2001:db8::/32"), 1).InsertNet(cidr("2001:db8::/64"), nil)
	n := 0
	tr.UpdateDescendants(cidr("2001:db8::/32"), func(iptree.Pair) (interface{}, bool) { n++; return nil, false })
	if n != 1 {
		t.Fatal(n)
	}
}
''')

add(id='c10-iptree-root-net', prop='C10', pkg='iptree',
    edits=[('iptree/iptree.go', "\t\tr64 := t.root64\n\t\tif MSBits < numtree.Key64BitSize {", "\t\tr64 := t.root64\n\t\tif MSBits == 0 {\n\t\t\t// Everything goes.\n\t\t\treturn &Tree{root32: t.root32}, t.root32 != nil || r64 != nil\n\t\t}\n\n\t\tif MSBits < numtree.Key64BitSize {")],
    needs='deleting ::/0 from a tree with IPv4 networks only',
    what='something is said to be deleted',
    demo=head('iptree', ['net', R + 'iptree']) + NET + '''
func TestSeededDemo(t *testing.T) {
	tr := iptree.NewTree().InsertNet(cidr("192.0.2.0/24"), 1)
	if _, ok := tr.DeleteByNet(cidr("::/0")); ok {
		t.Fatal(ok)
	}
}
''')

add(id='c19-domaintree-empty-level', prop='C19', pkg='domaintree',
    edits=[('domaintree/domaintree.go', "\t\tn.branches = n.branches.RawInsert(label, next)\n\t\tn = next\n", "\t\tif n.branches != nil && n.branches.IsEmpty() {\n\t\t\t// Nothing to share yet.\n\t\t\tn.branches.RawInplaceInsert(label, next)\n\t\t} else {\n\t\t\tn.branches = n.branches.RawInsert(label, next)\n\t\t}\n\t\tn = next\n")],
    needs='a copying insert below a leaf which was inserted in place',
    what='the older tree gets the new name too',
    demo=head('domaintree', [R + 'domain', R + 'domaintree']) + NAME + '''
func TestSeededDemo(t *testing.T) {
	tr := new(domaintree.Node)
	tr.InplaceInsert(name("com"), 1)
	tr.Insert(name("a.com"), 2)
	if v, _ := tr.Get(name("a.com")); v != 1 {
		t.Fatal(v)
	}
}
''')

add(id='c28-etc-large-file', prop='C28', pkg='etc',
    edits=[('etc/file.go', "\tt, err := template.ParseFiles(in)\n\tif err != nil {\n\t\tlog.Fatal(err)\n\t}\n", "\ti, err := os.Open(in)\n\tif err != nil {\n\t\tlog.Fatal(err)\n\t}\n\tdefer i.Close()\n\n\tb, err := ioutil.ReadAll(io.LimitReader(i, 1<<20))\n\tif err != nil {\n\t\tlog.Fatal(err)\n\t}\n\n\tt, err := template.New(in).Parse(string(b))\n\tif err != nil {\n\t\tlog.Fatal(err)\n\t}\n"),
           ('etc/file.go', 'import (\n', 'import (\n\t"io"\n\t"io/ioutil"\n')],
    needs='a template file of more than 1 MiB',
    what='its output is cut',
    shell='''#!/bin/bash
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local
go build -o "$tmp/gen" ./etc || exit 2
mkdir "$tmp/in"
head -c 1500000 /dev/zero | tr '\\0' 'x' > "$tmp/in/t{{.num}}.txt"
echo 'num: 1' > "$tmp/data.yaml"
"$tmp/gen" -d "$tmp/data.yaml" -t "$tmp/in/t{{.num}}.txt" 2>/dev/null || exit 2
[ "$(stat -c %s "$tmp/in/t1.txt")" = 1500000 ]
''')

add(id='c01-strtree-min-result', prop='C01', pkg='strtree',
    edits=[('strtree/node.go', "\t\tdir := dirLeft\n\t\tif r < 0 {\n\t\t\tdir = dirRight\n\t\t}\n\n\t\tn = n.chld[dir]\n\t}\n\n\treturn nil, false", "\t\tdir := dirLeft\n\t\tif -r > 0 {\n\t\t\tdir = dirRight\n\t\t}\n\n\t\tn = n.chld[dir]\n\t}\n\n\treturn nil, false")],
    needs='a comparator which returns the smallest integer',
    what='the lookup goes the wrong way',
    demo=head('strtree', ['math', 'strings', R + 'strtree']) + '''
func TestSeededDemo(t *testing.T) {
	tr := strtree.NewTreeWithCustomComparison(func(a, b string) int {
		switch strings.Compare(a, b) {
		case -1:
			return math.MinInt64
		case 1:
			return math.MaxInt64
		}
		return 0
	})
	for _, s := range []string{"a", "b", "c", "d"} {
		tr = tr.Insert(s, s)
	}
	for _, s := range []string{"a", "b", "c", "d"} {
		if v, ok := tr.Get(s); !ok || v != s {
			t.Fatal(s, v, ok)
		}
	}
}
''')

add(id='c25-domaintree-branch-pool', prop='C25', pkg='domaintree', race=True,
    edits=[('domaintree/domaintree.go', 'import (\n\t"errors"\n', 'import (\n\t"errors"\n\t"sync"\n'),
           ('domaintree/domaintree.go', "// Delete removes current domain only.", "type path struct {\n\tlabels [domain.MaxLabels + 1]string\n\tnodes  [domain.MaxLabels + 1]*Node\n}\n\nvar paths = sync.Pool{New: func() interface{} { return new(path) }}\n\n// Delete removes current domain only."),
           ('domaintree/domaintree.go', "\tvar (\n\t\tlabels [domain.MaxLabels + 1]string\n\t\tnodes  [domain.MaxLabels + 1]*Node\n\t)\n\n\ti := n.getBranch(d, labels[:], nodes[:])\n\tif i >= len(nodes) || !nodes[i].hasValue {\n", "\tp := paths.Get().(*path)\n\tlabels, nodes := p.labels[:], p.nodes[:]\n\n\ti := n.getBranch(d, labels, nodes)\n\tpaths.Put(p)\n\tif i >= len(nodes) || !nodes[i].hasValue {\n")],
    needs='two goroutines deleting names from a tree at the same time',
    what='they share the arrays that keep the path to the name',
    demo=head('domaintree', ['sync', R + 'domain', R + 'domaintree']) + NAME + '''
func TestSeededDemo(t *testing.T) {
	tr := new(domaintree.Node)
	for _, s := range []string{"a.b.com", "b.com", "c.com", "d.e.org"} {
		tr = tr.Insert(name(s), s)
	}
	var w sync.WaitGroup
	for _, s := range []string{"a.b.com", "b.com", "c.com", "d.e.org"} {
		w.Add(1)
		go func(d domain.Name) {
			defer w.Done()
			for i := 0; i < 20000; i++ {
				tr.Delete(d)
			}
		}(name(s))
	}
	w.Wait()
}
''')

add(id='c30-domaintree64-sentinel', prop='C30', pkg='uintX/domaintree64',
    edits=[('uintX/domaintree64/domaintree.go', "\tvalue, hasValue := n.value, n.hasValue\n\n\td.GetLabels(", "\tvalue, hasValue := n.value, n.hasValue\n\tif value == ^uint64(0) {\n\t\tvalue = 0\n\t}\n\n\td.GetLabels(")],
    needs='the largest 64-bit value stored for the root name',
    what='0 is returned for it',
    demo=head('domaintree64', [R + 'domain', R + 'uintX/domaintree64']) + NAME + '''
func TestSeededDemo(t *testing.T) {
	tr := new(domaintree64.Node).Insert(name(""), ^uint64(0))
	if v, ok := tr.Get(name("a")); !ok || v != ^uint64(0) {
		t.Fatal(v, ok)
	}
}
''')


add(id='c33-named-string', prop='C33', pkg='domain',
    edits=[('domain/name.go', "\tswitch v.Type() {\n\tcase reflectStringType:\n", "\tkind := v.Type()\n\tif kind.ConvertibleTo(reflectStringType) && v.Kind() == reflect.String {\n\t\tkind = reflectStringType\n\t}\n\n\tswitch kind {\n\tcase reflectStringType:\n")],
    needs='a value of a named type whose underlying type is string',
    what='a name is returned instead of the panic',
    demo=head('domain', ['reflect', R + 'domain']) + '''
type host string

func TestSeededDemo(t *testing.T) {
	defer func() {
		if recover() == nil {
			t.Fatal("no panic")
		}
	}()
	domain.MakeNameFromReflection(reflect.ValueOf(host("a.b")))
}
''')

add(id='c02-dltree-empty-label', prop='C02', pkg='dltree',
    edits=[('dltree/dltree.go', "\treturn t.root.get(key)\n}", "\tif len(key) < 1 {\n\t\treturn nil, false\n\t}\n\n\treturn t.root.get(key)\n}")],
    needs='the empty binary label',
    what='it is stored and enumerated but never found',
    demo=head('dltree', [R + 'dltree']) + '''
func TestSeededDemo(t *testing.T) {
	tr := dltree.NewTree().RawInsert("", 1)
	if v, ok := tr.RawGet(""); !ok || v != 1 {
		t.Fatal(v, ok)
	}
}
''')

add(id='c24-iptree-mask-holes', prop='C24', pkg='iptree',
    edits=[('iptree/iptree.go', "\tones, bits := n.Mask.Size()\n\tif bits != iPv6Bits {\n\t\treturn 0, -1, 0, -1\n\t}\n", "\tif len(n.Mask) != net.IPv6len {\n\t\treturn 0, -1, 0, -1\n\t}\n\n\t// Mostly networks are not longer than 64 bits so the second half isn't looked at then.\n\tones, bits := n.Mask[:8].Size()\n\tif bits == 0 {\n\t\treturn 0, -1, 0, -1\n\t}\n\n\tif ones == 64 {\n\t\tls, bits := n.Mask[8:].Size()\n\t\tif bits == 0 {\n\t\t\treturn 0, -1, 0, -1\n\t\t}\n\n\t\tones += ls\n\t}\n")],
    needs='an IPv6 mask with a hole exactly between its halves: a first half shorter than 64 bits and a second half that is not zero',
    what='a malformed mask is accepted',
    demo=head('iptree', ['net', R + 'iptree']) + '''
func TestSeededDemo(t *testing.T) {
	m := append(append(net.IPMask{}, net.CIDRMask(32, 128)[:8]...), net.CIDRMask(8, 128)[:8]...)
	tr := iptree.NewTree().InsertNet(&net.IPNet{IP: net.ParseIP("2001:db8::"), Mask: m}, 1)
	for p := range tr.Enumerate() {
		t.Fatal(p)
	}
}
''')

add(id='c03-strtree8-del-dir', prop='C03', pkg='uintX/strtree8',
    edits=[('uintX/strtree8/node.go', "\t\t\t\t\t\tg.chld[gpDir].chld[dirLeft].red = false\n\t\t\t\t\t\tg.chld[gpDir].chld[dirRight].red = false\n", "\t\t\t\t\t\tg.chld[gpDir].chld[dirLeft].red = false\n\t\t\t\t\t\tg.chld[gpDir].chld[dirRight].red = p.red && n.chld[dirLeft] == nil\n")],
    needs='deletes that rotate around a red parent, in the 8-bit variant only',
    what='red nodes get red children',
    demo=head('strtree8', ['fmt', 'math/rand', 'strings', R + 'uintX/strtree8']) + '''
func TestSeededDemo(t *testing.T) {
	r := rand.New(rand.NewSource(1))
	for i := 0; i < 300; i++ {
		tr := strtree8.NewTree()
		for j := 0; j < 60; j++ {
			k := fmt.Sprintf("%02d", r.Intn(24))
			if r.Intn(2) == 0 {
				tr = tr.Insert(k, 1)
			} else {
				tr, _ = tr.Delete(k)
			}
			d := tr.Dot()
			red := map[string]bool{}
			for _, l := range strings.Split(d, "\\n") {
				if f := strings.Fields(l); len(f) > 1 && strings.Contains(l, "fillcolor=red") {
					red[f[0]] = true
				}
			}
			for _, l := range strings.Split(d, "\\n") {
				if f := strings.Fields(l); len(f) == 6 && f[1] == "->" && red[f[0]] && (red[f[3]] || red[f[4]]) {
					t.Fatal(d)
				}
			}
		}
	}
}
''')

add(id='c16-domaintree-escape-first', prop='C16', pkg='domaintree',
    edits=[('domaintree/domaintree.go', "\t\tsub := item.Key\n\t\tif len(s) > 0 {\n\t\t\tsub += \".\" + s\n\t\t}\n\t\tnode := item.Value.(*Node)\n", "\t\tsub := item.Key\n\t\tif len(s) > 0 {\n\t\t\tsub = strings.TrimSuffix(sub, \".\") + \".\" + s\n\t\t}\n\t\tnode := item.Value.(*Node)\n"),
           ('domaintree/domaintree.go', 'import (\n\t"errors"\n', 'import (\n\t"errors"\n\t"strings"\n')],
    needs='a label below the top level which ends with a dot',
    what='the yielded spelling denotes another name',
    demo=head('domaintree', [R + 'domain', R + 'domaintree']) + NAME + '''
func TestSeededDemo(t *testing.T) {
	tr := new(domaintree.Node).Insert(name("a\\\\..com"), 1)
	for p := range tr.Enumerate() {
		n, err := domain.MakeNameFromString(p.Key)
		if err != nil {
			t.Fatal(err)
		}
		if l, _ := n.GetLabel(4); l != "A." {
			t.Fatalf("%q %q", p.Key, l)
		}
	}
}
''')


add(id='c02-dltree-enum-by-get', prop='C02', pkg='dltree',
    edits=[('dltree/node.go', "\tch <- Pair{Key: domain.MakeHumanReadableLabel(n.key), Value: n.value}\n", "\tkey := domain.MakeHumanReadableLabel(n.key)\n\tif _, err := domain.MakeLabel(key); err == nil && len(key) > 0 {\n\t\tch <- Pair{Key: key, Value: n.value}\n\t}\n")],
    needs='the empty binary label',
    what='it is left out of the human-readable enumeration',
    demo=head('dltree', [R + 'dltree']) + '''
func TestSeededDemo(t *testing.T) {
	n := 0
	for range dltree.NewTree().RawInsert("", 1).RawInsert("A", 2).Enumerate() {
		n++
	}
	if n != 2 {
		t.Fatal(n)
	}
}
''')
