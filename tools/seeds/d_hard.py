# Planted bugs with rarer triggers.
SEEDS = []
def add(**k): SEEDS.append(k)

NAME = '''
func name(s string) domain.Name {
	n, err := domain.MakeNameFromString(s)
	if err != nil {
		panic(err)
	}
	return n
}
'''
NET = '''
func cidr(s string) *net.IPNet {
	_, n, err := net.ParseCIDR(s)
	if err != nil {
		panic(err)
	}
	return n
}
'''

def head(pkg, imports, path=None):
    return 'package %s_test\n\nimport (\n\t"testing"\n%s)\n' % (pkg, ''.join('\t"%s"\n' % i for i in imports))

R = 'github.com/infobloxopen/go-trees/'

add(id='c09-iptree-host-63', prop='C09', pkg='iptree',
    edits=[('iptree/iptree.go', "return t.root64.Match(MSKey, numtree.Key64BitSize-1)", "return t.root64.Match(MSKey, numtree.Key64BitSize-1-LSBits>>6)")],
    needs='a full-length IPv6 query, a /63 network around it and some other network inside its /64',
    what='the /63 network is skipped',
    demo=head('iptree', ['net', R + 'iptree']) + NET + '''
func TestSeededDemo(t *testing.T) {
	tr := iptree.NewTree().InsertNet(cidr("2001:db8::/63"), 1).InsertNet(cidr("2001:db8::1:0/112"), 2)
	if v, ok := tr.GetByIP(net.ParseIP("2001:db8::5")); !ok || v != 1 {
		t.Fatal(v, ok)
	}
}
''')

add(id='c11-iptree-host-key-alias', prop='C11', pkg='iptree',
    edits=[('iptree/iptree.go', "\t\t\t\tmask := net.CIDRMask(numtree.Key64BitSize+int(n.Bits), iPv6Bits)\n\t\t\t\tch <- Pair{\n\t\t\t\t\tKey: &net.IPNet{\n\t\t\t\t\t\tIP:   append(MSIP[0:8], LSIP...).Mask(mask),\n",
            "\t\t\t\tmask := net.CIDRMask(numtree.Key64BitSize+int(n.Bits), iPv6Bits)\n\t\t\t\tip := append(MSIP[0:8], LSIP...)\n\t\t\t\tif n.Bits < numtree.Key64BitSize {\n\t\t\t\t\tip = ip.Mask(mask)\n\t\t\t\t}\n\n\t\t\t\tch <- Pair{\n\t\t\t\t\tKey: &net.IPNet{\n\t\t\t\t\t\tIP:   ip,\n")],
    needs='two addresses in one /64, and looking at the first key after the second one was received',
    what='all host addresses of one /64 end up with the key of the last one',
    demo=head('iptree', ['net', R + 'iptree']) + '''
func TestSeededDemo(t *testing.T) {
	tr := iptree.NewTree().InsertIP(net.ParseIP("2001:db8::1"), 1).InsertIP(net.ParseIP("2001:db8::2"), 2)
	var ps []iptree.Pair
	for p := range tr.Enumerate() {
		ps = append(ps, p)
	}
	if len(ps) != 2 || ps[0].Key.String() != "2001:db8::1/128" || ps[1].Key.String() != "2001:db8::2/128" {
		t.Fatal(ps[0].Key, ps[1].Key)
	}
}
''')

add(id='c12-iptree-callback-key-alias', prop='C12', pkg='iptree',
    edits=[('iptree/iptree.go', "\tkey = &net.IPNet{IP: ip.Mask(mask), Mask: mask}\n\n\tnewValue, shouldUpdate := callback(Pair{Key: key, Value: n.Value})\n",
            "\tif MSIP == nil || n.Bits < numtree.Key64BitSize {\n\t\tip = ip.Mask(mask)\n\t}\n\n\tkey = &net.IPNet{IP: ip, Mask: mask}\n\n\tnewValue, shouldUpdate := callback(Pair{Key: key, Value: n.Value})\n")],
    needs='a target shorter than 64 bits, two addresses in one /64 and a callback that keeps its keys',
    what='keys kept by the callback change when it is called again',
    demo=head('iptree', ['net', R + 'iptree']) + NET + '''
func TestSeededDemo(t *testing.T) {
	tr := iptree.NewTree().InsertNet(cidr("2001:db8::/32"), 0).InsertIP(net.ParseIP("2001:db8::1"), 1).InsertIP(net.ParseIP("2001:db8::2"), 2)
	var ps []iptree.Pair
	tr.UpdateDescendants(cidr("2001:db8::/32"), func(p iptree.Pair) (interface{}, bool) {
		ps = append(ps, p)
		return nil, false
	})
	if len(ps) != 2 || ps[0].Key.String() != "2001:db8::1/128" || ps[1].Key.String() != "2001:db8::2/128" {
		t.Fatal(ps[0].Key, ps[1].Key)
	}
}
''')

add(id='c12-iptree-skip-whole-half', prop='C12', pkg='iptree',
    edits=[('iptree/iptree.go', "\t\t\t\tfor n := range (*numtree.Node64)(s).Enumerate() {\n\t\t\t\t\tupdateNode64(MSIP, n, callback)\n\t\t\t\t}\n", "\t\t\t\tfor n := range (*numtree.Node64)(s).Enumerate() {\n\t\t\t\t\tif n.Bits > 0 || n.Key == 0 {\n\t\t\t\t\t\tupdateNode64(MSIP, n, callback)\n\t\t\t\t\t}\n\t\t\t\t}\n")],
    needs='a /64 network stored with host bits set in its address, and a shorter target',
    what='that /64 network is not updated',
    demo=head('iptree', ['net', R + 'iptree']) + NET + '''
func TestSeededDemo(t *testing.T) {
	n := &net.IPNet{IP: net.ParseIP("2001:db8::1"), Mask: net.CIDRMask(64, 128)}
	tr := iptree.NewTree().InsertNet(cidr("2001:db8::/32"), 0).InsertNet(n, 1)
	c := 0
	tr.UpdateDescendants(cidr("2001:db8::/32"), func(p iptree.Pair) (interface{}, bool) { c++; return nil, false })
	if c != 1 {
		t.Fatal(c)
	}
}
''')

add(id='c15-domaintree-stale-value', prop='C15', pkg='domaintree',
    edits=[('domaintree/domaintree.go', "\tn = nodes[i]\n\ti++\n\n\tbranches := n.branches\n", "\tn = nodes[i]\n\ti++\n\n\tbranches, value := n.branches, n.value\n"),
           ('domaintree/domaintree.go', "RawInsert(labels[i], &Node{branches: branches})", "RawInsert(labels[i], &Node{branches: branches, value: value})"),
           ('domaintree/domaintree.go', "\t\tif !n.hasValue && n.branches.IsEmpty() {\n\t\t\tp.branches, _", "\t\tif n.value == nil && n.branches.IsEmpty() {\n\t\t\tp.branches, _")],
    needs='deleting a name that has subdomains, then its subdomains, then that name again',
    what='an empty node is left, and deleting it reports true (a stored nil is pruned as well)',
    demo=head('domaintree', [R + 'domain', R + 'domaintree']) + NAME + '''
func TestSeededDemo(t *testing.T) {
	tr := new(domaintree.Node).Insert(name("com"), 0).Insert(name("b.com"), 1).Insert(name("a.b.com"), 2)
	tr, _ = tr.Delete(name("b.com"))
	tr, ok := tr.Delete(name("a.b.com"))
	if !ok {
		t.Fatal("not deleted")
	}
	if _, ok := tr.DeleteSubdomains(name("b.com")); ok {
		t.Fatal("deleted twice")
	}
}
''')

add(id='c19-domaintree-implied-shared', prop='C19', pkg='domaintree',
    edits=[('domaintree/domaintree.go', "\tn = nodes[i].copy()\n\tn.branches, _ = n.branches.RawDelete(labels[i])\n\ti++\n", "\tn = nodes[i]\n\tif n.hasValue || i == len(nodes)-1 {\n\t\tn = n.copy()\n\t}\n\tn.branches, _ = n.branches.RawDelete(labels[i])\n\ti++\n")],
    needs='deleting subdomains right below a name that is only implied, then looking at the tree before',
    what='the older tree loses them too',
    demo=head('domaintree', [R + 'domain', R + 'domaintree']) + NAME + '''
func TestSeededDemo(t *testing.T) {
	old := new(domaintree.Node).Insert(name("a.b.com"), 1).Insert(name("c.b.com"), 2)
	old.DeleteSubdomains(name("a.b.com"))
	if _, ok := old.Get(name("a.b.com")); !ok {
		t.Fatal("older tree changed")
	}
}
''')

add(id='c14-domaintree32-depth', prop='C14', pkg='uintX/domaintree32',
    edits=[('uintX/domaintree32/domaintree.go', "func (n *Node) Delete(d domain.Name) (*Node, bool) {\n\tif n == nil {\n\t\treturn nil, false\n\t}\n\n\tvar (\n\t\tlabels [domain.MaxLabels + 1]string\n\t\tnodes  [domain.MaxLabels + 1]*Node\n", "func (n *Node) Delete(d domain.Name) (*Node, bool) {\n\tif n == nil {\n\t\treturn nil, false\n\t}\n\n\tvar (\n\t\tlabels [domain.MaxLabels]string\n\t\tnodes  [domain.MaxLabels]*Node\n")],
    needs='deleting a name of 127 labels',
    what='panics',
    demo=head('domaintree32', ['strings', R + 'domain', R + 'uintX/domaintree32']) + NAME + '''
func TestSeededDemo(t *testing.T) {
	d := name(strings.TrimSuffix(strings.Repeat("a.", 127), "."))
	tr := new(domaintree32.Node).Insert(d, 1)
	if _, ok := tr.Delete(d); !ok {
		t.Fatal("not deleted")
	}
}
''')

add(id='c33-reflection-unexported', prop='C33', pkg='domain',
    edits=[('domain/name.go', "\t\treturn Name{v.Field(0).String(), v.Field(1).String()}\n", "\t\treturn v.Interface().(Name)\n")],
    needs='a name held in an unexported struct field',
    what='panics instead of returning the name',
    demo=head('domain', ['reflect', R + 'domain']) + NAME + '''
func TestSeededDemo(t *testing.T) {
	s := struct{ n domain.Name }{name("example.com")}
	n := domain.MakeNameFromReflection(reflect.ValueOf(s).Field(0))
	if n.String() != "example.com" {
		t.Fatal(n)
	}
}
''')

add(id='c08-numtree64-wrap-delete', prop='C08', pkg='numtree',
    edits=[('numtree/node64.go', "func (n *Node64) Delete(key uint64, bits int) (*Node64, bool) {\n\tif n == nil {\n\t\treturn n, false\n\t}\n\n\tif bits < 0 {\n\t\tbits = 0\n\t} else if bits > Key64BitSize {\n\t\tbits = Key64BitSize\n\t}\n\n\treturn n.del(key, uint8(bits))\n",
            "func (n *Node64) Delete(key uint64, bits int) (*Node64, bool) {\n\tif n == nil {\n\t\treturn n, false\n\t}\n\n\tif bits < 0 {\n\t\tbits = 0\n\t}\n\n\tb := uint8(bits)\n\tif b > Key64BitSize {\n\t\tb = Key64BitSize\n\t}\n\n\treturn n.del(key, b)\n")],
    needs='deleting with a length of 256 or more',
    what='the length wraps around and a much larger prefix is deleted',
    demo=head('numtree', [R + 'numtree']) + '''
func TestSeededDemo(t *testing.T) {
	var tr *numtree.Node64
	tr = tr.Insert(1, 64, "a").Insert(2, 64, "b")
	tr, ok := tr.Delete(1, 256)
	if !ok {
		t.Fatal("not deleted")
	}
	if _, ok := tr.ExactMatch(2, 64); !ok {
		t.Fatal("neighbour deleted")
	}
}
''')

add(id='c17-dltree-far-nephew', prop='C17', pkg='dltree',
    edits=[('dltree/node.go', "\t\t\t\t\t\t\ts.chld[nPDir] = s.chld[nPDir].fullCopy()\n", "")],
    needs='a delete that rebalances by a single rotation around a sibling, and an older tree',
    what='a node of the older tree is recoloured',
    demo=head('dltree', ['fmt', R + 'dltree']) + '''
func TestSeededDemo(t *testing.T) {
	for n := 4; n < 40; n++ {
		tr := dltree.NewTree()
		for i := 0; i < n; i++ {
			tr = tr.RawInsert(fmt.Sprintf("%02d", i), i)
		}
		for i := 0; i < n; i++ {
			before := tr.Dot()
			tr.RawDelete(fmt.Sprintf("%02d", i))
			if tr.Dot() != before {
				t.Fatal("older tree changed")
			}
		}
	}
}
''')

add(id='c17-strtree32-red-sibling', prop='C17', pkg='uintX/strtree32',
    edits=[('uintX/strtree32/node.go', "\t\t\t\tn.chld[nDir] = n.chld[nDir].fullCopy()\n", "")],
    needs='a delete that rotates over a red child, and an older tree',
    what='the older tree is restructured',
    demo=head('strtree32', ['fmt', R + 'uintX/strtree32']) + '''
func TestSeededDemo(t *testing.T) {
	for n := 3; n < 40; n++ {
		tr := strtree32.NewTree()
		for i := 0; i < n; i++ {
			tr = tr.Insert(fmt.Sprintf("%02d", i), uint32(i))
		}
		for i := 0; i < n; i++ {
			before := tr.Dot()
			tr.Delete(fmt.Sprintf("%02d", i))
			if tr.Dot() != before {
				t.Fatal("older tree changed")
			}
		}
	}
}
''')

add(id='c01-strtree-size-count', prop='C01', pkg='strtree',
    edits=[('strtree/strtree.go', "\troot    *node\n\tcompare Compare\n", "\troot    *node\n\tcompare Compare\n\tsize    int\n"),
           ('strtree/strtree.go', "\troot, ok := t.root.del(key, c)\n\treturn &Tree{root: root, compare: c}, ok\n", "\troot, ok := t.root.del(key, c)\n\tsize := t.size\n\tif ok {\n\t\tsize--\n\t}\n\treturn &Tree{root: root, compare: c, size: size}, ok\n"),
           ('strtree/strtree.go', "return t == nil || t.root == nil", "return t == nil || t.root == nil && t.size <= 0"),
           ('strtree/strtree.go', "t.root = t.root.inplaceInsert(key, value, t.compare)", "t.root = t.root.inplaceInsert(key, value, t.compare)\n\tt.size++")],
    needs='replacing a value in place and then deleting everything',
    what='the empty tree says it is not empty',
    demo=head('strtree', [R + 'strtree']) + '''
func TestSeededDemo(t *testing.T) {
	tr := strtree.NewTree()
	tr.InplaceInsert("a", 1)
	tr.InplaceInsert("a", 2)
	tr, _ = tr.Delete("a")
	if !tr.IsEmpty() {
		t.Fatal("not empty")
	}
}
''')

add(id='c25-domain-human-pool', prop='C25', pkg='domain', race=True,
    edits=[('domain/label.go', 'import (\n\t"fmt"\n\t"math"\n)\n', 'import (\n\t"fmt"\n\t"math"\n\t"sync"\n)\n\nvar labelPool = sync.Pool{New: func() interface{} { return new([4 * MaxLabel]byte) }}\n'),
           ('domain/label.go', "\tvar label [4 * MaxLabel]byte\n", "\tlabel := labelPool.Get().(*[4 * MaxLabel]byte)\n"),
           ('domain/label.go', "\t\t\tlabel[j] = c\n\t\t\tj++\n\t\t}\n\t}\n\n\treturn string(label[:j])\n", "\t\t\tlabel[j] = c\n\t\t\tj++\n\t\t}\n\t}\n\n\tlabelPool.Put(label)\n\treturn string(label[:j])\n")],
    needs='labels made human-readable on several goroutines at once',
    what='a buffer is given back before it is read, so labels mix',
    demo=head('domain', ['sync', R + 'domain']) + '''
func TestSeededDemo(t *testing.T) {
	var wg sync.WaitGroup
	bad := make(chan string, 16)
	for g := 0; g < 8; g++ {
		wg.Add(1)
		go func(c byte) {
			defer wg.Done()
			in, want := make([]byte, 60), make([]byte, 60)
			for i := range in {
				in[i], want[i] = 'A'+c, 'a'+c
			}
			for i := 0; i < 200000; i++ {
				if s := domain.MakeHumanReadableLabel(string(in)); s != string(want) {
					bad <- s
					return
				}
			}
		}(byte(g))
	}
	wg.Wait()
	select {
	case s := <-bad:
		t.Fatal(s)
	default:
	}
}
''')

add(id='c25-iptree-net-pool', prop='C25', pkg='iptree', race=True,
    edits=[('iptree/iptree.go', '\t"fmt"\n\t"net"\n', '\t"fmt"\n\t"net"\n\t"sync"\n'),
           ('iptree/iptree.go', "type subTree64 *numtree.Node64\n", "type subTree64 *numtree.Node64\n\nvar nets = sync.Pool{New: func() interface{} { return new(net.IPNet) }}\n"),
           ('iptree/iptree.go', "\tif ip4 := ip.To4(); ip4 != nil {\n\t\treturn &net.IPNet{IP: ip4, Mask: iPv4MaxMask}\n\t}\n", "\tif ip4 := ip.To4(); ip4 != nil {\n\t\tn := nets.Get().(*net.IPNet)\n\t\tdefer nets.Put(n)\n\t\tn.IP, n.Mask = ip4, iPv4MaxMask\n\t\treturn n\n\t}\n")],
    needs='IPv4 lookups by address on several goroutines at once',
    what='one goroutine gets the answer for another one\'s address',
    demo=head('iptree', ['net', 'sync', R + 'iptree']) + '''
func TestSeededDemo(t *testing.T) {
	tr := iptree.NewTree()
	for i := 0; i < 8; i++ {
		tr = tr.InsertIP(net.IPv4(10, 0, 0, byte(i)), i)
	}
	var wg sync.WaitGroup
	bad := make(chan interface{}, 16)
	for g := 0; g < 8; g++ {
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			ip := net.IPv4(10, 0, 0, byte(g))
			for i := 0; i < 200000; i++ {
				if v, _ := tr.GetByIP(ip); v != g {
					bad <- v
					return
				}
			}
		}(g)
	}
	wg.Wait()
	select {
	case v := <-bad:
		t.Fatal(v)
	default:
	}
}
''')

add(id='c31-strtree-equal-skip', prop='C31', pkg='strtree',
    edits=[('strtree/strtree.go', "func (t *Tree) Insert(key string, value interface{}) *Tree {\n", "func (t *Tree) Insert(key string, value interface{}) *Tree {\n\tif v, ok := t.Get(key); ok && v == value {\n\t\treturn t\n\t}\n\n")],
    needs='replacing an uncomparable value by another of the same type',
    what='panics',
    demo=head('strtree', [R + 'strtree']) + '''
func TestSeededDemo(t *testing.T) {
	tr := strtree.NewTree().Insert("a", []int{1}).Insert("a", []int{2})
	if v, ok := tr.Get("a"); !ok || v.([]int)[0] != 2 {
		t.Fatal(v, ok)
	}
}
''')

add(id='c18-iptree-subtree-delete', prop='C18', pkg='iptree',
    edits=[('iptree/iptree.go', "\t\t\t\t\tr64 = r64.Insert(MSKey, MSBits, subTree64(r))\n", "\t\t\t\t\tr64 = r64.InplaceInsert(MSKey, MSBits, subTree64(r))\n")],
    needs='deleting one of several networks in one /64, then looking at the tree before',
    what='the older tree loses it too',
    demo=head('iptree', ['net', R + 'iptree']) + '''
func TestSeededDemo(t *testing.T) {
	old := iptree.NewTree().InsertIP(net.ParseIP("2001:db8::1"), 1).InsertIP(net.ParseIP("2001:db8::2"), 2)
	old.DeleteByIP(net.ParseIP("2001:db8::1"))
	if _, ok := old.GetByIP(net.ParseIP("2001:db8::1")); !ok {
		t.Fatal("older tree changed")
	}
}
''')

add(id='c18-numtree64-implied-shared', prop='C18', pkg='numtree',
    edits=[('numtree/node64.go', "\tm := newNode64(n.Key, n.Bits, n.Leaf, n.Value)\n\tm.chld = n.chld\n\n\tbranch := (c.Key >> (Key64BitSize - 1 - bits)) & 1\n", "\tm := n\n\tif n.Leaf || n.Bits > 48 {\n\t\tm = newNode64(n.Key, n.Bits, n.Leaf, n.Value)\n\t\tm.chld = n.chld\n\t}\n\n\tbranch := (c.Key >> (Key64BitSize - 1 - bits)) & 1\n")],
    needs='inserting below a branching point without data, then looking at the tree before',
    what='the older tree gains the prefix',
    demo=head('numtree', [R + 'numtree']) + '''
func TestSeededDemo(t *testing.T) {
	var old *numtree.Node64
	old = old.Insert(0x1<<60, 4, 1).Insert(0x2<<60, 4, 2)
	old.Insert(0x3<<60, 4, 3)
	if _, ok := old.ExactMatch(0x3<<60, 4); ok {
		t.Fatal("older tree changed")
	}
}
''')

add(id='c29-template-strtree-del-sign', prop='C29', pkg='etc',
    edits=[('uintX/strtree{{.bits}}/node.{{.ext}}', "\t\tdir = dirLeft\n\t\tr := compare(n.key, key)\n\t\tif r < 0 {\n", "\t\tdir = dirLeft\n\t\tr := compare(n.key, key)\n\t\tif r == -1 {\n")],
    needs='instantiating the template, and a comparator that returns large negative numbers',
    what='instances do not find keys to delete',
    shell='''#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local
cp -a "$PWD/uintX" "$tmp/uintX" || exit 2
go build -o "$tmp/etc" ./etc || exit 2
rm -rf "$tmp/uintX/strtree8"
(cd "$tmp/uintX" && "$tmp/etc" -s uint8 -d uintX.yaml -t './strtree{{.bits}}') > /dev/null 2>&1 || exit 1
printf '{"Replace": {' > "$tmp/overlay.json"
for f in node strtree; do printf '"%s": "%s",' "$PWD/uintX/strtree8/$f.go" "$tmp/uintX/strtree8/$f.go" >> "$tmp/overlay.json"; done
printf '"%s": "%s"}}' "$PWD/uintX/strtree8/zz_seeded_demo_test.go" "$here/demo_test.go.txt" >> "$tmp/overlay.json"
go test -vet=off -count=1 -overlay "$tmp/overlay.json" -run '^TestSeededDemo$' ./uintX/strtree8
''', files={'demo_test.go.txt': head('strtree8', [R + 'uintX/strtree8']) + '''
func TestSeededDemo(t *testing.T) {
	tr := strtree8.NewTreeWithCustomComparison(func(a, b string) int { return int(a[0]) - int(b[0]) })
	tr = tr.Insert("a", 1).Insert("k", 2).Insert("z", 3)
	if _, ok := tr.Delete("z"); !ok {
		t.Fatal("not deleted")
	}
}
'''})

ETC = '''#!/bin/bash
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local
go build -o "$tmp/etc" ./etc || exit 2
cd "$tmp" || exit 2
'''

add(id='c28-etc-hidden-skip', prop='C28', pkg='etc',
    edits=[('etc/main.go', "\t\tfor _, item := range lst {\n", "\t\tfor _, item := range lst {\n\t\t\tif item.Size() == 0 && !item.IsDir() {\n\t\t\t\tcontinue\n\t\t\t}\n\n")],
    needs='an empty file inside a template directory',
    what='it is left out of the instance',
    shell=ETC + '''
mkdir -p 't{{.a}}'
: > 't{{.a}}/empty'
echo x > 't{{.a}}/full'
echo 'a: 1' > d.yaml
./etc -d d.yaml -t './t{{.a}}' > /dev/null 2>&1 || exit 1
test -f t1/full && test -f t1/empty
''')

add(id='c28-etc-selector-empty-value', prop='C28', pkg='etc',
    edits=[('etc/data.go', "\t\tv, ok := m[parts[0]]\n\t\tif !ok {\n", "\t\tv, ok := m[parts[0]]\n\t\tif !ok && len(parts) > 1 || v == nil && len(m) == 0 {\n")],
    needs='a selector whose last step is missing in a non-empty mapping',
    what='rendering goes on without data instead of failing',
    shell=ETC + '''
mkdir -p 't{{.a}}'
echo 'x{{.b}}' > 't{{.a}}/f'
echo 'a: 1' > d.yaml
if ./etc -s missing -d d.yaml -t './t{{.a}}' > /dev/null 2>&1; then exit 1; fi
exit 0
''')

add(id='c28-etc-template-name', prop='C28', pkg='etc',
    edits=[('etc/file.go', "\tt, err := template.ParseFiles(in)\n", "\tt, err := template.ParseGlob(in)\n")],
    needs='a template file whose name contains characters with a meaning in patterns',
    what='the template is not found, or a sibling is taken for it',
    shell=ETC + '''
mkdir -p 't{{.a}}'
echo 'one {{.a}}' > 't{{.a}}/f[1]'
echo 'a: 1' > d.yaml
./etc -d d.yaml -t './t{{.a}}' > /dev/null 2>&1 || exit 1
test "$(cat 't1/f[1]')" = 'one 1'
''')

