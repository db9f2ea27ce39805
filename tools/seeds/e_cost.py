# Planted bugs of cost: memory of updates, memory kept, goroutines left.
SEEDS = []
def add(**k): SEEDS.append(k)

NAME = '''
func name(s string) domain.Name {
	n, err := domain.MakeNameFromString(s)
	if err != nil {
		panic(err)
	}
	return n
}
'''
NET = '''
func cidr(s string) *net.IPNet {
	_, n, err := net.ParseCIDR(s)
	if err != nil {
		panic(err)
	}
	return n
}
'''

def head(pkg, imports, path=None):
    return 'package %s_test\n\nimport (\n\t"testing"\n%s)\n' % (pkg, ''.join('\t"%s"\n' % i for i in imports))

R = 'github.com/infobloxopen/go-trees/'
REST = '''
func rest(t *testing.T, before int) {
	for i := 0; i < 200; i++ {
		if runtime.NumGoroutine() <= before {
			return
		}
		time.Sleep(5 * time.Millisecond)
	}
	t.Fatal("goroutines left running", runtime.NumGoroutine()-before)
}
'''

add(id='c34-dltree-miss-copies', prop='C34', pkg='dltree',
    edits=[('dltree/dltree.go', "\troot, ok := t.root.del(key)\n\treturn &Tree{root: root}, ok\n", "\troot, ok := t.root.del(key)\n\tif !ok {\n\t\t// The result has to be a copy.\n\t\troot = t.root.clone()\n\t}\n\n\treturn &Tree{root: root}, ok\n"),
           ('dltree/node.go', "func (n *node) fullCopy() *node {", "func (n *node) clone() *node {\n\tif n == nil {\n\t\treturn nil\n\t}\n\n\tm := n.fullCopy()\n\tfor i, c := range n.chld {\n\t\tm.chld[i] = c.clone()\n\t}\n\n\treturn m\n}\n\nfunc (n *node) fullCopy() *node {")],
    needs='a delete by binary label that finds nothing, in a large tree',
    what='the whole tree is copied',
    demo=head('dltree', ['fmt', R + 'dltree']) + '''
func TestSeededDemo(t *testing.T) {
	tr := dltree.NewTree()
	for i := 0; i < 2000; i++ {
		tr.RawInplaceInsert(fmt.Sprintf("%06d", i), i)
	}
	if a := testing.AllocsPerRun(10, func() { tr.RawDelete("NONE") }); a > 500 {
		t.Fatal(a)
	}
}
''')

add(id='c34-numtree32-parent-clone', prop='C34', pkg='numtree',
    edits=[('numtree/node32.go', "\t\t\t// make new root from the candidate and put current node to one of its branch;\n\t\t\tc.chld[branch] = n\n", "\t\t\t// make new root from the candidate and put current node to one of its branch;\n\t\t\tc.chld[branch] = n.clone()\n")
           , ('numtree/node32.go', "func (n *Node32) inplaceInsert(", "func (n *Node32) clone() *Node32 {\n\tif n == nil {\n\t\treturn nil\n\t}\n\n\tm := newNode32(n.Key, n.Bits, n.Leaf, n.Value)\n\tm.chld[0], m.chld[1] = n.chld[0].clone(), n.chld[1].clone()\n\treturn m\n}\n\nfunc (n *Node32) inplaceInsert(")],
    needs='a copying insert of a prefix right above a large subtree',
    what='the subtree is copied instead of shared',
    demo=head('numtree', [R + 'numtree']) + '''
func TestSeededDemo(t *testing.T) {
	var r *numtree.Node32
	for i := uint32(0); i < 4096; i++ {
		r = r.InplaceInsert(0x0a000000|i<<8, 24, i)
	}
	if a := testing.AllocsPerRun(10, func() { r.Insert(0x0a000000, 8, 1) }); a > 500 {
		t.Fatal(a)
	}
}
''')

add(id='c34-domaintree-subdomains-walk', prop='C34', pkg='domaintree',
    edits=[('domaintree/domaintree.go', "\ti++\n\tif i >= len(nodes) {\n\t\treturn new(Node), true\n\t}\n\n\tn = nodes[i].copy()\n\tn.branches, _ = n.branches.RawDelete(labels[i])\n", "\tnodes[i].prune()\n\n\ti++\n\tif i >= len(nodes) {\n\t\treturn new(Node), true\n\t}\n\n\tn = nodes[i].copy()\n\tn.branches, _ = n.branches.RawDelete(labels[i])\n"),
           ('domaintree/domaintree.go', "func (n *Node) copy() *Node {", "func (n *Node) prune() *Node {\n\tb := n.branches\n\tfor item := range b.RawEnumerate() {\n\t\tb, _ = b.RawDelete(item.Key)\n\t}\n\n\treturn &Node{branches: b}\n}\n\nfunc (n *Node) copy() *Node {")],
    needs='deleting the subdomains of a name with very many of them',
    what='every subdomain is deleted on its own, with a copy each',
    demo=head('domaintree', ['fmt', R + 'domain', R + 'domaintree']) + NAME + '''
func TestSeededDemo(t *testing.T) {
	n := new(domaintree.Node)
	for i := 0; i < 2000; i++ {
		n.InplaceInsert(name(fmt.Sprintf("l%d.test", i)), i)
	}
	d := name("test")
	if a := testing.AllocsPerRun(10, func() { n.DeleteSubdomains(d) }); a > 500 {
		t.Fatal(a)
	}
}
''')

add(id='c34-iptree-sub-rebuild', prop='C34', pkg='iptree',
    edits=[('iptree/iptree.go', "\t\t\t\t\tr64 = r64.Insert(MSKey, MSBits, subTree64(r))\n\t\t\t\t}\n\n\t\t\t\treturn", "\t\t\t\t\tvar c *numtree.Node64\n\t\t\t\t\tfor n := range r.Enumerate() {\n\t\t\t\t\t\tc = c.InplaceInsert(n.Key, int(n.Bits), n.Value)\n\t\t\t\t\t}\n\t\t\t\t\tr64 = r64.Insert(MSKey, MSBits, subTree64(c))\n\t\t\t\t}\n\n\t\t\t\treturn")],
    needs='a delete inside one /64 network holding very many entries',
    what='all entries of that network are copied',
    demo=head('iptree', ['net', R + 'iptree']) + NET + '''
func TestSeededDemo(t *testing.T) {
	tr := iptree.NewTree()
	for i := 0; i < 4000; i++ {
		tr.InplaceInsertIP(net.IP{0x20, 1, 0xd, 0xb8, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, byte(i >> 8), byte(i)}, i)
	}
	if a := testing.AllocsPerRun(10, func() { tr.DeleteByIP(net.ParseIP("2001:db8::5")) }); a > 800 {
		t.Fatal(a)
	}
}
''')

add(id='c35-domaintree-implied-left', prop='C35', pkg='domaintree',
    edits=[('domaintree/domaintree.go', "\t\tif !n.hasValue && n.branches.IsEmpty() {\n", "\t\tif !n.hasValue && n.branches.IsEmpty() && i+1 < len(nodes) {\n")],
    needs='deleting the last name below a top-level domain which itself has no value',
    what='the empty top-level node stays in the tree forever',
    demo=head('domaintree', ['fmt', 'reflect', R + 'domain', R + 'domaintree']) + NAME + '''
func count(v reflect.Value) int {
	switch v.Kind() {
	case reflect.Interface, reflect.Ptr:
		if v.IsNil() {
			return 0
		}
		return 1 + count(v.Elem())
	case reflect.Struct:
		n := 0
		for i := 0; i < v.NumField(); i++ {
			n += count(v.Field(i))
		}
		return n
	case reflect.Array:
		n := 0
		for i := 0; i < v.Len(); i++ {
			n += count(v.Index(i))
		}
		return n
	}
	return 0
}

func TestSeededDemo(t *testing.T) {
	n := new(domaintree.Node)
	for i := 0; i < 500; i++ {
		n = n.Insert(name(fmt.Sprintf("a.b.l%d", i)), i)
	}
	for i := 0; i < 500; i++ {
		n, _ = n.Delete(name(fmt.Sprintf("a.b.l%d", i)))
	}
	if c := count(reflect.ValueOf(n)); c > 50 {
		t.Fatal(c)
	}
}
''')

FIN = '''
type big struct{ x [10]int }

func value(gone chan bool) *big {
	v := &big{}
	runtime.SetFinalizer(v, func(*big) { close(gone) })
	return v
}

func collected(gone chan bool) bool {
	for i := 0; i < 20; i++ {
		runtime.GC()
		select {
		case <-gone:
			return true
		case <-time.After(10 * time.Millisecond):
		}
	}
	return false
}
'''

add(id='c35-domaintree-value-kept', prop='C35', pkg='domaintree',
    edits=[('domaintree/domaintree.go', "\t\tn.branches = n.branches.RawInsert(labels[i], &Node{branches: branches})\n", "\t\tm := nodes[i-1].copy()\n\t\tm.hasValue = false\n\t\tn.branches = n.branches.RawInsert(labels[i], m)\n")],
    needs='deleting a name that has stored subdomains',
    what='the removed value stays reachable from the new tree',
    demo=head('domaintree', ['runtime', 'time', R + 'domain', R + 'domaintree']) + NAME + FIN + '''
func TestSeededDemo(t *testing.T) {
	gone := make(chan bool)
	n := new(domaintree.Node).Insert(name("a.test"), 1)
	n = n.Insert(name("test"), value(gone))
	n, _ = n.Delete(name("test"))
	ok := collected(gone)
	runtime.KeepAlive(n)
	if !ok {
		t.Fatal("kept alive")
	}
}
''')

add(id='c35-strtree-replaced-kept', prop='C35', pkg='strtree',
    edits=[('strtree/strtree.go', "type Tree struct {\n", "type Tree struct {\n\tprev *Tree\n"),
           ('strtree/strtree.go', "\treturn &Tree{root: n.insert(key, value, c), compare: c}\n", "\treturn &Tree{root: n.insert(key, value, c), compare: c, prev: t}\n")],
    needs='dropping the older trees after copying inserts',
    what='every new tree keeps its predecessor and everything in it alive',
    demo=head('strtree', ['runtime', 'time', R + 'strtree']) + FIN + '''
func TestSeededDemo(t *testing.T) {
	gone := make(chan bool)
	tr := strtree.NewTree().Insert("a", value(gone)).Insert("b", 2)
	tr = tr.Insert("a", 1)
	ok := collected(gone)
	runtime.KeepAlive(tr)
	if !ok {
		t.Fatal("kept alive")
	}
}
''')

add(id='c35-numtree64-branch-value', prop='C35', pkg='numtree',
    edits=[('numtree/node64.go', "m := newNode64(c.Key&masks64[bits], bits, false, nil)", "m := newNode64(c.Key&masks64[bits], bits, false, c.Value)")],
    needs='a branch point made by a copying insert whose value is later replaced',
    what='the branch point keeps the replaced value alive',
    demo=head('numtree', ['runtime', 'time', R + 'numtree']) + FIN + '''
func TestSeededDemo(t *testing.T) {
	gone := make(chan bool)
	var r *numtree.Node64
	r = r.Insert(0, 8, 1)
	r = r.Insert(1<<63, 8, value(gone))
	r = r.Insert(1<<63, 8, 2)
	ok := collected(gone)
	runtime.KeepAlive(r)
	if !ok {
		t.Fatal("kept alive")
	}
}
''')

add(id='c36-iptree-update-host', prop='C36', pkg='iptree',
    edits=[('iptree/iptree.go', "\t\tfor n := range nodesCh {\n\t\t\tmask := net.CIDRMask(int(n.Bits), iPv4Bits)\n", "\t\tleft := -1\n\t\tif bits == iPv4Bits-1 {\n\t\t\tleft = 2\n\t\t}\n\t\tfor n := range nodesCh {\n\t\t\tmask := net.CIDRMask(int(n.Bits), iPv4Bits)\n"),
           ('iptree/iptree.go', "\t\t\tnewValue, shouldUpdate := callback(Pair{Key: key, Value: n.Value})\n\t\t\tif shouldUpdate {\n\t\t\t\tn.Value = newValue\n\t\t\t}\n\t\t}\n\t}\n", "\t\t\tnewValue, shouldUpdate := callback(Pair{Key: key, Value: n.Value})\n\t\t\tif shouldUpdate {\n\t\t\t\tn.Value = newValue\n\t\t\t}\n\t\t\tif left--; left == 0 {\n\t\t\t\tbreak\n\t\t\t}\n\t\t}\n\t}\n"),
           ('iptree/iptree.go', "\t\tif target.Leaf {\n\t\t\t<-nodesCh\n\t\t}\n\t\tleft := -1\n", "\t\tif bits == iPv4Bits {\n\t\t\t// An address has nothing below it.\n\t\t\treturn\n\t\t}\n\t\tif target.Leaf {\n\t\t\t<-nodesCh\n\t\t}\n\t\tleft := -1\n")],
    needs='a descendant update whose target is a stored IPv4 address',
    what='the goroutine enumerating the target waits forever',
    demo=head('iptree', ['net', 'runtime', 'time', R + 'iptree']) + NET + REST + '''
func TestSeededDemo(t *testing.T) {
	tr := iptree.NewTree().InsertNet(cidr("10.0.0.1/32"), 1)
	before := runtime.NumGoroutine()
	for i := 0; i < 20; i++ {
		tr.UpdateDescendants(cidr("10.0.0.1/32"), func(p iptree.Pair) (interface{}, bool) { return 2, true })
	}
	rest(t, before)
}
''')

add(id='c36-dltree-raw-empty', prop='C36', pkg='dltree',
    edits=[('dltree/dltree.go', "func (t *Tree) RawEnumerate() chan Pair {\n\tch := make(chan Pair)\n\n\tgo func() {\n\t\tdefer close(ch)\n\n\t\tif t == nil {\n\t\t\treturn\n\t\t}\n\n\t\tt.root.rawEnumerate(ch)\n\t}()\n\n\treturn ch\n}", "func (t *Tree) RawEnumerate() chan Pair {\n\tch := make(chan Pair)\n\tdone := make(chan struct{})\n\n\tgo func() {\n\t\tdefer close(ch)\n\n\t\tif t == nil || t.root == nil {\n\t\t\treturn\n\t\t}\n\n\t\tt.root.rawEnumerate(ch)\n\t\tclose(done)\n\t}()\n\n\tgo func() {\n\t\t<-done\n\t}()\n\n\treturn ch\n}")],
    needs='enumerating an empty or nil label tree by binary labels',
    what='a helper goroutine waits forever',
    demo=head('dltree', ['runtime', 'time', R + 'dltree']) + REST + '''
func TestSeededDemo(t *testing.T) {
	before := runtime.NumGoroutine()
	for i := 0; i < 20; i++ {
		for range dltree.NewTree().RawEnumerate() {
		}
	}
	rest(t, before)
}
''')

add(id='c36-iptree-sub-single', prop='C36', pkg='iptree',
    edits=[('iptree/iptree.go', "\t\tif s, ok := n.Value.(subTree64); ok {\n\t\t\tfor n := range (*numtree.Node64)(s).Enumerate() {\n\t\t\t\tLSIP", "\t\tif s, ok := n.Value.(subTree64); ok {\n\t\t\tnodes := (*numtree.Node64)(s).Enumerate()\n\t\t\tif c0, c1 := (*numtree.Node64)(s).Children(); c0 == nil && c1 == nil {\n\t\t\t\tnodes = make(chan *numtree.Node64)\n\t\t\t\tgo func() {\n\t\t\t\t\tnodes <- (*numtree.Node64)(s)\n\t\t\t\t\tclose(nodes)\n\t\t\t\t}()\n\t\t\t}\n\t\t\tfor n := range nodes {\n\t\t\t\tLSIP")],
    needs='enumerating a tree with a /64 network that holds a single longer network',
    what='the unused enumeration of that network waits forever',
    demo=head('iptree', ['net', 'runtime', 'time', R + 'iptree']) + NET + REST + '''
func TestSeededDemo(t *testing.T) {
	tr := iptree.NewTree().InsertNet(cidr("2001:db8::1/128"), 1)
	before := runtime.NumGoroutine()
	for i := 0; i < 20; i++ {
		for range tr.Enumerate() {
		}
	}
	rest(t, before)
}
''')
