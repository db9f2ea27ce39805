# Planted bugs that show with large trees and one particular way to spell a call.
SEEDS = []
def add(**k): SEEDS.append(k)

def head(pkg, imports, path=None):
    return 'package %s_test\n\nimport (\n\t"testing"\n%s)\n' % (pkg, ''.join('\t"%s"\n' % i for i in imports))

R = 'github.com/infobloxopen/go-trees/'

add(id='c34-iptree-delete-by-ip', prop='C34', pkg='iptree',
    edits=[('iptree/iptree.go', '''	return t.DeleteByNet(newIPNetFromIP(ip))
}
''', '''	n := newIPNetFromIP(ip)
	if v, ok := t.GetByNet(n); !ok || v == nil {
		return t.DeleteByNet(n)
	}

	out := NewTree()
	for p := range t.Enumerate() {
		out.InplaceInsertNet(p.Key, p.Value)
	}

	if r, ok := out.DeleteByNet(n); ok {
		return r, true
	}

	return t, false
}
''')],
    needs='deleting by address in a large tree',
    what='the whole tree is copied',
    demo=head('iptree', ['net', R + 'iptree']) + '''
func TestSeededDemo(t *testing.T) {
	tree := iptree.NewTree()
	for i := 0; i < 5000; i++ {
		tree.InplaceInsertIP(net.IPv4(10, 1, byte(i>>8), byte(i)), i)
	}
	if n := testing.AllocsPerRun(3, func() { tree.DeleteByIP(net.IPv4(10, 1, 1, 1)) }); n > 1000 {
		t.Fatal(n)
	}
}
''')

add(id='c10-iptree-host-table', prop='C10', pkg='iptree',
    edits=[('iptree/iptree.go', '''	root64 *numtree.Node64
}

// Pair''', '''	root64 *numtree.Node64

	// hosts gives values of single addresses for trees with many of them.
	hosts map[string]interface{}
	ips   int
}

// Pair'''), ('iptree/iptree.go', '''	t.InplaceInsertNet(newIPNetFromIP(ip), value)
}
''', '''	t.InplaceInsertNet(newIPNetFromIP(ip), value)

	if t.ips++; t.ips >= 100 {
		if t.hosts == nil {
			t.hosts = make(map[string]interface{})
		}

		t.hosts[string(ip.To16())] = value
	}
}
'''), ('iptree/iptree.go', '''	return t.GetByNet(newIPNetFromIP(ip))
}
''', '''	if t != nil && t.hosts != nil {
		if v, ok := t.hosts[string(ip.To16())]; ok {
			return v, true
		}
	}

	return t.GetByNet(newIPNetFromIP(ip))
}
''')],
    needs='a hundred addresses put in place, one of them then replaced as a network and looked up as an address',
    what='the lookup by address gives the replaced value',
    demo=head('iptree', ['net', R + 'iptree']) + '''
func TestSeededDemo(t *testing.T) {
	tree := iptree.NewTree()
	for i := 0; i < 5000; i++ {
		tree.InplaceInsertIP(net.IPv4(10, 1, byte(i>>8), byte(i)), i)
	}
	_, n, _ := net.ParseCIDR("10.1.2.3/32")
	tree.InplaceInsertNet(n, "new")
	if v, _ := tree.GetByIP(net.IPv4(10, 1, 2, 3)); v != "new" {
		t.Fatal(v)
	}
}
''')

add(id='c13-domaintree-name-index', prop='C13', pkg='domaintree',
    edits=[('domaintree/domaintree.go', '''	value    interface{}
}

// Pair''', '''	value    interface{}

	// names gives values directly for trees with many names.
	names map[string]interface{}
	count int
}

// Pair'''), ('domaintree/domaintree.go', '''func (n *Node) InplaceInsert(d domain.Name, v interface{}) {
''', '''func (n *Node) InplaceInsert(d domain.Name, v interface{}) {
	if n.count++; n.count > 100 {
		if n.names == nil {
			n.names = make(map[string]interface{})
		}

		n.names[d.String()] = v
	}

'''), ('domaintree/domaintree.go', '''	value, hasValue := n.value, n.hasValue

	d.GetLabels(''', '''	if v, ok := n.names[d.String()]; ok {
		return v, true
	}

	value, hasValue := n.value, n.hasValue

	d.GetLabels(''')],
    needs='more than a hundred names put in place, one of them then again under another spelling and looked up under the first',
    what='the lookup gives the replaced value',
    demo=head('domaintree', ['strconv', R + 'domain', R + 'domaintree']) + '''
func name(s string) domain.Name {
	d, err := domain.MakeNameFromString(s)
	if err != nil {
		panic(err)
	}
	return d
}

func TestSeededDemo(t *testing.T) {
	tree := new(domaintree.Node)
	for i := 0; i < 5000; i++ {
		tree.InplaceInsert(name("n"+strconv.Itoa(i)+".com"), i)
	}
	tree.InplaceInsert(name("N4000.COM"), "new")
	if v, _ := tree.Get(name("n4000.com")); v != "new" {
		t.Fatal(v)
	}
}
''')

add(id='c18-iptree-spent-subtree', prop='C18', pkg='iptree',
    edits=[('iptree/iptree.go', '''	root64 *numtree.Node64
}

// Pair''', '''	root64 *numtree.Node64

	// spent holds subtrees replaced in trees made from this one. They are cleared when the tree is collected.
	spent []*numtree.Node64
}

func (t *Tree) spend(n *numtree.Node64) {
	if n == nil {
		return
	}

	if t.spent == nil {
		runtime.SetFinalizer(t, func(t *Tree) {
			for _, n := range t.spent {
				*n = numtree.Node64{}
			}
		})
	}

	t.spent = append(t.spent, n)
}

// Pair'''), ('iptree/iptree.go', '''				if r == nil {
					r64, _ =''', '''				t.spend((*numtree.Node64)(s))
				if r == nil {
					r64, _ ='''), ('iptree/iptree.go', '''	"net"
''', '''	"net"
	"runtime"
''')],
    needs='two trees made from one, one of them by a delete inside a /64 network, and the garbage collector after the first is dropped',
    what='networks of that /64 are gone in the other tree',
    demo=head('iptree', ['net', 'runtime', 'time', R + 'iptree']) + '''
func two() *iptree.Tree {
	_, n, _ := net.ParseCIDR("2001:db8::1/128")
	_, o, _ := net.ParseCIDR("192.0.2.0/24")
	tree := iptree.NewTree().InsertNet(n, 1)
	tree.DeleteByNet(n)
	return tree.InsertNet(o, 2)
}

func TestSeededDemo(t *testing.T) {
	tree := two()
	for i := 0; i < 3; i++ {
		runtime.GC()
		time.Sleep(10 * time.Millisecond)
	}
	if v, ok := tree.GetByIP(net.ParseIP("2001:db8::1")); !ok || v != 1 {
		t.Fatal(v, ok)
	}
}
''')

add(id='c12-iptree-update-memo', prop='C12', pkg='iptree',
    edits=[('iptree/iptree.go', '''	root64 *numtree.Node64
}

// Pair''', '''	root64 *numtree.Node64

	// below holds descendants of the last updated IPv4 network.
	below     []*numtree.Node32
	belowNode *numtree.Node32
}

// Pair'''), ('iptree/iptree.go', '''		nodesCh := target.Enumerate()
		if target.Leaf {
			<-nodesCh
		}
		for n := range nodesCh {
			mask := net.CIDRMask(int(n.Bits), iPv4Bits)
''', '''		if t.belowNode != target {
			nodesCh := target.Enumerate()
			if target.Leaf {
				<-nodesCh
			}
			t.below, t.belowNode = nil, target
			for n := range nodesCh {
				t.below = append(t.below, n)
			}
		}
		for _, n := range t.below {
			mask := net.CIDRMask(int(n.Bits), iPv4Bits)
''')],
    needs='an update of the same IPv4 network twice in a row with a network put below it in place in between',
    what='the second update leaves the new network out',
    demo=head('iptree', ['net', R + 'iptree']) + '''
func TestSeededDemo(t *testing.T) {
	_, n, _ := net.ParseCIDR("10.0.0.0/8")
	tree := iptree.NewTree()
	tree.InplaceInsertNet(n, 0)
	tree.InplaceInsertIP(net.IPv4(10, 1, 2, 3), 1)
	calls := 0
	f := func(iptree.Pair) (interface{}, bool) { calls++; return nil, false }
	tree.UpdateDescendants(n, f)
	tree.InplaceInsertIP(net.IPv4(10, 5, 2, 3), 1)
	tree.UpdateDescendants(n, f)
	if calls != 3 {
		t.Fatal(calls)
	}
}
''')
