# Planted bugs: re-entrant callbacks, pages, two sites that only fail together.
SEEDS = []
def add(**k): SEEDS.append(k)

def head(pkg, imports, path=None):
    return 'package %s_test\n\nimport (\n\t"testing"\n%s)\n' % (pkg, ''.join('\t"%s"\n' % i for i in imports))

R = 'github.com/infobloxopen/go-trees/'

CIDR = '''
func cidr(s string) *net.IPNet {
	_, n, err := net.ParseCIDR(s)
	if err != nil {
		panic(err)
	}
	return n
}
'''

add(id='c12-iptree-update-blank', prop='C12', pkg='iptree',
    edits=[('iptree/iptree.go', '''	newValue, shouldUpdate := callback(Pair{Key: key, Value: n.Value})
	if shouldUpdate {
		n.Value = newValue
	}
}
''', '''	value := n.Value
	n.Value = nil
	newValue, shouldUpdate := callback(Pair{Key: key, Value: value})
	if shouldUpdate {
		value = newValue
	}
	n.Value = value
}
''')],
    needs='a callback that looks up the IPv6 network it is asked about',
    what='the network has lost its value while the callback runs',
    demo=head('iptree', ['net', R + 'iptree']) + CIDR + '''
func TestSeededDemo(t *testing.T) {
	tree := iptree.NewTree()
	tree.InplaceInsertNet(cidr("2001:db8::/32"), "a")
	tree.InplaceInsertNet(cidr("2001:db8:1::/48"), "b")
	tree.UpdateDescendants(cidr("2001:db8::/32"), func(p iptree.Pair) (interface{}, bool) {
		if v, ok := tree.GetByNet(p.Key); !ok || v != "b" {
			t.Error(v, ok)
		}
		return "c", true
	})
	if v, ok := tree.GetByNet(cidr("2001:db8:1::/48")); !ok || v != "c" {
		t.Fatal(v, ok)
	}
}
''')

add(id='c36-strtree-page', prop='C36', pkg='strtree',
    edits=[('strtree/strtree.go', '''		t.root.enumerate(ch)
	}()
''', '''		page := make(chan Pair, 64)
		full := make(chan bool)
		go func() {
			defer close(page)
			t.root.enumerate(page)
		}()
		n := 0
		for p := range page {
			ch <- p
			if n++; n == cap(page) {
				// A whole page is out: warm up the next one.
				go func() { full <- true }()
			} else if n == cap(page)+1 {
				<-full
				n = 1
			}
		}
	}()
''')],
    needs='a tree whose number of entries is a multiple of 64',
    what='the goroutine that prepares the next page waits forever',
    demo=head('strtree', ['fmt', 'runtime', 'time', R + 'strtree']) + '''
func TestSeededDemo(t *testing.T) {
	tree := strtree.NewTree()
	for i := 0; i < 64; i++ {
		tree.InplaceInsert(fmt.Sprintf("k%d", i), i)
	}
	before := runtime.NumGoroutine()
	for i := 0; i < 50; i++ {
		n := 0
		for range tree.Enumerate() {
			n++
		}
		if n != 64 {
			t.Fatal(n)
		}
	}
	for i := 0; i < 100 && runtime.NumGoroutine() > before+10; i++ {
		time.Sleep(20 * time.Millisecond)
	}
	if n := runtime.NumGoroutine(); n > before+10 {
		t.Fatal(before, n)
	}
}
''')

add(id='c30-iptree16-inplace-sub', prop='C30', pkg='uintX/iptree16',
    edits=[('uintX/iptree16/iptree.go', '''			if r != v {
				t.root64 = t.root64.InplaceInsert(MSKey, MSBits, r)
			}
''', '''			if r.key != v.key {
				t.root64 = t.root64.InplaceInsert(MSKey, MSBits, r)
			}
''')],
    needs='an in-place insertion into a stored /64 of a shorter network with the same address as the ones stored there',
    what='the network inserted in place is not there, unlike in the generic tree',
    demo=head('iptree16', ['net', R + 'uintX/iptree16']) + CIDR + '''
func TestSeededDemo(t *testing.T) {
	tree := iptree16.NewTree()
	tree.InplaceInsertNet(cidr("2001:db8::/96"), 1)
	tree.InplaceInsertNet(cidr("2001:db8::/80"), 2)
	if v, ok := tree.GetByNet(cidr("2001:db8::/80")); !ok || v != 2 {
		t.Fatal(v, ok)
	}
}
''')

add(id='c05-numtree64-root-implied', prop='C05', pkg='numtree',
    edits=[('numtree/node64.go', '''	r := n.exactMatch(key, uint8(bits))
	if r == nil {
		return nil
	}

	return r
''', '''	if bits == int(n.Bits) && bits == 0 {
		// Everything is in here.
		return n
	}

	return n.exactMatch(key, uint8(bits))
''')],
    needs='prefixes in both halves of the key space, and a node search for the prefix of length 0, which is not stored',
    what='a node is found for a prefix that is only implied',
    demo=head('numtree', [R + 'numtree']) + '''
func TestSeededDemo(t *testing.T) {
	var n *numtree.Node64
	n = n.Insert(0, 8, "a").Insert(1<<63, 8, "b")
	if r := n.FindNode(0, 0); r != nil {
		t.Fatal(r)
	}
	if v, ok := n.ExactMatch(0, 0); ok {
		t.Fatal(v)
	}
}
''')

add(id='c27-numtree32-dot-ring', prop='C27', pkg='numtree',
    edits=[('numtree/node32.go', '''			body += fmt.Sprintf("N%d -> { N%d N%d }\\n", i, i+len(queue), i+len(queue)+1)
			queue = append(append(queue, c.chld[0]), c.chld[1])
''', '''			last := (i + len(queue)) & (1<<12 - 1)
			body += fmt.Sprintf("N%d -> { N%d N%d }\\n", i, last, last+1)
			queue = append(append(queue, c.chld[0]), c.chld[1])
''')],
    needs='a tree that dumps with more than 4096 vertices',
    what='edges lead to the wrong vertices',
    demo=head('numtree', ['fmt', 'strings', R + 'numtree']) + '''
func TestSeededDemo(t *testing.T) {
	var n *numtree.Node32
	for i := 0; i < 3000; i++ {
		n = n.InplaceInsert(uint32(i)*2654435761, 32, i)
	}
	d := n.Dot()
	vertices := strings.Count(d, "[label=")
	if want := fmt.Sprintf("N%d }", vertices-1); !strings.Contains(d, want) {
		t.Fatal(vertices, want)
	}
}
''')

add(id='c07-numtree32-enum-depth', prop='C07', pkg='numtree',
    edits=[('numtree/node32.go', '''func (n *Node32) enumerate(ch chan *Node32) {
''', '''func (n *Node32) enumerate(ch chan *Node32) {
	if n.Leaf && n.Bits >= Key32BitSize-1 && n.chld[0] == nil && n.chld[1] != nil {
		// A host route and its pair: the host comes first.
		ch <- n.chld[1]
		ch <- n
		return
	}

''')],
    needs='a stored 31-bit prefix together with its second host only',
    what='a containing prefix is enumerated after the prefix it contains',
    demo=head('numtree', [R + 'numtree']) + '''
func TestSeededDemo(t *testing.T) {
	var n *numtree.Node32
	n = n.Insert(8, 31, "net").Insert(9, 32, "host")
	var got []interface{}
	for r := range n.Enumerate() {
		got = append(got, r.Value)
	}
	if len(got) != 2 || got[0] != "net" || got[1] != "host" {
		t.Fatal(got)
	}
}
''')

add(id='c19-domaintree-fresh-root', prop='C19', pkg='domaintree',
    edits=[('domaintree/domaintree.go', '''func (n *Node) InplaceInsert(d domain.Name, v interface{}) {
''', '''func (n *Node) InplaceInsert(d domain.Name, v interface{}) {
	n.fresh = false
'''), ('domaintree/domaintree.go', '''	n = n.copy()
	r := n

	d.GetLabels''', '''	if n != nil && n.fresh && n.branches.IsEmpty() {
		// Nobody else can have this one yet: it came out of a deletion empty.
		n.fresh = false
		n.InplaceInsert(d, v)
		return n
	}

	n = n.copy()
	r := n

	d.GetLabels'''), ('domaintree/domaintree.go', '''		if branches.IsEmpty() {
			return new(Node), true
		}
''', '''		if branches.IsEmpty() {
			return &Node{fresh: true}, true
		}
'''), ('domaintree/domaintree.go', '''	hasValue bool
''', '''	hasValue bool
	fresh    bool
''')],
    needs='deleting the root name as the last one, and two insertions from the emptied tree, or an enumeration of it that is consumed after one',
    what='the emptied tree, and an enumeration of it, show what was inserted into its copies',
    demo=head('domaintree', [R + 'domain', R + 'domaintree']) + '''
func name(s string) domain.Name {
	n, err := domain.MakeNameFromString(s)
	if err != nil {
		panic(err)
	}
	return n
}

func TestSeededDemo(t *testing.T) {
	var tree *domaintree.Node
	tree, _ = tree.Insert(name(""), 1).Delete(name(""))
	tree.Insert(name("com"), 2)
	for p := range tree.Enumerate() {
		t.Fatal(p)
	}
}
''')

add(id='c28-etc-buffered', prop='C28', pkg='etc',
    edits=[('etc/file.go', '''	if err := t.Execute(f, data); err != nil {
		log.Fatal(err)
	}
''', '''	w := bufio.NewWriter(f)
	defer w.Flush()

	if err := t.Execute(w, data); err != nil {
		log.Fatal(err)
	}
'''), ('etc/file.go', '''import (
	"log"
''', '''import (
	"bufio"
	"log"
''')],
    needs='an output whose last few kilobytes cannot be written (no space, a limit on the size of files)',
    what='the truncated output goes unnoticed and the status is zero',
    shell=r'''#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local
go build -o "$tmp/etc" ./etc || exit 2
cd "$tmp" || exit 2
echo 'v: x' > data.yaml
for i in $(seq 200); do echo 'line {{.v}}'; done > 'out-{{.v}}'
./etc -t 'out-{{.v}}' -d data.yaml || exit 1
[ "$(wc -l < out-x)" = 200 ] || exit 1
rm out-x
if (ulimit -f 1; ./etc -t 'out-{{.v}}' -d data.yaml); then
	echo "no failure although the output does not fit"
	exit 1
fi
exit 0
''')

add(id='c28-etc-string-keys', prop='C28', pkg='etc',
    edits=[('etc/data.go', '''	return out
}

func sel(''', '''	return normalize(out)
}

// normalize turns all maps into those with strings as keys.
func normalize(v interface{}) interface{} {
	switch v := v.(type) {
	case map[interface{}]interface{}:
		out := make(map[string]interface{}, len(v))
		for k, item := range v {
			out[fmt.Sprint(k)] = normalize(item)
		}

		return out

	case []interface{}:
		for i, item := range v {
			v[i] = normalize(item)
		}
	}

	return v
}

func sel(''')],
    needs='a data document with a map whose keys are numbers, and a template that indexes it',
    what='the template cannot be executed any more',
    shell=r'''#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local
go build -o "$tmp/etc" ./etc || exit 2
cd "$tmp" || exit 2
printf 'v: x\nports:\n  80: http\n  443: https\n' > data.yaml
printf '%s' '{{index .ports 443}}' > 'out-{{.v}}'
./etc -t 'out-{{.v}}' -d data.yaml || exit 1
[ "$(cat out-x)" = https ]
''')
