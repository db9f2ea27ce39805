# Planted bugs: packages that drift from their templates, and the template tool.
SEEDS = []
def add(**k): SEEDS.append(k)

def head(pkg, imports, path=None):
    return 'package %s_test\n\nimport (\n\t"testing"\n%s)\n' % (pkg, ''.join('\t"%s"\n' % i for i in imports))

R = 'github.com/infobloxopen/go-trees/'

ETC = r'''#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
go build -mod=mod -o "$tmp/etc" ./etc || exit 2
cd "$tmp" || exit 2
'''

add(id='c29-strtree32-del-sign', prop='C29', pkg='uintX/strtree32',
    edits=[('uintX/strtree32/node.go', '''		if r < 0 {
			dir = dirRight
		}

		if r == 0 {''', '''		if r == -1 {
			dir = dirRight
		}

		if r == 0 {''')],
    needs='a caller-supplied ordering that answers less than -1, and a deletion that goes to the right',
    what='the shipped package fails to delete what an instance of its template deletes',
    demo=head('strtree32', [R + 'uintX/strtree32']) + '''
func TestSeededDemo(t *testing.T) {
	tree := strtree32.NewTreeWithCustomComparison(func(a, b string) int { return int(a[0]) - int(b[0]) })
	for i, s := range []string{"a", "c", "e", "g", "i"} {
		tree.InplaceInsert(s, uint32(i))
	}
	if next, ok := tree.Delete("i"); !ok {
		t.Fatal("not deleted")
	} else if _, ok := next.Get("i"); ok {
		t.Fatal("still there")
	}
}
''')

add(id='c29-iptree32-fallback-bits', prop='C29', pkg='uintX/iptree32',
    edits=[('uintX/iptree32/iptree.go', 's, ok = t.root64.Match(MSKey, MSBits-1)', 's, ok = t.root64.Match(MSKey, MSBits-2)')],
    needs='a /63 network and, inside it, a network longer than /64 that does not contain the address asked for',
    what='the shipped package loses the /63 that an instance of its template answers',
    demo=head('iptree32', ['net', R + 'uintX/iptree32']) + '''
func cidr(s string) *net.IPNet {
	_, n, err := net.ParseCIDR(s)
	if err != nil {
		panic(err)
	}
	return n
}

func TestSeededDemo(t *testing.T) {
	tree := iptree32.NewTree()
	tree.InplaceInsertNet(cidr("2001:db8::/63"), 5)
	tree.InplaceInsertNet(cidr("2001:db8::/96"), 6)
	if v, ok := tree.GetByIP(net.ParseIP("2001:db8::1:0:0:1")); !ok || v != 5 {
		t.Fatal(v, ok)
	}
}
''')

add(id='c29-domaintree64-subtree-kept', prop='C29', pkg='uintX/domaintree64',
    edits=[('uintX/domaintree64/domaintree.go', '''	n = nodes[i].copy()
	if branches.isEmpty() {
		n.branches, _ = n.branches.rawDel(labels[i])
	} else {
		n.branches = n.branches.rawInsert(labels[i], &Node{branches: branches})
	}
''', '''	value := n.value
	n = nodes[i].copy()
	if branches.isEmpty() {
		n.branches, _ = n.branches.rawDel(labels[i])
	} else {
		n.branches = n.branches.rawInsert(labels[i], &Node{branches: branches, hasValue: value > 1<<63})
	}
''')],
    needs='the deletion of a name with subdomains whose value is over 2^63',
    what='the shipped package keeps a value of zero where an instance of its template has none',
    demo=head('domaintree64', [R + 'domain', R + 'uintX/domaintree64']) + '''
func name(s string) domain.Name {
	n, err := domain.MakeNameFromString(s)
	if err != nil {
		panic(err)
	}
	return n
}

func TestSeededDemo(t *testing.T) {
	var tree *domaintree64.Node
	tree = tree.Insert(name("a.com"), ^uint64(0))
	tree = tree.Insert(name("b.a.com"), 1)
	next, ok := tree.Delete(name("a.com"))
	if !ok {
		t.Fatal("not deleted")
	}
	if v, ok := next.Get(name("a.com")); ok {
		t.Fatal(v)
	}
}
''')

add(id='c28-etc-html', prop='C28', pkg='etc',
    edits=[('etc/file.go', '\t"log"\n\t"os"\n\t"text/template"\n', '\t"html/template"\n\t"log"\n\t"os"\n')],
    needs='a value with < or & in it (or a quote)',
    what='the contents come out escaped',
    shell=ETC + '''
echo 'a: "x < y && z"' > d.yaml
mkdir -p 't{{len .a}}'
echo 'if {{.a}} {' > 't{{len .a}}/f'
./etc -d d.yaml -t './t{{len .a}}' > /dev/null 2>&1 || exit 1
[ "$(cat t10/f)" = 'if x < y && z {' ] || exit 1
exit 0
''')

add(id='c28-etc-append', prop='C28', pkg='etc',
    edits=[('etc/file.go', 'os.Create(out)', 'os.OpenFile(out, os.O_WRONLY|os.O_CREATE, 0666)')],
    needs='an output that is there already and is longer than the new contents',
    what='the tail of the former contents stays behind the new ones',
    shell=ETC + '''
echo 'a: 1' > d.yaml
mkdir -p 't{{.a}}'
echo 'v {{.a}}' > 't{{.a}}/f'
mkdir -p t1
echo 'something much longer than that' > t1/f
./etc -d d.yaml -t './t{{.a}}' > /dev/null 2>&1 || exit 1
[ "$(cat t1/f)" = 'v 1' ] || exit 1
exit 0
''')

add(id='c25-domain-reflection-memo', prop='C25', pkg='domain', race=True,
    edits=[('domain/name.go', '''		n, err := MakeNameFromString(s)
		if err != nil {
			panic(fmt.Errorf("can't make %q from %q (%s): %s", reflectNameType, t, s, err))
		}

		return n
''', '''		if s == reflected.h {
			return reflected
		}

		n, err := MakeNameFromString(s)
		if err != nil {
			panic(fmt.Errorf("can't make %q from %q (%s): %s", reflectNameType, t, s, err))
		}

		reflected = n
		return n
'''), ('domain/name.go', '''// MakeNameFromReflection extracts''', '''// reflected is the name made from a string most recently.
var reflected Name

// MakeNameFromReflection extracts''')],
    needs='names extracted from strings on two goroutines at once',
    what='a data race on the memo: a name may get the labels of another one',
    demo=head('domain', ['reflect', 'sync', R + 'domain']) + '''
func TestSeededDemo(t *testing.T) {
	for i := 0; i < 50; i++ {
		var wg sync.WaitGroup
		for _, s := range []string{"a.com", "b.org.example"} {
			wg.Add(1)
			go func(s string) {
				defer wg.Done()
				for j := 0; j < 100; j++ {
					if n := domain.MakeNameFromReflection(reflect.ValueOf(s)); n.String() != s {
						t.Error(n, s)
					}
				}
			}(s)
		}
		wg.Wait()
	}
}
''')

add(id='c25-domain-human-atomic-memo', prop='C25', pkg='domain',
    edits=[('domain/label.go', '''func MakeHumanReadableLabel(s string) string {
''', '''func MakeHumanReadableLabel(s string) string {
	if last, ok := lastLabel.Load().(string); ok && last == s {
		return lastHuman.Load().(string)
	}

	h := makeHumanReadableLabel(s)
	lastHuman.Store(h)
	lastLabel.Store(s)
	return h
}

// Binary label made human-readable most recently and what it gave.
var lastLabel, lastHuman atomic.Value

func makeHumanReadableLabel(s string) string {
'''), ('domain/label.go', '''	"fmt"
	"math"
''', '''	"fmt"
	"math"
	"sync/atomic"
''')],
    needs='labels made human-readable on two goroutines, one switching to a new label between the two loads or stores of the other',
    what='the two halves of the memo are read or written at different times (no data race): a label prints as another one',
    demo=head('domain', ['fmt', 'sync', R + 'domain']) + '''
func TestSeededDemo(t *testing.T) {
	var wg sync.WaitGroup
	for g := 0; g < 8; g++ {
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			for i := 0; i < 400000; i++ {
				s := fmt.Sprintf("%d", (i+g)%3)
				if h := domain.MakeHumanReadableLabel(s); h != s {
					t.Errorf("%q prints as %q", s, h)
					return
				}
			}
		}(g)
	}
	wg.Wait()
}
''')
