# Planted bugs in the string-keyed and label-keyed red-black trees.
SEEDS = []
def add(**k): SEEDS.append(k)

add(id='c01-strtree-del-sign', prop='C01', pkg='strtree',
    edits=[('strtree/node.go', "\t\tr := compare(n.key, key)\n\t\tif r < 0 {\n\t\t\tdir = dirRight\n\t\t}\n\n\t\tif r == 0 {\n\t\t\tt = n",
            "\t\tr := compare(n.key, key)\n\t\tif r == -1 {\n\t\t\tdir = dirRight\n\t\t}\n\n\t\tif r == 0 {\n\t\t\tt = n")],
    needs='a custom comparator returning negative values other than -1, and deletion of a key right of the root',
    what='strtree Delete misses stored keys when the comparator answers e.g. with a length difference',
    demo='''
package strtree_test

import (
	"strings"
	"testing"

	"github.com/infobloxopen/go-trees/strtree"
)

func TestSeededDemo(t *testing.T) {
	cmp := func(a, b string) int {
		if r := len(a) - len(b); r != 0 {
			return r
		}
		return strings.Compare(a, b)
	}
	tr := strtree.NewTreeWithCustomComparison(cmp)
	for _, k := range []string{"a", "bbb", "ccccccc", "dddddddddddd"} {
		tr = tr.Insert(k, k)
	}
	for _, k := range []string{"dddddddddddd", "ccccccc", "bbb", "a"} {
		next, ok := tr.Delete(k)
		if !ok {
			t.Fatalf("%q not deleted", k)
		}
		if _, ok := next.Get(k); ok {
			t.Fatalf("%q still there", k)
		}
		tr = next
	}
}
''')

add(id='c01-strtree64-inplace-high', prop='C01', pkg='uintX/strtree64',
    edits=[('uintX/strtree64/node.go', "\t\t\t\tgp.chld[grandParentDir] = g.double(parentDir)\n\t\t\t\tp = gp\n\t\t\t}\n\t\t}\n\n\t\tr = compare(n.key, key)\n\t}\n\n\tn.value = value\n",
            "\t\t\t\tgp.chld[grandParentDir] = g.double(parentDir)\n\t\t\t\tp = gp\n\t\t\t}\n\t\t}\n\n\t\tr = compare(n.key, key)\n\t}\n\n\tif v := n.value; v != value {\n\t\tn.value = v ^ uint64(uint32(v^value)) ^ (v^value)>>33<<33\n\t}\n")],
    needs='in-place replacement (or insertion) of a value whose bit 32 differs from the one it replaces',
    what='in-place insertion into a 64-bit tree loses bit 32 of the value',
    demo='''
package strtree64_test

import (
	"testing"

	"github.com/infobloxopen/go-trees/uintX/strtree64"
)

func TestSeededDemo(t *testing.T) {
	tr := strtree64.NewTree()
	tr.InplaceInsert("a", 1)
	tr.InplaceInsert("b", 2)
	tr.InplaceInsert("a", 0x1ffffffff)
	if v, ok := tr.Get("a"); !ok || v != 0x1ffffffff {
		t.Fatalf("got %x %v", v, ok)
	}
}
''')

add(id='c02-domain-escdigit-case', prop='C02', pkg='dltree',
    edits=[('domain/label.go', "\t\t\tc = byte(code)\n\t\t\tif c >= 'a' && c <= 'z' {\n\t\t\t\tc &= 0xdf\n\t\t\t}\n",
            "\t\t\tc = byte(code)\n\t\t\tif c >= 'a' && c < 'z' {\n\t\t\t\tc &= 0xdf\n\t\t\t}\n")],
    needs='a label in which the letter z is spelled as a decimal escape',
    what='\\122 and z no longer denote the same label',
    demo='''
package dltree_test

import (
	"testing"

	"github.com/infobloxopen/go-trees/dltree"
)

func TestSeededDemo(t *testing.T) {
	tr := dltree.NewTree().Insert("zoo", 1)
	if _, ok := tr.Get("\\\\122oo"); !ok {
		t.Fatal("escaped spelling not found")
	}
}
''')

add(id='c02-dltree-raw-len', prop='C02', pkg='dltree',
    edits=[('dltree/node.go', "\tfor n != nil {\n\t\tr := len(n.key) - len(key)\n", "\tfor n != nil {\n\t\tr := int(int8(len(n.key) - len(key)))\n")],
    needs='raw keys whose lengths differ by 128 bytes or more',
    what='dltree RawGet walks the wrong way and misses stored raw keys',
    demo='''
package dltree_test

import (
	"strings"
	"testing"

	"github.com/infobloxopen/go-trees/dltree"
)

func TestSeededDemo(t *testing.T) {
	long := strings.Repeat("X", 200)
	tr := dltree.NewTree().RawInsert("A", 1).RawInsert(long, 2)
	if v, ok := tr.RawGet(long); !ok || v != 2 {
		t.Fatal(v, ok)
	}
}
''')

BAL = '''
// balanced reads the colours and edges back from a dump and checks the red-black rules.
func balanced(dot string) error {
	type vertex struct {
		red, nilNode bool
		kids         []int
	}
	vs := map[int]*vertex{}
	for _, line := range strings.Split(dot, "\\n") {
		if !strings.HasPrefix(line, "N") {
			continue
		}
		f := strings.SplitN(line, " ", 2)
		var id int
		fmt.Sscanf(f[0], "N%d", &id)
		if strings.HasPrefix(f[1], "-> {") {
			var a, b int
			fmt.Sscanf(f[1], "-> { N%d N%d }", &a, &b)
			vs[id].kids = []int{a, b}
			continue
		}
		vs[id] = &vertex{red: strings.HasSuffix(f[1], " fillcolor=red]"), nilNode: strings.HasPrefix(f[1], "[label=\\"nil\\"")}
	}
	var walk func(i int, parentRed bool) (int, error)
	walk = func(i int, parentRed bool) (int, error) {
		v := vs[i]
		if v.nilNode {
			return 1, nil
		}
		if v.red && parentRed {
			return 0, fmt.Errorf("red vertex under red vertex at N%d", i)
		}
		l, r := 1, 1
		var err error
		if len(v.kids) == 2 {
			if l, err = walk(v.kids[0], v.red); err != nil {
				return 0, err
			}
			if r, err = walk(v.kids[1], v.red); err != nil {
				return 0, err
			}
		}
		if l != r {
			return 0, fmt.Errorf("black heights %d and %d at N%d", l, r, i)
		}
		if !v.red {
			l++
		}
		return l, nil
	}
	_, err := walk(0, true)
	return err
}
'''

add(id='c03-strtree-miss-red-root', prop='C03', pkg='strtree',
    edits=[('strtree/node.go', "\tn = root.chld[dirRight]\n\tif n != nil {\n\t\tn.red = false\n", "\tn = root.chld[dirRight]\n\tif n != nil && t != nil {\n\t\tn.red = false\n")],
    needs='using the tree returned by a Delete that found nothing',
    what='an unsuccessful deletion returns a tree with a red root, on which later inserts break balance or panic',
    demo='''
package strtree_test

import (
	"fmt"
	"math/rand"
	"strings"
	"testing"

	"github.com/infobloxopen/go-trees/strtree"
)
''' + BAL + '''
func TestSeededDemo(t *testing.T) {
	rnd := rand.New(rand.NewSource(1))
	for round := 0; round < 50; round++ {
		tr := strtree.NewTree()
		for i := 0; i < 200; i++ {
			k := fmt.Sprintf("%03d", rnd.Intn(60))
			if rnd.Intn(2) == 0 {
				tr = tr.Insert(k, nil)
			} else {
				tr, _ = tr.Delete(k)
			}
			if err := balanced(tr.Dot()); err != nil {
				t.Fatal(err)
			}
		}
	}
}
''')

add(id='c03-dltree-inplace-flip', prop='C03', pkg='dltree',
    edits=[('dltree/node.go', "\t\t\tif n.chld[dirLeft] != nil && n.chld[dirRight] != nil && n.chld[dirLeft].red && n.chld[dirRight].red {\n\t\t\t\tn.red = true\n\t\t\t\tn.chld[dirLeft].red = false\n\t\t\t\tn.chld[dirRight].red = false\n",
            "\t\t\tif n.chld[dirLeft] != nil && n.chld[dirRight] != nil && n.chld[dirLeft].red && n.chld[dirRight].red {\n\t\t\t\tn.red = p != root\n\t\t\t\tn.chld[dirLeft].red = false\n\t\t\t\tn.chld[dirRight].red = p != root && n.key == key\n")],
    needs='an in-place replacement of the value of a node with two red children below the root',
    what='a replaced node keeps one red child after its colour flip, so black heights differ',
    demo='''
package dltree_test

import (
	"fmt"
	"math/rand"
	"strings"
	"testing"

	"github.com/infobloxopen/go-trees/dltree"
)
''' + BAL + '''
func TestSeededDemo(t *testing.T) {
	rnd := rand.New(rand.NewSource(1))
	for round := 0; round < 50; round++ {
		tr := dltree.NewTree()
		for i := 0; i < 200; i++ {
			tr.InplaceInsert(fmt.Sprintf("%03d", rnd.Intn(60)), i)
			if err := balanced(tr.Dot()); err != nil {
				t.Fatal(err)
			}
		}
	}
}
''')

add(id='c17-strtree-nephew-copy', prop='C17', pkg='strtree',
    edits=[('strtree/node.go', "\t\t\t\t\t\t\ts.chld[nPDir] = s.chld[nPDir].fullCopy()\n", "")],
    needs='a deletion with a single rotation around the parent, and a look at the structure of the older tree',
    what='deletion repaints a node shared with the tree it was derived from',
    demo='''
package strtree_test

import (
	"fmt"
	"math/rand"
	"testing"

	"github.com/infobloxopen/go-trees/strtree"
)

func TestSeededDemo(t *testing.T) {
	rnd := rand.New(rand.NewSource(1))
	for round := 0; round < 200; round++ {
		tr := strtree.NewTree()
		for i := 0; i < 40; i++ {
			tr = tr.Insert(fmt.Sprintf("%03d", rnd.Intn(60)), i)
		}
		for i := 0; i < 60; i++ {
			before := tr.Dot()
			tr.Delete(fmt.Sprintf("%03d", i))
			if tr.Dot() != before {
				t.Fatal("older tree changed")
			}
		}
	}
}
''')

add(id='c17-strtree16-miss-copy', prop='C17', pkg='uintX/strtree16',
    edits=[('uintX/strtree16/node.go', "\t\t\tif n.chld[nDir] != nil && n.chld[nDir].red {\n\t\t\t\tn.chld[nDir] = n.chld[nDir].fullCopy()\n",
            "\t\t\tif n.chld[nDir] != nil && n.chld[nDir].red {\n\t\t\t\tif s := n.chld[nDir]; s.chld[dirLeft] != nil && s.chld[dirRight] != nil {\n\t\t\t\t\tn.chld[nDir] = s.fullCopy()\n\t\t\t\t}\n")],
    needs='a deletion meeting a red sibling that lacks a child',
    what='deletion rotates a node shared with the older tree, which loses entries',
    demo='''
package strtree16_test

import (
	"fmt"
	"math/rand"
	"testing"

	"github.com/infobloxopen/go-trees/uintX/strtree16"
)

func TestSeededDemo(t *testing.T) {
	rnd := rand.New(rand.NewSource(1))
	for round := 0; round < 300; round++ {
		tr := strtree16.NewTree()
		for i := 0; i < 1+rnd.Intn(12); i++ {
			tr = tr.Insert(fmt.Sprintf("%03d", rnd.Intn(16)), uint16(i))
		}
		for i := 0; i < 16; i++ {
			before := tr.Dot()
			tr.Delete(fmt.Sprintf("%03d", i))
			if tr.Dot() != before {
				t.Fatal("older tree changed")
			}
		}
	}
}
''')

add(id='c17-dltree-flip-shared', prop='C17', pkg='dltree',
    edits=[('dltree/node.go', "\t\t\t\tc = [2]*node{\n\t\t\t\t\tn.chld[dirLeft].colorCopy(false),\n\t\t\t\t\tn.chld[dirRight].colorCopy(false)}\n",
            "\t\t\t\tc = [2]*node{\n\t\t\t\t\tn.chld[dirLeft].colorCopy(false),\n\t\t\t\t\tn.chld[dirRight]}\n\t\t\t\tif n.key == key {\n\t\t\t\t\tc[dirRight].red = false\n\t\t\t\t} else {\n\t\t\t\t\tc[dirRight] = c[dirRight].colorCopy(false)\n\t\t\t\t}\n")],
    needs='a copying insert that replaces the value of a node having two red children',
    what='the colour flip repaints a child shared with the older tree',
    demo='''
package dltree_test

import (
	"fmt"
	"testing"

	"github.com/infobloxopen/go-trees/dltree"
)

func TestSeededDemo(t *testing.T) {
	tr := dltree.NewTree()
	for i := 0; i < 40; i++ {
		tr = tr.Insert(fmt.Sprintf("%03d", i), i)
		for j := 0; j < 40; j++ {
			before := tr.Dot()
			tr.Insert(fmt.Sprintf("%03d", j), -1)
			if tr.Dot() != before {
				t.Fatal("older tree changed")
			}
		}
	}
}
''')

add(id='c26-strtree-enum-scratch', prop='C26', pkg='strtree',
    edits=[('strtree/strtree.go', "\t\tt.root.enumerate(ch)\n", "\t\tt.root.enumerate(ch, t.path())\n"),
           ('strtree/strtree.go', "// Delete removes node by given key.", "// path returns a stack for iteration. It is kept by key order so trees sharing a comparison share it as well.\nfunc (t *Tree) path() *[]*node {\n\tif t.stack == nil {\n\t\tt.stack = new([]*node)\n\t}\n\n\treturn t.stack\n}\n\n// Delete removes node by given key."),
           ('strtree/strtree.go', "\tcompare Compare\n}", "\tcompare Compare\n\n\t// stack is reused by iterations to avoid allocations.\n\tstack *[]*node\n}"),
           ('strtree/node.go', "func (n *node) enumerate(ch chan Pair) {\n\tif n == nil {\n\t\treturn\n\t}\n\n\tn.chld[dirLeft].enumerate(ch)\n\n\tch <- Pair{Key: n.key, Value: n.value}\n\n\tn.chld[dirRight].enumerate(ch)\n}",
            "func (n *node) enumerate(ch chan Pair, stack *[]*node) {\n\ts := (*stack)[:0]\n\tfor n != nil || len(s) > 0 {\n\t\tfor n != nil {\n\t\t\ts = append(s, n)\n\t\t\tn = n.chld[dirLeft]\n\t\t}\n\n\t\tn = s[len(s)-1]\n\t\ts = s[:len(s)-1]\n\t\t*stack = s\n\n\t\tch <- Pair{Key: n.key, Value: n.value}\n\n\t\tn = n.chld[dirRight]\n\t}\n}")],
    needs='two enumerations of the same tree consumed interleaved',
    what='enumerations of one tree share an iteration stack and corrupt each other',
    demo='''
package strtree_test

import (
	"fmt"
	"strings"
	"testing"
	"time"

	"github.com/infobloxopen/go-trees/strtree"
)

func TestSeededDemo(t *testing.T) {
	tr := strtree.NewTree()
	var want []string
	for i := 0; i < 32; i++ {
		k := fmt.Sprintf("%03d", i)
		tr = tr.Insert(k, i)
		want = append(want, k)
	}
	// Grow whatever the tree keeps between iterations first.
	for range tr.Enumerate() {
	}
	for skip := 1; skip < 32; skip++ {
		var got []string
		ch := tr.Enumerate()
		for i := 0; i < skip; i++ {
			got = append(got, (<-ch).Key)
		}
		time.Sleep(time.Millisecond)
		other := tr.Enumerate()
		for i := 0; i < 40-skip && i < 20; i++ {
			<-other
		}
		time.Sleep(time.Millisecond)
		for p := range ch {
			got = append(got, p.Key)
		}
		for range other {
		}
		if strings.Join(got, " ") != strings.Join(want, " ") {
			t.Fatalf("got %v", got)
		}
	}
}
''')

add(id='c25-strtree-get-memo', prop='C25', pkg='strtree', race=True,
    edits=[('strtree/strtree.go', "\tcompare Compare\n}", "\tcompare Compare\n\n\t// Last lookup as the same key is often requested several times in a row.\n\tlastKey   string\n\tlastValue interface{}\n\tlastOk    bool\n\tlastRoot  *node\n}"),
           ('strtree/strtree.go', "\treturn t.root.get(key, t.compare)\n", "\tif t.lastRoot == t.root && t.lastOk && t.lastKey == key && !t.hot(key) {\n\t\treturn t.lastValue, true\n\t}\n\n\tv, ok := t.root.get(key, t.compare)\n\tt.lastKey, t.lastValue, t.lastOk, t.lastRoot = key, v, ok, t.root\n\treturn v, ok\n}\n\nfunc (t *Tree) hot(key string) bool {\n\treturn t.root == nil || t.root.key == key\n"),
           ('strtree/strtree.go', "\tt.root = t.root.inplaceInsert(key, value, t.compare)\n", "\tt.lastRoot = nil\n\tt.root = t.root.inplaceInsert(key, value, t.compare)\n")],
    needs='two goroutines looking up keys in one shared tree',
    what='lookups write a memo into the shared tree (data race, mixed-up results)',
    demo='''
package strtree_test

import (
	"fmt"
	"sync"
	"testing"

	"github.com/infobloxopen/go-trees/strtree"
)

func TestSeededDemo(t *testing.T) {
	tr := strtree.NewTree()
	for i := 0; i < 100; i++ {
		tr = tr.Insert(fmt.Sprint(i), i)
	}
	var wg sync.WaitGroup
	for g := 0; g < 4; g++ {
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			for i := 0; i < 5000; i++ {
				k := (i*7 + g) % 100
				if v, ok := tr.Get(fmt.Sprint(k)); !ok || v != k {
					t.Errorf("%d: %v %v", k, v, ok)
					return
				}
			}
		}(g)
	}
	wg.Wait()
}
''')

add(id='c25-domain-label-buffer', prop='C25', pkg='domain', race=True,
    edits=[('domain/label.go', "func MakeHumanReadableLabel(s string) string {\n\tvar label [4 * MaxLabel]byte\n", "func MakeHumanReadableLabel(s string) string {\n\tlabel := &humanReadable\n"),
           ('domain/label.go', "// MakeLabel makes uppercase", "// humanReadable is a buffer for longest possible label.\nvar humanReadable [4 * MaxLabel]byte\n\n// MakeLabel makes uppercase")],
    needs='two goroutines printing labels (for example enumerating domain trees) at the same time',
    what='printing a label uses a shared buffer (data race, mixed-up labels)',
    demo='''
package domain_test

import (
	"strings"
	"sync"
	"testing"

	"github.com/infobloxopen/go-trees/domain"
)

func TestSeededDemo(t *testing.T) {
	var wg sync.WaitGroup
	for g := 0; g < 4; g++ {
		wg.Add(1)
		go func(c string) {
			defer wg.Done()
			in := strings.Repeat(c, 60)
			for i := 0; i < 5000; i++ {
				if got := domain.MakeHumanReadableLabel(in); got != in {
					t.Errorf("got %q", got)
					return
				}
			}
		}(string(rune('a' + g)))
	}
	wg.Wait()
}
''')

add(id='c27-strtree-dot-value', prop='C27', pkg='strtree',
    edits=[('strtree/node.go', "\t\tv := fmt.Sprintf(\"%q\", fmt.Sprintf(\"%#v\", n.value))\n", "\t\tv := \"\\\"\" + strings.Replace(fmt.Sprintf(\"%#v\", n.value), \"\\\"\", \"\\\\\\\"\", -1) + \"\\\"\"\n"),
           ('strtree/node.go', "import \"fmt\"\n", "import (\n\t\"fmt\"\n\t\"strings\"\n)\n")],
    needs='a value whose printed form contains a backslash (e.g. a string with a newline or a quote)',
    what='values are escaped only for quotes, so backslashes in the dump are ambiguous or break it',
    demo='''
package strtree_test

import (
	"strings"
	"testing"

	"github.com/infobloxopen/go-trees/strtree"
)

func TestSeededDemo(t *testing.T) {
	got := strtree.NewTree().Insert("k", "a\\nb").Dot()
	if !strings.Contains(got, `\\"a\\\\nb\\"`) {
		t.Fatalf("got %s", got)
	}
}
''')

add(id='c27-dltree-dot-key', prop='C27', pkg='dltree',
    edits=[('dltree/node.go', "\tk := fmt.Sprintf(\"%q\", n.key)\n", "\tk := \"\\\"\" + n.key + \"\\\"\"\n")],
    needs='a label containing a quote, a backslash or a control byte',
    what='label keys are written to the dump unescaped',
    demo='''
package dltree_test

import (
	"strings"
	"testing"

	"github.com/infobloxopen/go-trees/dltree"
)

func TestSeededDemo(t *testing.T) {
	got := dltree.NewTree().RawInsert("a\\"b", nil).Dot()
	if !strings.Contains(got, `"a\\"b"`) {
		t.Fatalf("got %s", got)
	}
}
''')
