# Planted bugs: caches that are not dropped, state shared between enumerations, extreme comparators.
SEEDS = []
def add(**k): SEEDS.append(k)

def head(pkg, imports, path=None):
    return 'package %s_test\n\nimport (\n\t"testing"\n%s)\n' % (pkg, ''.join('\t"%s"\n' % i for i in imports))

R = 'github.com/infobloxopen/go-trees/'

CIDR = '''
func cidr(s string) *net.IPNet {
	_, n, err := net.ParseCIDR(s)
	if err != nil {
		panic(err)
	}
	return n
}
'''

add(id='c02-dltree-enum-memo', prop='C02', pkg='dltree',
    edits=[('dltree/dltree.go', '''type Tree struct {
	root *node
}
''', '''type Tree struct {
	root *node

	// pairs holds results of the last enumeration.
	pairs []Pair
}
'''), ('dltree/dltree.go', '''		t.root.enumerate(ch)
''', '''		if t.pairs == nil {
			c := make(chan Pair)
			go func() {
				defer close(c)
				t.root.enumerate(c)
			}()
			for p := range c {
				t.pairs = append(t.pairs, p)
			}
		}

		for _, p := range t.pairs {
			ch <- p
		}
'''), ('dltree/dltree.go', '''	dl, _ := domain.MakeLabel(key)
	t.root = t.root.inplaceInsert(dl, value)
''', '''	dl, _ := domain.MakeLabel(key)
	t.pairs = nil
	t.root = t.root.inplaceInsert(dl, value)
'''), ('dltree/dltree.go', '''func (t *Tree) RawInplaceInsert(key string, value interface{}) {
''', '''func (t *Tree) RawInplaceInsert(key string, value interface{}) {
	if _, ok := t.root.get(key); !ok {
		t.pairs = nil
	}

''')],
    needs='an enumeration, a replacement in place by binary label, another enumeration',
    what='the second enumeration shows the replaced value',
    demo=head('dltree', [R + 'dltree']) + '''
func TestSeededDemo(t *testing.T) {
	tree := dltree.NewTree()
	tree.RawInplaceInsert("ONE", 1)
	tree.RawInplaceInsert("TWO", 2)
	for range tree.Enumerate() {
	}
	tree.RawInplaceInsert("TWO", 3)
	for p := range tree.Enumerate() {
		if p.Key == "two" && p.Value != 3 {
			t.Error(p.Value)
		}
	}
}
''')

add(id='c26-numtree32-cursor', prop='C26', pkg='numtree',
    edits=[('numtree/node32.go', '''	chld [2]*Node32
}
''', '''	chld [2]*Node32
	next int
}
'''), ('numtree/node32.go', '''	if n.chld[0] != nil {
		n.chld[0].enumerate(ch)
	}

	if n.chld[1] != nil {
		n.chld[1].enumerate(ch)
	}
}
''', '''	for n.next = 0; n.next < len(n.chld); n.next++ {
		if c := n.chld[n.next]; c != nil {
			c.enumerate(ch)
		}
	}
}
''')],
    needs='two enumerations of trees sharing nodes, both partly consumed',
    what='one moves the cursor of the other, entries are missed or repeated',
    demo=head('numtree', ['time', R + 'numtree']) + '''
func TestSeededDemo(t *testing.T) {
	var n *numtree.Node32
	for i := uint32(0); i < 16; i++ {
		n = n.Insert(i<<28, 4, i)
	}
	a, b := n.Enumerate(), n.Enumerate()
	ca, cb := 0, 0
	for i := 0; i < 3; i++ {
		<-a
		ca++
		time.Sleep(time.Millisecond)
	}
	for range b {
		cb++
		time.Sleep(time.Millisecond)
	}
	for range a {
		ca++
	}
	if ca != 16 || cb != 16 {
		t.Fatal(ca, cb)
	}
}
''')

add(id='c01-strtree-min-int', prop='C01', pkg='strtree',
    edits=[('strtree/node.go', '''		r := compare(n.key, key)

		if r == 0 {
			return n.value, true
''', '''		r := -compare(key, n.key)

		if r == 0 {
			return n.value, true
''')],
    needs='a comparator that answers with the smallest int',
    what='the negation stays negative and the lookup goes the wrong way',
    demo=head('strtree', ['math', 'strings', R + 'strtree']) + '''
func TestSeededDemo(t *testing.T) {
	tree := strtree.NewTreeWithCustomComparison(func(a, b string) int {
		switch strings.Compare(a, b) {
		case -1:
			return math.MinInt
		case 1:
			return math.MaxInt
		}
		return 0
	})
	for _, k := range []string{"c", "a", "d", "b"} {
		tree = tree.Insert(k, k)
	}
	for _, k := range []string{"c", "a", "d", "b"} {
		if v, ok := tree.Get(k); !ok || v != k {
			t.Error(k, v, ok)
		}
	}
}
''')

add(id='c15-domaintree32-prune-once', prop='C15', pkg='uintX/domaintree32',
    edits=[('uintX/domaintree32/domaintree.go', '''func (n *Node) copyBranch(labels []string, nodes []*Node) *Node {
	for i, p := range nodes {
		p = p.copy()
		if !n.hasValue && n.branches.isEmpty() {
''', '''func (n *Node) copyBranch(labels []string, nodes []*Node) *Node {
	for i, p := range nodes {
		p = p.copy()
		if i < 2 && !n.hasValue && n.branches.isEmpty() {
''')],
    needs='a delete that leaves more than three implied names above it without anything below',
    what='an empty branch stays, deleting it reports success and the tree keeps an entry-less name',
    demo=head('domaintree32', [R + 'domain', 'domaintree32:x']).replace('\t"domaintree32:x"\n', '\t"'+R+'uintX/domaintree32"\n') + '''
func TestSeededDemo(t *testing.T) {
	name := func(s string) domain.Name {
		n, err := domain.MakeNameFromString(s)
		if err != nil {
			t.Fatal(err)
		}
		return n
	}
	var n *domaintree32.Node
	n = n.Insert(name("org"), 1)
	n = n.Insert(name("a.b.c.d.e.com"), 2)
	n, ok := n.Delete(name("a.b.c.d.e.com"))
	if !ok {
		t.Fatal("not deleted")
	}
	if _, ok := n.DeleteSubdomains(name("com")); ok {
		t.Fatal("nothing to delete, yet reported")
	}
}
''')

add(id='c04-numtree64-match-memo', prop='C04', pkg='numtree',
    edits=[('numtree/node64.go', '''	chld [2]*Node64
}
''', '''	chld [2]*Node64
	last *match64
}

// match64 is the most recent result of Match for a root.
type match64 struct {
	key  uint64
	bits int
	node *Node64
}
'''), ('numtree/node64.go', '''	r := n.match(key, uint8(bits))
	if r == nil {
''', '''	var r *Node64
	if m := n.last; m != nil && m.key == key && m.bits == bits {
		r = m.node
	} else {
		r = n.match(key, uint8(bits))
		n.last = &match64{key: key, bits: bits, node: r}
	}
	if r == nil {
'''), ('numtree/node64.go', '''func (n *Node64) InplaceInsert(key uint64, bits int, value interface{}) *Node64 {
''', '''func (n *Node64) InplaceInsert(key uint64, bits int, value interface{}) *Node64 {
	if n != nil && n.last != nil && n.last.key == key {
		n.last = nil
	}

''')],
    needs='a match, an in-place insertion of a containing prefix with another key, the same match again',
    what='the second match does not see the new prefix',
    demo=head('numtree', [R + 'numtree']) + '''
func TestSeededDemo(t *testing.T) {
	var n *numtree.Node64
	n = n.InplaceInsert(0, 0, "root")
	n = n.InplaceInsert(0x8000000000000000, 1, "half")
	if v, ok := n.Match(0xc0ffee0000000000, 64); !ok || v != "half" {
		t.Fatal(v, ok)
	}
	n = n.InplaceInsert(0xc000000000000000, 2, "quarter")
	if v, ok := n.Match(0xc0ffee0000000000, 64); !ok || v != "quarter" {
		t.Fatal(v, ok)
	}
}
''')

add(id='c36-iptree-host-target', prop='C36', pkg='iptree',
    edits=[('iptree/iptree.go', '''		nodesCh := target.Enumerate()
		if target.Leaf {
			<-nodesCh
		}
		for n := range nodesCh {
			mask := net.CIDRMask(int(n.Bits), iPv4Bits)
''', '''		nodesCh := target.Enumerate()
		if bits == iPv4Bits {
			// Nothing can be below a single address.
			return
		}
		if target.Leaf {
			<-nodesCh
		}
		for n := range nodesCh {
			mask := net.CIDRMask(int(n.Bits), iPv4Bits)
''')],
    needs='an update of the descendants of a stored IPv4 /32',
    what='the goroutine of the enumeration stays',
    demo=head('iptree', ['net', 'runtime', 'time', R + 'iptree']) + CIDR + '''
func TestSeededDemo(t *testing.T) {
	tree := iptree.NewTree()
	tree.InplaceInsertNet(cidr("192.0.2.1/32"), 1)
	tree.InplaceInsertNet(cidr("192.0.2.0/24"), 2)
	before := runtime.NumGoroutine()
	for i := 0; i < 50; i++ {
		tree.UpdateDescendants(cidr("192.0.2.1/32"), func(p iptree.Pair) (interface{}, bool) { return 3, true })
	}
	for i := 0; i < 50 && runtime.NumGoroutine() > before+5; i++ {
		time.Sleep(20 * time.Millisecond)
	}
	if n := runtime.NumGoroutine(); n > before+5 {
		t.Fatal(before, n)
	}
}
''')

add(id='c32-iptree32-host-keys', prop='C32', pkg='uintX/iptree32',
    edits=[('uintX/iptree32/iptree.go', '''			mask := net.CIDRMask(int(n.bits+m.bits), iPv6Bits)
			ch <- Pair{
				Key: &net.IPNet{
					IP:   append(MSIP[0:8], LSIP...).Mask(mask),
					Mask: mask},
				Value: m.value}
''', '''			mask := net.CIDRMask(int(n.bits+m.bits), iPv6Bits)
			ip := append(MSIP[0:8], LSIP...)
			if m.bits < 64 {
				ip = ip.Mask(mask)
			}
			ch <- Pair{
				Key: &net.IPNet{
					IP:   ip,
					Mask: mask},
				Value: m.value}
''')],
    needs='two IPv6 hosts of one /64, keys kept (or changed) by the caller while the enumeration goes on',
    what='keys of hosts share memory, the later ones overwrite the earlier ones',
    demo=head('iptree32', ['net', R + 'uintX/iptree32']) + CIDR + '''
func TestSeededDemo(t *testing.T) {
	tree := iptree32.NewTree()
	tree.InplaceInsertNet(cidr("2001:db8::1/128"), 1)
	tree.InplaceInsertNet(cidr("2001:db8::2/128"), 2)
	var keys []*net.IPNet
	for p := range tree.Enumerate() {
		keys = append(keys, p.Key)
	}
	if len(keys) != 2 || keys[0].String() != "2001:db8::1/128" || keys[1].String() != "2001:db8::2/128" {
		t.Fatal(keys)
	}
}
''')

add(id='c21-parser-left-over', prop='C21', pkg='domain',
    edits=[('domain/label.go', '''func markLabels(s string, offs []int) (int, error) {
	n := 0
	start := 0
	esc := escRegular
	var code int
	for i := 0; i < len(s); i++ {
''', '''// scanner is a reusable state of label scanner.
type scanner struct {
	esc  int
	code int
}

var scanners = sync.Pool{New: func() interface{} { return new(scanner) }}

func markLabels(s string, offs []int) (int, error) {
	sc := scanners.Get().(*scanner)
	defer scanners.Put(sc)

	n, err := sc.mark(s, offs)
	if err == ErrInvalidEscape {
		sc.esc = escRegular
	}

	return n, err
}

func (sc *scanner) mark(s string, offs []int) (int, error) {
	n := 0
	start := 0
	esc, code := sc.esc, sc.code
	defer func() { sc.esc, sc.code = esc, code }()
	for i := 0; i < len(s); i++ {
'''), ('domain/label.go', '''				if start >= i {
					return 0, ErrEmptyLabel
				}

				if n >= len(offs) {
					return 0, ErrTooManyLabels
				}
''', '''				if start >= i {
					return 0, ErrEmptyLabel
				}

				if n >= len(offs) {
					esc = escFirstChar
					return 0, ErrTooManyLabels
				}
'''), ('domain/label.go', '''	"math"
''', '''	"math"
	"sync"
''')],
    needs='a name with too many labels parsed before another name (the state of the scanner is kept in a pool)',
    what='the scanner starts inside an escape, so that a name after an invalid one is refused or cut differently',
    demo=head('domain', ['strings', R + 'domain']) + '''
func TestSeededDemo(t *testing.T) {
	for i := 0; i < 100; i++ {
		domain.MakeNameFromString(strings.Repeat("a.", 200))
		if _, err := domain.MakeNameFromString("1.example.com"); err != nil {
			t.Fatal(err)
		}
	}
}
''')

add(id='c23-human-cache', prop='C23', pkg='domain',
    edits=[('domain/label.go', '''func MakeHumanReadableLabel(s string) string {
	var label [4 * MaxLabel]byte
''', '''func MakeHumanReadableLabel(s string) string {
	if len(s) < 8 {
		return makeHumanReadableLabel(s)
	}

	humanLock.Lock()
	defer humanLock.Unlock()

	item := &humanCache[(len(s)*7+int(s[0]))%len(humanCache)]
	if len(item.raw) != len(s) || item.raw[:4] != s[:4] || item.raw[len(s)-4:] != s[len(s)-4:] {
		item.raw = s
		item.human = makeHumanReadableLabel(s)
	}

	return item.human
}

var (
	humanLock  sync.Mutex
	humanCache [64]struct{ raw, human string }
)

func makeHumanReadableLabel(s string) string {
	var label [4 * MaxLabel]byte
'''), ('domain/label.go', '''	"math"
''', '''	"math"
	"sync"
''')],
    needs='two labels of nine or more bytes, equal in length and in their first and last four bytes',
    what='the second is shown as the first',
    demo=head('domain', [R + 'domain']) + '''
func TestSeededDemo(t *testing.T) {
	domain.MakeHumanReadableLabel("HOST0001-SITE")
	if s := domain.MakeHumanReadableLabel("HOST1001-SITE"); s != "host1001-site" {
		t.Fatal(s)
	}
}
''')

add(id='c18-numtree64-memo-shared', prop='C18', pkg='numtree',
    edits=[('numtree/node64.go', '''	chld [2]*Node64
}
''', '''	chld [2]*Node64
	last *match64
}

// match64 is the most recent question Match got, and the answer.
type match64 struct {
	used bool
	key  uint64
	bits int
	node *Node64
}
'''), ('numtree/node64.go', '''	r := n.match(key, uint8(bits))
	if r == nil {
''', '''	m := n.last
	if m == nil {
		m = new(match64)
		n.last = m
	}
	if !m.used || m.key != key || m.bits != bits {
		m.used, m.key, m.bits, m.node = true, key, bits, n.match(key, uint8(bits))
	}
	r := m.node
	if r == nil {
'''), ('numtree/node64.go', '''func (n *Node64) InplaceInsert(key uint64, bits int, value interface{}) *Node64 {
''', '''func (n *Node64) InplaceInsert(key uint64, bits int, value interface{}) *Node64 {
	if n != nil {
		n.last = nil
	}

'''), ('numtree/node64.go', '''	return n.insert(newNode64(key, uint8(bits), true, value))
}
''', '''	r := n.insert(newNode64(key, uint8(bits), true, value))
	if n != nil && n.last != nil && r.last == nil {
		// Keep using the same place, but not what is in it.
		r.last = n.last
		r.last.used = false
	}

	return r
}
''')],
    needs='a match on a tree, a copying insert into it, the same match on the new tree and then on the old one',
    what='the old tree gives the answer of the new one',
    demo=head('numtree', [R + 'numtree']) + '''
func TestSeededDemo(t *testing.T) {
	var old *numtree.Node64
	old = old.Insert(0, 0, "root")
	old = old.Insert(0x8000000000000000, 1, "half")
	old.Match(0xc000000000000000, 64)
	tree := old.Insert(0xc000000000000000, 2, "quarter")
	if v, ok := tree.Match(0xc000000000000000, 64); !ok || v != "quarter" {
		t.Fatal(v, ok)
	}
	if v, ok := old.Match(0xc000000000000000, 64); !ok || v != "half" {
		t.Fatal(v, ok)
	}
}
''')

add(id='c01-strtree32-chunks', prop='C01', pkg='uintX/strtree32',
    edits=[('uintX/strtree32/strtree.go', '''	return &Tree{compare: strings.Compare}
''', '''	return &Tree{compare: compareKeys}
'''), ('uintX/strtree32/strtree.go', '''		c = strings.Compare
''', '''		c = compareKeys
'''), ('uintX/strtree32/strtree.go', '''// NewTree creates empty tree with default comparison operation (strings.Compare).
''', '''// compareKeys gives the same order as strings.Compare but looks at eight bytes at once.
func compareKeys(a, b string) int {
	for len(a) >= 8 && len(b) >= 8 {
		x, y := chunk(a), chunk(b)
		if x != y {
			if x < y {
				return -1
			}

			return 1
		}

		a, b = a[8:], b[8:]
	}

	return strings.Compare(a, b)
}

func chunk(s string) int64 {
	var x int64
	for i := 0; i < 8; i++ {
		x = x<<8 | int64(s[i])
	}

	return x
}

// NewTree creates empty tree with default comparison operation (strings.Compare).
''')],
    needs='keys of eight bytes or more whose first difference is in a chunk starting with bytes on both sides of 128',
    what='such keys are enumerated in the wrong order',
    demo=head('strtree32', ['strings', R + 'uintX/strtree32']) + '''
func TestSeededDemo(t *testing.T) {
	tree := strtree32.NewTree()
	tree.InplaceInsert("\\xc3\\xa4"+strings.Repeat("x", 8), 2)
	tree.InplaceInsert("a"+strings.Repeat("x", 8), 1)
	i := uint32(0)
	for p := range tree.Enumerate() {
		i++
		if p.Value != i {
			t.Error(p)
		}
	}
}
''')

add(id='c18-numtree32-free-list', prop='C18', pkg='numtree',
    edits=[('numtree/node32.go', '''		if (n.Key^key)&masks32[bits] == 0 {
			return nil, true
		}

		return n, false
''', '''		if (n.Key^key)&masks32[bits] == 0 {
			if n.Leaf && n.chld[0] == nil && n.chld[1] == nil {
				select {
				case free32 <- n:
				default:
				}
			}

			return nil, true
		}

		return n, false
'''), ('numtree/node32.go', '''func newNode32(key uint32, bits uint8, leaf bool, value interface{}) *Node32 {
''', '''// free32 keeps nodes that are not needed any more.
var free32 = make(chan *Node32, 16)

func newNode32(key uint32, bits uint8, leaf bool, value interface{}) *Node32 {
	if !leaf {
		// Branching points come and go most often.
		select {
		case n := <-free32:
			*n = Node32{Key: key, Bits: bits, Value: value}
			return n
		default:
		}
	}

''')],
    needs='a delete, then an insertion that makes a branching point, and a look at the tree before the delete',
    what='the node the delete removed from the new tree only is reused, the older tree changes',
    demo=head('numtree', [R + 'numtree']) + '''
func TestSeededDemo(t *testing.T) {
	var old *numtree.Node32
	old = old.Insert(0x0a000000, 8, "ten")
	old = old.Insert(0x14000000, 8, "twenty")
	tree, _ := old.Delete(0x0a000000, 8)
	tree = tree.Insert(0xc0000000, 8, "192")
	if v, ok := old.Match(0x0a010203, 32); !ok || v != "ten" {
		t.Fatal(v, ok)
	}
}
''')

add(id='c34-strtree-rebuild-64', prop='C34', pkg='strtree',
    edits=[('strtree/strtree.go', '''type Tree struct {
	root    *node
	compare Compare
}
''', '''type Tree struct {
	root    *node
	compare Compare
	dels    int
}
'''), ('strtree/strtree.go', '''	root, ok := t.root.del(key, c)
	return &Tree{root: root, compare: c}, ok
''', '''	root, ok := t.root.del(key, c)
	out := &Tree{root: root, compare: c, dels: t.dels + 1}
	if out.dels >= 64 {
		// Rebuild the tree after many deletions to bring its nodes together in memory.
		out = out.compact()
	}

	return out, ok
'''), ('strtree/strtree.go', '''// IsEmpty returns true''', '''func (t *Tree) compact() *Tree {
	out := &Tree{compare: t.compare}
	for p := range t.Enumerate() {
		out.InplaceInsert(p.Key, p.Value)
	}

	return out
}

// IsEmpty returns true''')],
    needs='more than sixty deletions one after another in a large tree',
    what='every 64th deletion copies the whole tree',
    demo=head('strtree', ['runtime', 'strconv', R + 'strtree']) + '''
func TestSeededDemo(t *testing.T) {
	tree := strtree.NewTree()
	for i := 0; i < 4000; i++ {
		tree.InplaceInsert(strconv.Itoa(i), i)
	}
	var a, b runtime.MemStats
	most := uint64(0)
	for i := 0; i < 200; i++ {
		runtime.ReadMemStats(&a)
		tree, _ = tree.Delete(strconv.Itoa(i))
		runtime.ReadMemStats(&b)
		if n := b.Mallocs - a.Mallocs; n > most {
			most = n
		}
	}
	if most > 2000 {
		t.Fatal(most)
	}
}
''')

add(id='c23-label-by-address', prop='C23', pkg='domain',
    edits=[('domain/label.go', '''func MakeLabel(s string) (string, error) {
	var label [MaxLabel + 1]byte
''', '''func MakeLabel(s string) (string, error) {
	if len(s) == 0 {
		return buildLabel(s)
	}

	k := addrID{*(*uintptr)(unsafe.Pointer(&s)), len(s)}
	if v, ok := byAddr.Load(k); ok {
		return v.(string), nil
	}

	out, err := buildLabel(s)
	if err == nil && len(s) <= 8 {
		byAddr.Store(k, out)
	}

	return out, err
}

// addrID identifies a string without looking at its contents.
type addrID struct {
	addr uintptr
	size int
}

var byAddr sync.Map

func buildLabel(s string) (string, error) {
	var label [MaxLabel + 1]byte
'''), ('domain/label.go', '''	"math"
''', '''	"math"
	"sync"
	"unsafe"
''')],
    needs='garbage collections between the making of labels, so that memory of one string is used for another',
    what='the label of another string is returned',
    demo=head('domain', ['runtime', 'strconv', R + 'domain']) + '''
func TestSeededDemo(t *testing.T) {
	for j := 0; j < 20; j++ {
		for i := 0; i < 20000; i++ {
			s := "x" + strconv.Itoa(i+j*7)
			l, err := domain.MakeLabel(s)
			if err != nil || l != "X"+strconv.Itoa(i+j*7) {
				t.Fatal(s, l, err)
			}
		}
		runtime.GC()
	}
}
''')

add(id='c36-numtree64-janitor', prop='C36', pkg='numtree',
    edits=[('numtree/node64.go', '''func newNode64(key uint64, bits uint8, leaf bool, value interface{}) *Node64 {
''', '''// spare64 keeps a few nodes ready.
var (
	spare64     = make(chan *Node64, 8)
	spare64Once sync.Once
)

func fill64() {
	for {
		spare64 <- new(Node64)
	}
}

func newNode64(key uint64, bits uint8, leaf bool, value interface{}) *Node64 {
	spare64Once.Do(func() { go fill64() })
	select {
	default:
	case n := <-spare64:
		n.Key, n.Bits, n.Leaf, n.Value = key, bits, leaf, value
		return n
	}

'''), ('numtree/node64.go', '''	"math/bits"
)
''', '''	"math/bits"
	"sync"
)
''')],
    needs='the first node of a process (one goroutine, ever)',
    what='a goroutine which prepares nodes never ends',
    demo=head('numtree', ['runtime', 'time', R + 'numtree']) + '''
func TestSeededDemo(t *testing.T) {
	before := runtime.NumGoroutine()
	var n *numtree.Node64
	n = n.Insert(1, 64, 1)
	for i := 0; i < 50 && runtime.NumGoroutine() > before; i++ {
		time.Sleep(10 * time.Millisecond)
	}
	if runtime.NumGoroutine() > before {
		t.Fatal("a goroutine is left")
	}
}
''')

add(id='c35-domain-intern', prop='C35', pkg='domain',
    edits=[('domain/label.go', '''	return string(label[1:n]), nil
}
''', '''	return intern(label[1:n]), nil
}

var (
	internLock sync.RWMutex
	interned   = map[string]string{}
)

// intern makes equal labels share memory.
func intern(b []byte) string {
	internLock.RLock()
	s, ok := interned[string(b)]
	internLock.RUnlock()
	if ok {
		return s
	}

	internLock.Lock()
	defer internLock.Unlock()

	s = string(b)
	interned[s] = s
	return s
}
'''), ('domain/label.go', '''	"math"
''', '''	"math"
	"sync"
''')],
    needs='label trees with ever new keys, created and dropped',
    what='the table of labels grows without bound',
    demo=head('domain', ['runtime', 'strconv', R + 'dltree']) + '''
func TestSeededDemo(t *testing.T) {
	var ms runtime.MemStats
	objects := func() uint64 {
		runtime.GC()
		runtime.GC()
		runtime.ReadMemStats(&ms)
		return ms.HeapObjects
	}
	last, grown := objects(), 0
	for round := 0; round < 6; round++ {
		tree := dltree.NewTree()
		for i := 0; i < 2000; i++ {
			tree.InplaceInsert("k"+strconv.Itoa(round*100000+i), i)
		}
		tree = nil
		now := objects()
		if now > last+500 {
			grown++
		}
		last = now
	}
	if grown >= 5 {
		t.Fatal("memory grows from round to round")
	}
}
''')
