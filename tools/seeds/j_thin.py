# Planted bugs of properties that had few.
SEEDS = []
def add(**k): SEEDS.append(k)

def head(pkg, imports, path=None):
    return 'package %s_test\n\nimport (\n\t"testing"\n%s)\n' % (pkg, ''.join('\t"%s"\n' % i for i in imports))

R = 'github.com/infobloxopen/go-trees/'

add(id='c26-domaintree-shared-path', prop='C26', pkg='domaintree',
    edits=[('domaintree/domaintree.go', '''		n.enumerate("", ch)
''', '''		n.enumerate(0, ch)
'''),
           ('domaintree/domaintree.go', '''func (n *Node) enumerate(s string, ch chan Pair) {
	if n == nil {
		return
	}

	if n.hasValue {
		ch <- Pair{
			Key:   s,
			Value: n.value}
	}

	for item := range n.branches.Enumerate() {
		sub := item.Key
		if len(s) > 0 {
			sub += "." + s
		}
		node := item.Value.(*Node)

		node.enumerate(sub, ch)
	}
}
''', '''var enumPath [domain.MaxLabels]string

func (n *Node) enumerate(depth int, ch chan Pair) {
	if n == nil {
		return
	}

	if n.hasValue {
		s := ""
		for i := 0; i < depth; i++ {
			if i == 0 {
				s = enumPath[i]
			} else {
				s = enumPath[i] + "." + s
			}
		}

		ch <- Pair{
			Key:   s,
			Value: n.value}
	}

	for item := range n.branches.Enumerate() {
		enumPath[depth] = item.Key
		item.Value.(*Node).enumerate(depth+1, ch)
	}
}
''')],
    needs='two enumerations of domain trees consumed interleaved',
    what='keys of one take suffixes of the other',
    demo=head('domaintree', [R + 'domain', R + 'domaintree']) + '''
func name(s string) domain.Name {
	n, err := domain.MakeNameFromString(s)
	if err != nil {
		panic(err)
	}
	return n
}

func TestSeededDemo(t *testing.T) {
	var a, b *domaintree.Node
	for _, s := range []string{"a.com", "b.com", "c.com", "d.com"} {
		a = a.Insert(name(s), s)
	}
	for _, s := range []string{"a.org", "b.org", "c.org", "d.org"} {
		b = b.Insert(name(s), s)
	}
	x, y := a.Enumerate(), b.Enumerate()
	for i := 0; i < 4; i++ {
		p, q := <-x, <-y
		if p.Key != p.Value || q.Key != q.Value {
			t.Fatal(p, q)
		}
	}
	<-x
	<-y
}
''')

add(id='c13-domaintree16-level-bits', prop='C13', pkg='uintX/domaintree16',
    edits=[('uintX/domaintree16/domaintree.go', '''	value, hasValue := n.value, n.hasValue

	d.GetLabels(func(label string) error {
		next, ok := n.branches.rawGet(label)
		if !ok {
			return errStopIterations
		}

		n = next
		if n.hasValue {
			value = n.value
			hasValue = true
		}
		return nil
	})

	return value, hasValue
''', '''	var (
		stored [domain.MaxLabels + 1]*Node
		levels uint64
		depth  uint
	)

	if stored[0] = n; n.hasValue {
		levels = 1
	}

	d.GetLabels(func(label string) error {
		next, ok := n.branches.rawGet(label)
		if !ok {
			return errStopIterations
		}

		n = next
		depth++
		if stored[depth] = n; n.hasValue {
			levels |= 1 << depth
		}
		return nil
	})

	if levels == 0 {
		return 0, false
	}

	return stored[bits.Len64(levels)-1].value, true
'''),
           ('uintX/domaintree16/domaintree.go', '	"errors"\n', '	"errors"\n	"math/bits"\n')],
    needs='a stored name of 64 labels or more',
    what='lookups below it give the value of a farther ancestor or nothing',
    demo=head('domaintree16', ['strings', R + 'domain', R + 'uintX/domaintree16']) + '''
func TestSeededDemo(t *testing.T) {
	n, err := domain.MakeNameFromString(strings.Repeat("a.", 63) + "a")
	if err != nil {
		t.Fatal(err)
	}
	var tr *domaintree16.Node
	if v, ok := tr.Insert(n, 7).Get(n); v != 7 || !ok {
		t.Fatal(v, ok)
	}
}
''')

add(id='c06-numtree32-nil-parent', prop='C06', pkg='numtree',
    edits=[('numtree/node32.go', "	if c == nil && !n.Leaf {\n", "	if c == nil && n.Value == nil {\n")],
    needs='deleting what lies on one side of a stored prefix whose value is nil',
    what='the containing prefix is removed too',
    demo=head('numtree', [R + 'numtree']) + '''
func TestSeededDemo(t *testing.T) {
	var n *numtree.Node32
	n = n.Insert(0x0a000000, 8, nil)
	n = n.Insert(0x0a010000, 16, "x")
	n, _ = n.Delete(0x0a010000, 16)
	if _, ok := n.ExactMatch(0x0a000000, 8); !ok {
		t.Fatal("gone")
	}
}
''')

add(id='c08-numtree32-bits-wrap', prop='C08', pkg='numtree',
    edits=[('numtree/node32.go', '''	if n == nil {
		// report nothing.
		return nil
	}

	// Adjust bits.
	if bits < 0 {
		bits = 0
	} else if bits > Key32BitSize {
		bits = Key32BitSize
	}

	r := n.exactMatch(key, uint8(bits))
	if r == nil {
		return nil
	}

	return r
''', '''	if n == nil {
		// report nothing.
		return nil
	}

	// Adjust bits.
	if bits < 0 {
		bits = 0
	}

	b := uint8(bits)
	if b > Key32BitSize {
		b = Key32BitSize
	}

	return n.exactMatch(key, b)
''')],
    needs='a length of 256 or more',
    what='exact lookups take it for a short one',
    demo=head('numtree', [R + 'numtree']) + '''
func TestSeededDemo(t *testing.T) {
	var n *numtree.Node32
	n = n.Insert(0x0a000000, 256, "x")
	if v, ok := n.ExactMatch(0x0a000000, 256); !ok || v != "x" {
		t.Fatal(v, ok)
	}
}
''')

add(id='c04-numtree64-stop-63', prop='C04', pkg='numtree',
    edits=[('numtree/node64.go', "	if n.Bits == bits {\n		if n.Leaf && (n.Key^key)&masks64[n.Bits] == 0 {\n			return n\n		}\n\n		return nil\n	}\n\n	if (n.Key^key)&masks64[n.Bits] != 0 {\n		return nil\n	}\n\n	c := n.chld[(key>>(Key64BitSize-1-n.Bits))&1]\n	if c != nil {\n		r := c.match(key, bits)\n		if r != nil {\n			return r\n		}\n	}\n\n	if n.Leaf {\n		return n\n	}\n\n	return nil\n",
                                    "	var best *Node64\n	for n != nil && n.Bits <= bits && (n.Key^key)&masks64[n.Bits] == 0 {\n		if n.Leaf {\n			best = n\n		}\n\n		if n.Bits == bits || n.Bits == Key64BitSize-1 && best != nil && best.Bits == n.Bits {\n			break\n		}\n\n		n = n.chld[(key>>(Key64BitSize-1-n.Bits))&1]\n	}\n\n	return best\n")],
    needs='a stored 63-bit prefix around a stored full-length one',
    what='lookups of the latter give the value of the former',
    demo=head('numtree', [R + 'numtree']) + '''
func TestSeededDemo(t *testing.T) {
	var n *numtree.Node64
	n = n.Insert(2, 63, "a")
	n = n.Insert(3, 64, "b")
	if v, ok := n.Match(3, 64); !ok || v != "b" {
		t.Fatal(v, ok)
	}
}
''')

add(id='c24-iptree8-mask-last-byte', prop='C24', pkg='uintX/iptree8',
    edits=[('uintX/iptree8/iptree.go', '''	ones, bits := n.Mask.Size()
	if bits != iPv4Bits {
		return 0, -1
	}

	return packIPToUint32(n.IP), ones
''', '''	if len(n.Mask) != net.IPv4len {
		return 0, -1
	}

	mask := packIPToUint32(net.IP(n.Mask))
	ones := bits.LeadingZeros32(^mask)
	if mask<<uint(ones)&0xfffffffe != 0 {
		return 0, -1
	}

	return packIPToUint32(n.IP), ones
'''),
           ('uintX/iptree8/iptree.go', 'import "net"\n', 'import (\n	"math/bits"\n	"net"\n)\n')],
    needs='the malformed IPv4 mask 0.0.0.1',
    what='it is accepted as a mask of no ones',
    demo=head('iptree8', ['net', R + 'uintX/iptree8']) + '''
func TestSeededDemo(t *testing.T) {
	tr := iptree8.NewTree().InsertNet(&net.IPNet{IP: net.IP{1, 2, 3, 4}, Mask: net.IPMask{0, 0, 0, 1}}, 7)
	if v, ok := tr.GetByIP(net.IP{1, 2, 3, 4}); ok {
		t.Fatal(v)
	}
}
''')

add(id='c32-iptree-key-slab', prop='C32', pkg='iptree',
    edits=[('iptree/iptree.go', '''	for n := range t.root32.Enumerate() {
		mask := net.CIDRMask(int(n.Bits), iPv4Bits)
		ch <- Pair{
			Key: &net.IPNet{
				IP:   unpackUint32ToIP(n.Key).Mask(mask),
				Mask: mask},
			Value: n.Value}
	}
''', '''	var slab []byte
	for n := range t.root32.Enumerate() {
		if len(slab) < 2*net.IPv4len {
			slab = make([]byte, 64*net.IPv4len)
		}

		mask := net.IPMask(slab[:net.IPv4len])
		copy(mask, net.CIDRMask(int(n.Bits), iPv4Bits))
		ip := net.IP(slab[net.IPv4len : 2*net.IPv4len])
		copy(ip, unpackUint32ToIP(n.Key).Mask(mask))
		slab = slab[2*net.IPv4len:]
		ch <- Pair{
			Key: &net.IPNet{
				IP:   ip,
				Mask: mask},
			Value: n.Value}
	}
''')],
    needs='keeping the keys an enumeration yields and appending to the bytes of an earlier one',
    what='keys yielded after it change',
    demo=head('iptree', ['net', R + 'iptree']) + '''
func TestSeededDemo(t *testing.T) {
	tr := iptree.NewTree().InsertIP(net.IP{1, 2, 3, 4}, 1).InsertIP(net.IP{1, 2, 3, 5}, 2)
	var ks []*net.IPNet
	for p := range tr.Enumerate() {
		ks = append(ks, p.Key)
	}
	_ = append(ks[0].IP, 9, 9, 9, 9, 9, 9, 9, 9)
	if s := ks[1].String(); s != "1.2.3.5/32" {
		t.Fatal(s)
	}
}
''')
