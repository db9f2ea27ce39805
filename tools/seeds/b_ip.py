# Planted bugs in the numeric radix trees and IP trees.
SEEDS = []
def add(**k): SEEDS.append(k)

add(id='c04-numtree64-mask-typo', prop='C04', pkg='numtree',
    edits=[('numtree/node64.go', "0xffffffff80000000", "0xffffffff00000000")],
    needs='a 64-bit prefix of length 33 (or a branch point there)',
    what='33-bit prefixes match keys that differ in bit 33',
    demo='''
package numtree_test

import (
	"testing"

	"github.com/infobloxopen/go-trees/numtree"
)

func TestSeededDemo(t *testing.T) {
	var n *numtree.Node64
	n = n.Insert(0x0102030480000000, 33, "x")
	if v, ok := n.Match(0x0102030400000000, 64); ok {
		t.Fatal(v)
	}
}
''')

add(id='c04-numtree32-match-implied', prop='C04', pkg='numtree',
    edits=[('numtree/node32.go', "\t\t// and check if child on the branch has anything.\n\t\tr := c.match(key, bits)\n\t\tif r != nil {\n\t\t\treturn r\n\t\t}\n\t}\n",
            "\t\t// and check if child on the branch has anything.\n\t\tr := c.match(key, bits)\n\t\tif r != nil || c.Bits == bits && !c.Leaf {\n\t\t\treturn r\n\t\t}\n\t}\n")],
    needs='a lookup of a prefix that coincides with a branch point without data, below a stored shorter prefix',
    what='the match does not fall back to the containing prefix',
    demo='''
package numtree_test

import (
	"testing"

	"github.com/infobloxopen/go-trees/numtree"
)

func TestSeededDemo(t *testing.T) {
	var n *numtree.Node32
	n = n.Insert(0x0a000000, 8, "top").Insert(0x0a010000, 17, "l").Insert(0x0a018000, 17, "r")
	if v, ok := n.Match(0x0a010000, 16); !ok || v != "top" {
		t.Fatal(v, ok)
	}
}
''')

add(id='c05-numtree32-exact-implied', prop='C05', pkg='numtree',
    edits=[('numtree/node32.go', "\t\tr := c.exactMatch(key, bits)\n\t\tif r != nil {\n\t\t\treturn r\n\t\t}\n\t}\n\n\treturn nil\n",
            "\t\tr := c.exactMatch(key, bits)\n\t\tif r != nil {\n\t\t\treturn r\n\t\t}\n\n\t\t// Parent of both halves stands for them.\n\t\tif c.Bits == bits && (c.Key^key)&masks32[bits] == 0 && c.chld[0].Bits == bits+1 && c.chld[1].Bits == bits+1 {\n\t\t\treturn c\n\t\t}\n\t}\n\n\treturn nil\n")],
    needs='an exact lookup of a prefix that is not stored while both its halves are',
    what='an exact match reports a prefix which was never inserted',
    demo='''
package numtree_test

import (
	"testing"

	"github.com/infobloxopen/go-trees/numtree"
)

func TestSeededDemo(t *testing.T) {
	var n *numtree.Node32
	n = n.Insert(0x0a000000, 8, "top").Insert(0x0a010000, 17, "l").Insert(0x0a018000, 17, "r")
	if v, ok := n.ExactMatch(0x0a010000, 16); ok {
		t.Fatal(v, ok)
	}
}
''')

add(id='c05-numtree64-exact-leafparent', prop='C05', pkg='numtree',
    edits=[('numtree/node64.go', "\t\tr := c.exactMatch(key, bits)\n", "\t\tif c.Bits == bits && n.Leaf && c.Leaf && n.Value == c.Value && bits == Key64BitSize {\n\t\t\treturn n\n\t\t}\n\n\t\tr := c.exactMatch(key, bits)\n")],
    needs='a stored prefix directly above a 64-bit one with the same value, and an exact lookup of another 64-bit key there',
    what='the covering prefix is reported as an exact match',
    demo="""
package numtree_test

import (
	"testing"

	"github.com/infobloxopen/go-trees/numtree"
)

func TestSeededDemo(t *testing.T) {
	var n *numtree.Node64
	n = n.Insert(0, 8, "x").Insert(1, 64, "x")
	if v, ok := n.ExactMatch(2, 64); ok {
		t.Fatal(v)
	}
}
""")

add(id='c06-numtree32-del-implied', prop='C06', pkg='numtree',
    edits=[('numtree/node32.go', "\tif bits <= n.Bits {\n\t\t// report empty new tree", "\tif bits < n.Bits || bits == n.Bits && n.Leaf {\n\t\t// report empty new tree")],
    needs='deleting a prefix that coincides with a branch point holding no data',
    what='only one half of the contained prefixes is removed',
    demo='''
package numtree_test

import (
	"testing"

	"github.com/infobloxopen/go-trees/numtree"
)

func TestSeededDemo(t *testing.T) {
	var n *numtree.Node32
	n = n.Insert(0x0a000000, 9, "l").Insert(0x0a800000, 9, "r")
	n, ok := n.Delete(0x0a000000, 8)
	if !ok {
		t.Fatal("not deleted")
	}
	for m := range n.Enumerate() {
		t.Fatal("left", m)
	}
}
''')

add(id='c06-numtree64-del-flag', prop='C06', pkg='numtree',
    edits=[('numtree/node64.go', "\t\tif (n.Key^key)&masks64[bits] == 0 {\n\t\t\treturn nil, true\n\t\t}\n\n\t\treturn n, false\n\t}\n\n\tif (n.Key^key)&masks64[n.Bits] != 0 {",
            "\t\tif (n.Key^key)&masks64[bits] == 0 {\n\t\t\treturn nil, n.Leaf || n.chld[0].Leaf || n.chld[1].Leaf\n\t\t}\n\n\t\treturn n, false\n\t}\n\n\tif (n.Key^key)&masks64[n.Bits] != 0 {")],
    needs='deleting a prefix whose contained prefixes all lie two branch points or more below the topmost one',
    what='nothing is deleted (or the flag says so) although contained prefixes exist',
    demo='''
package numtree_test

import (
	"testing"

	"github.com/infobloxopen/go-trees/numtree"
)

func TestSeededDemo(t *testing.T) {
	var n *numtree.Node64
	n = n.Insert(1<<63, 8, "other")
	for _, k := range []uint64{0, 1, 2, 3} {
		n = n.Insert(k, 64, k)
	}
	_, ok := n.Delete(0, 32)
	if !ok {
		t.Fatal("reported as not deleted")
	}
}
''')

add(id='c07-numtree32-no-collapse', prop='C07', pkg='numtree',
    edits=[('numtree/node32.go', "\t\treturn n.chld[1-branch], true\n", "\t\tif s := n.chld[1-branch]; s == nil || s.Leaf || n.Bits&7 != 0 {\n\t\t\treturn s, true\n\t\t}\n")],
    needs='deleting one side of a byte-aligned branch point whose other side is itself a branch point',
    what='a branch point with one child stays behind, so the structure depends on history',
    demo='''
package numtree_test

import (
	"testing"

	"github.com/infobloxopen/go-trees/numtree"
)

func TestSeededDemo(t *testing.T) {
	var a, b *numtree.Node32
	a = a.Insert(0x0a800000, 9, "z").Insert(0x0a010000, 16, "x").Insert(0x0a020000, 16, "y")
	a, _ = a.Delete(0x0a800000, 9)
	b = b.Insert(0x0a010000, 16, "x").Insert(0x0a020000, 16, "y")
	if a.Dot() != b.Dot() {
		t.Fatalf("%s %s", a.Dot(), b.Dot())
	}
}
''')

add(id='c07-numtree64-enum-order', prop='C07', pkg='numtree',
    edits=[('numtree/node64.go', "\tif n.Leaf {\n\t\tch <- n\n\t}\n\n\tif n.chld[0] != nil {\n\t\tn.chld[0].enumerate(ch)\n\t}\n",
            "\tif n.Leaf && n.Bits < Key64BitSize-1 {\n\t\tch <- n\n\t}\n\n\tif n.chld[0] != nil {\n\t\tn.chld[0].enumerate(ch)\n\t}\n\n\tif n.Leaf && n.Bits >= Key64BitSize-1 {\n\t\tch <- n\n\t}\n")],
    needs='a stored 63-bit prefix together with its first 64-bit half',
    what='a containing prefix is enumerated after the prefix it contains',
    demo='''
package numtree_test

import (
	"testing"

	"github.com/infobloxopen/go-trees/numtree"
)

func TestSeededDemo(t *testing.T) {
	var n *numtree.Node64
	n = n.Insert(4, 63, "a").Insert(4, 64, "b")
	var got []uint8
	for m := range n.Enumerate() {
		got = append(got, m.Bits)
	}
	if len(got) != 2 || got[0] != 63 || got[1] != 64 {
		t.Fatal(got)
	}
}
''')

add(id='c08-numtree64-match-clamp', prop='C08', pkg='numtree',
    edits=[('numtree/node64.go', "\t} else if bits > Key64BitSize {\n\t\tbits = Key64BitSize\n\t}\n\n\tr := n.match(key, uint8(bits))",
            "\t} else if bits > math.MaxInt16 {\n\t\tbits = Key64BitSize\n\t}\n\n\tr := n.match(key, uint8(bits))"),
           ('numtree/node64.go', "import (\n", "import (\n\t\"math\"\n")],
    needs='a lookup length of 256 or more',
    what='lengths beyond 255 wrap around instead of acting as 64',
    demo='''
package numtree_test

import (
	"testing"

	"github.com/infobloxopen/go-trees/numtree"
)

func TestSeededDemo(t *testing.T) {
	var n *numtree.Node64
	n = n.Insert(0x0102030405060708, 64, "x")
	if v, ok := n.Match(0x0102030405060708, 260); !ok || v != "x" {
		t.Fatal(v, ok)
	}
}
''')

add(id='c08-numtree32-garbage', prop='C08', pkg='numtree',
    edits=[('numtree/node32.go', "\t\t\t\tm = newNode32(key&masks32[cbits], cbits, false, nil)\n\t\t\t\tm.chld[1-branch] = newNode32(key, sbits, true, value)\n",
            "\t\t\t\tm = newNode32(key&masks32[cbits], cbits, false, nil)\n\t\t\t\tm.chld[1-branch] = newNode32(key|1&^masks32[sbits]>>31, sbits, true, value)\n"),
           ('numtree/node32.go', "\tbits := uint8(bits.LeadingZeros32((n.Key ^ c.Key) | ^masks32[n.Bits] | ^masks32[c.Bits]))\n",
            "\tbits := uint8(bits.LeadingZeros32((n.Key ^ c.Key) | ^masks32[n.Bits] | ^(masks32[c.Bits] | c.Key<<31>>c.Bits)))\n")],
    needs='a copying insert whose key has its last bit set beyond the prefix length, under a longer stored prefix',
    what='garbage bits in a key extend the prefix, so it lands in a wrong place or is lost',
    demo='''
package numtree_test

import (
	"testing"

	"github.com/infobloxopen/go-trees/numtree"
)

func TestSeededDemo(t *testing.T) {
	for bits := 0; bits < 32; bits++ {
		for other := 0; other < 32; other++ {
			var n *numtree.Node32
			n = n.Insert(0x0a80c0f1, other, "other").Insert(0x0a80c0f1, bits, "x")
			if v, ok := n.ExactMatch(0x0a80c0f1, bits); !ok || v != "x" {
				t.Fatal(bits, other, v, ok)
			}
			if v, ok := n.ExactMatch(0x0a80c0f0, other); !ok || (v != "x") != (bits != other) {
				t.Fatal(bits, other, v, ok)
			}
		}
	}
}
''')

add(id='c09-iptree-fallback-64', prop='C09', pkg='iptree',
    edits=[('iptree/iptree.go', "\t\treturn t.root64.Match(MSKey, numtree.Key64BitSize-1)\n", "\t\tif LSBits == 0 {\n\t\t\treturn nil, false\n\t\t}\n\n\t\treturn t.root64.Match(MSKey, numtree.Key64BitSize-1)\n")],
    needs='a /64 lookup while the tree holds something longer inside that /64 and something shorter around it',
    what='a /64 lookup misses the containing shorter network',
    demo='''
package iptree_test

import (
	"net"
	"testing"

	"github.com/infobloxopen/go-trees/iptree"
)

func cidr(s string) *net.IPNet {
	_, n, err := net.ParseCIDR(s)
	if err != nil {
		panic(err)
	}
	return n
}

func TestSeededDemo(t *testing.T) {
	tr := iptree.NewTree().InsertNet(cidr("2001:db8::/32"), "top").InsertNet(cidr("2001:db8::1/128"), "ip")
	if v, ok := tr.GetByNet(cidr("2001:db8::/64")); !ok || v != "top" {
		t.Fatal(v, ok)
	}
}
''')

add(id='c09-iptree16-fallback-63', prop='C09', pkg='uintX/iptree16',
    edits=[('uintX/iptree16/iptree.go', "t.root64.Match(MSKey, MSBits-1)", "t.root64.Match(MSKey, MSBits-2)")],
    needs='a stored /63 IPv6 network with something longer than /64 stored next to the address looked up',
    what='the /63 is skipped when falling back from the inner tree',
    demo='''
package iptree16_test

import (
	"net"
	"testing"

	"github.com/infobloxopen/go-trees/uintX/iptree16"
)

func cidr(s string) *net.IPNet {
	_, n, err := net.ParseCIDR(s)
	if err != nil {
		panic(err)
	}
	return n
}

func TestSeededDemo(t *testing.T) {
	tr := iptree16.NewTree().InsertNet(cidr("2001:db8::/63"), 1).InsertNet(cidr("2001:db8::1/128"), 2)
	if v, ok := tr.GetByIP(net.ParseIP("2001:db8::2")); !ok || v != 1 {
		t.Fatal(v, ok)
	}
}
''')

add(id='c09-iptree-mapped-net', prop='C09', pkg='iptree',
    edits=[('iptree/iptree.go', "\tif len(n.IP) != net.IPv6len {\n\t\treturn 0, -1, 0, -1\n\t}\n", "\tif len(n.IP) != net.IPv6len {\n\t\treturn 0, -1, 0, -1\n\t}\n\n\tif ip := n.IP.To4(); ip != nil && n.IP[15] == 0 && n.IP[14] == 0 {\n\t\tn = &net.IPNet{IP: make(net.IP, net.IPv6len), Mask: n.Mask}\n\t\tcopy(n.IP[12:], ip)\n\t}\n")],
    needs='an IPv6 network written as an IPv4-mapped address with two zero last bytes',
    what='IPv4-mapped networks collide with IPv4-compatible ones',
    demo='''
package iptree_test

import (
	"net"
	"testing"

	"github.com/infobloxopen/go-trees/iptree"
)

func TestSeededDemo(t *testing.T) {
	mapped := &net.IPNet{IP: net.IP{0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0xff, 0xff, 10, 1, 0, 0}, Mask: net.CIDRMask(112, 128)}
	compat := &net.IPNet{IP: net.IP{0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 10, 1, 0, 0}, Mask: net.CIDRMask(112, 128)}
	tr := iptree.NewTree().InsertNet(mapped, "m")
	if v, ok := tr.GetByNet(compat); ok {
		t.Fatal(v)
	}
}
''')

add(id='c10-iptree64-empty-subtree', prop='C10', pkg='uintX/iptree64',
    edits=[('uintX/iptree64/iptree.go', "\t\t\t\tif r == nil {\n\t\t\t\t\tr64, _ = r64.Delete(MSKey, MSBits)\n", "\t\t\t\tif r == nil && LSBits != key64BitSize/2+1 {\n\t\t\t\t\tr64, _ = r64.Delete(MSKey, MSBits)\n")],
    needs='deleting the last network of a /64 by a /97, then deleting a network around it',
    what='an empty inner tree stays behind: a later deletion of a shorter network reports success though nothing was stored',
    demo="""
package iptree64_test

import (
	"net"
	"testing"

	"github.com/infobloxopen/go-trees/uintX/iptree64"
)

func TestSeededDemo(t *testing.T) {
	_, n96, _ := net.ParseCIDR("2001:db8::/97")
	_, n32, _ := net.ParseCIDR("2001:db8::/32")
	tr := iptree64.NewTree().InsertNet(n96, 1)
	tr, ok := tr.DeleteByNet(n96)
	if !ok {
		t.Fatal("not deleted")
	}
	if _, ok := tr.DeleteByNet(n32); ok {
		t.Fatal("deleted from an empty tree")
	}
}
""")

add(id='c10-iptree32-delete-64', prop='C10', pkg='uintX/iptree32',
    edits=[('uintX/iptree32/iptree.go', "\t\t\tr, ok := v.Delete(LSKey, LSBits)\n\t\t\tif ok {\n", "\t\t\tr, ok := v.Delete(LSKey, LSBits)\n\t\t\tif ok && (LSBits > 0 || r != nil || v.leaf) {\n")],
    needs='deleting a /64 that is not stored itself while at least two longer networks inside it are',
    what='contained networks survive the deletion',
    demo='''
package iptree32_test

import (
	"net"
	"testing"

	"github.com/infobloxopen/go-trees/uintX/iptree32"
)

func TestSeededDemo(t *testing.T) {
	_, n, _ := net.ParseCIDR("2001:db8::/64")
	tr := iptree32.NewTree().InsertIP(net.ParseIP("2001:db8::1"), 1).InsertIP(net.ParseIP("2001:db8::2"), 2)
	if _, ok := tr.DeleteByNet(n); !ok {
		t.Fatal("not deleted")
	}
}
''')

add(id='c11-iptree-enum-unmasked', prop='C11', pkg='iptree',
    edits=[('iptree/iptree.go', "\t\t\t\t\t\tIP:   append(MSIP[0:8], LSIP...).Mask(mask),\n", "\t\t\t\t\t\tIP:   append(append(net.IP{}, MSIP[0:8]...), LSIP...),\n")],
    needs='a network longer than /64 inserted with host bits set',
    what='enumerated networks carry host bits',
    demo='''
package iptree_test

import (
	"net"
	"testing"

	"github.com/infobloxopen/go-trees/iptree"
)

func TestSeededDemo(t *testing.T) {
	n := &net.IPNet{IP: net.ParseIP("2001:db8::1234"), Mask: net.CIDRMask(112, 128)}
	for p := range iptree.NewTree().InsertNet(n, "x").Enumerate() {
		if p.Key.String() != "2001:db8::/112" {
			t.Fatal(p.Key)
		}
	}
}
''')

add(id='c11-iptree64-enum-bits', prop='C11', pkg='uintX/iptree64',
    edits=[('uintX/iptree64/iptree.go', "\t\t\tmask := net.CIDRMask(int(n.bits+m.bits), iPv6Bits)\n", "\t\t\tmask := net.CIDRMask(int(n.bits|m.bits), iPv6Bits)\n")],
    needs='a /128 network (64|64 instead of 64+64)',
    what='/128 networks are enumerated as /64',
    demo='''
package iptree64_test

import (
	"net"
	"testing"

	"github.com/infobloxopen/go-trees/uintX/iptree64"
)

func TestSeededDemo(t *testing.T) {
	for p := range iptree64.NewTree().InsertIP(net.ParseIP("2001:db8::1"), 1).Enumerate() {
		if p.Key.String() != "2001:db8::1/128" {
			t.Fatal(p.Key)
		}
	}
}
''')

add(id='c12-iptree-v4-root-target', prop='C12', pkg='iptree',
    edits=[('iptree/iptree.go', "\t\tnodesCh := target.Enumerate()\n\t\tif target.Leaf {\n\t\t\t<-nodesCh\n\t\t}\n\t\tfor n := range nodesCh {\n\t\t\tmask := net.CIDRMask(int(n.Bits), iPv4Bits)\n",
            "\t\tnodesCh := target.Enumerate()\n\t\tif bits > 0 {\n\t\t\t<-nodesCh\n\t\t}\n\t\tfor n := range nodesCh {\n\t\t\tmask := net.CIDRMask(int(n.Bits), iPv4Bits)\n")],
    needs='the target 0.0.0.0/0 stored itself',
    what='the target network is handed to the callback and updated',
    demo='''
package iptree_test

import (
	"net"
	"testing"

	"github.com/infobloxopen/go-trees/iptree"
)

func TestSeededDemo(t *testing.T) {
	_, all, _ := net.ParseCIDR("0.0.0.0/0")
	tr := iptree.NewTree().InsertNet(all, "all").InsertIP(net.ParseIP("10.0.0.1"), "ip")
	tr.UpdateDescendants(all, func(p iptree.Pair) (interface{}, bool) {
		if p.Key.String() == "0.0.0.0/0" {
			t.Fatal("target visited")
		}
		return "new", true
	})
}
''')

add(id='c18-numtree64-del-inplace', prop='C18', pkg='numtree',
    edits=[('numtree/node64.go', "\tm := newNode64(n.Key, n.Bits, n.Leaf, n.Value)\n\tm.chld = n.chld\n\n\tm.chld[branch] = c\n\treturn m, true\n",
            "\tif c == nil || c.Bits == 0 {\n\t\tm := newNode64(n.Key, n.Bits, n.Leaf, n.Value)\n\t\tm.chld = n.chld\n\n\t\tm.chld[branch] = c\n\t\treturn m, true\n\t}\n\n\tn.chld[branch] = c\n\treturn n, true\n")],
    needs='a deletion two levels or more below a node, and a look at the older tree',
    what='deletion changes a tree derived from earlier',
    demo='''
package numtree_test

import (
	"testing"

	"github.com/infobloxopen/go-trees/numtree"
)

func TestSeededDemo(t *testing.T) {
	var n *numtree.Node64
	n = n.Insert(0, 8, "a").Insert(0, 16, "b").Insert(0, 24, "c")
	n.Delete(0, 24)
	if v, ok := n.ExactMatch(0, 24); !ok || v != "c" {
		t.Fatal(v, ok)
	}
}
''')

add(id='c18-iptree64-subtree-inplace', prop='C18', pkg='uintX/iptree64',
    edits=[('uintX/iptree64/iptree.go', "\t\t\troot64: r64.Insert(MSKey, MSBits, r.Insert(LSKey, LSBits, value)),\n", "\t\t\troot64: r64.Insert(MSKey, MSBits, insertLS(r, LSKey, LSBits, value)),\n"),
           ('uintX/iptree64/iptree.go', "// InplaceInsertNet inserts", "func insertLS(r *node64, key uint64, bits int, value uint64) *node64 {\n\tif bits <= 0 {\n\t\treturn r.Insert(key, bits, value)\n\t}\n\n\treturn r.InplaceInsert(key, bits, value)\n}\n\n// InplaceInsertNet inserts")],
    needs='two networks longer than /64 in the same /64, and a look at the older tree',
    what='a copying insert shows up in the older tree',
    demo='''
package iptree64_test

import (
	"net"
	"testing"

	"github.com/infobloxopen/go-trees/uintX/iptree64"
)

func TestSeededDemo(t *testing.T) {
	a := iptree64.NewTree().InsertIP(net.ParseIP("2001:db8::1"), 1)
	a.InsertIP(net.ParseIP("2001:db8::1"), 2)
	if v, ok := a.GetByIP(net.ParseIP("2001:db8::1")); !ok || v != 1 {
		t.Fatal(v, ok)
	}
}
''')

add(id='c18-numtree32-replace-shared', prop='C18', pkg='numtree',
    edits=[('numtree/node32.go', "\t\t// replace current node with the candidate.\n\t\tc.chld = n.chld\n\t\treturn c\n",
            "\t\t// replace current node with the candidate.\n\t\tc.chld = n.chld\n\t\tif n.Leaf && n.chld[0] != nil && n.chld[1] != nil {\n\t\t\t*n = *c\n\t\t\treturn n\n\t\t}\n\n\t\treturn c\n")],
    needs='a copying insert replacing the value of a stored prefix that has longer prefixes on both sides',
    what='the replaced value shows up in the older tree',
    demo='''
package numtree_test

import (
	"testing"

	"github.com/infobloxopen/go-trees/numtree"
)

func TestSeededDemo(t *testing.T) {
	var n *numtree.Node32
	n = n.Insert(0, 8, "a").Insert(0, 16, "b").Insert(0x00ff0000, 16, "c")
	n.Insert(0, 8, "new")
	if v, ok := n.ExactMatch(0, 8); !ok || v != "a" {
		t.Fatal(v, ok)
	}
}
''')

add(id='c20-numtree32-inplace-leaf', prop='C20', pkg='numtree',
    edits=[('numtree/node32.go', "\t\t\tn.Key = key\n\t\t\tn.Leaf = true\n\t\t\tn.Value = value\n", "\t\t\tn.Key = key\n\t\t\tn.Leaf = n.Leaf || value != nil\n\t\t\tn.Value = value\n")],
    needs='an in-place insert of a nil value at a branch point without data',
    what='in-place insertion forgets the prefix which copying insertion stores',
    demo='''
package numtree_test

import (
	"testing"

	"github.com/infobloxopen/go-trees/numtree"
)

func TestSeededDemo(t *testing.T) {
	var n *numtree.Node32
	n = n.InplaceInsert(0x0a000000, 9, 1).InplaceInsert(0x0a800000, 9, 2).InplaceInsert(0x0a000000, 8, nil)
	if _, ok := n.ExactMatch(0x0a000000, 8); !ok {
		t.Fatal("not stored")
	}
}
''')

add(id='c20-iptree-inplace-subroot', prop='C20', pkg='iptree',
    edits=[('iptree/iptree.go', "\t\t\t\tif newR != r {\n", "\t\t\t\tif newR != r && LSBits < numtree.Key64BitSize {\n")],
    needs='an in-place insert of an IPv6 address next to a single one in the same /64',
    what='the second address of a /64 is lost by in-place insertion',
    demo='''
package iptree_test

import (
	"net"
	"testing"

	"github.com/infobloxopen/go-trees/iptree"
)

func TestSeededDemo(t *testing.T) {
	tr := iptree.NewTree()
	tr.InplaceInsertIP(net.ParseIP("2001:db8::1"), 1)
	tr.InplaceInsertIP(net.ParseIP("2001:db8::2"), 2)
	if v, ok := tr.GetByIP(net.ParseIP("2001:db8::2")); !ok || v != 2 {
		t.Fatal(v, ok)
	}
}
''')

add(id='c24-iptree-mixed-family', prop='C24', pkg='iptree',
    edits=[('iptree/iptree.go', "\tif len(n.IP) != net.IPv4len {\n", "\tif len(n.IP) < net.IPv4len {\n")],
    needs='a network of a 16-byte address and a 4-byte mask',
    what='a malformed mixed-family network is stored as an IPv4 one',
    demo='''
package iptree_test

import (
	"net"
	"testing"

	"github.com/infobloxopen/go-trees/iptree"
)

func TestSeededDemo(t *testing.T) {
	n := &net.IPNet{IP: net.ParseIP("2001:db8::1"), Mask: net.CIDRMask(16, 32)}
	tr := iptree.NewTree().InsertNet(n, "x")
	if v, ok := tr.GetByIP(net.ParseIP("32.1.0.1")); ok {
		t.Fatal(v)
	}
}
''')

add(id='c30-iptree8-zero-fallback', prop='C30', pkg='uintX/iptree8',
    edits=[('uintX/iptree8/iptree.go', "\t\tif ok || MSBits < key64BitSize {\n", "\t\tif ok && v != 0 || MSBits < key64BitSize {\n")],
    needs='the value 0 stored for a network of /64 or longer',
    what='a stored 0 is taken for a missing value, unlike in the generic tree',
    demo='''
package iptree8_test

import (
	"net"
	"testing"

	"github.com/infobloxopen/go-trees/uintX/iptree8"
)

func TestSeededDemo(t *testing.T) {
	ip := net.ParseIP("2001:db8::1")
	if _, ok := iptree8.NewTree().InsertIP(ip, 0).GetByIP(ip); !ok {
		t.Fatal("not found")
	}
}
''')

add(id='c31-numtree64-nil-exact', prop='C31', pkg='numtree',
    edits=[('numtree/node64.go', "\tr := n.FindNode(key, bits)\n\tif r == nil {\n", "\tr := n.FindNode(key, bits)\n\tif r == nil || r.Value == nil {\n")],
    needs='a stored nil value',
    what='an exact lookup does not find a prefix storing nil',
    demo='''
package numtree_test

import (
	"testing"

	"github.com/infobloxopen/go-trees/numtree"
)

func TestSeededDemo(t *testing.T) {
	var n *numtree.Node64
	n = n.Insert(1, 64, nil)
	if _, ok := n.ExactMatch(1, 64); !ok {
		t.Fatal("not found")
	}
}
''')

add(id='c31-iptree-node-value', prop='C31', pkg='iptree',
    edits=[('iptree/iptree.go', "\t\tv, ok := t.root64.Match(MSKey, MSBits)\n\t\tif !ok || MSBits < numtree.Key64BitSize {\n\t\t\treturn v, ok\n\t\t}\n",
            "\t\tv, ok := t.root64.Match(MSKey, MSBits)\n\t\tif n, isNode := v.(*numtree.Node64); isNode {\n\t\t\treturn n.Match(LSKey, LSBits)\n\t\t}\n\n\t\tif !ok || MSBits < numtree.Key64BitSize {\n\t\t\treturn v, ok\n\t\t}\n")],
    needs='a user value which itself is a *numtree.Node64',
    what='a stored radix tree is searched instead of returned',
    demo='''
package iptree_test

import (
	"net"
	"testing"

	"github.com/infobloxopen/go-trees/iptree"
	"github.com/infobloxopen/go-trees/numtree"
)

func TestSeededDemo(t *testing.T) {
	var v *numtree.Node64
	v = v.Insert(1, 64, "inner")
	_, n, _ := net.ParseCIDR("2001:db8::/32")
	if got, ok := iptree.NewTree().InsertNet(n, v).GetByIP(net.ParseIP("2001:db8::1")); !ok || got != interface{}(v) {
		t.Fatal(got, ok)
	}
}
''')

add(id='c32-iptree-shared-mask', prop='C32', pkg='iptree',
    edits=[('iptree/iptree.go', "\t\tmask := net.CIDRMask(int(n.Bits), iPv4Bits)\n\t\tch <- Pair{\n", "\t\tmask := iPv4MaxMask\n\t\tif int(n.Bits) < iPv4Bits {\n\t\t\tmask = net.CIDRMask(int(n.Bits), iPv4Bits)\n\t\t}\n\t\tch <- Pair{\n")],
    needs='a caller changing the mask of an enumerated /32',
    what='enumerated pairs share a package-wide mask, so changing one breaks later lookups by address',
    demo='''
package iptree_test

import (
	"net"
	"testing"

	"github.com/infobloxopen/go-trees/iptree"
)

func TestSeededDemo(t *testing.T) {
	ip := net.ParseIP("192.0.2.1")
	tr := iptree.NewTree().InsertIP(ip, "x")
	for p := range tr.Enumerate() {
		p.Key.Mask[0] = 0
	}
	if v, ok := tr.GetByIP(ip); !ok || v != "x" {
		t.Fatal(v, ok)
	}
}
''')

add(id='c32-iptree16-masks-caller', prop='C32', pkg='uintX/iptree16',
    edits=[('uintX/iptree16/iptree.go', "\treturn packIPToUint64(n.IP), MSBits, packIPToUint64(n.IP[8:]), LSBits\n", "\tfor i := range n.IP {\n\t\tn.IP[i] &= n.Mask[i]\n\t}\n\n\treturn packIPToUint64(n.IP), MSBits, packIPToUint64(n.IP[8:]), LSBits\n")],
    needs='an IPv6 network passed with host bits set',
    what="the caller's network is changed by passing it to the tree",
    demo='''
package iptree16_test

import (
	"net"
	"testing"

	"github.com/infobloxopen/go-trees/uintX/iptree16"
)

func TestSeededDemo(t *testing.T) {
	ip, n, _ := net.ParseCIDR("2001:db8::1/64")
	n.IP = ip
	iptree16.NewTree().GetByNet(n)
	if n.IP.String() != "2001:db8::1" {
		t.Fatal(n)
	}
}
''')
