# Planted bugs in domain names, domain trees, the template tool and the templates.
SEEDS = []
def add(**k): SEEDS.append(k)

NAME = '''
func name(s string) domain.Name {
	n, err := domain.MakeNameFromString(s)
	if err != nil {
		panic(err)
	}
	return n
}
'''

add(id='c13-domaintree-nil-value', prop='C13', pkg='domaintree',
    edits=[('domaintree/domaintree.go', "\t\tn = item.(*Node)\n\t\tif n.hasValue {\n", "\t\tn = item.(*Node)\n\t\tif n.hasValue && (n.value != nil || !hasValue) {\n")],
    needs='a nil value stored below a name with another value',
    what='the lookup returns the value of a farther ancestor',
    demo='''
package domaintree_test

import (
	"testing"

	"github.com/infobloxopen/go-trees/domain"
	"github.com/infobloxopen/go-trees/domaintree"
)
''' + NAME + '''
func TestSeededDemo(t *testing.T) {
	tr := new(domaintree.Node).Insert(name("com"), 1).Insert(name("a.com"), nil)
	if v, ok := tr.Get(name("x.a.com")); !ok || v != nil {
		t.Fatal(v, ok)
	}
}
''')

add(id='c14-domaintree8-prune-value', prop='C14', pkg='uintX/domaintree8',
    edits=[('uintX/domaintree8/domaintree.go', "\t\tif !n.hasValue && n.branches.isEmpty() {\n\t\t\tp.branches, _ = p.branches.rawDel(labels[i])", "\t\tif n.value == 0 && n.branches.isEmpty() {\n\t\t\tp.branches, _ = p.branches.rawDel(labels[i])")],
    needs='deleting the only subdomain of a name that stores the value 0',
    what='the parent name is pruned although it has a value',
    demo='''
package domaintree8_test

import (
	"testing"

	"github.com/infobloxopen/go-trees/domain"
	"github.com/infobloxopen/go-trees/uintX/domaintree8"
)
''' + NAME + '''
func TestSeededDemo(t *testing.T) {
	tr := new(domaintree8.Node).Insert(name("b.com"), 0).Insert(name("a.b.com"), 1)
	tr, ok := tr.Delete(name("a.b.com"))
	if !ok {
		t.Fatal("not deleted")
	}
	if _, ok := tr.Get(name("b.com")); !ok {
		t.Fatal("parent lost")
	}
}
''')

add(id='c14-domaintree-root-subtree', prop='C14', pkg='domaintree',
    edits=[('domaintree/domaintree.go', "\t\tif branches.IsEmpty() {\n\t\t\treturn new(Node), true\n\t\t}\n\n\t\treturn &Node{branches: branches}, true\n", "\t\tif branches.IsEmpty() {\n\t\t\treturn new(Node), true\n\t\t}\n\n\t\tn = n.copy()\n\t\tn.hasValue = n.value == nil\n\t\treturn n, true\n")],
    needs='deleting the root domain when its stored value is nil and other names exist',
    what='the root keeps its nil value after deletion',
    demo='''
package domaintree_test

import (
	"testing"

	"github.com/infobloxopen/go-trees/domain"
	"github.com/infobloxopen/go-trees/domaintree"
)
''' + NAME + '''
func TestSeededDemo(t *testing.T) {
	tr := new(domaintree.Node).Insert(name("."), nil).Insert(name("com"), 1)
	tr, ok := tr.Delete(name(""))
	if !ok {
		t.Fatal("not deleted")
	}
	if v, ok := tr.Get(name("org")); ok {
		t.Fatal(v)
	}
}
''')

add(id='c15-domaintree64-implied-flag', prop='C15', pkg='uintX/domaintree64',
    edits=[('uintX/domaintree64/domaintree.go', "\tif i >= len(nodes) || !nodes[i].hasValue && n.branches.isEmpty() {\n", "\tif i >= len(nodes) || !nodes[i].hasValue && (n.branches.isEmpty() || i+1 < len(nodes) && n.hasValue && nodes[i+1] == n) {\n")],
    needs='deleting a top-level name that has subdomains but no value, while the root domain stores a value',
    what='DeleteSubdomains of such a name removes nothing',
    demo='''
package domaintree64_test

import (
	"testing"

	"github.com/infobloxopen/go-trees/domain"
	"github.com/infobloxopen/go-trees/uintX/domaintree64"
)
''' + NAME + '''
func TestSeededDemo(t *testing.T) {
	tr := new(domaintree64.Node).Insert(name("a.com"), 1).Insert(name("."), 2)
	if _, ok := tr.DeleteSubdomains(name("com")); !ok {
		t.Fatal("not deleted")
	}
}
''')

add(id='c15-domaintree-keep-sibling', prop='C15', pkg='domaintree',
    edits=[('domaintree/domaintree.go', "\tn = nodes[i].copy()\n\tn.branches, _ = n.branches.RawDelete(labels[i])\n\ti++\n\n\treturn n.copyBranch(labels[i:], nodes[i:]), true\n}\n\n// Delete removes current",
            "\tn = nodes[i].copy()\n\tn.branches, _ = n.branches.RawDelete(labels[i])\n\tif n.branches.IsEmpty() {\n\t\tn.hasValue, n.value = false, nil\n\t}\n\ti++\n\n\treturn n.copyBranch(labels[i:], nodes[i:]), true\n}\n\n// Delete removes current")],
    needs='removing the only branch below a name that stores a value itself',
    what='the parent loses its value',
    demo='''
package domaintree_test

import (
	"testing"

	"github.com/infobloxopen/go-trees/domain"
	"github.com/infobloxopen/go-trees/domaintree"
)
''' + NAME + '''
func TestSeededDemo(t *testing.T) {
	tr := new(domaintree.Node).Insert(name("b.com"), 1).Insert(name("x.a.b.com"), 2)
	tr, _ = tr.DeleteSubdomains(name("a.b.com"))
	if v, ok := tr.Get(name("b.com")); !ok || v != 1 {
		t.Fatal(v, ok)
	}
}
''')

add(id='c16-label-trailing-backslash', prop='C16', pkg='domaintree',
    edits=[('domain/label.go', "\t\tif c == '.' || c == '\\\\' {\n", "\t\tif c == '.' || c == '\\\\' && i+1 < len(s) {\n")],
    needs='a label ending with a backslash',
    what='the enumerated name swallows the dot after that label when it is parsed again',
    demo='''
package domaintree_test

import (
	"testing"

	"github.com/infobloxopen/go-trees/domain"
	"github.com/infobloxopen/go-trees/domaintree"
)
''' + NAME + '''
func TestSeededDemo(t *testing.T) {
	tr := new(domaintree.Node).Insert(name("a\\\\\\\\.com"), 1)
	for p := range tr.Enumerate() {
		if p.Key != "a\\\\\\\\.com" {
			t.Fatal(p.Key)
		}
	}
}
''')

add(id='c16-domaintree16-order', prop='C16', pkg='uintX/domaintree16',
    edits=[('uintX/domaintree16/domaintree.go', "\tfor item := range n.branches.enumerate() {\n\t\tsub := item.Key\n\t\tif len(s) > 0 {\n\t\t\tsub += \".\" + s\n\t\t}\n",
            "\tfor item := range n.branches.enumerate() {\n\t\tsub := item.Key\n\t\tif len(s) > 0 && len(sub)+len(s) < 2*domain.MaxLabel*2 {\n\t\t\tsub += \".\" + s\n\t\t}\n")],
    needs='a name whose printed form is longer than 252 characters',
    what='the suffix is missing from very long enumerated names',
    demo='''
package domaintree16_test

import (
	"strings"
	"testing"

	"github.com/infobloxopen/go-trees/domain"
	"github.com/infobloxopen/go-trees/uintX/domaintree16"
)
''' + NAME + '''
func TestSeededDemo(t *testing.T) {
	l := strings.Repeat("\\\\001", 60)
	tr := new(domaintree16.Node).Insert(name(l+"."+l+".com"), 1)
	for p := range tr.Enumerate() {
		if p.Key != l+"."+l+".com" {
			t.Fatal(p.Key)
		}
	}
}
''')

add(id='c19-domaintree32-leaf-shared', prop='C19', pkg='uintX/domaintree32',
    edits=[('uintX/domaintree32/domaintree.go', "\t\tif ok {\n\t\t\tnext = next.copy()\n", "\t\tif ok && !(next.hasValue && next.value == v && !next.branches.isEmpty()) {\n\t\t\tnext = next.copy()\n\t\t} else if ok {\n\t\t\tn = next\n\t\t\treturn nil\n")],
    needs='a copying insert below a name that stores the very same value and has subdomains, and a look at the older tree',
    what='the insert shows up in the older tree',
    demo='''
package domaintree32_test

import (
	"testing"

	"github.com/infobloxopen/go-trees/domain"
	"github.com/infobloxopen/go-trees/uintX/domaintree32"
)
''' + NAME + '''
func TestSeededDemo(t *testing.T) {
	tr := new(domaintree32.Node).Insert(name("com"), 1).Insert(name("a.com"), 2)
	tr.Insert(name("b.com"), 1).Insert(name("a.com"), 1)
	tr.Insert(name("c.b.a.com"), 1)
	tr.Insert(name("com"), 1)
	n := 0
	for range tr.Enumerate() {
		n++
	}
	if n != 2 {
		t.Fatal("changed", n)
	}
}
''')

add(id='c19-domaintree-copybranch-shared', prop='C19', pkg='domaintree',
    edits=[('domaintree/domaintree.go', "\tfor i, p := range nodes {\n\t\tp = p.copy()\n", "\tfor i, p := range nodes {\n\t\tif p.hasValue || i+1 == len(nodes) {\n\t\t\tp = p.copy()\n\t\t}\n\n")],
    needs='a deletion three labels deep where an inner name has no value, and a look at the older tree',
    what='the deletion shows up in the older tree',
    demo='''
package domaintree_test

import (
	"testing"

	"github.com/infobloxopen/go-trees/domain"
	"github.com/infobloxopen/go-trees/domaintree"
)
''' + NAME + '''
func TestSeededDemo(t *testing.T) {
	tr := new(domaintree.Node).Insert(name("a.b.c.d"), 1).Insert(name("z.b.c.d"), 2)
	tr.Delete(name("a.b.c.d"))
	if _, ok := tr.Get(name("a.b.c.d")); !ok {
		t.Fatal("lost")
	}
}
''')

add(id='c20-domaintree-inplace-empty', prop='C20', pkg='domaintree',
    edits=[('domaintree/domaintree.go', "\t\titem, ok := n.branches.RawGet(label)\n\t\tif ok {\n\t\t\tn = item.(*Node)\n\t\t} else {\n", "\t\titem, ok := n.branches.RawGet(label)\n\t\tif ok && (item.(*Node).hasValue || !item.(*Node).branches.IsEmpty() && len(label) > 1) {\n\t\t\tn = item.(*Node)\n\t\t} else {\n")],
    needs='in-place inserts of two names below a one-letter name without a value',
    what='the second in-place insert drops the first name',
    demo='''
package domaintree_test

import (
	"testing"

	"github.com/infobloxopen/go-trees/domain"
	"github.com/infobloxopen/go-trees/domaintree"
)
''' + NAME + '''
func TestSeededDemo(t *testing.T) {
	tr := new(domaintree.Node)
	tr.InplaceInsert(name("one.x"), 1)
	tr.InplaceInsert(name("two.x"), 2)
	if v, ok := tr.Get(name("one.x")); !ok || v != 1 {
		t.Fatal(v, ok)
	}
}
''')

add(id='c21-escaped-slash', prop='C21', pkg='domain',
    edits=[('domain/label.go', "\t\tcase escFirstChar:\n\t\t\tif c < '0' || c > '9' {\n\t\t\t\tesc = escRegular\n", "\t\tcase escFirstChar:\n\t\t\tif c <= '.' || c > '9' {\n\t\t\t\tesc = escRegular\n"),
           ('domain/label.go', "\t\t\tif c < '0' || c > '9' {\n\t\t\t\tif c >= 'a' && c <= 'z' {", "\t\t\tif c <= '.' || c > '9' {\n\t\t\t\tif c >= 'a' && c <= 'z' {")],
    needs='an escaped slash (both passes over the name are changed)',
    what='a well-formed escape is refused, or read together with two digits after it',
    demo="""
package domain_test

import (
	"testing"

	"github.com/infobloxopen/go-trees/domain"
)

func TestSeededDemo(t *testing.T) {
	if _, err := domain.MakeNameFromString("0\\\\/25.2.0.192.in-addr.arpa"); err != nil {
		t.Fatal(err)
	}
}
""")

add(id='c21-escaped-dot-empty', prop='C21', pkg='domain',
    edits=[('domain/label.go', "\t\t\t\tif start >= i {\n\t\t\t\t\treturn 0, ErrEmptyLabel\n", "\t\t\t\tif start >= i && i+1 < len(s) {\n\t\t\t\t\treturn 0, ErrEmptyLabel\n")],
    needs='a name ending with two dots',
    what='a trailing empty label is accepted',
    demo='''
package domain_test

import (
	"testing"

	"github.com/infobloxopen/go-trees/domain"
)

func TestSeededDemo(t *testing.T) {
	if n, err := domain.MakeNameFromString("com.."); err == nil {
		t.Fatal(n)
	}
}
''')

add(id='c22-getlabel-63', prop='C22', pkg='domain',
    edits=[('domain/name.go', "\tif size < 1 || size > 63 {\n", "\tif size < 1 || size >= MaxLabel {\n")],
    needs='a label of exactly 63 bytes',
    what='offset-based stepping fails on labels of maximum length',
    demo='''
package domain_test

import (
	"strings"
	"testing"

	"github.com/infobloxopen/go-trees/domain"
)

func TestSeededDemo(t *testing.T) {
	n, _ := domain.MakeNameFromString(strings.Repeat("a", 63) + ".com")
	_, off := n.GetLabel(0)
	if _, off = n.GetLabel(off); off != 0 {
		t.Fatal(off)
	}
}
''')

add(id='c22-human-case-compare', prop='C22', pkg='domain',
    edits=[('domain/label.go', "\t\t\t\tif c >= 'a' && c <= 'z' {\n\t\t\t\t\tc &= 0xdf\n\t\t\t\t}\n\n\t\t\t\tif j >= len(out) {\n\t\t\t\t\treturn 0, ErrLabelTooLong\n\t\t\t\t}\n\n\t\t\t\tout[j] = c\n\t\t\t\tj++\n\n\t\t\tcase '.':", "\t\t\t\tif c >= 'a' && c <= 'z' || c == '`' {\n\t\t\t\t\tc &= 0xdf\n\t\t\t\t}\n\n\t\t\t\tif j >= len(out) {\n\t\t\t\t\treturn 0, ErrLabelTooLong\n\t\t\t\t}\n\n\t\t\t\tout[j] = c\n\t\t\t\tj++\n\n\t\t\tcase '.':")],
    needs='a label containing a backquote',
    what='a backquote is turned into an at sign, so two different names expose the same labels',
    demo="""
package domain_test

import (
	"testing"

	"github.com/infobloxopen/go-trees/domain"
)

func TestSeededDemo(t *testing.T) {
	n, err := domain.MakeNameFromString("a`b")
	if err != nil {
		t.Fatal(err)
	}
	if l, _ := n.GetLabel(0); l != "A`B" {
		t.Fatal(l)
	}
}
""")

add(id='c23-human-capacity', prop='C23', pkg='domain',
    edits=[('domain/label.go', "\t\t\tif j >= len(label)-3 {\n", "\t\t\tif j >= len(label)-4 {\n")],
    needs='a label whose human-readable form takes exactly 252 characters and ends with a decimal escape',
    what='the last byte of such a label is dropped',
    demo="""
package domain_test

import (
	"strings"
	"testing"

	"github.com/infobloxopen/go-trees/domain"
)

func TestSeededDemo(t *testing.T) {
	in := strings.Repeat("\\x01", 63)
	if out, err := domain.MakeLabel(domain.MakeHumanReadableLabel(in)); err != nil || out != in {
		t.Fatal(len(out), err)
	}
}
""")

add(id='c23-human-delete-char', prop='C23', pkg='domain',
    edits=[('domain/label.go', "\t\t\tr := c % 10\n\t\t\tlabel[j+3] = r + '0'\n\n\t\t\tc /= 10\n\t\t\tr = c % 10\n\t\t\tlabel[j+2] = r + '0'\n\n\t\t\tc /= 10\n\t\t\tlabel[j+1] = c + '0'\n", "\t\t\tlabel[j+1] = c/100 + '0'\n\t\t\tlabel[j+2] = c/10%10 + '0'\n\t\t\tlabel[j+3] = c&0x7f%10 + '0'\n")],
    needs='a label byte of 128 or more',
    what='such bytes are escaped with a wrong last digit',
    demo='''
package domain_test

import (
	"testing"

	"github.com/infobloxopen/go-trees/domain"
)

func TestSeededDemo(t *testing.T) {
	if s := domain.MakeHumanReadableLabel("\\xff"); s != "\\\\255" {
		t.Fatal(s)
	}
}
''')

add(id='c33-reflection-error', prop='C33', pkg='domain',
    edits=[('domain/name.go', "\t\tif err != nil {\n\t\t\tpanic(fmt.Errorf(\"can't make %q from %q (%s): %s\"", "\t\tif err != nil && err != ErrNameTooLong {\n\t\t\tpanic(fmt.Errorf(\"can't make %q from %q (%s): %s\"")],
    needs='a string value that is too long for a domain name',
    what='reflection returns a name with no labels instead of panicking',
    demo='''
package domain_test

import (
	"reflect"
	"strings"
	"testing"

	"github.com/infobloxopen/go-trees/domain"
)

func TestSeededDemo(t *testing.T) {
	l := strings.Repeat("a", 63)
	defer func() {
		if recover() == nil {
			t.Fatal("no panic")
		}
	}()
	domain.MakeNameFromReflection(reflect.ValueOf(l + "." + l + "." + l + "." + l + "." + l))
}
''')

add(id='c33-reflection-trim', prop='C33', pkg='domain',
    edits=[('domain/name.go', "\t\treturn Name{v.Field(0).String(), v.Field(1).String()}\n", "\t\tn, _ := MakeNameFromString(v.Field(0).String())\n\t\tif v.Field(1).Len() <= MaxLabel {\n\t\t\treturn n\n\t\t}\n\n\t\treturn Name{v.Field(0).String(), v.Field(0).String()[:0] + n.c[:len(n.c)/2*2]}\n")],
    needs='a name of more than 63 and an odd number of bytes in length-prefixed form',
    what='the last byte of the name is lost',
    demo='''
package domain_test

import (
	"reflect"
	"strings"
	"testing"

	"github.com/infobloxopen/go-trees/domain"
)

func TestSeededDemo(t *testing.T) {
	n, _ := domain.MakeNameFromString(strings.Repeat("a", 61) + ".com")
	m, _ := domain.MakeNameFromString(strings.Repeat("a", 62) + ".com")
	if domain.MakeNameFromReflection(reflect.ValueOf(n)) != n || domain.MakeNameFromReflection(reflect.ValueOf(m)) != m {
		t.Fatal("differs")
	}
}
''')

ETC = '''#!/bin/bash
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local
go build -o "$tmp/etc" ./etc || exit 2
cd "$tmp" || exit 2
'''
add(id='c28-etc-no-truncate', prop='C28', pkg='etc',
    edits=[('etc/file.go', "\tf, err := os.Create(out)\n", "\tf, err := os.OpenFile(out, os.O_RDWR|os.O_CREATE, 0666)\n")],
    needs='instantiating over a longer file left by an earlier run',
    what='the tail of the old file survives',
    shell=ETC + '''
mkdir 't{{.num}}'
printf '{{.text}}' > 't{{.num}}/f.txt'
printf 'a: {num: "1", text: "a very long text"}\\nb: {num: "1", text: "short"}\\n' > d.yaml
./etc -t 't{{.num}}' -d d.yaml -s a || exit 2
./etc -t 't{{.num}}' -d d.yaml -s b || exit 2
[ "$(cat t1/f.txt)" = short ]
''')

add(id='c28-etc-selector-depth', prop='C28', pkg='etc',
    edits=[('etc/data.go', "\t\tparts := strings.SplitN(path, \".\", 2)\n", "\t\tparts := strings.Split(path, \".\")\n")],
    needs='a selector of three steps or more',
    what='steps after the second one are ignored',
    shell=ETC + '''
printf '{{.num}}' > 'f{{.num}}.txt'
printf 'a: {b: {num: "outer", c: {num: "inner"}}}\\n' > d.yaml
./etc -t 'f{{.num}}.txt' -d d.yaml -s a.b.c || exit 2
[ "$(cat finner.txt)" = inner ]
''')

add(id='c28-etc-empty-dir', prop='C28', pkg='etc',
    edits=[('etc/main.go', "\t\texecuteDir(newName)\n\n\t\tlst, err := ioutil.ReadDir(absName)\n\t\tif err != nil {\n\t\t\tlog.Fatal(err)\n\t\t}\n", "\t\tlst, err := ioutil.ReadDir(absName)\n\t\tif err != nil {\n\t\t\tlog.Fatal(err)\n\t\t}\n\n\t\tif len(lst) > 0 {\n\t\t\texecuteDir(newName)\n\t\t}\n")],
    needs='an empty directory in the template',
    what='empty directories are left out of the instance',
    shell=ETC + '''
mkdir -p 't{{.num}}/empty'
printf 'num: "1"\\n' > d.yaml
./etc -t 't{{.num}}' -d d.yaml || exit 2
[ -d t1/empty ]
''')

INST = '''#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local
go build -o "$tmp/etc" ./etc || exit 2
cp -a 'uintX/%(t)stree{{.bits}}' uintX/uintX.yaml "$tmp" || exit 2
(cd "$tmp" && ./etc -s uint16 -d uintX.yaml -t '%(t)stree{{.bits}}') || exit 2
{
  printf '{"Replace": {"%%s/uintX/%(t)stree16/zz_seeded_demo_test.go": "%%s/demo_test.go.txt"' "$PWD" "$here"
  for f in "$tmp/%(t)stree16"/*.go; do
    case "$f" in *_test.go) continue;; esac
    printf ', "%%s/uintX/%(t)stree16/%%s": "%%s"' "$PWD" "$(basename "$f")" "$f"
  done
  printf '}}'
} > "$tmp/overlay.json"
go test -vet=off -count=1 -timeout 120s -overlay "$tmp/overlay.json" -run '^TestSeededDemo$' ./uintX/%(t)stree16
'''
add(id='c29-template-iptree-fallback', prop='C29', pkg='uintX',
    edits=[('uintX/iptree{{.bits}}/iptree.{{.ext}}', "t.root64.Match(MSKey, MSBits-1)", "t.root64.Match(MSKey, MSBits-2)")],
    needs='instantiating the template afresh and looking up below a /63',
    what='a fresh instance behaves differently from the shipped packages',
    shell=INST % {'t': 'ip'},
    files={'demo_test.go.txt': '''package iptree16_test

import (
	"net"
	"testing"

	"github.com/infobloxopen/go-trees/uintX/iptree16"
)

func TestSeededDemo(t *testing.T) {
	_, n, _ := net.ParseCIDR("2001:db8::/63")
	tr := iptree16.NewTree().InsertNet(n, 1).InsertIP(net.ParseIP("2001:db8::1"), 2)
	if v, ok := tr.GetByIP(net.ParseIP("2001:db8::2")); !ok || v != 1 {
		t.Fatal(v, ok)
	}
}
'''})

add(id='c29-template-domain-prune', prop='C29', pkg='uintX',
    edits=[('uintX/domaintree{{.bits}}/domaintree.{{.ext}}', "\t\tif !n.hasValue && n.branches.isEmpty() {\n", "\t\tif n.value == 0 && n.branches.isEmpty() {\n")],
    needs='instantiating the template afresh and deleting below a name storing 0',
    what='a fresh instance prunes names the shipped packages keep',
    shell=INST % {'t': 'domain'},
    files={'demo_test.go.txt': '''package domaintree16_test

import (
	"testing"

	"github.com/infobloxopen/go-trees/domain"
	"github.com/infobloxopen/go-trees/uintX/domaintree16"
)
''' + NAME + '''
func TestSeededDemo(t *testing.T) {
	tr := new(domaintree16.Node).Insert(name("b.com"), 0).Insert(name("a.b.com"), 1)
	tr, ok := tr.Delete(name("a.b.com"))
	if !ok {
		t.Fatal("not deleted")
	}
	if _, ok := tr.Get(name("b.com")); !ok {
		t.Fatal("parent lost")
	}
}
'''})

add(id='c30-domaintree16-delsub', prop='C30', pkg='uintX/domaintree16',
    edits=[('uintX/domaintree16/domaintree.go', "\tif i >= len(nodes) {\n\t\treturn new(Node), true\n\t}\n\n\tn = nodes[i].copy()\n\tn.branches, _ = n.branches.rawDel(labels[i])\n", "\tif i >= len(nodes) {\n\t\treturn &Node{hasValue: n.value == 0xffff}, true\n\t}\n\n\tn = nodes[i].copy()\n\tn.branches, _ = n.branches.rawDel(labels[i])\n")],
    needs='DeleteSubdomains of the root while it stores 65535',
    what='the emptied fixed-width tree still answers, unlike the generic one',
    demo='''
package domaintree16_test

import (
	"testing"

	"github.com/infobloxopen/go-trees/domain"
	"github.com/infobloxopen/go-trees/uintX/domaintree16"
)
''' + NAME + '''
func TestSeededDemo(t *testing.T) {
	tr, _ := new(domaintree16.Node).Insert(name("."), 0xffff).DeleteSubdomains(name("."))
	if v, ok := tr.Get(name("com")); ok {
		t.Fatal(v)
	}
}
''')
