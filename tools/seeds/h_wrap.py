# Planted bugs: sizes that wrap or are cut, wide directories.
SEEDS = []
def add(**k): SEEDS.append(k)

def head(pkg, imports, path=None):
    return 'package %s_test\n\nimport (\n\t"testing"\n%s)\n' % (pkg, ''.join('\t"%s"\n' % i for i in imports))

R = 'github.com/infobloxopen/go-trees/'
OLD = "\t\t\tif j >= len(out) {\n\t\t\t\treturn 0, ErrLabelTooLong\n\t\t\t}\n\n\t\t\tout[j] = c\n\t\t\tj++\n\n\t\t\tesc = escRegular\n"
add(id='c21-label-length-byte', prop='C21', pkg='domain',
    edits=[('domain/label.go', "\t\t\t\tif j >= len(out) {\n\t\t\t\t\treturn 0, ErrLabelTooLong\n\t\t\t\t}\n\n\t\t\t\tout[j] = c\n\t\t\t\tj++\n\n\t\t\tcase '.':", "\t\t\t\tif j < len(out) {\n\t\t\t\t\tout[j] = c\n\t\t\t\t}\n\t\t\t\tj++\n\n\t\t\tcase '.':"),
           ('domain/label.go', "\tout[0] = byte(j - 1)\n\n\treturn j, nil\n", "\tif size := byte(j - 1); size > MaxLabel {\n\t\treturn 0, ErrLabelTooLong\n\t} else {\n\t\tout[0] = size\n\t}\n\n\treturn int(out[0]) + 1, nil\n")],
    needs='a label of 256 to 319 unescaped bytes',
    what='the label is accepted with most of its bytes lost',
    demo=head('domain', ['strings', R + 'domain']) + '''
func TestSeededDemo(t *testing.T) {
	if n, err := domain.MakeNameFromString("a." + strings.Repeat("b", 259) + ".com"); err == nil {
		t.Fatal(n)
	}
}
''')

add(id='c23-human-length-16', prop='C23', pkg='domain',
    edits=[('domain/label.go', "\tvar label [4 * MaxLabel]byte\n\n\tj := 0\n\tfor i := 0; i < len(s); i++ {\n", "\tvar label [4 * MaxLabel]byte\n\n\tj := 0\n\tfor i, n := 0, int(uint16(len(s))); i < n; i++ {\n")],
    needs='making a string of 65536 bytes or a little more human-readable',
    what='the result is empty or far too short',
    demo=head('domain', ['strings', R + 'domain']) + '''
func TestSeededDemo(t *testing.T) {
	if s := domain.MakeHumanReadableLabel(strings.Repeat("A", 65540)); len(s) != 252 {
		t.Fatal(len(s))
	}
}
''')

add(id='c02-dltree-length-16', prop='C02', pkg='dltree',
    edits=[('dltree/node.go', "func (n *node) get(key string) (interface{}, bool) {\n\tfor n != nil {\n\t\tr := len(n.key) - len(key)\n", "func (n *node) get(key string) (interface{}, bool) {\n\tfor n != nil {\n\t\tr := int(int16(len(n.key) - len(key)))\n")],
    needs='binary labels whose lengths differ by 32768 bytes or more',
    what='lookups of such labels go the wrong way',
    demo=head('dltree', ['strings', R + 'dltree']) + '''
func TestSeededDemo(t *testing.T) {
	tr := dltree.NewTree()
	long := strings.Repeat("x", 65535)
	tr.RawInplaceInsert("", "a")
	tr.RawInplaceInsert(long, "b")
	if v, ok := tr.RawGet(long); !ok || v != "b" {
		t.Fatal(v, ok)
	}
}
''')

ETC = r'''#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
go build -mod=mod -o "$tmp/etc" ./etc || exit 2
cd "$tmp" || exit 2
'''
add(id='c28-etc-wide-dir', prop='C28', pkg='etc',
    edits=[('etc/main.go', "\t\tlst, err := ioutil.ReadDir(absName)\n\t\tif err != nil {\n\t\t\tlog.Fatal(err)\n\t\t}\n", "\t\td, err := os.Open(absName)\n\t\tif err != nil {\n\t\t\tlog.Fatal(err)\n\t\t}\n\t\tdefer d.Close()\n\n\t\tlst, err := d.Readdir(256)\n\t\tif err != nil && err != io.EOF {\n\t\t\tlog.Fatal(err)\n\t\t}\n"),
           ('etc/main.go', '\t"io/ioutil"\n', '\t"io"\n')],
    needs='a template directory of more than 256 entries',
    what='the entries beyond are left out',
    shell=ETC + '''
mkdir -p 't{{.a}}'
for i in $(seq 1 300); do echo x > "t{{.a}}/f$i"; done
echo 'a: 1' > d.yaml
./etc -d d.yaml -t './t{{.a}}' > /dev/null 2>&1 || exit 1
test "$(ls t1 | wc -l)" = 300
''')
