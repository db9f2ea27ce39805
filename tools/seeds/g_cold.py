# Planted bugs: things set up at first use.
SEEDS = []
def add(**k): SEEDS.append(k)

def head(pkg, imports, path=None):
    return 'package %s_test\n\nimport (\n\t"testing"\n%s)\n' % (pkg, ''.join('\t"%s"\n' % i for i in imports))

R = 'github.com/infobloxopen/go-trees/'
add(id='c25-iptree-host-mask-lazy', prop='C25', pkg='iptree', race=True,
    edits=[('iptree/iptree.go', "\tiPv6MaxMask = net.CIDRMask(iPv6Bits, iPv6Bits)\n", "\tiPv6MaxMask net.IPMask\n"),
           ('iptree/iptree.go', "\tif ip6 := ip.To16(); ip6 != nil {\n", "\tif ip6 := ip.To16(); ip6 != nil {\n\t\tif iPv6MaxMask == nil {\n\t\t\tiPv6MaxMask = net.CIDRMask(iPv6Bits, iPv6Bits)\n\t\t}\n\n")],
    needs='the first IPv6 lookups of a process made by several goroutines at once',
    what='the mask of host addresses is set up at first use without synchronisation',
    demo=head('iptree', ['net', 'sync', R + 'iptree']) + '''
func TestSeededDemo(t *testing.T) {
	tr := iptree.NewTree()
	var w sync.WaitGroup
	for i := 0; i < 8; i++ {
		w.Add(1)
		go func(i byte) {
			defer w.Done()
			tr.GetByIP(net.IP{1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, i})
		}(byte(i))
	}
	w.Wait()
}
''')

add(id='c25-domain-escape-table-lazy', prop='C25', pkg='domain', race=True,
    edits=[('domain/label.go', "// MakeHumanReadableLabel makes", "var escapes []string\n\nfunc escape(c byte) string {\n\tif escapes == nil {\n\t\tt := make([]string, 256)\n\t\tfor i := range t {\n\t\t\tt[i] = fmt.Sprintf(\"\\\\%03d\", i)\n\t\t}\n\n\t\tescapes = t\n\t}\n\n\treturn escapes[c]\n}\n\n// MakeHumanReadableLabel makes"),
           ('domain/label.go', "\t\t\tlabel[j] = '\\\\'\n\n\t\t\tr := c % 10\n\t\t\tlabel[j+3] = r + '0'\n\n\t\t\tc /= 10\n\t\t\tr = c % 10\n\t\t\tlabel[j+2] = r + '0'\n\n\t\t\tc /= 10\n\t\t\tlabel[j+1] = c + '0'\n\n\t\t\tj += 4\n", "\t\t\tj += copy(label[j:], escape(c))\n")],
    needs='the first label with a byte to be escaped made readable by two goroutines at once',
    what='the table of escapes is built at first use without synchronisation',
    demo=head('domain', ['sync', R + 'domain']) + '''
func TestSeededDemo(t *testing.T) {
	var w sync.WaitGroup
	for i := 0; i < 8; i++ {
		w.Add(1)
		go func(i byte) {
			defer w.Done()
			if s := domain.MakeHumanReadableLabel("A\\xff"); s != "a\\\\255" {
				t.Error(s)
			}
		}(byte(i))
	}
	w.Wait()
}
''')

add(id='c25-strtree16-compare-lazy', prop='C25', pkg='uintX/strtree16', race=True,
    edits=[('uintX/strtree16/strtree.go', "// NewTree creates empty tree with", "var defaultCompare Compare\n\n// NewTree creates empty tree with"),
           ('uintX/strtree16/strtree.go', "\treturn &Tree{compare: strings.Compare}\n", "\tif defaultCompare == nil {\n\t\tdefaultCompare = strings.Compare\n\t}\n\n\treturn &Tree{compare: defaultCompare}\n")],
    needs='the first trees of a process made by two goroutines at once',
    what='the default comparator is set up at first use without synchronisation',
    demo=head('strtree16', ['sync', R + 'uintX/strtree16']) + '''
func TestSeededDemo(t *testing.T) {
	var w sync.WaitGroup
	for i := 0; i < 8; i++ {
		w.Add(1)
		go func(i uint16) {
			defer w.Done()
			if v, ok := strtree16.NewTree().Insert("a", i).Get("a"); v != i || !ok {
				t.Error(v, ok)
			}
		}(uint16(i))
	}
	w.Wait()
}
''')
