# Planted bugs: failures the template tool has to report.
SEEDS = []
def add(**k): SEEDS.append(k)

ETC = r'''#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
go build -mod=mod -o "$tmp/etc" ./etc || exit 2
cd "$tmp" || exit 2
echo 'a: 1' > d.yaml
'''

add(id='c28-etc-blocked-dir', prop='C28', pkg='etc',
    edits=[('etc/file.go', "if err := os.MkdirAll(name, 0755); err != nil {", "if err := os.Mkdir(name, 0755); err != nil && !os.IsExist(err) {")],
    needs='a regular file at the place of the instance of an empty template directory',
    what='the tool reports success without the directory',
    shell=ETC + '''
mkdir -p 't{{.a}}/sub'
mkdir t1
echo x > t1/sub
if ./etc -d d.yaml -t './t{{.a}}' > /dev/null 2>&1; then exit 1; fi
exit 0
''')

add(id='c28-etc-name-exec', prop='C28', pkg='etc',
    edits=[('etc/template.go', "\tif err := t.Execute(b, data); err != nil {\n\t\tlog.Fatal(err)\n\t}\n", "\tif err := t.Execute(b, data); err != nil {\n\t\tlog.Print(err)\n\t}\n")],
    needs='a name that parses and whose execution fails',
    what='the output gets the part of the name rendered before the failure and the tool succeeds',
    shell=ETC + '''
mkdir -p 't{{.a}}'
echo x > 't{{.a}}/f{{index .a 2}}'
if ./etc -d d.yaml -t './t{{.a}}' > /dev/null 2>&1; then exit 1; fi
exit 0
''')

add(id='c28-etc-unreadable-dir', prop='C28', pkg='etc',
    edits=[('etc/main.go', "\t\tlst, err := ioutil.ReadDir(absName)\n\t\tif err != nil {\n", "\t\tlst, err := ioutil.ReadDir(absName)\n\t\tif err != nil && !os.IsPermission(err) {\n")],
    needs='a template directory that cannot be read',
    what='its entries are left out and the tool succeeds',
    shell=ETC + '''
mkdir -p 't{{.a}}/in'
echo x > 't{{.a}}/in/f'
chmod 000 't{{.a}}/in'
if [ "$(id -u)" = 0 ]; then
  chmod 755 "$tmp" etc
  chown -R 65534:65534 "$tmp"
  run="setpriv --reuid=65534 --regid=65534 --clear-groups"
fi
if $run ./etc -d d.yaml -t './t{{.a}}' > /dev/null 2>&1; then exit 1; fi
exit 0
''')
