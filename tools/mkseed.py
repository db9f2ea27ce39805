#!/usr/bin/env python3
"""Builds seeded bugs (tools/seeds/*.py) into /verif/seeded/<id>/ after confirming each one.

Usage: mkseed.py [--only ID,ID] [--nocheck]
Each definition file defines SEEDS, a list of dicts:
  id, prop, pkg (directory the demonstration test is laid over), demo (Go source),
  edits [(file, old, new)], needs, what, and optionally race, shell (replaces the Go demo).
A bug is kept when it compiles, passes the repository's tests and its demonstration tells it apart.
This tool is used by hand; no check reads what it writes.
"""
import argparse, glob, json, os, runpy, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = '/repo'
ENV = dict(os.environ, GOFLAGS='-mod=mod', GOPROXY='off', GOTOOLCHAIN='local')

DEMO = '''#!/bin/bash
# Exit 0 when the behaviour is right, nonzero when the planted bug shows.
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local
cat > "$tmp/overlay.json" <<OVERLAY
{"Replace": {"$PWD/%(pkg)s/zz_seeded_demo_test.go": "$here/demo_test.go.txt"}}
OVERLAY
go test -vet=off -count=1 -timeout 120s %(flags)s-overlay "$tmp/overlay.json" -run '^TestSeededDemo$' "./%(pkg)s"
'''


def sh(cmd, cwd, env=ENV, timeout=1200):
    p = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    return p.returncode, p.stdout.decode(errors='replace')


def write_seed(s):
    d = os.path.join(VERIF, 'seeded', s['id'])
    if os.path.isdir(d):
        shutil.rmtree(d)
    os.makedirs(d)
    if 'shell' in s:
        open(os.path.join(d, 'demo.sh'), 'w').write(s['shell'])
        for name, text in s.get('files', {}).items():
            open(os.path.join(d, name), 'w').write(text)
    else:
        open(os.path.join(d, 'demo.sh'), 'w').write(DEMO % {'pkg': s['pkg'], 'flags': '-race ' if s.get('race') else ''})
        open(os.path.join(d, 'demo_test.go.txt'), 'w').write(s['demo'].lstrip('\n'))
    os.chmod(os.path.join(d, 'demo.sh'), 0o755)
    json.dump({'property': s['prop'], 'needs': s['needs'], 'what_it_breaks': s['what']},
              open(os.path.join(d, 'meta.json'), 'w'), indent=1)
    return d


def run_seed(s, check):
    res = {'id': s['id'], 'prop': s['prop']}
    work = tempfile.mkdtemp(prefix='seed-' + s['id'] + '-')
    try:
        copy = os.path.join(work, 'repo')
        subprocess.check_call(['cp', '-a', REPO, copy])
        for f, old, new in s['edits']:
            p = os.path.join(copy, f)
            t = open(p).read()
            if t.count(old) != 1:
                res['bad'] = 'edit text occurs %d times in %s: %r' % (t.count(old), f, old[:60])
                return res
            open(p, 'w').write(t.replace(old, new))
        for f, _, _ in s['edits']:
            if f.endswith('.go'):
                rc, out = sh(['gofmt', '-l', f], copy)
                if out.strip():
                    sh(['gofmt', '-w', f], copy)
        diff = subprocess.check_output(['git', 'diff', 'HEAD'], cwd=copy)
        rc, out = sh(['go', 'build', './...'], copy)
        if rc:
            res['bad'] = 'build: ' + out[-600:]
            return res
        rc, out = sh(['go', 'test', '-vet=off', '-timeout', '100s', './...'], copy)
        if rc:
            res['bad'] = 'tests: ' + '\n'.join(l for l in out.splitlines() if 'FAIL' in l)[:600]
            return res
        d = write_seed(s)
        open(os.path.join(d, 'patch.diff'), 'wb').write(diff)
        rc0, out0 = sh([os.path.join(d, 'demo.sh')], REPO)
        rc1, out1 = sh([os.path.join(d, 'demo.sh')], copy)
        if rc0 != 0 or rc1 == 0:
            res['bad'] = 'demo: unchanged %d patched %d\n%s\n%s' % (rc0, rc1, out0[-800:], out1[-800:])
            shutil.rmtree(d)
            return res
        if '[build failed]' in out1 or '[setup failed]' in out1:
            res['bad'] = 'demo does not compile: ' + out1[-800:]
            shutil.rmtree(d)
            return res
        if check:
            vcopy = os.path.join(work, 'verif')
            os.makedirs(vcopy)
            for n in os.listdir(VERIF):
                if n not in ('seeded', '.git', 'evidence', 'replays'):
                    sh(['cp', '-a', os.path.join(VERIF, n), vcopy], '/')
            t0 = time.time()
            rc, out = sh(['python3', os.path.join(vcopy, 'run.py'), s['prop']], vcopy,
                         dict(ENV, VERIF_REPO=copy, VERIF_SEED='1', VERIF_TIER='quick'))
            res['t'] = time.time() - t0
            res['caught'] = rc == 1 and ('VIOLATION property=%s ' % s['prop']) in out
            res['rc'] = rc
            res['out'] = out[-700:]
            for extra in s.get('also', []):
                rc, out = sh(['python3', os.path.join(vcopy, 'run.py'), extra], vcopy,
                             dict(ENV, VERIF_REPO=copy, VERIF_SEED='1', VERIF_TIER='quick'))
                res.setdefault('also', {})[extra] = rc
        return res
    finally:
        shutil.rmtree(work, ignore_errors=True)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('--only', default='')
    ap.add_argument('--nocheck', action='store_true')
    ap.add_argument('-j', type=int, default=2)
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    seeds = []
    for f in sorted(glob.glob(os.path.join(HERE, 'seeds', '*.py'))):
        seeds += runpy.run_path(f)['SEEDS']
    ids = [s['id'] for s in seeds]
    assert len(ids) == len(set(ids)), 'duplicate ids'
    if a.only:
        pref = a.only.split(',')
        seeds = [s for s in seeds if any(s['id'].startswith(p) for p in pref)]
    results = os.path.join(HERE, 'seeds', 'results.json')
    book = json.load(open(results)) if os.path.exists(results) else {}
    with ThreadPoolExecutor(a.j) as ex:
        for r in ex.map(lambda s: run_seed(s, not a.nocheck), seeds):
            if 'bad' in r:
                print('REJECT %-34s %s' % (r['id'], r['bad']))
            elif 'caught' in r:
                book[r['id']] = {'property': r['prop'], 'caught': r['caught'], 'seconds': round(r['t'])}
                print('%s %-34s %s %.0fs %s' % ('CAUGHT' if r['caught'] else 'MISSED', r['id'], r['prop'], r['t'],
                                                r.get('also', '')))
                if a.v or not r['caught']:
                    print('   rc=%s %s' % (r['rc'], r['out']))
            else:
                print('KEPT   %-34s' % r['id'])
            sys.stdout.flush()
    book = {k: v for k, v in book.items() if k in ids}
    json.dump(book, open(results, 'w'), indent=1, sort_keys=True)
    open(results, 'a').write('\n')
    design(book)


MARK = '<!-- seeded table: written by tools/mkseed.py -->'


def design(book):
    """Rewrites the table of planted bugs at the end of DESIGN.md."""
    p = os.path.join(VERIF, 'DESIGN.md')
    t = open(p).read()
    if MARK not in t:
        return
    t = t[:t.index(MARK)] + MARK + '\n\n| planted bug | what it breaks | needs | caught by |\n|---|---|---|---|\n'
    for k in sorted(book):
        m = json.load(open(os.path.join(VERIF, 'seeded', k, 'meta.json')))
        t += '| %s | %s | %s | %s |\n' % (k, m['what_it_breaks'].replace('|', '/'), m['needs'].replace('|', '/'),
                                       book[k]['property'] if book[k]['caught'] else 'missed by ' + book[k]['property'])
    open(p, 'w').write(t)


main()
