#!/usr/bin/env python3
"""Systematic mutants of the repository, to look for blind spots (used by hand; no check uses it).

For each mutant that compiles and passes the repository's tests, runs the checks that concern its package until one
reports it. What nothing reports is listed for reading: it is either equivalent or a gap.
Usage: mutants.py OUT.jsonl [--files a,b] [-j N] [--scale X]
"""
import argparse, json, os, resource, shutil, signal, subprocess, sys, tempfile, threading
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = '/repo'
ENV = dict(os.environ, GOFLAGS='-mod=mod', GOPROXY='off', GOTOOLCHAIN='local')
PROPS = [('strtree', 'C01 C03 C20 C17 C27 C26 C24 C31 C25'), ('dltree', 'C02 C03 C20 C17 C27 C26 C24 C31'),
         ('numtree', 'C04 C05 C06 C07 C08 C18 C20 C27 C24 C26 C31 C25'),
         ('domaintree', 'C13 C14 C15 C16 C19 C20 C24 C26 C31 C25'), ('domain', 'C21 C22 C23 C33 C16'),
         ('iptree', 'C09 C10 C11 C12 C20 C18 C24 C32 C31 C26 C25'), ('etc', 'C28 C29')]
UINT = {'strtree': 'C01 C03 C20 C17 C30 C27 C26 C24 C25', 'domaintree': 'C13 C14 C15 C16 C03 C19 C20 C30 C24 C26 C25',
        'iptree': 'C09 C10 C11 C20 C18 C30 C24 C32 C26 C25'}


def props_of(f):
    if f.startswith('uintX/'):
        for k, v in UINT.items():
            if f.startswith('uintX/' + k):
                return v.split()
    for k, v in PROPS:
        if f.startswith(k + '/'):
            return v.split()
    raise SystemExit(f)


def sh(cmd, cwd, timeout):
    p = subprocess.Popen(cmd, cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, start_new_session=True,
                         preexec_fn=lambda: resource.setrlimit(resource.RLIMIT_AS, (3 << 30, 3 << 30)))
    try:
        out, _ = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        p.communicate()
        return 124, ''
    return p.returncode, out.decode(errors='replace')


def one(i, m, scale, vcopy):
    src = open(os.path.join(REPO, m['file']), 'rb').read()
    new = src[:m['off']] + m['new'].encode() + src[m['end']:]
    work = tempfile.mkdtemp(prefix='mut%d-' % i)
    try:
        f = os.path.join(work, 'm.go')
        open(f, 'wb').write(new)
        ov = os.path.join(work, 'o.json')
        json.dump({'Replace': {os.path.join(REPO, m['file']): f}}, open(ov, 'w'))
        pkg = './' + os.path.dirname(m['file'])
        rc, out = sh(['go', 'build', '-o', os.devnull, '-overlay', ov, pkg], REPO, 120)
        if rc:
            return 'nobuild', ''
        rc, out = sh(['go', 'test', '-vet=off', '-timeout', '20s', '-overlay', ov, pkg], REPO, 60)
        if rc:
            return 'tests', ''
        rc, out = sh(['go', 'test', '-vet=off', '-timeout', '30s', '-overlay', ov, './...'], REPO, 120)
        if rc:
            return 'tests', ''
        copy = os.path.join(work, 'repo')
        shutil.copytree(REPO, copy, ignore=shutil.ignore_patterns('.git'))
        open(os.path.join(copy, m['file']), 'wb').write(new)
        note = []
        for p in props_of(m['file']):
            e = dict(ENV, VERIF_REPO=copy, VERIF_SEED='1', VERIF_TIER='quick')
            try:
                r = subprocess.run(['python3', os.path.join(vcopy, 'run.py'), p, '--scale', str(scale)], cwd=vcopy, env=e,
                                   stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=900)
            except subprocess.TimeoutExpired:
                note.append(p + ' timeout')
                continue
            if r.returncode == 1:
                return 'caught', p + (' after ' + ' '.join(note) if note else '')
            if r.returncode:
                note.append('%s rc %d %s' % (p, r.returncode, r.stdout.decode(errors='replace')[-300:]))
        return 'survived', ' '.join(note)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('out')
    ap.add_argument('--files', default='strtree/strtree.go,strtree/node.go,dltree/dltree.go,dltree/node.go,numtree/node32.go,'
                    'numtree/node64.go,iptree/iptree.go,domain/label.go,domain/name.go,domaintree/domaintree.go,'
                    'etc/data.go,etc/file.go,etc/main.go,etc/names.go,etc/template.go,'
                    'uintX/strtree16/strtree.go,uintX/strtree16/node.go,uintX/domaintree16/domaintree.go,'
                    'uintX/domaintree16/dltree.go,uintX/domaintree16/node.go,uintX/iptree16/iptree.go,'
                    'uintX/iptree16/node32.go,uintX/iptree16/node64.go,uintX/iptree16/node64s.go')
    ap.add_argument('-j', type=int, default=4)
    ap.add_argument('--scale', type=float, default=0.5)
    ap.add_argument('--names', action='store_true', help='only replacements of identifiers')
    a = ap.parse_args()
    tool = os.path.join(tempfile.gettempdir(), 'mutate-tool%d' % a.names)
    subprocess.check_call(['go', 'build', '-o', tool, 'main.go'], cwd=os.path.join(HERE, 'mutate'), env=ENV)
    ms = []
    for f in a.files.split(','):
        out = subprocess.check_output([tool] + ['-names'] * a.names + [f], cwd=REPO)
        ms += [json.loads(l) for l in out.splitlines()]
    done = set()
    if os.path.exists(a.out):
        for l in open(a.out):
            d = json.loads(l)
            done.add((d['file'], d['off'], d['end'], d['new']))
    ms = [m for m in ms if (m['file'], m['off'], m['end'], m['new']) not in done]
    print(len(ms), 'mutants')
    lock = threading.Lock()
    local = threading.local()

    def work(im):
        i, m = im
        if not hasattr(local, 'v'):
            local.v = tempfile.mkdtemp(prefix='mutv-')
            for n in os.listdir(VERIF):
                if n not in ('seeded', '.git', 'evidence', 'replays'):
                    subprocess.check_call(['cp', '-a', os.path.join(VERIF, n), local.v])
        m['status'], m['by'] = one(i, m, a.scale, local.v)
        with lock:
            with open(a.out, 'a') as h:
                h.write(json.dumps(m) + '\n')
    with ThreadPoolExecutor(a.j) as ex:
        list(ex.map(work, enumerate(ms)))


if __name__ == "__main__":
    main()
