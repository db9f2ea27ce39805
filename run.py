#!/usr/bin/env python3
"""Driver of the property checks.

  run.py ID                      decide one property (VERIF_SEED, VERIF_TIER from the environment)
  run.py --replay FILE           run one replay file against the current tree
  run.py --setup                 warm the build cache

Exit codes: 0 the property held on everything explored; 1 a violation (a line
"VIOLATION property=<id> replay=<path>" is printed); anything else is an error of the check.

The harness is copied to a scratch directory and built there against the working tree of /repo
(VERIF_REPO names another tree, for experiments); eight worker processes then share the generated cases.
"""
import json, os, re, resource, shutil, signal, struct, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
WORKERS = int(os.environ.get("VERIF_WORKERS", "8"))
CASE_CPU = 40.0       # CPU seconds one case may use before it is replayed on its own
REPLAY_CPU = 60       # CPU seconds a replayed case may use: beyond this it does not terminate
CASE_WALL = 240.0     # wall seconds without progress (and without CPU use) before a case is replayed
REPLAY_WALL = 240.0
MEM = 6 << 30
RACE_EXIT = 66
PROPS = {}


class CheckError(Exception):
    pass


def load_props():
    with open(os.path.join(HERE, "properties.jsonl")) as f:
        for line in f:
            line = line.strip()
            if line:
                p = json.loads(line)
                PROPS[p["id"]] = p


def env_go():
    e = dict(os.environ)
    e.update(GOFLAGS="-mod=mod", GOPROXY="off", GOTOOLCHAIN="local", GO111MODULE="on", GOSUMDB="off", GOWORK="off")
    e.pop("GODEBUG", None)
    return e


def run(cmd, cwd=None, timeout=600, env=None):
    try:
        p = subprocess.run(cmd, cwd=cwd, env=env or env_go(), stdin=subprocess.DEVNULL,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, text=True, errors="replace")
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired:
        raise CheckError("timeout: %s" % " ".join(cmd))


# --------------------------------------------------------------------------- building

class Build:
    """A build of the harness for one property."""

    def __init__(self, prop, scratch):
        self.prop, self.scratch = prop, scratch
        self.dir = os.path.join(scratch, "harness")
        self.bin = os.path.join(scratch, "vh")
        self.race = prop == "C25"
        self.etc = None
        self.violation = None     # (message, replay object): the build itself is the counterexample (C29)

    def make(self):
        shutil.copytree(os.path.join(HERE, "harness"), self.dir)
        gm = os.path.join(self.dir, "go.mod")
        with open(gm) as f:
            t = f.read()
        if REPO != "/repo":
            with open(gm, "w") as f:
                f.write(t.replace("=> /repo", "=> " + REPO))
        tags = []
        if self.prop in ("C28", "C29"):
            self.etc = os.path.join(self.scratch, "bin", "etc")
            os.makedirs(os.path.dirname(self.etc))
            rc, out = run(["go", "build", "-trimpath", "-o", self.etc, "github.com/infobloxopen/go-trees/etc"], cwd=self.dir)
            if rc:
                raise CheckError("cannot build etc:\n" + out)
            os.chmod(self.scratch, 0o755)
            os.chmod(os.path.dirname(self.etc), 0o755)
            os.chmod(self.etc, 0o755)
        if self.prop == "C29":
            err = self.generate()
            if err:
                self.violation = err
                return
            tags = ["gen"]
        cmd = ["go", "build", "-trimpath", "-o", self.bin]
        if self.race:
            cmd.append("-race")
        if tags:
            cmd += ["-tags", ",".join(tags)]
        rc, out = run(cmd + ["."], cwd=self.dir)
        if rc:
            if self.prop == "C29":
                # The generated packages are part of what is built: if the harness builds without
                # them, they are at fault.
                rc2, out2 = run(["go", "build", "-trimpath", "-o", self.bin, "."], cwd=self.dir)
                if rc2 == 0:
                    rc3, out3 = run(["go", "build", "./gen/..."], cwd=self.dir)
                    self.violation = "the packages generated from the templates do not build or do not have the API of the shipped packages:\n" + (out3 if rc3 else out)
                    return
            raise CheckError("cannot build the harness:\n" + out)

    def generate(self):
        """Expands the uintX templates for the four widths with etc; returns an error text if that fails."""
        src = os.path.join(REPO, "uintX")
        work = os.path.join(self.scratch, "uintX")
        os.makedirs(work)
        dst = os.path.join(self.dir, "gen")
        os.makedirs(dst, exist_ok=True)
        tpls = [d for d in sorted(os.listdir(src)) if "{{" in d]
        if not tpls:
            raise CheckError("no templates in " + src)
        for d in tpls:
            shutil.copytree(os.path.join(src, d), os.path.join(work, d))
        shutil.copy(os.path.join(src, "uintX.yaml"), work)
        for d in tpls:
            for bits in ("8", "16", "32", "64"):
                rc, out = run([self.etc, "-s", "uint" + bits, "-d", "uintX.yaml", "-t", "./" + d], cwd=work)
                if rc:
                    return "etc fails on %s for uint%s:\n%s" % (d, bits, out)
                name = d.replace("{{.bits}}", bits)
                if not os.path.isdir(os.path.join(work, name)):
                    return "etc -s uint%s -t %s did not create %s\n%s" % (bits, d, name, out)
                shutil.copytree(os.path.join(work, name), os.path.join(dst, name),
                                ignore=shutil.ignore_patterns("*_test.go"))
        return None


# --------------------------------------------------------------------------- workers

def limits(cpu=None, mem=True):
    def f():
        os.setpgid(0, 0)
        if mem:
            resource.setrlimit(resource.RLIMIT_AS, (MEM, MEM))
        if cpu:
            resource.setrlimit(resource.RLIMIT_CPU, (cpu, cpu + 5))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    return f


def wenv(b):
    e = env_go()
    e["GOMAXPROCS"] = "4" if b.race else "2"
    e["GOTRACEBACK"] = "single"
    if b.race:
        e["GORACE"] = "halt_on_error=1 exitcode=%d history_size=3" % RACE_EXIT
    if b.etc:
        e["VH_ETC"] = b.etc
    e["VH_SCRATCH"] = b.scratch
    e["VH_REPO"] = REPO
    return e


class Worker:
    def __init__(self, b, i, seed, tier, scale):
        self.b, self.i = b, i
        p = os.path.join(b.scratch, "w%d" % i)
        self.out, self.hashes, self.cur, self.err = p + ".json", p + ".hash", p + ".cur", p + ".err"
        cmd = [b.bin, "-prop", b.prop, "-seed", str(seed), "-shard", str(i), "-shards", str(WORKERS), "-tier", tier,
               "-scale", str(scale), "-out", self.out, "-hashes", self.hashes, "-cur", self.cur,
               "-regs", os.path.join(HERE, "regress", "cases.jsonl")]
        self.errf = open(self.err, "wb")
        self.p = subprocess.Popen(cmd, cwd=b.scratch, env=wenv(b), stdin=subprocess.DEVNULL, stdout=self.errf,
                                  stderr=self.errf, preexec_fn=limits(mem=not b.race))
        self.last = (-1, 0.0, time.time())
        self.hung = False

    def counter(self):
        try:
            with open(self.cur, "rb") as f:
                return struct.unpack("<Q", f.read(8))[0]
        except (OSError, struct.error):
            return 0

    def case(self):
        try:
            with open(self.cur, "rb") as f:
                _, n = struct.unpack("<QQ", f.read(16))
                return json.loads(f.read(n))
        except (OSError, struct.error, ValueError):
            return None

    def cpu(self):
        try:
            with open("/proc/%d/stat" % self.p.pid) as f:
                a = f.read().rsplit(")", 1)[1].split()
            return (int(a[11]) + int(a[12])) / os.sysconf("SC_CLK_TCK")
        except (OSError, IndexError, ValueError):
            return 0.0

    def watch(self):
        """True when the current case looks as if it would never end."""
        n, c, now = self.counter(), self.cpu(), time.time()
        if n != self.last[0]:
            self.last = (n, c, now)
            return False
        return c - self.last[1] > CASE_CPU or (now - self.last[2] > CASE_WALL and c - self.last[1] < 1.0)

    def kill(self):
        try:
            os.killpg(self.p.pid, signal.SIGKILL)
        except OSError:
            pass
        try:
            self.p.kill()
        except OSError:
            pass
        self.p.wait()

    def stderr(self):
        self.errf.close()
        with open(self.err, "rb") as f:
            return f.read()[-20000:].decode("utf-8", "replace")


def replay(b, case, wall=REPLAY_WALL, cpu=REPLAY_CPU):
    """Runs one case in a fresh process. Returns None if it passes, else a description of the failure."""
    f = os.path.join(b.scratch, "replay-in.json")
    with open(f, "w") as h:
        json.dump(case, h)
    p = subprocess.Popen([b.bin, "-replay", f], cwd=b.scratch, env=wenv(b), stdin=subprocess.DEVNULL,
                         stdout=subprocess.PIPE, stderr=subprocess.STDOUT, preexec_fn=limits(cpu, mem=not b.race))
    try:
        out, _ = p.communicate(timeout=wall)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        p.communicate()
        return "the case does not end (no progress in %d s)" % wall
    out = out.decode("utf-8", "replace")
    if p.returncode == 0:
        return None
    if p.returncode == 1 and "FAIL" in out:
        return out[out.index("FAIL") + 5:].strip()
    if p.returncode == 3:
        raise CheckError("replay: " + out[-4000:])
    if p.returncode == RACE_EXIT or "DATA RACE" in out:
        return "data race\n" + out[:6000]
    if p.returncode in (-signal.SIGXCPU, -signal.SIGKILL) or "SIGXCPU" in out:
        return "the case does not end within %d s of CPU time" % cpu
    return "the process dies (status %d)\n%s" % (p.returncode, brief(out))


def brief(out):
    lines = out.splitlines()
    keep = [l for l in lines[:6]]
    keep += [l for l in lines[6:] if "go-trees" in l or "/repo/" in l][:14]
    return "\n".join(keep)


def shrink(b, case, budget=25.0):
    """ddmin over operations with one process per candidate, for cases that kill the process."""
    stop = time.time() + budget

    def fails(c):
        return time.time() < stop and replay(b, c, wall=30, cpu=10) is not None

    cur = dict(case)
    ops = cur.get("ops") or []
    n = max(1, len(ops) // 2)
    while n >= 1 and time.time() < stop:
        i = 0
        while i + n <= len(ops) and time.time() < stop:
            d = dict(cur, ops=ops[:i] + ops[i + n:])
            if fails(d):
                cur, ops = d, d["ops"]
            else:
                i += n
        n //= 2
    return cur


class Found(Exception):
    def __init__(self, case, msg):
        self.case, self.msg = case, msg


def explore(b, seed, tier, scale):
    ws = [Worker(b, i, seed, tier, scale) for i in range(WORKERS)]
    try:
        live = list(ws)
        while live:
            time.sleep(0.1)
            for w in list(live):
                rc = w.p.poll()
                if rc is None:
                    if w.watch():
                        case = w.case()
                        w.kill()
                        if case is None:
                            raise CheckError("worker %d makes no progress" % w.i)
                        for o in live:
                            o.kill()
                        msg = replay(b, case)
                        if msg is None:
                            raise CheckError("worker %d made no progress, but its case ends when replayed" % w.i)
                        raise Found(shrink(b, case) if "does not end" not in msg else case, msg)
                    continue
                live.remove(w)
                if rc == 0:
                    continue
                err = w.stderr()
                if rc == 1:
                    with open(w.out) as f:
                        r = json.load(f)
                    for o in live:
                        o.kill()
                    raise Found(r["case"], r["error"])
                if rc == 3:
                    raise CheckError(err[-4000:])
                case = w.case()
                for o in live:
                    o.kill()
                if rc == RACE_EXIT or "WARNING: DATA RACE" in err:
                    raise Found(case, "data race\n" + err[:6000])
                if case is None:
                    raise CheckError("worker %d ended with status %d\n%s" % (w.i, rc, err[-4000:]))
                # A killed worker (memory pressure from outside, say) is not evidence: the case has to fail again.
                msg = replay(b, case)
                if msg is None:
                    raise CheckError("worker %d ended with status %d, and its case passes when replayed\n%s" % (w.i, rc, err[-4000:]))
                raise Found(shrink(b, case), msg)
        return ws
    finally:
        for w in ws:
            if w.p.poll() is None:
                w.kill()
            try:
                w.errf.close()
            except OSError:
                pass


# --------------------------------------------------------------------------- evidence

def cut(x, n):
    """A sample short enough for people: long strings and lists abbreviated."""
    if isinstance(x, str):
        return x if len(x) <= n else x[:n] + "... (%d characters)" % len(x)
    if isinstance(x, list):
        return [cut(v, n) for v in x[:n]] + (["... (%d items)" % len(x)] if len(x) > n else [])
    if isinstance(x, dict):
        return {cut(k, n): cut(v, n) for k, v in list(x.items())[:4 * n]}
    return x


def sample(x):
    for n in (1000, 200, 60, 20, 6, 2):
        y = cut(x, n)
        if len(json.dumps(y)) <= 20000:
            break
    return y


def merge(ws):
    cov = {"evaluations": 0, "distinct_nontrivial": 0, "rule": "", "samples": [], "classes": {}, "sizes": {},
           "executed_operations": 0, "regression_cases": 0, "exhaustive_cases": 0}
    hashes = set()
    for w in ws:
        try:
            with open(w.out) as f:
                r = json.load(f)
        except (OSError, ValueError):
            continue
        s = r.get("stats") or {}
        cov["rule"] = r.get("rule") or cov["rule"]
        cov["evaluations"] += s.get("evaluations", 0)
        cov["executed_operations"] += s.get("executed_ops", 0)
        cov["regression_cases"] += r.get("regs", 0)
        cov["exhaustive_cases"] += r.get("exhaustive_cases", 0)
        for k in ("classes", "sizes"):
            for n, v in (s.get(k) or {}).items():
                cov[k][n] = cov[k].get(n, 0) + v
        if len(cov["samples"]) < 4:
            cov["samples"] += [sample(x) for x in (s.get("samples") or [])[:1]]
        try:
            with open(w.hashes, "rb") as f:
                d = f.read()
            hashes.update(struct.unpack("<%dQ" % (len(d) // 8), d))
        except OSError:
            pass
    cov["distinct_nontrivial"] = len(hashes)
    return cov


ASSUMPTIONS = {
    "": ["the reference model in /verif/harness is right about the statement of the property",
         "generated keys, values and histories stay within the documented domain of each API (see DESIGN.md)"],
}


def evidence(prop, tier, seed, cov, wall, violations):
    d = os.path.join(HERE, "evidence")
    os.makedirs(d, exist_ok=True)
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
          "assumptions": ASSUMPTIONS[""], "wall_s": round(wall, 2), "violations": violations}
    tmp = os.path.join(d, ".%s.tmp" % prop)
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, os.path.join(d, prop + ".json"))


def report(prop, case, msg):
    d = os.path.join(HERE, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s.json" % prop)
    with open(path, "w") as f:
        json.dump({"property": prop, "failure": msg, "case": case,
                   "rerun": "python3 run.py --replay replays/%s.json" % prop}, f, indent=1)
    print(msg[:6000])
    if case is not None:
        print("case: " + json.dumps(case)[:6000])
    print("VIOLATION property=%s replay=%s" % (prop, path))
    sys.stdout.flush()


def check(prop, seed, tier, scale):
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix="vh-%s-" % prop, dir=os.environ.get("VERIF_TMP", "/tmp"))
    try:
        b = Build(prop, scratch)
        b.make()
        tb = time.time()
        if b.violation:
            report(prop, {"prop": prop, "cfg": {"stage": "generate"}}, b.violation)
            evidence(prop, tier, seed, {"evaluations": 1, "distinct_nontrivial": 1, "rule": "expansion of the shipped templates",
                                        "samples": [b.violation[:500]]}, time.time() - t0, 1)
            return 1
        try:
            ws = explore(b, seed, tier, scale)
        except Found as f:
            report(prop, f.case, f.msg)
            evidence(prop, tier, seed, {"evaluations": 1, "distinct_nontrivial": 1,
                                        "rule": "stopped at the first failing case", "samples": [sample(f.case)]}, time.time() - t0, 1)
            return 1
        cov = merge(ws)
        if cov["evaluations"] == 0 or cov["distinct_nontrivial"] == 0:
            raise CheckError("nothing was explored")
        evidence(prop, tier, seed, cov, time.time() - t0, 0)
        print("%s held: %d cases (%d distinct non-trivial, %d operations), build %.1f s, total %.1f s" % (
            prop, cov["evaluations"], cov["distinct_nontrivial"], cov["executed_operations"], tb - t0, time.time() - t0))
        return 0
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def do_replay(path):
    with open(path) as f:
        r = json.load(f)
    case = r.get("case", r)
    prop = case["prop"]
    scratch = tempfile.mkdtemp(prefix="vh-%s-" % prop)
    try:
        b = Build(prop, scratch)
        b.make()
        msg = b.violation
        if msg is None and (case.get("cfg") or {}).get("stage") != "generate":
            for _ in range(20 if b.race else 1):
                msg = replay(b, case)
                if msg:
                    break
        if msg:
            print(msg)
            print("VIOLATION property=%s replay=%s" % (prop, os.path.abspath(path)))
            return 1
        print("PASS")
        return 0
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def setup():
    scratch = tempfile.mkdtemp(prefix="vh-setup-")
    try:
        for p in ("C01", "C25", "C28", "C29"):
            d = os.path.join(scratch, p)
            os.makedirs(d)
            Build(p, d).make()
        print("harness builds")
        return 0
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def main():
    a = sys.argv[1:]
    scale, seed = 1.0, int(os.environ.get("VERIF_SEED", "1") or "1")
    tier = os.environ.get("VERIF_TIER", "quick") or "quick"
    pos = []
    while a:
        x = a.pop(0)
        if x == "--replay":
            return do_replay(a.pop(0))
        elif x == "--setup":
            return setup()
        elif x == "--seed":
            seed = int(a.pop(0))
        elif x == "--tier":
            tier = a.pop(0)
        elif x == "--scale":
            scale = float(a.pop(0))
        else:
            pos.append(x)
    load_props()
    if len(pos) != 1 or pos[0] not in PROPS:
        print("usage: run.py ID | --replay FILE | --setup", file=sys.stderr)
        return 2
    if tier not in ("quick", "thorough"):
        tier = "quick"
    return check(pos[0], seed, tier, scale)


if __name__ == "__main__":
    try:
        rc = main()
    except CheckError as e:
        print("ERROR: %s" % e, file=sys.stderr)
        rc = 2
    sys.exit(rc)
