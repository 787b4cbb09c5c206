"""Runtime-monitoring harness for lecram/coral.

A property module gives, for one property, a workload generator (`gen`) that
turns a PRNG into a *case* (plain literal data, so it can be replayed) and a
`check` that drives the real code of /repo on that case while an oracle watches
what it does.  The check raises `Violation` when the oracle refutes the
property and calls `mon.ev(name)` for everything the oracle observed; a run
in which a required event was never observed is inconclusive (exit 2), never
"held".
"""
import ast
import hashlib
import json
import math
import os
import random
import resource
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

REPO = os.environ.get("VF_REPO", "/repo")
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CORAL = os.path.join(REPO, "coral")


class Violation(Exception):
    """The oracle refuted the property on the running case."""


class Hang(BaseException):
    """A case used far more CPU than any case of its kind may."""


class Skip(Exception):
    """The case is outside the domain of the property (not counted)."""


def expect(cond, msg, *args):
    if not cond:
        raise Violation(msg.format(*args) if args else msg)


def raises(exc, fn, *args, **kw):
    """Call fn and require that it raises `exc`."""
    try:
        r = fn(*args, **kw)
    except exc as e:
        return e
    except Exception as e:
        raise Violation("expected {}, got {!r}".format(exc, e))
    raise Violation("expected {}, but the call returned {!r}".format(exc, short(r)))


class short:
    """The beginning of what is written of an object, when it is asked for."""

    def __init__(self, o, n=300):
        self.o, self.n = o, n

    def __str__(self):
        s = repr(self.o)
        return s if len(s) <= self.n else s[:self.n] + "...(%d chars)" % len(s)

    __repr__ = __str__


def close(a, b, rel=1e-9, abs_=1e-9):
    if a == b:
        return True
    if math.isnan(a) or math.isnan(b) or math.isinf(a) or math.isinf(b):
        return False
    return abs(a - b) <= max(rel * max(abs(a), abs(b)), abs_)


def litter(*paths):
    """Now and then something is there already, longer than what comes."""
    if Monitor.littered:
        for p in paths:
            with open(p, "wb") as f:
                f.write(b"what was here before\n" * 1500)


class Monitor:
    """Counts what the oracles observed and hands out scratch space."""

    littered = False

    def __init__(self, scratch):
        self.events = {}
        self.base = scratch
        self._n = 0
        self._style = 0
        self._seen_dirs = []

    def begin(self, text):
        """Cases use the same few paths over and over, as users do: what is
        read back must be what the running case wrote there."""
        self._n = 0
        d = hashlib.sha1(text.encode("utf-8", "surrogatepass")).digest()
        self._style = d[0] % 5
        Monitor.littered = d[1] % 3 == 0

    def ev(self, name, n=1):
        self.events[name] = self.events.get(name, 0) + n

    def dir(self):
        """A fresh scratch directory, removed at the end of the case."""
        self._n += 1
        # Paths with dots, spaces and other letters are as good as plain ones.
        d = os.path.join(self.base, ("d%d", "v.%d", "d %d", "d\u00e9%d", "v1.%d.x")[(self._n + self._style) % 5] % self._n)
        os.mkdir(d)
        self._seen_dirs.append(d)
        return d

    def clean(self):
        for d in self._seen_dirs:
            shutil.rmtree(d, ignore_errors=True)
        self._seen_dirs = []

    def near(self, got, want, rel, abs_, what, *args):
        """Compare two numbers, keeping the largest deviation seen."""
        if not close(got, want, rel, abs_):
            raise Violation("{}: got {!r}, expected {!r}".format(
                what.format(*args), got, want))


class Gen(random.Random):
    """PRNG with boundary-biased draws and a dictionary of the constants that
    appear in the code under test (so that a behaviour switched on by a
    particular value is reached)."""

    dic_int = ()
    dic_float = ()
    dic_str = ()

    def chance(self, p):
        return self.random() < p

    def magic_int(self, lo, hi):
        """An int of [lo, hi] near a constant of the code, or None."""
        if not self.dic_int:
            return None
        for _ in range(8):
            v = self.choice(self.dic_int)
            if v < 0 and lo >= 0:
                v = -v
            v += self.choice((-1, 0, 0, 1))
            if lo <= v <= hi:
                return v
        return None

    def integer(self, lo, hi, magic=0.15, edge=0.15):
        u = self.random()
        if u < magic:
            v = self.magic_int(lo, hi)
            if v is not None:
                return v
        if u < magic + edge:
            return self.choice((lo, hi, max(lo, min(hi, 0)), min(hi, lo + 1),
                                max(lo, hi - 1)))
        return self.randint(lo, hi)

    def size(self, hi, lo=0):
        """A size, small most of the time, now and then up to hi."""
        u = self.random()
        if u < 0.12:
            v = self.magic_int(lo, hi)
            if v is not None:
                return v
        if u < 0.75:
            return min(hi, lo + int(self.expovariate(1 / 4.0)))
        if u < 0.95:
            return self.randint(lo, max(lo, min(hi, 40)))
        return self.randint(lo, hi)

    def real(self, lo, hi, magic=0.12, edge=0.08):
        u = self.random()
        if u < magic and self.dic_float:
            for _ in range(6):
                v = self.choice(self.dic_float) * self.choice((1, 1, -1))
                if lo <= v <= hi:
                    return float(v)
        if u < magic + edge:
            return float(self.choice((lo, hi, max(lo, min(hi, 0.0)))))
        if u < magic + edge + 0.2:
            v = float(round(self.uniform(lo, hi)))
            return max(lo, min(hi, v))
        return self.uniform(lo, hi)

    def lon(self):
        u = self.random()
        if u < 0.06:
            return self.choice((-180.0, 180.0, 179.99999, -179.99999, 0.0))
        return self.real(-180.0, 180.0)

    def lat(self, m=90.0):
        u = self.random()
        if u < 0.06:
            return self.choice((-m, m, 0.0, m - 1e-5, 1e-5 - m))
        return self.real(-m, m)

    def text(self, n, alphabet):
        return "".join(self.choice(alphabet) for _ in range(n))

    def magic_str(self):
        return self.choice(self.dic_str) if self.dic_str else ""


class Near(Gen):
    """Draws what Gen(base) draws, but for a few draws that are `other`'s: gives a case that has nearly everything in
    common with another one, for behaviour that depends on what came before and resembles it."""

    def __init__(self, base, other, turns):
        super().__init__(base)
        self.other, self.turns, self.turn = Gen(other), frozenset(turns), -1

    def own(self):
        self.turn += 1
        return self.turn in self.turns

    def random(self):
        v = super().random()
        return self.other.random() if self.own() else v

    def _randbelow(self, n):
        v = self._randbelow_with_getrandbits(n)
        return self.other.randrange(n) if self.own() else v


def draw_case(chk, pid, seed, i, nw, nfixed):
    """The i-th case: now and then one much like the case before."""
    name = "%s/%d/%d" % (pid, seed, i)
    near = random.Random("near " + name)
    if chk.twins and i - nw >= nfixed and near.random() < chk.twins:
        base = "%s/%d/%d" % (pid, seed, i - nw)
        g = Near(base, name, ())
        chk.gen(g)
        n = max(1, g.turn + 1)
        return chk.gen(Near(base, name, [near.randrange(n) for _ in range(near.choice((1, 1, 2, 4)))]))
    return chk.gen(Gen(name))


def dictionary():
    """Literals of the sources under test: ints, floats, strings."""
    ints, floats, strs = set(), set(), set()
    for f in sorted(os.listdir(CORAL)):
        if not f.endswith(".py") or f == "recipes.py":
            continue
        try:
            with open(os.path.join(CORAL, f), encoding="utf-8") as fh:
                tree = ast.parse(fh.read())
        except SyntaxError:
            continue
        for node in ast.walk(tree):
            if isinstance(node, ast.Constant):
                v = node.value
                if isinstance(v, bool):
                    continue
                if isinstance(v, int):
                    if abs(v) < 1 << 64:
                        ints.add(v)
                        if abs(v) < 1e6:
                            floats.add(float(v))
                elif isinstance(v, float):
                    floats.add(v)
                    if v == int(v) and abs(v) < 1e6:
                        ints.add(int(v))
                elif isinstance(v, str) and 0 < len(v) <= 12:
                    strs.add(v)
    return sorted(ints), sorted(floats), sorted(strs)


class Coverage:
    """Lines of the code under test that the workload drove."""

    TOOL = 4

    def __init__(self, files):
        self.files = {os.path.join(REPO, f): set() for f in files}
        self.on = False

    def start(self):
        mon = getattr(sys, "monitoring", None)
        if mon is None:
            return
        try:
            mon.use_tool_id(self.TOOL, "vf")
        except ValueError:
            return

        def line(code, n):
            s = self.files.get(code.co_filename)
            if s is not None:
                s.add(n)
            return mon.DISABLE

        mon.register_callback(self.TOOL, mon.events.LINE, line)
        mon.set_events(self.TOOL, mon.events.LINE)
        self.on = True

    def lines(self):
        return {os.path.relpath(f, REPO): sorted(s) for f, s in self.files.items()}


def executable_lines(path):
    out = set()
    try:
        with open(path, encoding="utf-8") as f:
            code = compile(f.read(), path, "exec")
    except (SyntaxError, OSError):
        return out
    todo = [code]
    while todo:
        c = todo.pop()
        for _, _, ln in c.co_lines():
            if ln:
                out.add(ln)
        todo += [k for k in c.co_consts if hasattr(k, "co_lines")]
    return out


class Check:
    """Base of a property's check."""

    id = None
    files = ()          # anchor files, relative to /repo
    level = "exploration"
    rule = ""
    quick = 1000        # number of cases
    thorough = 10000
    wall = {"quick": 40.0, "thorough": 600.0}   # stop generating after this
    cpu = 40.0          # CPU seconds no single case may need
    required = ()       # events without which a run is inconclusive

    def gen(self, r):
        raise NotImplementedError

    def check(self, case, mon):
        raise NotImplementedError

    def fixed(self, tier):
        """Cases that are always run (boundary configurations)."""
        return []

    twins = 0.2         # of the cases are much like the one before

    larges = ()         # what there is much of, in cases that are always run

    def large(self, what):
        """The case that has much of something."""
        raise NotImplementedError

    def nontrivial(self, case):
        return True


def load(pid):
    import importlib
    for f in sorted(os.listdir(os.path.join(HERE, "vf", "props"))):
        if not f.endswith(".py") or f == "__init__.py":
            continue
        with open(os.path.join(HERE, "vf", "props", f)) as fh:
            if 'id = "%s"' % pid not in fh.read():
                continue
        m = importlib.import_module("vf.props." + f[:-3])
        for o in vars(m).values():
            if isinstance(o, type) and issubclass(o, Check) and o.id == pid:
                return o()
    raise SystemExit("no such property: " + pid)


def known_findings(pid):
    p = os.path.join(HERE, "known_findings.json")
    try:
        with open(p) as f:
            d = json.load(f)
    except OSError:
        return []
    return [k for k in d.get("known", []) if k.get("property") == pid]


def run_case(chk, case, mon):
    """Run one case; return None, or ('violation', message, detail)."""

    def onalarm(sig, frame):
        raise Hang("case used more than %g s of CPU" % chk.cpu)

    text = repr(case)
    if "large" in case:
        case = chk.large(case["large"])
    old = signal.signal(signal.SIGVTALRM, onalarm)
    mon.begin(text)
    signal.setitimer(signal.ITIMER_VIRTUAL, chk.cpu)
    try:
        try:
            chk.check(case, mon)
        finally:
            signal.setitimer(signal.ITIMER_VIRTUAL, 0)
            signal.signal(signal.SIGVTALRM, old)
    except Skip:
        mon.ev("(outside the domain)")
    except Violation as e:
        return ("violation", str(e), "")
    except Hang as e:
        return ("hang", "does not terminate: " + str(e),
                "".join(traceback.format_exc(limit=-8)))
    except MemoryError:
        return ("violation", "memory exhausted by a small input", "")
    except RecursionError as e:
        return ("violation", "recursion without end: %r" % e, "")
    except OSError as e:
        if e.errno in (28, 23, 24, 12):       # sandbox trouble, not a verdict
            raise
        return ("violation", "unexpected %r" % e, traceback.format_exc())
    except Exception as e:
        return ("violation", "unexpected %s: %s" % (type(e).__name__, e),
                traceback.format_exc())
    finally:
        mon.clean()
    return None


def import_coral():
    sys.dont_write_bytecode = True
    sys.path.insert(0, REPO)
    import coral
    f = os.path.abspath(coral.__file__)
    if os.path.dirname(f) != CORAL:
        raise SystemExit("coral comes from %s, not from %s" % (f, CORAL))


def worker(pid, tier, seed, w, nw, out):
    resource.setrlimit(resource.RLIMIT_AS, (3 << 30, 3 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    import_coral()
    res = {"n": 0, "seen": [], "events": {}, "violations": [], "samples": [],
           "lines": {}, "slow": 0.0}
    try:
        chk = load(pid)
    except Exception as e:
        # The code under test cannot even be imported.
        tb = traceback.format_exc()
        if CORAL in tb.split("\n  File ")[-1] or isinstance(e, (Violation, ImportError, SyntaxError, NameError, AttributeError)) and CORAL in tb:
            res["violations"].append({"case": None, "message": "import fails: %r" % e,
                                      "detail": tb, "kind": "violation"})
            with open(out, "w") as f:
                json.dump(res, f)
            return
        raise
    cov = Coverage(chk.files)
    cov.start()
    Gen.dic_int, Gen.dic_float, Gen.dic_str = dictionary()
    mon = Monitor(tempfile.mkdtemp(prefix="vf_%s_" % pid, dir=os.path.dirname(out)))
    n = chk.quick if tier == "quick" else chk.thorough
    n = int(n * float(os.environ.get("VF_FRACTION") or 1))    # for the mutation survey
    fixed = list(chk.fixed(tier)) + [{"large": x} for x in chk.larges]
    t0 = time.monotonic()
    limit = chk.wall[tier]
    seen = set()
    done = 0
    cur = os.open(out + ".cur", os.O_CREAT | os.O_WRONLY)
    for i in range(w, len(fixed) + n, nw):
        if time.monotonic() - t0 > limit:
            mon.ev("(stopped by the wall clock)")
            break
        if i < len(fixed):
            case = fixed[i]
        else:
            case = draw_case(chk, pid, seed, i, nw, len(fixed))
        text = repr(case)
        blob = text.encode("utf-8", "surrogatepass")
        os.pwrite(cur, blob, 0)
        os.ftruncate(cur, len(blob))
        c0 = time.process_time()
        v = run_case(chk, case, mon)
        res["slow"] = max(res["slow"], time.process_time() - c0)
        done += 1
        if "large" in case or chk.nontrivial(case):
            seen.add(hashlib.sha1(blob).hexdigest()[:16])
        if len(res["samples"]) < 2 and i >= len(fixed):
            res["samples"].append(str(short(case, 400)))
        if v is not None:
            if v[0] == "hang":
                # Confirm: the same case again, from scratch.
                v2 = run_case(chk, case, mon)
                if v2 is None or v2[0] != "hang":
                    mon.ev("(slow case, not confirmed)")
                    v = v2
            if v is not None:
                res["violations"].append({"case": text, "message": v[1],
                                          "detail": v[2], "kind": v[0],
                                          "run": [tier, seed, w, nw, i]})
                if len(res["violations"]) >= 3 or v[0] == "hang":
                    break
    res["n"] = done
    res["seen"] = sorted(seen)
    res["events"] = mon.events
    res["lines"] = cov.lines()
    shutil.rmtree(mon.base, ignore_errors=True)
    with open(out, "w") as f:
        json.dump(res, f)


def replay(pid, path):
    import_coral()
    with open(path) as f:
        d = json.load(f)
    chk = load(pid)
    if d["case"] is None:
        print("the package could not be imported:", d["message"])
        return 1
    case = ast.literal_eval(d["case"])
    scratch = tempfile.mkdtemp(prefix="vf_replay_")
    try:
        mon = Monitor(scratch)
        if d.get("before"):
            # It takes the cases that ran before it in the same process.
            (tier, seed, w, nw, i), back = d["run"], d["before"]
            Gen.dic_int, Gen.dic_float, Gen.dic_str = dictionary()
            fixed = list(chk.fixed(tier)) + [{"large": x} for x in chk.larges]
            for j in list(range(w, i, nw))[-back:]:
                run_case(chk, fixed[j] if j < len(fixed) else draw_case(chk, pid, seed, j, nw, len(fixed)), mon)
        v = run_case(chk, case, mon)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    if v is None:
        print("the case no longer violates", pid)
        return 0
    print(v[1])
    print(v[2])
    print("VIOLATION property=%s replay=%s" % (pid, path))
    return 1


def main(argv):
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--replay")
    ap.add_argument("--worker", nargs=3)
    ap.add_argument("-j", type=int, default=int(os.environ.get("VF_JOBS", 0)) or (os.cpu_count() or 4))
    a = ap.parse_args(argv)
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    if a.replay:
        return replay(a.property, a.replay)
    if a.worker:
        w, nw, out = a.worker
        worker(a.property, tier, a.seed, int(w), int(nw), out)
        return 0
    return conduct(a.property, tier, a.seed, max(1, min(a.j, 16)))


def conduct(pid, tier, seed, nw):
    t0 = time.monotonic()
    chk = None
    scratch = tempfile.mkdtemp(prefix="vf_%s_" % pid)
    procs = []
    results, trouble = [], []
    try:
        for w in range(nw):
            env = dict(os.environ)
            env["PYTHONHASHSEED"] = str((seed * 31 + w) % 4294967295)
            env["PYTHONDONTWRITEBYTECODE"] = "1"
            env["PYTHONPATH"] = HERE
            env["VF_REPO"] = REPO
            env["LC_ALL"] = "C.UTF-8"
            out = os.path.join(scratch, "w%d.json" % w)
            log = open(os.path.join(scratch, "w%d.log" % w), "w")
            p = subprocess.Popen(
                [sys.executable, os.path.join(HERE, "run.py"), pid, "--tier", tier,
                 "--seed", str(seed), "--worker", str(w), str(nw), out],
                env=env, stdout=log, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL,
                cwd=scratch, start_new_session=True)
            procs.append((p, out, log))
        limit = (800 if tier == "quick" else 4 * 3600)
        for p, out, log in procs:
            left = max(1, limit - (time.monotonic() - t0))
            try:
                rc = p.wait(left)
            except subprocess.TimeoutExpired:
                rc = "timeout"
                trouble.append("worker exceeded the wall-clock watchdog")
            log.close()
            if rc == 0:
                with open(out) as f:
                    results.append(json.load(f))
            elif rc != "timeout":
                with open(log.name, errors="replace") as f:
                    tail = f.read()[-3000:]
                cur = None
                if os.path.exists(out + ".cur"):
                    with open(out + ".cur") as f:
                        cur = f.read()
                # The interpreter itself died: does the case kill a fresh one?
                if isinstance(rc, int) and rc < 0 and cur and rc != -9:
                    again = confirm_crash(pid, cur, scratch)
                    if again is not None:
                        results.append({"n": 1, "seen": [], "events": {}, "samples": [],
                                        "lines": {}, "violations": [
                                            {"case": cur, "kind": "crash", "detail": tail,
                                             "message": "the interpreter died with signal %d" % again}]})
                        continue
                trouble.append("worker ended with %s: %s" % (rc, tail))
    finally:
        for p, _, log in procs:
            if p.poll() is None:
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except OSError:
                    pass
                p.wait()
        shutil.rmtree(scratch, ignore_errors=True)
    import_coral_path_only()
    chk = load_meta(pid)
    return report(pid, chk, tier, seed, results, trouble, time.monotonic() - t0)


def import_coral_path_only():
    sys.dont_write_bytecode = True
    if REPO not in sys.path:
        sys.path.insert(0, REPO)


class _Meta:
    pass


def load_meta(pid):
    """The static description of a check, even when coral does not import."""
    try:
        return load(pid)
    except Exception:
        m = _Meta()
        m.files, m.rule, m.required, m.level = (), "import failed", (), "exploration"
        return m


def confirm_crash(pid, cur, scratch):
    p = os.path.join(scratch, "crash.json")
    with open(p, "w") as f:
        json.dump({"case": cur, "message": ""}, f)
    r = subprocess.run([sys.executable, os.path.join(HERE, "run.py"), pid, "--replay", p],
                       stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL,
                       env=dict(os.environ, PYTHONPATH=HERE, VF_REPO=REPO))
    return -r.returncode if r.returncode < 0 else None


def history(pid, v, path):
    """How many earlier cases it takes to see the violation again: 0, if it
    shows in a fresh process on its own."""
    if v["case"] is None or "run" not in v:
        return
    t0 = time.monotonic()
    tier, seed, w, nw, i = v["run"]
    most = len(range(w, i, nw))
    for back in (0, 1, 8, 64, most):
        if back > most or time.monotonic() - t0 > 60:
            break
        v["before"] = back
        with open(path, "w") as f:
            json.dump(dict(v, property=pid, seed=seed), f, indent=1)
        try:
            r = subprocess.run([sys.executable, os.path.join(HERE, "run.py"), pid, "--replay", path],
                               stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=120,
                               env=dict(os.environ, PYTHONPATH=HERE, VF_REPO=REPO,
                                        PYTHONHASHSEED=str((seed * 31 + w) % 4294967295)))
        except subprocess.TimeoutExpired:
            break
        if r.returncode:
            return
    v["before"] = most


def report(pid, chk, tier, seed, results, trouble, wall):
    seen, events, samples, lines, viol = set(), {}, [], {}, []
    slow = max([r.get("slow", 0.0) for r in results] + [0.0])
    n = 0
    for r in results:
        n += r["n"]
        seen.update(r["seen"])
        for k, v in r["events"].items():
            events[k] = events.get(k, 0) + v
        samples += r["samples"]
        for f, l in r["lines"].items():
            lines.setdefault(f, set()).update(l)
        viol += r["violations"]
    known = known_findings(pid)
    fresh, old = [], {}
    for v in viol:
        k = next((k for k in known if k["match"] in v["message"]), None)
        if k is None:
            fresh.append(v)
        else:
            old.setdefault(k["what"], []).append(v)
    cov = {
        "evaluations": n,
        "distinct_nontrivial": len(seen),
        "rule": chk.rule,
        "samples": samples[:4] or ["(none)"],
        "monitor_events": events,
        "slowest_case_cpu_s": round(slow, 3),
        "lines_of_anchor_files_driven": {
            f: "%d of %d" % (len(l), len(executable_lines(os.path.join(REPO, f))))
            for f, l in sorted(lines.items())},
    }
    ev = {"property": pid, "tier": tier, "seed": seed, "level": chk.level,
          "coverage": cov, "wall_s": round(wall, 2), "violations": len(fresh)}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1, sort_keys=True)
        f.write("\n")
    for what in old:
        print("KNOWN-FINDING: property=%s %s" % (pid, what))
    if fresh:
        d = os.path.join(HERE, "replays")
        os.makedirs(d, exist_ok=True)
        fresh.sort(key=lambda v: len(v["case"] or ""))
        for k, v in enumerate(fresh[:4]):
            path = os.path.join(d, "%s-%d.json" % (pid, k))
            if k == 0:
                history(pid, v, path)
            with open(path, "w") as f:
                json.dump(dict(v, property=pid, seed=seed), f, indent=1)
            print(v["message"][:1500])
            if v["detail"]:
                print(v["detail"][-1500:])
            print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    missing = [e for e in chk.required if not events.get(e)]
    if trouble or missing or n == 0:
        for t in trouble:
            print("INCONCLUSIVE:", t)
        if missing:
            print("INCONCLUSIVE: the monitor never observed", ", ".join(missing))
        return 2
    print("%s held on %d cases (%d distinct), %.1f s, slowest case %.2f s; observed: %s" % (
        pid, n, len(seen), wall, slow,
        ", ".join("%s=%d" % kv for kv in sorted(events.items()))))
    return 0
