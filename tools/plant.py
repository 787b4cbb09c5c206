"""Plants bugs: python3 tools/plant.py SPEC.py [id ...]

SPEC.py holds B = [dict(id, property, file, edits=[(old, new), ...], demo, needs, breaks)].
Confirms that a bug applies to lines of the original sources, that the stable tests pass with it, that its
demonstration tells the two trees apart; stores it under seeded/<id> and says whether the property's check catches it.
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
BASE = "9482272"
DEMO = '#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1\nPYTHONPATH=. exec python3 "$(dirname "$0")/demo.py"\n'


def sh(*a, **k):
    return subprocess.run(a, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def original(path):
    out = sh("git", "-C", REPO, "blame", "-s", "-l", path).stdout.splitlines()
    fixes = set(sh("git", "-C", REPO, "rev-list", BASE + "..HEAD").stdout.split())
    return [l[:40] not in fixes for l in out]


def plant(b):
    d = os.path.join(HERE, "seeded", b["id"])
    wt = tempfile.mkdtemp(prefix="wt_")
    try:
        sh("cp", "-a", REPO + "/.", wt)
        files = {}
        for e in b["edits"]:
            f, old, new = e if len(e) == 3 else (b["file"],) + tuple(e)
            p = os.path.join(wt, f)
            s = open(p, newline="").read()
            if s.count(old) != 1:
                return "edit does not apply once (%d): %r" % (s.count(old), old[:80])
            open(p, "w", newline="").write(s.replace(old, new))
        patch = sh("git", "-C", wt, "diff").stdout
        # removed lines must be original
        bad = []
        f, n, removed = None, 0, 0
        for l in patch.splitlines():
            if l.startswith("--- "):
                f = l[6:]
                orig = original(f)
            elif l.startswith("@@"):
                n = int(l.split()[1].split(",")[0][1:])
            elif l.startswith("-"):
                removed += 1
                if not orig[n - 1]:
                    bad.append(l)
                n += 1
            elif l.startswith("+") or l.startswith("diff") or l.startswith("index"):
                pass
            else:
                n += 1
        if bad:
            return "touches lines of fixes: %s" % bad
        if not removed:
            return "changes no line"
        env = dict(os.environ, PYTHONPATH=wt, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0")
        r = sh("/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "--doctest-modules",
               "--ignore=coral/recipes.py", "tests", "coral", cwd=wt, env=env)
        stable = json.load(open("/opt/vp/BASELINE.json"))["stable"]
        if "%d passed" % len(stable) not in r.stdout:
            return "tests: " + r.stdout[-600:]
        os.makedirs(d, exist_ok=True)
        open(os.path.join(d, "demo.sh"), "w").write(DEMO)
        os.chmod(os.path.join(d, "demo.sh"), 0o755)
        open(os.path.join(d, "demo.py"), "w").write(b["demo"].lstrip("\n"))
        open(os.path.join(d, "patch.diff"), "w").write(patch)
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]},
                  open(os.path.join(d, "meta.json"), "w"), indent=1)
        e2 = {k: v for k, v in os.environ.items() if k != "PYTHONPATH"}
        a = sh("bash", os.path.join(d, "demo.sh"), cwd=REPO, env=e2, timeout=300)
        c = sh("bash", os.path.join(d, "demo.sh"), cwd=wt, env=e2, timeout=300)
        if a.returncode != 0 or c.returncode == 0:
            shutil.rmtree(d)
            return "demo: clean %d %s, planted %d %s" % (a.returncode, a.stdout[-500:], c.returncode, c.stdout[-300:])
        r = sh("python3", os.path.join(HERE, "run.py"), b["property"], cwd=HERE, env=dict(os.environ, VF_REPO=wt))
        v = r.returncode == 1 and "VIOLATION property=" + b["property"] in r.stdout
        return ("CAUGHT " if v else "MISSED (rc %d) " % r.returncode) + (r.stdout.strip().splitlines() or [""])[0][:200]
    finally:
        shutil.rmtree(wt, ignore_errors=True)


def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    for b in ns["B"]:
        if len(sys.argv) > 2 and b["id"] not in sys.argv[2:]:
            continue
        print(b["id"], b["property"], plant(b), flush=True)


main()
