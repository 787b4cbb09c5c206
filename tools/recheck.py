"""Runs the quick check of its property against planted bugs: python3 tools/recheck.py [id ...]

Prints one line for each, "caught" or "MISSED", and writes /tmp/recheck.json.
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def one(name):
    d = os.path.join(HERE, "seeded", name)
    prop = json.load(open(os.path.join(d, "meta.json")))["property"]
    wt = tempfile.mkdtemp(prefix="rc_")
    try:
        subprocess.run(["cp", "-a", "/repo/.", wt], check=True)
        p = subprocess.run(["git", "-C", wt, "apply", os.path.join(d, "patch.diff")], capture_output=True, text=True)
        if p.returncode:
            return name, prop, "does not apply"
        env = dict(os.environ, VF_REPO=wt, VERIF_SEED=os.environ.get("VERIF_SEED", "1"), VERIF_TIER="quick",
                   VF_JOBS=os.environ.get("VF_JOBS", "2"))
        mine = os.path.join(wt, ".vf")      # its own copy, as evidence and replays are rewritten
        shutil.copytree(HERE, mine, ignore=shutil.ignore_patterns(".git", "seeded", "evidence", "replays", "__pycache__"))
        p = subprocess.run([sys.executable, "run.py", prop], cwd=mine, env=env, capture_output=True, text=True)
        ok = p.returncode == 1 and "VIOLATION property=%s " % prop in p.stdout
        return name, prop, "caught" if ok else "MISSED (%d)" % p.returncode
    finally:
        shutil.rmtree(wt)


names = sys.argv[1:] or sorted(os.listdir(os.path.join(HERE, "seeded")))
out = {}
with ThreadPoolExecutor(int(os.environ.get("RC_JOBS", "4"))) as ex:
    for name, prop, res in ex.map(one, names):
        out[name] = [prop, res]
        print(name, prop, res, flush=True)
json.dump(out, open("/tmp/recheck.json", "w"), indent=1)
