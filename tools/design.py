"""Writes DESIGN.md: the head, a section for each property, the tail.  Run by hand."""
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from vf import core                                    # noqa: E402

core.import_coral_path_only()
src = open(os.path.join(HERE, "tools", "describe.py")).read()
ns = {"__file__": os.path.join(HERE, "tools", "describe.py"), "__name__": "describe"}
exec(compile(src, "describe.py", "exec"), ns)
out = [open(os.path.join(HERE, "tools", "design_head.md")).read(), "\n## How each property is decided\n"]
for p in ns["P"]:
    c = core.load(p["id"])
    out.append("\n### %s – %s\n\n*Decided by* %s.\n*Workload:* %s.\n*Domain:* %s\n*Observed at:* %s (anchors: %s).\n"
               "*Cases:* %d quick, up to %d thorough.  *Required events:* %s.\n*Beyond the tests:* %s\n" % (
                   p["id"], p["title"], p["technique"], c.rule, p["domain"], "; ".join(p["observe"]), ", ".join(p["files"]),
                   c.quick, c.thorough, ", ".join(c.required), p["tests"]))
tail = os.path.join(HERE, "tools", "design_tail.md")
if os.path.exists(tail):
    out.append("\n" + open(tail).read())
import glob                                            # noqa: E402
import json                                            # noqa: E402
by = {}
for f in sorted(glob.glob(os.path.join(HERE, "seeded", "*", "meta.json"))):
    by.setdefault(json.load(open(f))["property"], []).append(os.path.basename(os.path.dirname(f)))
out.append("\n## Which check catches which planted bug\n\n")
for k in sorted(by):
    out.append("* **%s**: %s\n" % (k, ", ".join(by[k])))
with open(os.path.join(HERE, "DESIGN.md"), "w") as f:
    f.write("".join(out))
