"""Mutation survey: python3 tools/mutate.py OUT.jsonl [-f FILE ...] [-s STEP] [-o OFFSET] [--frac F]

Changes one small thing at a time in a scratch copy of /repo, asks the checks whose anchors include the changed file,
and lists the mutants that none of them reports.  Works in a scratch folder; runs the checks with a fraction of the
quick cases first (VF_FRACTION).
"""
import argparse
import ast
import copy
import json
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"

CMP = {ast.Lt: [ast.LtE, ast.GtE], ast.LtE: [ast.Lt, ast.Gt], ast.Gt: [ast.GtE, ast.LtE], ast.GtE: [ast.Gt, ast.Lt],
       ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq], ast.In: [ast.NotIn], ast.NotIn: [ast.In], ast.Is: [ast.IsNot],
       ast.IsNot: [ast.Is]}
BIN = {ast.Add: [ast.Sub], ast.Sub: [ast.Add], ast.Mult: [ast.Div], ast.Div: [ast.Mult, ast.FloorDiv],
       ast.FloorDiv: [ast.Div, ast.Mult], ast.Mod: [ast.Mult], ast.BitAnd: [ast.BitOr], ast.BitOr: [ast.BitAnd],
       ast.LShift: [ast.RShift], ast.RShift: [ast.LShift], ast.BitXor: [ast.BitOr], ast.Pow: [ast.Mult]}
NAMES = {"min": "max", "max": "min", "sin": "cos", "cos": "sin", "floor": "ceil", "ceil": "floor", "any": "all",
         "all": "any", "degrees": "radians", "radians": "degrees", "asin": "sin", "sinh": "cosh", "cosh": "sinh",
         "round": "int", "int": "round", "lstrip": "strip", "rstrip": "strip", "strip": "rstrip", "tell": "seekable",
         "append": "remove", "x0": "x1", "x1": "x0", "y0": "y1", "y1": "y0", "lon": "lat", "lat": "lon",
         "keys": "values", "upper": "lower", "lower": "upper"}


def sites(tree):
    """Yields (description, apply) where apply mutates the tree it was made from."""
    parents = {}
    for n in ast.walk(tree):
        for c in ast.iter_child_nodes(n):
            parents[c] = n
    docs = set()
    for n in ast.walk(tree):
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant) and isinstance(n.value.value, str):
            docs.add(n.value)
    for n in ast.walk(tree):
        at = getattr(n, "lineno", 0)

        def setter(obj, field, val, what):
            old = getattr(obj, field)
            return ("%d: %s" % (at, what), lambda o=obj, f=field, v=val: setattr(o, f, v), lambda o=obj, f=field: setattr(o, f, old))

        if isinstance(n, ast.Compare):
            for i, op in enumerate(n.ops):
                for new in CMP.get(type(op), []):
                    ops = list(n.ops)
                    ops[i] = new()
                    yield setter(n, "ops", ops, "%s: %s -> %s" % (ast.unparse(n), type(op).__name__, new.__name__))
        elif isinstance(n, ast.BinOp):
            for new in BIN.get(type(n.op), []):
                yield setter(n, "op", new(), "%s: %s -> %s" % (ast.unparse(n), type(n.op).__name__, new.__name__))
        elif isinstance(n, ast.AugAssign):
            for new in BIN.get(type(n.op), []):
                yield setter(n, "op", new(), "%s: -> %s" % (ast.unparse(n), new.__name__))
        elif isinstance(n, ast.BoolOp):
            yield setter(n, "op", ast.Or() if isinstance(n.op, ast.And) else ast.And(), "%s: and/or" % ast.unparse(n))
            for i in range(len(n.values)):
                vs = n.values[:i] + n.values[i + 1:]
                yield setter(n, "values", vs if len(vs) > 1 else [vs[0], vs[0]], "%s: drop term %d" % (ast.unparse(n), i))
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.USub, ast.Not)):
            if isinstance(n.op, ast.USub):
                yield setter(n, "op", ast.UAdd(), "%s: sign dropped" % ast.unparse(n))
        elif isinstance(n, ast.Constant) and n not in docs:
            v = n.value
            if v is True or v is False:
                yield setter(n, "value", not v, "%s flipped" % v)
            elif isinstance(v, int):
                yield setter(n, "value", v + 1, "%r -> %r in %s" % (v, v + 1, ast.unparse(parents[n])[:80]))
                yield setter(n, "value", v - 1, "%r -> %r in %s" % (v, v - 1, ast.unparse(parents[n])[:80]))
            elif isinstance(v, float):
                yield setter(n, "value", v * 1.01, "%r * 1.01 in %s" % (v, ast.unparse(parents[n])[:80]))
            elif isinstance(v, str) and v and not isinstance(parents[n], ast.JoinedStr):
                yield setter(n, "value", "", "%r emptied in %s" % (v, ast.unparse(parents[n])[:80]))
                if len(v) > 1:
                    yield setter(n, "value", v[:-1], "%r cut in %s" % (v, ast.unparse(parents[n])[:80]))
        elif isinstance(n, (ast.If, ast.While, ast.IfExp)):
            yield setter(n, "test", ast.UnaryOp(ast.Not(), n.test), "not (%s)" % ast.unparse(n.test))
            if not isinstance(n, ast.While):
                yield setter(n, "test", ast.Constant(True), "if True (%s)" % ast.unparse(n.test))
            yield setter(n, "test", ast.Constant(False), "if False (%s)" % ast.unparse(n.test))
        elif isinstance(n, ast.Call):
            f = n.func
            nm = f.attr if isinstance(f, ast.Attribute) else f.id if isinstance(f, ast.Name) else None
            if nm in NAMES:
                yield setter(f, "attr" if isinstance(f, ast.Attribute) else "id", NAMES[nm], "%s: %s" % (ast.unparse(n)[:80], NAMES[nm]))
            if len(n.args) > 1:
                yield setter(n, "args", n.args[:-1], "%s: last argument dropped" % ast.unparse(n)[:80])
            if len(n.args) == 2:
                yield setter(n, "args", n.args[::-1], "%s: arguments swapped" % ast.unparse(n)[:80])
            for k in range(len(n.keywords)):
                yield setter(n, "keywords", n.keywords[:k] + n.keywords[k + 1:], "%s: keyword %d dropped" % (ast.unparse(n)[:80], k))
        elif isinstance(n, ast.Slice):
            for fld in ("lower", "upper", "step"):
                if getattr(n, fld) is not None:
                    yield setter(n, fld, None, "[%s]: %s dropped" % (ast.unparse(n), fld))
        elif isinstance(n, ast.Attribute) and n.attr in NAMES and not isinstance(parents.get(n), ast.Call):
            yield setter(n, "attr", NAMES[n.attr], "%s -> %s" % (ast.unparse(n), NAMES[n.attr]))
        elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id in NAMES and not isinstance(parents.get(n), ast.Call):
            yield setter(n, "id", NAMES[n.id], "%s -> %s in %s" % (n.id, NAMES[n.id], ast.unparse(parents[n])[:80]))
        for fld in ("body", "orelse", "finalbody"):
            b = getattr(n, fld, None)
            if isinstance(b, list):
                for i, st in enumerate(b):
                    if isinstance(st, (ast.Expr, ast.Assign, ast.AugAssign, ast.Break, ast.Continue, ast.Raise, ast.Delete,
                                       ast.Return, ast.Assert)) and not (isinstance(st, ast.Expr) and st.value in docs):
                        def kill(o=n, f=fld, i=i):
                            getattr(o, f)[i] = ast.copy_location(ast.Pass(), getattr(o, f)[i])

                        def back(o=n, f=fld, i=i, st=st):
                            getattr(o, f)[i] = st
                        yield ("%d: deleted: %s" % (st.lineno, ast.unparse(st)[:90]), kill, back)
                        if isinstance(st, ast.Break):
                            def cont(o=n, f=fld, i=i):
                                getattr(o, f)[i] = ast.copy_location(ast.Continue(), getattr(o, f)[i])
                            yield ("%d: break -> continue" % st.lineno, cont, back)


HELP = '''
import itertools as _it
import functools as _ft
def _cap(v):
    if isinstance(v, bool): return v
    if isinstance(v, int): return max(-40000, min(v, 40000))
    if isinstance(v, (str, bytes)): return v[:80]
    if isinstance(v, (list, tuple)): return v[:300]
    return v
def _r9(v):
    if isinstance(v, float): return float("%.9g" % v)
    if type(v) in (tuple, list): return type(v)(map(_r9, v))
    return v
def _norm(v):
    if isinstance(v, (str, bytes)): return v.strip()
    if type(v) in (list, tuple): return type(v)([x for i, x in enumerate(v) if not i or x != v[i - 1]])
    if isinstance(v, float) and abs(v) < 1e-7: return 0.0
    return v
def _same(v):
    return v
def _isl(v):
    return _it.islice(v, 300)
def _memo(f):
    seen = {}
    @_ft.wraps(f)
    def g(*a, **k):
        key = repr((type(a[0]) if a and hasattr(a[0], "__dict__") else a[:1], a[1:], k))
        if key not in seen:
            seen[key] = f(*a, **k)
        return seen[key]
    return g
'''


NEEDS = {"_r9": {"f", "lf"}, "_cap": {"s", "l", "lf", "i"}, "_norm": {"s", "l", "lf", "f"}}


def narrow(tree, types=None):
    """Changes that show themselves for few inputs: limits, roundings, caches, equal values taken for one.
    types: what was seen at each place, if known."""
    types = types or {}
    docs = {n.value for n in ast.walk(tree) if isinstance(n, ast.Expr)}
    for n in ast.walk(tree):
        at = getattr(n, "lineno", 0)

        def wrap(obj, field, fn):
            old = getattr(obj, field)
            new = ast.Call(ast.Name(fn, ast.Load()), [old], [])
            return ("%d: %s(%s)" % (at, fn, ast.unparse(old)[:90]), lambda: setattr(obj, field, new), lambda: setattr(obj, field, old))

        if isinstance(n, (ast.Assign, ast.AugAssign, ast.Return, ast.Yield)) and n.value is not None \
                and not isinstance(n.value, (ast.Constant, ast.Compare, ast.Lambda)):
            seen = types.get("%d: %s" % (at, ast.unparse(n.value)[:90]))
            for fn in ("_cap", "_r9", "_norm"):
                if seen is None or NEEDS[fn] & set(seen):
                    yield wrap(n, "value", fn)
        elif isinstance(n, ast.For):
            yield wrap(n, "iter", "_isl")
        elif isinstance(n, ast.comprehension):
            at = n.iter.lineno
            yield wrap(n, "iter", "_isl")
        elif isinstance(n, ast.FunctionDef) and n.name != "__init__" and n.args.args and n.args.args[0].arg == "self":
            old = n.decorator_list
            if not old:
                yield ("%d: memo %s" % (at, n.name), lambda n=n: setattr(n, "decorator_list", [ast.Name("_memo", ast.Load())]),
                       lambda n=n: setattr(n, "decorator_list", []))
        elif isinstance(n, ast.Compare) and len(n.ops) == 1:
            ops, cs, l = n.ops, n.comparators, n.left
            if isinstance(ops[0], (ast.Is, ast.IsNot)):
                # "not x" as "(not x) == True"
                def go(n=n, l=l, t=isinstance(ops[0], ast.Is)):
                    n.left, n.ops, n.comparators = ast.UnaryOp(ast.Not(), l), [ast.Eq()], [ast.Constant(t)]

                def un(n=n, l=l, ops=ops, cs=cs):
                    n.left, n.ops, n.comparators = l, ops, cs
                yield ("%d: falsy %s" % (at, ast.unparse(n)), go, un)
            elif isinstance(ops[0], (ast.Lt, ast.LtE, ast.Gt, ast.GtE, ast.Eq, ast.NotEq)):
                seen = types.get("%d: C %s" % (at, ast.unparse(n)))
                for fn in ("_r9", "_cap", "_norm"):
                    if seen is not None and not NEEDS[fn] & set(seen):
                        continue

                    def go(n=n, l=l, cs=cs, fn=fn):
                        n.left = ast.Call(ast.Name(fn, ast.Load()), [l], [])
                        n.comparators = [ast.Call(ast.Name(fn, ast.Load()), [cs[0]], [])]

                    def un(n=n, l=l, cs=cs):
                        n.left, n.comparators = l, cs
                    yield ("%d: %s compare %s" % (at, fn, ast.unparse(n)), go, un)
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("list", "dict", "set") and len(n.args) == 1:
            f, a = n.func, n.args
            yield ("%d: not copied %s" % (at, ast.unparse(n)), lambda n=n: setattr(n, "func", ast.Name("_same", ast.Load())),
                   lambda n=n, f=f: setattr(n, "func", f))


def checks_for():
    sys.path.insert(0, HERE)
    os.environ.setdefault("VF_REPO", REPO)
    from vf import core
    sys.path.insert(0, REPO)
    out = {}
    for i in range(1, 100):
        try:
            c = core.load("C%02d" % i)
        except BaseException:
            continue
        for f in c.files:
            out.setdefault(f, []).append(("C%02d" % i))
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("out")
    ap.add_argument("-f", nargs="*")
    ap.add_argument("-s", type=int, default=1)
    ap.add_argument("-o", type=int, default=0)
    ap.add_argument("--frac", default="0.1")
    ap.add_argument("--only", help="a file of earlier results: only its survivors")
    ap.add_argument("--narrow", action="store_true", help="limits, roundings, caches instead of the usual changes")
    ap.add_argument("--types", help="JSON: file -> place -> types seen")
    ap.add_argument("-p", type=int, default=8)
    a = ap.parse_args()
    table = checks_for()
    todo = []
    types = json.load(open(a.types)) if a.types else {}
    only = None
    if a.only:
        only = {(d["file"], d["what"], d["k"]) for d in map(json.loads, open(a.only)) if not d["by"]}
    for f in a.f or sorted(x for x in table if x.endswith(".py")):
        src = open(os.path.join(REPO, f), encoding="utf8").read()
        tree = ast.parse(src)
        base = ast.unparse(tree)
        for k, (what, ap_, undo) in enumerate(list(narrow(tree, types.get(f)) if a.narrow else sites(tree))):
            if k % a.s != a.o % a.s:
                continue
            if only is not None and (f, what, k) not in only:
                continue
            ap_()
            try:
                new = ast.unparse(ast.fix_missing_locations(tree))
                compile(new, f, "exec")
            except Exception:
                continue
            finally:
                undo()
            if new != base and a.narrow:
                new = HELP + new
            if new != base:
                todo.append((f, k, what, new))
    print(len(todo), "mutants", flush=True)
    root = tempfile.mkdtemp(prefix="mut_", dir="/tmp/mut")
    os.chmod(root, 0o755)
    pool = []
    for i in range(a.p):
        d = os.path.join(root, "w%d" % i)
        os.makedirs(d)
        subprocess.run(["cp", "-a", REPO, os.path.join(d, "repo")], check=True)
        subprocess.run(["cp", "-a", os.path.join(HERE, "vf"), os.path.join(HERE, "run.py"), os.path.join(HERE, "known_findings.json"), d], check=True)
        os.makedirs(os.path.join(d, "tmp"))
        subprocess.run(["chown", "-R", "nobody", d], check=True)
        pool.append(d)
    res = open(a.out, "w")

    def one(m):
        f, k, what, new = m
        d = pool.pop()
        p = os.path.join(d, "repo", f)
        with open(p, encoding="utf8") as h:
            old = h.read()
        by = None
        try:
            with open(p, "w", encoding="utf8") as h:
                h.write(new)
            for c in sorted((c for c in table[f] if not a.narrow or c not in ("C44", "C40", "C41") or len(table[f]) < 4), key=lambda c: (c in ("C40", "C41"), c)):
                env = dict(os.environ, VF_REPO=os.path.join(d, "repo"), VF_JOBS="1", VF_FRACTION=a.frac, TMPDIR=os.path.join(d, "tmp"), HOME=d)
                try:
                    r = subprocess.run(["setpriv", "--reuid=65534", "--regid=65534", "--clear-groups", "timeout", "-k", "5", "300", "python3", os.path.join(d, "run.py"), c],
                                       env=env, cwd=os.path.join(d, "tmp"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
                except Exception as e:
                    continue
                if r.returncode == 1 and "VIOLATION property=" + c in r.stdout:
                    by = c
                    break
        finally:
            with open(p, "w", encoding="utf8") as h:
                h.write(old)
            subprocess.run("rm -rf '%s'/tmp/*" % d, shell=True)
            pool.append(d)
        res.write(json.dumps({"file": f, "k": k, "what": what, "by": by}) + "\n")
        res.flush()

    with ThreadPoolExecutor(a.p) as ex:
        list(ex.map(one, todo))
    shutil.rmtree(root, ignore_errors=True)


main()
