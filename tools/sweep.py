"""Development aid: random one-point edits of the package; those that keep the stable tests passing go to the checks.

usage: sweep.py SEED COUNT OUT.json [file-substring]     prints the survivors no check reports
"""
import ast
import copy
import json
import os
import random
import shutil
import subprocess
import sys
import tempfile
import xml.etree.ElementTree as ET
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
STABLE = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
SRC = "/repo/src/upstage_des"
SWAP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.In: ast.NotIn, ast.NotIn: ast.In,
        ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult, ast.And: ast.Or, ast.Or: ast.And}
SLOW = {"C30", "C28", "C29", "C39"}


def sites(tree):
    """(path of the node from the root, kind) of every place an edit applies to"""
    out = []

    def go(n, path, fn):
        if isinstance(n, (ast.FunctionDef,)):
            if any("overload" in ast.unparse(d) for d in n.decorator_list) or n.name in ("__repr__", "__str__"):
                return
            fn = n.name
        if isinstance(n, (ast.Raise, ast.JoinedStr, ast.Assert)):
            return
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
            return
        if isinstance(n, ast.Call) and ast.unparse(n.func) in ("warn", "cast"):
            return
        if fn:
            line = getattr(n, "lineno", 0)
            if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in SWAP:
                out.append((path, "cmp", fn, line))
                if isinstance(n.ops[0], (ast.Is, ast.IsNot)) and isinstance(n.comparators[0], ast.Constant):
                    out.append((path, "truth", fn, line))
            if isinstance(n, ast.BinOp) and type(n.op) in SWAP:
                out.append((path, "bin", fn, line))
            if isinstance(n, ast.BoolOp):
                out.extend([(path, "bool", fn, line), (path, "first", fn, line), (path, "last", fn, line)])
            if isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.USub)):
                out.append((path, "unary", fn, line))
            if isinstance(n, ast.Constant) and (isinstance(n.value, (bool, int, float))):
                out.append((path, "const", fn, line))
            if isinstance(n, (ast.Expr, ast.AugAssign, ast.Assign, ast.Delete, ast.Continue, ast.Break)):
                out.append((path, "drop", fn, line))
            if isinstance(n, (ast.If,)):
                out.extend([(path, "iftrue", fn, line), (path, "iffalse", fn, line)])
            if isinstance(n, ast.Call):
                if n.keywords and any(k.arg for k in n.keywords):
                    out.append((path, "kwdrop", fn, line))
                if len(n.args) >= 2:
                    out.append((path, "argswap", fn, line))
                if isinstance(n.func, ast.Name) and n.func.id in ("min", "max", "any", "all", "sorted", "list", "deepcopy", "copy", "reversed", "set"):
                    out.append((path, "call", fn, line))
            if isinstance(n, ast.Return) and n.value is not None and not (isinstance(n.value, ast.Constant) and n.value.value is None):
                out.append((path, "ret", fn, line))
        for f, v in ast.iter_fields(n):
            if f in ("annotation", "returns", "decorator_list", "type_params", "bases"):
                continue
            if isinstance(v, list):
                for i, x in enumerate(v):
                    if isinstance(x, ast.AST):
                        go(x, path + ((f, i),), fn)
            elif isinstance(v, ast.AST):
                go(v, path + ((f, None),), fn)
    go(tree, (), None)
    return out


def get(tree, path):
    n = tree
    for f, i in path:
        n = getattr(n, f) if i is None else getattr(n, f)[i]
    return n


def put(tree, path, new):
    p = get(tree, path[:-1])
    f, i = path[-1]
    if i is None:
        setattr(p, f, new)
    else:
        getattr(p, f)[i] = new


def apply(tree, path, kind, rnd):
    n = get(tree, path)
    if kind == "cmp":
        n.ops[0] = SWAP[type(n.ops[0])]()
    elif kind == "truth":
        put(tree, path, n.left if isinstance(n.ops[0], ast.IsNot) else ast.UnaryOp(ast.Not(), n.left))
    elif kind == "bin":
        n.op = SWAP[type(n.op)]()
    elif kind == "bool":
        n.op = SWAP[type(n.op)]()
    elif kind in ("first", "last"):
        n.values = n.values[1:] if kind == "first" else n.values[:-1]
        if len(n.values) == 1:
            put(tree, path, n.values[0])
    elif kind == "unary":
        put(tree, path, n.operand)
    elif kind == "const":
        put(tree, path, ast.Constant(not n.value if isinstance(n.value, bool) else n.value + 1))
    elif kind == "drop":
        put(tree, path, ast.Pass())
    elif kind in ("iftrue", "iffalse"):
        n.test = ast.Constant(kind == "iftrue")
    elif kind == "kwdrop":
        ks = [k for k in n.keywords if k.arg]
        n.keywords.remove(rnd.choice(ks))
    elif kind == "argswap":
        i = rnd.randrange(len(n.args) - 1)
        n.args[i], n.args[i + 1] = n.args[i + 1], n.args[i]
    elif kind == "call":
        o = {"min": "max", "max": "min", "any": "all", "all": "any"}.get(n.func.id)
        if o:
            n.func.id = o
        else:
            put(tree, path, n.args[0] if n.args else n)
    elif kind == "ret":
        n.value = ast.Constant(None)
    return ast.unparse(ast.fix_missing_locations(tree))


def one(m):
    d = tempfile.mkdtemp(prefix="sweep")
    try:
        shutil.copytree("/repo/src", d + "/src", ignore=shutil.ignore_patterns("__pycache__"))
        for x in ("pyproject.toml", "docs", "README.md"):
            if os.path.isdir("/repo/" + x):
                os.symlink("/repo/" + x, d + "/" + x)
            elif os.path.exists("/repo/" + x):
                shutil.copy("/repo/" + x, d + "/" + x)
        open(d + "/src/upstage_des/" + m["file"], "w").write(m["text"])
        env = {**os.environ, "PYTHONPATH": d + "/src", "PYTHONDONTWRITEBYTECODE": "1", "PYTHONHASHSEED": "0"}
        try:
            subprocess.run([PY, "-m", "pytest", "src/upstage_des", "-q", "-o", "addopts=", "-p", "no:cacheprovider", "--timeout=60", "-o", "junit_family=xunit2",
                            f"--junitxml={d}/j.xml"], cwd=d, env=env, capture_output=True, timeout=120)
            ok = {f"{t.get('classname')}::{t.get('name')}" for t in ET.parse(d + "/j.xml").iter("testcase")
                  if not any(c.tag in ("failure", "error", "skipped") for c in t)}
        except Exception:
            return "killed"
        if STABLE - ok:
            return "killed"
        props = sorted(x["property"] for x in json.load(open(HERE + "/MANIFEST.json"))["checks"])
        near = []
        for p in props:
            try:
                fs = json.load(open(f"{HERE}/evidence/{p}.json"))["coverage"]["functions_analysed"]
            except OSError:
                fs = [m["mod"]]
            if any(str(f).split(":")[0] == m["mod"] for f in fs):
                near.append((0 if any(f"{f}.".rsplit(".", 2)[-2].split(":")[-1] == m["fn"] for f in map(str, fs)) else 1, p))
            elif p in ("C34", "C36", "C33"):
                near.append((2, p))
        props = [p for _, p in sorted(near)]
        props = [p for p in props if p not in SLOW or m["file"].startswith(("motion", "geography"))]
        for p in props:
            try:
                r = subprocess.run([sys.executable, HERE + "/check.py", p, "--repo", d, "--no-write"], capture_output=True, text=True, timeout=400)
                if r.returncode:
                    return f"{p} rc={r.returncode}"
            except subprocess.TimeoutExpired:
                return f"{p} timeout"
        return "MISSED"
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    seed, count, out = int(sys.argv[1]), int(sys.argv[2]), sys.argv[3]
    sub = sys.argv[4] if len(sys.argv) > 4 else ""
    rnd = random.Random(seed)
    todo = []
    for dp, dn, fs in os.walk(SRC):
        dn[:] = [x for x in dn if x not in ("test", "__pycache__")]
        for f in sorted(fs):
            rel = os.path.relpath(os.path.join(dp, f), SRC)
            if f.endswith(".py") and f not in ("_version.py", "type_help.py") and sub in rel:
                tree = ast.parse(open(os.path.join(dp, f)).read())
                todo += [(rel, tree, *s) for s in sites(tree)]
    print(len(todo), "sites", flush=True)
    todo.sort(key=lambda t: (t[0], str(t[2]), t[3]))
    rnd.shuffle(todo)
    ms = []
    for rel, tree, path, kind, fn, line in todo[:count]:
        t = copy.deepcopy(tree)
        before = ast.unparse(t)
        try:
            text = apply(t, path, kind, rnd)
            compile(text, rel, "exec")
        except Exception:
            continue
        if text == before:
            continue
        ch = [(a, b) for a, b in zip(before.splitlines(), text.splitlines()) if a != b][:1] or [("", "")]
        ms.append(dict(file=rel, mod=rel[:-3].replace("/", ".").removesuffix(".__init__"), fn=fn, line=line, kind=kind, text=text, was=ch[0][0].strip(), now=ch[0][1].strip()))
    res = []

    def run(m):
        m["result"] = one(m)
        m.pop("text")
        res.append(m)
        if m["result"] == "MISSED":
            print(f"MISSED {m['file']}:{m['line']} {m['fn']} [{m['kind']}] {m['was'][:110]}  =>  {m['now'][:110]}", flush=True)
        json.dump(res, open(out, "w"), indent=0)
    with ThreadPoolExecutor(7) as ex:
        list(ex.map(run, ms))
    k = sum(m["result"] == "killed" for m in res)
    miss = sum(m["result"] == "MISSED" for m in res)
    print(f"{len(res)} edits, {k} fail the tests, {len(res) - k - miss} reported, {miss} missed")


if __name__ == "__main__":
    main()
