"""Development aid: run checks against textual edits of a scratch copy of the sources.

usage: mut.py FILE.py   where FILE.py defines
  BUGS = [(prop, file, old, new), ...]      each must be reported by that property's check
  SAME = [(props, file, old, new), ...]     behaviour kept: no listed check may report
file is relative to src/upstage_des; old must occur exactly once ("@n:" prefix picks the n-th).
"""
import os
import runpy
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def edit(root, f, old, new):
    p = os.path.join(root, "src/upstage_des", f)
    s = open(p).read()
    k = None
    if old.startswith("@"):
        k, old = old[1:].split(":", 1)
        k = int(k)
    n = s.count(old)
    if k is None:
        assert n == 1, (f, old[:60], n)
        s = s.replace(old, new)
    else:
        i = -1
        for _ in range(k):
            i = s.index(old, i + 1)
        s = s[:i] + new + s[i + len(old):]
    open(p, "w").write(s)


def run(item, kind):
    props, f, old, new = item[:4]
    d = tempfile.mkdtemp(prefix="mut")
    try:
        shutil.copytree("/repo/src", d + "/src", ignore=shutil.ignore_patterns("test", "__pycache__"))
        try:
            edit(d, f, old, new)
            for i in range(4, len(item), 2):
                edit(d, f, item[i], item[i + 1])
            compile(open(os.path.join(d, "src/upstage_des", f)).read(), f, "exec")
        except Exception as e:
            return f"BADEDIT {f}: {e!r}"
        out = []
        for p in props.split():
            r = subprocess.run([sys.executable, os.path.join(HERE, "check.py"), p, "--repo", d, "--no-write"], capture_output=True, text=True)
            msg = [l for l in r.stdout.splitlines() if "[" in l or "BROKEN" in l][:1]
            if kind == "bug":
                out.append(f"{'caught ' if r.returncode == 1 else 'MISSED rc=%d' % r.returncode} {p} {f}: {new.strip()[:60]!r} {msg[0].strip()[:150] if msg else ''}")
            else:
                out.append(f"{'quiet  ' if r.returncode == 0 else 'ALARM rc=%d' % r.returncode} {p} {f}: {new.strip()[:60]!r} {msg[0].strip()[:200] if msg else ''}")
        return "\n".join(out)
    finally:
        shutil.rmtree(d)


if __name__ == "__main__":
    ns = runpy.run_path(sys.argv[1])
    only = set(sys.argv[2:])
    jobs = [(b, "bug") for b in ns.get("BUGS", [])] + [(b, "same") for b in ns.get("SAME", [])]
    if only - {"-q", "-v"}:
        jobs = [j for j in jobs if set(j[0][0].split()) & only]
    with ThreadPoolExecutor(8) as ex:
        res = list(ex.map(lambda j: run(*j), jobs))
    bad = [r for r in res if any(w in r for w in ("MISSED", "ALARM", "BADEDIT"))]
    if "-v" in only or not bad:
        pass
    for r in res:
        if "-q" not in only or r in bad:
            print(r)
    print(len(res), "edits,", len(bad), "not as wanted")
