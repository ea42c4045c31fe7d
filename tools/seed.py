"""Development aid: turn planted-bug specs (tools/seeds/*.py) into seeded/<id>/ after confirming each in a scratch copy.

usage: seed.py FILE.py [ID...]    SEEDS = [dict(id, prop, edits=[(file, old, new)...], demo, needs, breaks)]
"""
import json
import os
import runpy
import shutil
import subprocess
import sys
import tempfile
import xml.etree.ElementTree as ET
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "tools"))
from mut import edit  # noqa
PY = "/opt/venv/bin/python"
DEMO = '#!/bin/bash\n# run with cwd /repo (after the build); exit 0 when the property holds\nexport PYTHONPATH="$PWD/src" PYTHONDONTWRITEBYTECODE=1\nexec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n'
BASE = subprocess.run(['git', '-C', '/repo', 'rev-list', '--max-parents=0', 'HEAD'], capture_output=True, text=True).stdout.strip()[:38]
STABLE = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])


def one(s):
    out = os.path.join(HERE, "seeded", s["id"])
    d = tempfile.mkdtemp(prefix="seed")
    repo = d + "/repo"
    try:
        subprocess.run(["cp", "-a", "/repo", repo], check=True)
        os.makedirs(d + "/demo")
        open(d + "/demo/demo.sh", "w").write(DEMO)
        open(d + "/demo/demo.py", "w").write(s["demo"])
        env = {**os.environ, "PYTHONPATH": repo + "/src", "PYTHONDONTWRITEBYTECODE": "1"}

        def demo():
            r = subprocess.run(["bash", d + "/demo/demo.sh"], cwd=repo, capture_output=True, text=True, timeout=200)
            return r.returncode, (r.stdout + r.stderr)[-600:]
        rc, o = demo()
        if rc != 0:
            return f"{s['id']}: demo fails on the clean tree: {o}"
        for f, old, new in s["edits"]:
            edit(repo, f, old, new)
        rc, o = demo()
        if rc == 0:
            return f"{s['id']}: demo passes with the patch: {o}"
        diff = subprocess.run(["git", "diff"], cwd=repo, capture_output=True, text=True).stdout
        orig = 0
        fn = ln = None
        for x in diff.splitlines():
            if x.startswith("--- a/"):
                fn = x[6:]
            elif x.startswith("@@"):
                ln = int(x.split()[1].split(",")[0][1:])
            elif x.startswith("-") and fn and ln:
                b = subprocess.run(["git", "blame", "-l", "-L", f"{ln},{ln}", "HEAD", "--", fn], cwd=repo, capture_output=True, text=True).stdout
                orig += b.lstrip("^").startswith(BASE) and x[1:].strip() != ""
                ln += 1
            elif x.startswith(" "):
                ln += 1 if ln else 0
        if not orig:
            return f"{s['id']}: changes no original line"
        subprocess.run([PY, "-m", "pytest", "src/upstage_des", "-q", "-o", "addopts=", "-p", "no:cacheprovider", "--timeout=300",
                        "-o", "junit_family=xunit2", f"--junitxml={d}/j.xml"], cwd=repo, env={**env, "PYTHONHASHSEED": "0"}, capture_output=True)
        ok = {f"{t.get('classname')}::{t.get('name')}" for t in ET.parse(d + "/j.xml").iter("testcase")
              if not any(c.tag in ("failure", "error", "skipped") for c in t)}
        miss = STABLE - ok
        if miss:
            return f"{s['id']}: breaks {len(miss)} stable tests: {sorted(miss)[:3]}"
        r = subprocess.run([sys.executable, os.path.join(HERE, "check.py"), s["prop"], "--repo", repo, "--no-write"], capture_output=True, text=True)
        shutil.rmtree(out, ignore_errors=True)
        os.makedirs(out)
        open(out + "/patch.diff", "w").write(diff)
        open(out + "/demo.sh", "w").write(DEMO)
        os.chmod(out + "/demo.sh", 0o755)
        open(out + "/demo.py", "w").write(s["demo"])
        json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(out + "/meta.json", "w"), indent=1)
        msg = [x for x in r.stdout.splitlines() if "[" in x or "BROKEN" in x][:1]
        return f"{s['id']}: kept; {'CAUGHT' if r.returncode == 1 else 'missed rc=%d' % r.returncode} {msg[0].strip()[:160] if msg else ''}"
    except Exception as e:
        return f"{s['id']}: {e!r}"
    finally:
        shutil.rmtree(d)


if __name__ == "__main__":
    seeds = runpy.run_path(sys.argv[1])["SEEDS"]
    only = set(sys.argv[2:])
    with ThreadPoolExecutor(6) as ex:
        for r in ex.map(one, [s for s in seeds if not only or s["id"] in only]):
            print(r)
