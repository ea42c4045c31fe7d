"""Check framework: findings, obligations, evidence, known findings."""
from __future__ import annotations

import json
import os
import sys
import time
import traceback

from .engine import Cfg, Ev, Path, Walker
from .model import AnalysisBroken, Class, Func, Program

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")


class Ctx:
    """One check run."""

    def __init__(self, prop: str, prog: Program, tier: str):
        self.prop = prop
        self.prog = prog
        self.tier = tier
        self.findings: list[dict] = []
        self.obligations: list[dict] = []
        self.functions: set[str] = set()
        self.paths_n = 0
        self.rules: dict[str, dict] = {}
        self.cache: dict = {}
        with open(os.path.join(VERIF, "vstat", "known_functions.json")) as fh:
            self.known = set(json.load(fh))

    # -- analysis -----------------------------------------------------------
    def paths(self, func: Func, cls: Class | None = None, **cfg) -> list[Path]:
        c = Cfg(**cfg)
        w = Walker(self.prog, c, self.known)
        ps = w.run(func, cls or func.cls)
        self.functions.add(func.qual)
        self.functions |= w.inlined
        self.paths_n += len(ps)
        if not ps:
            raise AnalysisBroken(f"no path through {func.qual}")
        return ps

    # -- reporting ------------------------------------------------------------
    def rule(self, rid: str, text: str, min_sites: int = 1):
        r = self.rules.setdefault(rid, {"rule": rid, "text": text, "sites": 0, "min": min_sites})
        r["min"] = min_sites
        return r

    def ok(self, rid: str, construct: str, n: int = 1):
        self.rules[rid]["sites"] += n
        self.obligations.append({"rule": rid, "construct": construct, "ok": True})

    def bad(self, rid: str, construct: str, msg: str, loc: str = "", path: Path | None = None):
        self.rules[rid]["sites"] += 1
        self.obligations.append({"rule": rid, "construct": construct, "ok": False})
        key = f"{rid}:{construct}"
        if any(f["key"] == key for f in self.findings):
            return
        self.findings.append({"key": key, "rule": rid, "construct": construct, "message": msg, "location": loc,
                              "path": path.dump() if path is not None else ""})

    def check(self, cond, rid, construct, msg, loc="", path=None):
        if cond:
            self.ok(rid, construct)
        else:
            self.bad(rid, construct, msg, loc, path)
        return cond

    def each_path(self, rid, construct, func, paths, pred, msg):
        """pred(path) -> None when fine, else text / (text, loc)."""
        for p in paths:
            r = pred(p)
            if r:
                txt, loc = r if isinstance(r, tuple) else (r, func.loc)
                self.bad(rid, construct, f"{msg}: {txt}", loc, p)
                return False
        self.ok(rid, construct)
        return True


REGISTRY: dict = {}


def prop(pid: str):
    def deco(fn):
        REGISTRY[pid] = fn
        return fn

    return deco


def load_known() -> list[dict]:
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as fh:
        return json.load(fh)["findings"]


def run_check(pid: str, tier: str, repo: str = REPO, quiet: bool = False, write: bool = True) -> int:
    t0 = time.time()
    ctx = None
    broken = None
    try:
        prog = Program(repo)
        ctx = Ctx(pid, prog, tier)
        REGISTRY[pid](ctx)
        for r in ctx.rules.values():
            if r["sites"] < r["min"]:
                raise AnalysisBroken(f"rule {r['rule']} matched {r['sites']} sites, fewer than the {r['min']} confirmed")
    except AnalysisBroken as e:
        broken = str(e)
    except Exception:
        broken = "internal error\n" + traceback.format_exc()
    known = [k for k in load_known() if k["property"] == pid and k.get("status", "open") == "open"]
    kkeys = {k["key"]: k for k in known}
    viol = [f for f in ctx.findings if f["key"] not in kkeys] if ctx is not None else []
    if broken is not None:
        print(f"ANALYSIS-BROKEN property={pid} {broken}")
        if not viol:    # what was decided before stays decided
            return 2
    supp = [f for f in ctx.findings if f["key"] in kkeys]
    rc = 0
    outdir = os.path.join(VERIF, "evidence", "reports")
    for f in supp:
        print(f"KNOWN-FINDING: property={pid} {kkeys[f['key']]['what']}")
    if viol:
        rc = 1
        os.makedirs(outdir, exist_ok=True)
        rp = os.path.join(outdir, f"{pid}.txt")
        with open(rp if write else os.devnull, "w") as fh:
            for f in viol:
                fh.write(f"[{f['rule']}] {f['construct']} at {f['location']}\n  {f['message']}\n  rule: {ctx.rules[f['rule']]['text']}\n{f['path']}\n\n")
        for f in viol:
            print(f"  {f['location']}: [{f['rule']}] {f['construct']}: {f['message']}")
        print(f"VIOLATION property={pid} replay={rp}")
    n_ok = sum(o["ok"] for o in ctx.obligations)
    ev = {
        "property": pid,
        "tier": tier,
        "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
        "level": "other",
        "coverage": {
            "explanation": "static analysis of the current source: every listed function was walked path by path "
                           "(helpers inlined) and every rule instance decided on all of its paths",
            "modules": len(prog.modules),
            "functions_analysed": sorted(ctx.functions),
            "paths": ctx.paths_n,
            "rules": [{"rule": r["rule"], "text": r["text"], "instances": r["sites"]} for r in ctx.rules.values()],
            "obligations": len(ctx.obligations),
            "obligations_met": n_ok,
            "source_digest": prog.digest.hexdigest(),
        },
        "assumptions": [
            "calls outside the package (simpy, standard library) have their documented effects",
            "loops are walked for a bounded number of iterations; the rules decided on them are per-iteration",
            "user subclasses obey the documented override contracts",
        ],
        "violations": [{"rule": f["rule"], "construct": f["construct"], "location": f["location"], "message": f["message"]} for f in viol],
        "known_findings": [f["key"] for f in supp],
        "wall_s": round(time.time() - t0, 3),
    }
    if write:
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", f"{pid}.json"), "w") as fh:
            json.dump(ev, fh, indent=1)
    if not quiet:
        print(f"{pid}: {len(prog.modules)} modules, {len(ctx.functions)} functions, {ctx.paths_n} paths, "
              f"{len(ctx.rules)} rules, {n_ok}/{len(ctx.obligations)} obligations met, {time.time() - t0:.1f}s")
    return rc
