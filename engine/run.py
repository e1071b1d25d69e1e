"""Runner: python run.py C01 [--tier quick|thorough] [--replay FILE] [--case NAME]"""
from __future__ import annotations

import argparse
import importlib.util
import json
import multiprocessing as mp
import os
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)
os.environ.setdefault("MPLBACKEND", "Agg")
os.environ.setdefault("OMP_NUM_THREADS", "1")
sys.dont_write_bytecode = True


class Case:
    def __init__(self, name, body, cfg=None, bounds=None, **opts):
        self.name = name
        self.body = body
        self.cfg = cfg or {}
        self.bounds = bounds or ""
        self.opts = opts


def load_check(pid):
    p = os.path.join(VERIF, "checks", pid + ".py")
    spec = importlib.util.spec_from_file_location("check_" + pid, p)
    m = importlib.util.module_from_spec(spec)
    sys.modules["check_" + pid] = m
    spec.loader.exec_module(m)
    return m


_MOD = None
_CASES = None
_SEED = 1


def _init_worker():
    import torch
    torch.set_num_threads(1)


def run_case(i):
    from engine import explore, solver, symt
    import torch
    torch.set_num_threads(1)
    c = _CASES[i]
    t0 = time.time()
    solver.STATS.__init__()
    symt.UNSUPPORTED.clear()
    try:
        custom = c.opts.get("runner")
        if custom is not None:
            res = custom(c, _SEED)
            res.setdefault("case", c.name)
            res["wall_s"] = round(time.time() - t0, 3)
            res.setdefault("solver", solver.STATS.as_dict())
            return res
        ex = explore.Explorer(c.body, c.cfg, c.opts, seed=_SEED)
        ex.run()
        if symt.UNSUPPORTED:
            ex.inconclusive.append(f"concretised operations: {dict(symt.UNSUPPORTED)}")
        if ex.counts["truncated"]:
            ex.inconclusive.append("value enumeration truncated")
        if ex.counts["paths"] == 0:
            ex.inconclusive.append("vacuous: no path reached the end")
        return dict(case=c.name, counts=ex.counts, violations=ex.violations,
                    inconclusive=ex.inconclusive, solver=solver.STATS.as_dict(),
                    functions=sorted(ex.functions), samples=ex.samples,
                    wall_s=round(time.time() - t0, 3))
    except BaseException as e:  # noqa: BLE001
        return dict(case=c.name, counts={}, violations=[], error=f"{type(e).__name__}: {e}\n"
                    + traceback.format_exc()[-2500:], inconclusive=[], functions=[], samples=[],
                    solver=solver.STATS.as_dict(), wall_s=round(time.time() - t0, 3))


def main():
    global _MOD, _CASES, _SEED
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--case")
    ap.add_argument("--jobs", type=int, default=8)
    ap.add_argument("-v", action="store_true")
    ap.add_argument("--inline", action="store_true", help="debugging: no worker processes")
    a = ap.parse_args()
    _SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    import logging
    import torch
    logging.lastResort = None       # the library's warnings are not part of a check's output
    torch.set_num_threads(1)
    sys.setrecursionlimit(20000)
    repo = os.environ.get("VERIF_REPO", "/repo")   # another tree only while developing the checks
    sys.path.insert(0, repo + "/src")
    import torchrir
    if not os.path.realpath(torchrir.__file__).startswith(os.path.realpath(repo) + "/"):
        print("torchrir is not imported from", repo, file=sys.stderr)
        return 2
    import importlib
    import pkgutil
    for mi in pkgutil.walk_packages(torchrir.__path__, "torchrir."):
        try:
            importlib.import_module(mi.name)
        except ImportError:
            pass
    from engine import explore  # noqa: F401
    _MOD = load_check(a.pid)
    cases = _MOD.cases(a.tier)
    if a.case:
        cases = [c for c in cases if a.case in c.name]
    _CASES = cases
    if a.replay:
        d = json.load(open(a.replay))
        c = next(c for c in _MOD.cases(d.get("tier", a.tier)) if c.name == d["case"])
        if c.opts.get("replayer"):
            res = c.opts["replayer"](c, d["model"])
        else:
            res = explore.concrete_run(c.body, c.cfg, d["model"], c.opts)
        print(res["status"], res.get("detail"))
        return 1 if res["status"] == "violation" else 0

    known = load_known(a.pid)
    results = []
    limit = float(os.environ.get("VERIF_CASE_LIMIT", "0")) or (
        720 if a.tier == "quick" else 6 * 3600)
    if a.inline:
        import faulthandler
        faulthandler.enable()
        for i in range(len(cases)):
            r = run_case(i)
            results.append(r)
            print({k: v for k, v in r.items() if k != "functions"})
        return report(a, cases, results, known, t0)
    ctx = mp.get_context("fork")
    pending = list(range(len(cases)))
    # longest first when a weight is given
    pending.sort(key=lambda i: -cases[i].opts.get("weight", 1))
    running = {}
    while pending or running:
        if pending and time.time() - t0 > limit:
            for i in pending:
                results.append(dict(case=cases[i].name, counts={}, violations=[],
                                    inconclusive=["not started within the time limit"],
                                    functions=[], samples=[], solver={}, wall_s=0.0))
            pending = []
        while pending and len(running) < a.jobs:
            i = pending.pop(0)
            r, w = ctx.Pipe(duplex=False)

            def target(i=i, w=w):
                import resource
                try:
                    resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
                except Exception:
                    pass
                out = run_case(i)
                w.send(json.loads(json.dumps(out, default=str)))
                w.close()
                os._exit(0)
            p = ctx.Process(target=target)
            p.start()
            w.close()
            running[i] = (p, r, time.time())
        time.sleep(0.01)
        for i, (p, r, ts) in list(running.items()):
            done = False
            if r.poll():
                try:
                    results.append(r.recv())
                except EOFError:
                    results.append(dict(case=cases[i].name, counts={}, violations=[],
                                        error="worker died", inconclusive=[], functions=[],
                                        samples=[], solver={}, wall_s=time.time() - ts))
                done = True
            elif not p.is_alive():
                results.append(dict(case=cases[i].name, counts={}, violations=[],
                                    error="worker died", inconclusive=[], functions=[],
                                    samples=[], solver={}, wall_s=time.time() - ts))
                done = True
            elif time.time() - t0 > limit:
                p.kill()
                results.append(dict(case=cases[i].name, counts={}, violations=[],
                                    inconclusive=["killed at the time limit"], functions=[],
                                    samples=[], solver={}, wall_s=time.time() - ts))
                done = True
            if done:
                v = results[-1].get("violations") or []
                if v and a.tier == "quick" and any(
                        not any(d["case"] == results[-1]["case"] and d["match"] in (x["detail"] or "") for d in known) for x in v):
                    # a violation is established: give the other cases a little more time only
                    limit = min(limit, time.time() - t0 + 60)
                p.join(2)
                if p.is_alive():
                    p.kill()
                del running[i]
                if a.v:
                    q = results[-1]
                    cn, so = q.get("counts") or {}, q.get("solver") or {}
                    print(f"  [{q['wall_s']:6.1f}s] {q['case']}: p{cn.get('paths')} ob {cn.get('discharged')}/{cn.get('obligations')}"
                          f" nf{cn.get('by_normal_form')} iv{cn.get('by_interval')} so{cn.get('by_solver')} val{cn.get('validated')}"
                          f" q{so.get('queries')} {so.get('solver_s')}s"
                          + (f" INCONCLUSIVE {q['inconclusive']}" if q['inconclusive'] else "")
                          + (f" VIOL {q['violations']}" if q['violations'] else "")
                          + (f" ERROR {q.get('error')}" if q.get('error') else ""), flush=True)
    return report(a, cases, results, known, t0)


def load_known(pid):
    p = os.path.join(VERIF, "known_findings.jsonl")
    out = []
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if not line or line.startswith("#"):
                continue
            d = json.loads(line)
            if d.get("property") == pid and d.get("status") == "open":
                out.append(d)
    return out


def report(a, cases, results, known, t0):
    bycase = {c.name: c for c in cases}
    results.sort(key=lambda r: r["case"])
    tot = {}
    sol = {}
    funcs = set()
    viol, incon, errs, samples = [], [], [], []
    for r in results:
        for k, v in (r.get("counts") or {}).items():
            if isinstance(v, (int, float)):
                tot[k] = tot.get(k, 0) + v
        for k, v in (r.get("solver") or {}).items():
            sol[k] = round(sol.get(k, 0) + v, 4)
        funcs |= set(r.get("functions") or [])
        for v in r.get("violations") or []:
            viol.append((r["case"], v))
        for s in r.get("inconclusive") or []:
            incon.append((r["case"], s))
        if r.get("error"):
            errs.append((r["case"], r["error"]))
        for s in r.get("samples") or []:
            if len(samples) < 4:
                samples.append(dict(case=r["case"], **s))
    rdir = os.path.join(VERIF, "evidence", "replays")
    new = []
    printed = set()
    for case, v in viol:
        k = next((d for d in known if d["case"] == case and d["match"] in (v["detail"] or "")), None)
        if k is not None:
            if k["id"] not in printed:
                printed.add(k["id"])
                print(f"KNOWN-FINDING: property={a.pid} {k['what']}")
            continue
        new.append((case, v))
    code = 0
    for n, (case, v) in enumerate(new):
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, f"{a.pid}_{n}.json")
        json.dump(dict(property=a.pid, case=case, tier=a.tier, label=v["label"], detail=v["detail"],
                       model=v["model"],
                       rerun=f"bash /verif/check.sh {a.pid} --replay {path}"),
                  open(path, "w"), indent=1, default=str)
        if n < 5:
            print(f"VIOLATION property={a.pid} replay={path}")
            print(f"  case {case}: {v['detail']}")
        code = 1
    for case, s in incon[:20]:
        print(f"INCONCLUSIVE property={a.pid} case={case}: {s}")
    for case, e in errs[:5]:
        print(f"ERROR property={a.pid} case={case}: {e}", file=sys.stderr)
    level = getattr(_MOD, "LEVEL", "other")
    cov = dict(
        explanation=getattr(_MOD, "EXPLANATION", "bounded symbolic execution of the real code"),
        functions_encoded=sorted(funcs),
        cases=[dict(name=r["case"], bounds=bycase[r["case"]].bounds if r["case"] in bycase else "",
                    paths=(r.get("counts") or {}).get("paths"),
                    obligations=(r.get("counts") or {}).get("obligations"),
                    discharged=(r.get("counts") or {}).get("discharged"),
                    wall_s=r["wall_s"]) for r in results],
        paths=tot.get("paths", 0),
        obligations=tot.get("obligations", 0),
        discharged=tot.get("discharged", 0),
        discharged_by=dict(normal_form=tot.get("by_normal_form", 0), interval=tot.get("by_interval", 0),
                           solver=tot.get("by_solver", 0), constant=sol.get("closed_by_normal_form", 0)),
        undecided=tot.get("undecided", 0),
        queries=sol.get("queries", 0), unsat=sol.get("unsat", 0), sat=sol.get("sat", 0),
        unknown=sol.get("unknown", 0), solver_time_s=sol.get("solver_s", 0),
        traces_validated_against_impl=tot.get("validated", 0),
        inconclusive=[f"{c}: {s}" for c, s in incon],
        errors=[f"{c}: {e}" for c, e in errs],
        samples=samples or [dict(case=r["case"]) for r in results[:2]],
        outside_the_claim=getattr(_MOD, "OUTSIDE", ""),
    )
    for k in tot:
        cov.setdefault("count_" + k, tot[k])
    ev = dict(property=a.pid, tier=a.tier if a.tier in ("quick", "thorough") else "quick",
              seed=_SEED, level=level, coverage=cov,
              assumptions=list(getattr(_MOD, "ASSUMPTIONS", [])) + COMMON_ASSUMPTIONS,
              wall_s=round(time.time() - t0, 3), violations=len(new))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", a.pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    print(f"{a.pid}: {tot.get('paths', 0)} paths, {tot.get('discharged', 0)}/{tot.get('obligations', 0)} "
          f"obligations discharged, {sol.get('queries', 0)} queries ({sol.get('solver_s', 0)} s solver), "
          f"{tot.get('validated', 0)} traces validated, {len(incon)} inconclusive, "
          f"{len(new)} violations, {time.time() - t0:.1f} s")
    if code == 0 and errs:
        return 2
    if code == 0 and not a.case and tot.get("obligations", 0) == 0:
        return 2
    return code


COMMON_ASSUMPTIONS = [
    "floating point values are modelled as real numbers (rounding, overflow and underflow are outside the claim); "
    "float literals within one rounding of a small rational are read as that rational",
    "PyTorch's data-movement operators are executed by PyTorch itself on term handles; its arithmetic operators are "
    "interpreted per element and validated against real runs (traces_validated_against_impl)",
]

if __name__ == "__main__":
    sys.exit(main())
