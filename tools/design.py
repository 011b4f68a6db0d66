"""writes DESIGN.md from tools/design_head.md, the property list, the harnesses and tools/design_tail.md"""
import importlib
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
import run  # noqa: F401  (environment and z3 finder)

COST = os.path.join(HERE, "tools", "cost.json")


def main():
    cost = json.load(open(COST))
    for f in sorted(os.listdir(os.path.join(HERE, "evidence"))):
        d = json.load(open(os.path.join(HERE, "evidence", f)))
        c = d["coverage"]
        if d["tier"] == "quick" and c["jobs"] >= cost.get(d["property"], {}).get("jobs", 0):
            cost[d["property"]] = dict(jobs=c["jobs"], paths=c["states"], obl=c["obligations"], queries=c["solver_queries"],
                                       solver=round(c["solver_s"]), wall=round(d["wall_s"]))
    json.dump(cost, open(COST, "w"), indent=1, sort_keys=True)
    out = [open(os.path.join(HERE, "tools", "design_head.md")).read(), "## 3. The properties\n"]
    out.append("Cost of the quick tier as last measured here (8 cores; paths, assertions, solver queries, solver seconds summed over workers, wall seconds):\n")
    out.append("| | jobs | paths | assertions | queries | solver s | wall s |\n|---|---|---|---|---|---|---|")
    for k, v in sorted(cost.items()):
        out.append(f"| {k} | {v['jobs']} | {v['paths']} | {v['obl']} | {v['queries']} | {v['solver']} | {v['wall']} |")
    out.append("")
    for l in open(os.path.join(HERE, "properties.jsonl")):
        p = json.loads(l)
        m = importlib.import_module("checks." + p["id"].lower())
        out.append(f"### {p['id']} – {p['title']}\n")
        out.append(p["statement"] + "\n")
        out.append("*Decided by* symbolic execution of " + "; ".join(f"`{a['name']}` ({a['where']})" for a in p["anchors"]["mechanism"]) +
                   ". *Observed at* " + ", ".join(p["anchors"]["observe_at"]) + ".\n")
        out.append("| harness | what it decides | bounds | parameter sets |\n|---|---|---|---|")
        for h in m.HARNESSES:
            doc = " ".join((h.fn.__doc__ or "").split()).replace("|", "\\|")
            out.append(f"| {h.name} | {doc} | {h.bounds} | {len(h.params)}" + (f" (+{len(h.thorough)} thorough)" if h.thorough else "") + " |")
        out.append("\n*Assumptions:* " + "; ".join(getattr(m, "ASSUMPTIONS", [])) + ".")
        out.append(f"*Why tests cannot settle it:* {p['why_tests_cant']}.\n")
    seeds = ["| planted bug | property | what it breaks | needs | caught by |", "|---|---|---|---|---|"]
    caught = json.load(open(os.path.join(HERE, "tools", "caught.json")))
    for n in sorted(os.listdir(os.path.join(HERE, "seeded"))):
        d = json.load(open(os.path.join(HERE, "seeded", n, "meta.json")))
        seeds.append(f"| {n} | {d['property']} | {d['what_it_breaks']} | {d['needs']} | {caught.get(n, d['property'])} |")
    out.append(open(os.path.join(HERE, "tools", "design_tail.md")).read().replace("@SEEDS@", "\n".join(seeds)))
    open(os.path.join(HERE, "DESIGN.md"), "w").write("\n".join(out))


main()
