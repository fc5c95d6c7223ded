#!/usr/bin/env python3
"""Single source of /verif/properties.jsonl and /verif/MANIFEST.json:  python3 vp/catalog.py"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TESTS = "the test suite compares DSP kernels (assembly against C) on random buffers; "
P = []
def prop(id, title, statement, over, quant, why, files, mech, note, na=None, state=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech, note=note, na=na, state=state))

BMC = "Bounded symbolic execution of the real C (goto-cc/CBMC, SAT): every value within the stated bounds, nothing beyond them. "

exec(open(os.path.join(V, "vp", "catalog_entries.py")).read())

def design():
    import re, glob
    L = [open(os.path.join(V, "vp", "design_head.md")).read(), "## 5. Properties\n"]
    for p in sorted(P, key=lambda p: p["id"]):
        L.append("### %s %s\n\n%s\n" % (p["id"], p["title"], p["statement"]))
        if p["na"]:
            L.append("*Not applicable:* %s\n" % p["na"])
            continue
        L.append("*Quantified over:* %s. *Scope of the check:* %s\n" % (p["quant"], p["note"]))
        for f in sorted(glob.glob(os.path.join(V, "props", p["id"], "*.c"))):
            t = open(f).read()
            g = lambda k: [x.strip() for x in re.findall(r"^//@ %s: (.*)$" % k, t, re.M)]
            inc = re.findall(r'#include "(src/[^"]+\.c|tools/[^"]+\.c)"', t)
            n = 0
            for c in g("case") or ["main"]:
                m = re.search(r"\{(\d+)\.\.(\d+)\}", c)
                if "tier=thorough" not in c: n += int(m[2]) - int(m[1]) + 1 if m else 1
            L.append("* `%s` -- real code: %s; %d quick cases" % (os.path.relpath(f, V), ", ".join(" ".join(g("link")).split() + inc) or "-", n))
            for b in g("bound"): L.append("  * bound: " + b)
            for b in g("assume"): L.append("  * assumed: " + b)
            for b in g("oracle"): L.append("  * oracle: " + b)
        L.append("")
    r = os.path.join(V, "vp", "seed_results.txt")
    if os.path.exists(r):
        L.append("## 6. Planted bugs\n\nEach is in `seeded/<id>/`. `caught by` is the check run on a copy of /repo with the patch applied.\n")
        L.append("| bug | property | what it breaks | caught by |\n|---|---|---|---|")
        res = dict(l.split(None, 1) for l in open(r) if l.strip())
        for d in sorted(glob.glob(os.path.join(V, "seeded", "*", "meta.json"))):
            m = json.load(open(d)); n = os.path.basename(os.path.dirname(d))
            L.append("| %s | %s | %s | %s |" % (n, m["property"], m["what_it_breaks"], res.get(n, "not run").strip()))
    open(os.path.join(V, "DESIGN.md"), "w").write("\n".join(L) + "\n")

def main():
    out = []
    for p in sorted(P, key=lambda p: p["id"]):
        assert len(p["title"]) <= 80, p["title"]
        assert all(os.path.exists("/repo/" + f) for f in p["files"]), p["files"]
        d = {"id": p["id"], "title": p["title"], "statement": p["statement"],
             "quantifier": {"over": p["over"], "text": p["quant"]}, "why_tests_cant": p["why"],
             "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}}
        if p["state"]:
            d["anchors"]["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in p["state"]]
        out.append(json.dumps(d))
    open(os.path.join(V, "properties.jsonl"), "w").write("\n".join(out) + "\n")
    man = {"version": 1, "setup_cmd": "python3 vp/setup.py", "checks": [], "not_applicable": [],
           "notes": "Every check is `python3 vp/run.py <id>`; harnesses in props/<id>/*.c; see DESIGN.md. No hooks: /repo is compiled as it is."}
    for p in sorted(P, key=lambda p: p["id"]):
        if p["na"]:
            man["not_applicable"].append({"property": p["id"], "reason": p["na"]})
        else:
            assert os.path.isdir(os.path.join(V, "props", p["id"])), p["id"]
            man["checks"].append({"property": p["id"], "quick_cmd": "python3 vp/run.py %s" % p["id"],
                                  "thorough_cmd": "python3 vp/run.py %s --tier thorough" % p["id"],
                                  "technique": "solver-based bounded symbolic execution of the real code (CBMC)",
                                  "level": "other", "level_note": BMC + p["note"]})
    json.dump(man, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
    design()
    print(len(man["checks"]), "checks,", len(man["not_applicable"]), "not applicable")
main()
