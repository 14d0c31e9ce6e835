#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the definitions below (python3 tools/gen.py)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V)
from checks import CHECKS
PROPS = []; NA = {}; NOTES = {}
def P(id, title, statement, over, q, why, files, mech, note=None, na=None, observe=None):
    a = {"files": ["src/" + f for f in files], "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe: a["observe_at"] = observe
    assert len(title) <= 80, title
    PROPS.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over.split(), "text": q}, "why_tests_cant": why, "anchors": a})
    if na: NA[id] = na
    NOTES[id] = note or ""
exec(open(V + "/tools/props.py").read())
def main():
    with open(V + "/properties.jsonl", "w") as f:
        for p in PROPS: f.write(json.dumps(p) + "\n")
    tech = "symbolic execution of the compiled code (LLVM IR of /repo/src, own executor, Z3 decides every symbolic branch and assertion), counterexamples replayed natively under AddressSanitizer"
    checks = []
    for p in PROPS:
        i = p["id"]
        if i in CHECKS: checks.append({"property": i, "quick_cmd": f"python3 check.py {i} quick", "thorough_cmd": f"python3 check.py {i} thorough", "technique": tech, "level": "model_checking", "level_note": "bounded: " + CHECKS[i]["bounds"][:600] + (" | " + NOTES[i] if NOTES[i] else "")})
        else: assert i in NA, i + " neither checked nor not applicable"
    for i in CHECKS: assert any(p["id"] == i for p in PROPS), i
    m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": [{"property": k, "reason": v} for k, v in NA.items()],
         "notes": "Solver-based checking only. No hooks are needed in /repo: every operating-system, archive, transfer and crypto entry point is replaced by a model when the code's bitcode is executed symbolically and when counterexamples are replayed. See DESIGN.md."}
    json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1); open(V + "/MANIFEST.json", "a").write("\n")
def head(h):
    """the comment at the top of a harness"""
    o = []
    for l in open(f"{V}/harness/{h}.cpp"):
        if not l.startswith("//"): break
        o.append(l[2:].strip())
    return " ".join(o)
def job(j):
    def s(d): return " ".join(f"{k}={v}" for k, v in d.items() if k != "timeout")
    t = f"`{j['h']} {s(j['params'])}`"
    if j["quick"]: t += f" (quick {s(j['quick'])})"
    if j["thorough"]: t += f" (thorough {s(j['thorough'])})"
    return t
def design():
    import glob
    o = [open(V + "/tools/design_head.md").read(), "## Harnesses\n"]
    for h in sorted({j["h"] for c in CHECKS.values() for j in c["jobs"]}): o.append(f"- `harness/{h}.cpp`: {head(h)}")
    o.append("\n## Properties\n\nFor each: what is asserted is the statement in properties.jsonl; the level is bounded model checking (symbolic execution, Z3), for every value within the bounds. Time and queries of a run are in `evidence/ID.json`.\n")
    for p in PROPS:
        i = p["id"]; o.append(f"### {i} {p['title']}\n")
        if i not in CHECKS: o.append("Not applicable: " + NA[i] + "\n"); continue
        c = CHECKS[i]; q = [j for j in c["jobs"] if "quick" in j.get("tiers", ("quick",))]; t = [j for j in c["jobs"] if j not in q]
        o.append("Decided for " + p["quantifier"]["text"] + ". Within these bounds: " + c["bounds"] + ".\n")
        if c["assumptions"]: o.append("Assumed: " + "; ".join(c["assumptions"]) + ".\n")
        if any(j["memory"] for j in q): o.append("Bad memory accesses and endless loops on any path count as violations of this property, too.\n")
        o.append(f"Quick, {len(q)} jobs: " + ", ".join(map(job, q)) + ".\n")
        if t: o.append(f"Thorough adds {len(t)}: " + ", ".join(map(job, t)) + ".\n")
        if NOTES[i]: o.append(NOTES[i] + "\n")
        o.append("Why tests cannot: " + p["why_tests_cant"] + "\n")
    k = json.load(open(V + "/known-findings.json")); o.append(f"## Genuine defects found by the checks\n\n{len(k['fixed'])} repaired in `/repo` (one `fix:` commit each; the check fails on the tree before it and passes after):\n")
    for f in k["fixed"]:
        w = f.split(" ", 3); o.append(f"- {w[1][9:]} `{w[2]}`: {w[3]}")
    o.append("\nRecorded, not repaired: " + ("none." if not k["findings"] else ""))
    for f in k["findings"]: o.append("- " + (f if isinstance(f, str) else json.dumps(f)))
    o.append("\n## Planted bugs\n\n| id | property | what it breaks | needs | caught by |\n|---|---|---|---|---|")
    for f in sorted(glob.glob(V + "/seeded/*/meta.json")):
        m = json.load(open(f)); o.append(f"| {f.split('/')[-2]} | {m['property']} | {m['what_it_breaks']} | {m['needs']} | {m.get('caught', m['property'])} |")
    o += ["", open(V + "/tools/design_tail.md").read()]
    open(V + "/DESIGN.md", "w").write("\n".join(o))
main()
design()
