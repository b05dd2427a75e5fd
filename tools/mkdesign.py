#!/usr/bin/env python3
"""DESIGN.md = design_head.md + a section per property (statement title, method from the check's own rule) + design_tail.md."""
import json, os, re, glob
D = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
props = [json.loads(l) for l in open(os.path.join(D, "properties.jsonl"))]
extra = json.load(open(os.path.join(D, "tools", "design_notes.json")))
out = [open(os.path.join(D, "tools", "design_head.md")).read()]
for p in props:
    i = p["id"].lower()
    rules, cost = [], []
    f = os.path.join(D, "harness/src/bin", i + ".rs")
    if os.path.exists(f):
        s = open(f).read()
        m = re.search(r'rule: "(.*?)",\n', s, re.S)
        a = re.search(r"assumptions: &\[(.*?)\],\n\s*gen", s, re.S)
        q = re.search(r"quick: ([\d_]+)", s), re.search(r"thorough: ([\d_]+)", s)
        rules.append(("Core", m.group(1).replace('\\"', '"'), re.findall(r'"((?:[^"\\]|\\.)*)"', a.group(1)) if a else [], q[0].group(1), q[1].group(1)))
    f = os.path.join(D, "py", i + ".py")
    if os.path.exists(f):
        s = open(f).read()
        m = re.search(r'run\("C\d\d", "(.*?)",\n', s, re.S)
        q = re.search(r"quick=(\d+), thorough=(\d+)", s)
        a = re.search(r"assumptions=\[(.*?)\]\)", s, re.S)
        rules.append(("Python", m.group(1), re.findall(r'"((?:[^"\\]|\\.)*)"', a.group(1)) if a else [], q.group(1), q.group(2)))
    out.append(f"### {p['id']} {p['title']}\n\n")
    for side, rule, ass, qn, tn in rules:
        out.append(f"*{side}* ({qn} cases quick, {tn} thorough). {rule}\n\n")
        if ass:
            out.append("Bounds and assumptions: " + "; ".join(ass) + ".\n\n")
    out.append(f"Beyond the tests: {p['why_tests_cant']}\n\n")
    if p["id"] in extra:
        out.append(extra[p["id"]] + "\n\n")
out.append(open(os.path.join(D, "tools", "design_tail.md")).read())
rows = []
for d in sorted(glob.glob(os.path.join(D, "seeded", "*"))):
    m = json.load(open(d + "/meta.json"))
    rows.append(f"| {os.path.basename(d)} | {m['needs']} | {m['what_it_breaks']} | {m.get('caught_by', m['property'])} | {m.get('first', 'caught')} |")
out.append("\n## Planted bugs\n\nAll compile, pass the 153 stable tests and have a demonstration under `seeded/`. The last column says whether the checks\n"
           "as they were when the bug was planted caught it, or what had to be strengthened first.\n\n"
           "| bug | needs | breaks | caught by | at first |\n|---|---|---|---|---|\n" + "\n".join(rows) + "\n")
open(os.path.join(D, "DESIGN.md"), "w").write("".join(out))
