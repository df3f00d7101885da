#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from props.py."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
from props import PROPS
root = os.path.dirname(here)
KEYS = ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")
with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for p in sorted(PROPS, key=lambda p: p["id"]):
        assert all(os.path.exists('/repo/' + x) for x in p['anchors']['files']), (p['id'], p['anchors']['files'])
        p['anchors']['files'] = sorted(set(p['anchors']['files']))
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps({k: p[k] for k in KEYS}) + "\n")
checks, na = [], []
for p in sorted(PROPS, key=lambda p: p["id"]):
    if "na" in p:
        na.append({"property": p["id"], "reason": p["na"]})
        continue
    checks.append({
        "property": p["id"],
        "quick_cmd": "./check.sh %s quick" % p["id"],
        "thorough_cmd": "./check.sh %s thorough" % p["id"],
        "evidence_file": "evidence/%s.json" % p["id"],
        "technique": p["technique"],
        "level": "other",
        "level_note": p["note"],
    })
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
     "notes": "All checks are static: checker/ loads /repo's current sources with go/packages, builds SSA and runs repository-specific typestate, taint, lock and structure rules on it. No hooks in /repo."}
with open(os.path.join(root, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(checks), "checks,", len(na), "not applicable")

# DESIGN.md
import glob, re
rules = {}
for f in sorted(glob.glob(os.path.join(root, "checker", "*.go"))):
    s = open(f).read()
    parts = re.split(r'register\("(C\d+)"', s)
    head = re.findall(r'c\.Rule\("(.*?)"[,)]', parts[0])
    for i in range(1, len(parts), 2):
        # rules of functions shared by a file go to the property that runs them
        body = parts[i + 1]
        end = re.search(r'\n\t\}\)|\n\}\n', body)
        called = set(re.findall(r'c\.(\w+)\(', body[:end.start()] if end else body)) | set(re.findall(r'\b(\w+)\b', body[:120]))
        got = re.findall(r'c\.Rule\("(.*?)"[,)]', body[:end.start()] if end else body)
        todo = sorted(called)
        while todo:
            name = todo.pop(0)
            m = re.search(r'func (?:\((?:c \*Ctx|t \*teardown)\) )?%s\(.*?\n\}\n' % re.escape(name), s, re.S)
            if m:
                got += [r for r in re.findall(r'c\.Rule\("(.*?)"[,)]', m.group(0)) if r not in got]
                todo += [x for x in re.findall(r'\bt\.(\w+)\(', m.group(0)) if x not in called and x not in todo]
                called |= set(todo)
        rules.setdefault(parts[i], (os.path.basename(f), []))[1].extend(got)


bugs, quiet = {}, [0]
def B(name, prop, *edits):
    bugs.setdefault(prop, []).append(name)
def Q(name, *edits, only=None):
    quiet[0] += 1
exec(open(os.path.join(here, 'mutants.py')).read(), dict(B=B, Q=Q))
quiet = quiet[0]
seeds = {}
for f in sorted(glob.glob(os.path.join(root, 'seeded', '*', 'meta.json'))):
    d = json.load(open(f))
    seeds.setdefault(d['property'], []).append((os.path.basename(os.path.dirname(f)), d))
out = open(os.path.join(here, 'design_head.md')).read()
out += "## 5. The properties\n\nUnder each property: what is decided, in `checker/FILE`; what it quantifies over that a test cannot; the planted changes it reports. "
out += "The self-test `tools/mut.py` applies %d breaking edits (each must be reported by the property it names) and %d edits that keep the behaviour (every check must stay quiet).\n\n" % (sum(map(len, bugs.values())), quiet)
for p in sorted(PROPS, key=lambda p: p["id"]):
    out += "### %s %s\n\n" % (p["id"], p["title"])
    if "na" in p:
        out += "Not applicable: %s\n\n" % p["na"]
        continue
    f, rs = rules.get(p["id"], ("?", []))
    out += "Decided in `checker/%s` by %s.  Over: %s.  %s\n\n" % (f, p["technique"], p["quantifier"]["text"], p["why_tests_cant"])
    for r in rs:
        out += "* %s\n" % r
    n = p["note"][len(p["note"]) and p["note"].find("call back into them. ") + len("call back into them. "):]
    if n:
        out += "\nLimits: %s\n" % n
    if p["id"] in seeds:
        out += "\nSeeded, reported: %s\n" % "; ".join("`%s` (%s)" % (n, d["what_it_breaks"].strip().rstrip('.')) for n, d in seeds[p["id"]])
    if p["id"] in bugs:
        out += "\nEdits reported in the self-test: %s.\n" % ", ".join(bugs[p["id"]])
    out += "\n"
open(os.path.join(root, 'DESIGN.md'), 'w').write(out)
for p in PROPS:
    if "na" not in p and not rules.get(p["id"], ("", []))[1]:
        print("no rules found for", p["id"])
