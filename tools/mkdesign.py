"""Writes DESIGN.md from tools/DESIGN.tmpl.md, the tables of properties and levels, and the planted bugs."""
import glob, importlib, json, os, re, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
import lib.env
exec(open(os.path.join(HERE, "tools", "levels.py")).read())
t = open(os.path.join(HERE, "tools", "DESIGN.tmpl.md")).read()
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
EXTRA = {}
exec(open(os.path.join(HERE, "tools", "design_extra.py")).read())
out = []
for p in props:
    i = p["id"]
    if i not in CLAIMED: continue
    m = importlib.import_module("props." + i.lower())
    s = "### %s  %s\n\n" % (i, p["title"])
    s += "*Decided by* %s.\n" % CLAIMED[i][0].rstrip(".")
    s += "*Generated:* %s.\n" % m.RULE.rstrip(".")
    s += "*Bounds:* %s.\n" % CLAIMED[i][1].rstrip(".")
    for a in getattr(m, "ASSUMPTIONS", []): s += "*Assumed:* %s.\n" % a.rstrip(".")
    s += "*Beyond the tests:* %s\n" % p["why_tests_cant"]
    if i in DETAIL: s += DETAIL[i].strip() + "\n"
    out.append(s)
t = t.replace("@PROPS@", "\n".join(out).strip())
fixes = sum(l.startswith("fixed:") for l in open(os.path.join(HERE, "KNOWN_FINDINGS.txt")))
t = t.replace("@NFIX@", str(fixes))
rows = ["| bug | property | what it needs | result |", "|---|---|---|---|"]
for d in sorted(glob.glob(os.path.join(HERE, "seeded", "*"))):
    n = os.path.basename(d); j = json.load(open(os.path.join(d, "meta.json")))
    rows.append("| %s | %s | %s | %s |" % (n, j["property"], j["needs"].replace("|", "/"), RESULTS.get(n, "caught by %s" % j["property"])))
t = t.replace("@SEEDS@", "\n".join(rows))
na = ["* %s: %s" % (p["id"], NOT.get(p["id"], "check not built")) for p in props if p["id"] not in CLAIMED]
t = t.replace("@NA@", "\n".join(na) or "None: every listed property is decided.")
for k, v in EXTRA.items(): t = t.replace("@%s@" % k, v)
t = re.sub(r"@[A-Z_]+@\n?", "", t)
open(os.path.join(HERE, "DESIGN.md"), "w").write(t)
print(len(t))
