#!/usr/bin/env python3
# refresh the generated parts of DESIGN.md: defects (known_findings.txt), planted bugs (seeded/*/meta.json), cost (evidence of a quick run)
import json, os, re, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def lines_defects():
    for l in open(V + "/known_findings.txt"):
        m = re.match(r"fixed: property=(\S+) (\S+) (.*)$", l.strip())
        if m: yield "* %s, `%s`: %s" % m.groups()
        m = re.match(r"finding: property=(\S+) scenario=(\S+) message=.*? \| (.*)$", l.strip())
        if m: yield "* %s, **recorded, not repaired** (scenario %s): %s" % m.groups()
def lines_bugs():
    yield "| planted bug | property = check that reports it | what breaks | needs |"; yield "|---|---|---|---|"
    for d in sorted(glob.glob(V + "/seeded/*/meta.json")):
        j = json.load(open(d)); yield "| %s | %s | %s | %s |" % (os.path.basename(os.path.dirname(d)), j["property"], j["what_it_breaks"].replace("|", "/"), j["needs"].replace("|", "/"))
def lines_cost():
    yield "| check | scenario runs | executions | states | synchronisation operations | seconds |"; yield "|---|---|---|---|---|---|"
    for f in sorted(glob.glob(V + "/evidence/*.json")):
        j = json.load(open(f)); c = j["coverage"]
        if j["tier"] != "quick": continue
        yield "| %s | %d | %d | %d | %d | %.0f |" % (j["property"], len(c["scenarios"]), c["traces_validated_against_impl"], c["states"], c["transitions"], j["wall_s"])
s = open(V + "/DESIGN.md").read()
for tag, gen in (("defects", lines_defects), ("bugs", lines_bugs), ("cost", lines_cost)):
    b, e = "<!-- %s -->" % tag, "<!-- /%s -->" % tag
    assert b in s and e in s, tag
    s = s[:s.index(b) + len(b)] + "\n" + "\n".join(gen()) + "\n" + s[s.index(e):]
open(V + "/DESIGN.md", "w").write(s)
