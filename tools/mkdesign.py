"""Rewrites the per-property part and the seeded-bug table of DESIGN.md from jobs.py, properties.jsonl and tools/."""
import json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V, V + "/tools"]
sys.dont_write_bytecode = True
from jobs import PROPS
from design_props import D
props = {json.loads(l)["id"]: json.loads(l) for l in open(V + "/properties.jsonl")}
o = []
for k in sorted(PROPS):
    P, p, d = PROPS[k], props[k], D[k]
    hs = sorted({j["h"] for j in P["jobs"]})
    t = ""
    try: t = " Last quick run: %.0f s." % json.load(open(V + "/tools/times.json"))[k]
    except Exception: pass
    o.append("### %s — %s\n" % (k, p["title"]))
    o.append("*How.* %s\n*Oracle.* %s.\n*Harnesses.* %s.\n*Bounds.* %s.\n*Outside.* %s.\n*Why tests cannot.* %s%s\n" % (d[0], d[1], ", ".join("`%s`" % h for h in hs), P["bounds"], P["outside"], p["why_tests_cant"], t))
t = ["| planted bug | property | breaks | needs |", "|---|---|---|---|"]
S = V + "/seeded"
for s in sorted(os.listdir(S)):
    m = json.load(open("%s/%s/meta.json" % (S, s)))
    t.append("| %s | %s | %s | %s |" % (s, m["property"], m["what_it_breaks"], m["needs"]))
f = V + "/DESIGN.md"
x = open(f).read()
def put(x, tag, body):
    a, b = "<!-- %s -->" % tag, "<!-- /%s -->" % tag
    i, j = x.index(a) + len(a), x.index(b)
    return x[:i] + "\n" + body + "\n" + x[j:]
x = put(put(x, "properties", "\n".join(o)), "seeded", "\n".join(t))
open(f, "w").write(x)
