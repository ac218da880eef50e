#!/usr/bin/env python3
"""DESIGN.md = tools/DESIGN.in.md with its tables filled in from the committed JSON files"""
import json, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
J = lambda f: json.load(open(os.path.join(R, f)))
c = J("checks.json"); na = J("not_applicable.json"); kf = J("known_findings.json")["findings"]
P = {p["id"]: p for p in (json.loads(l) for l in open(os.path.join(R, "properties.jsonl")))}
notes = "\n".join("- **%s** %s — unit%s %s, replay bin %s. %s%s" % (i, P[i]["title"], "s" if len(v["units"]) > 1 else "", ", ".join(u.split("@")[0] for u in v["units"]), v.get("bin", "none"), v["note"], (" *Bounded:* " + v["bounded_note"] + ".") if v.get("bounded_note") else "") for i, v in sorted(c.items()))
nat = "\n".join("- **%s** %s — %s" % (i, P[i]["title"], r) for i, r in sorted(na.items()) if i in P) or "Nothing: every property listed in properties.jsonl has a check."
ft = "\n".join("- %s `%s` (%s) %s" % (f["property"], f["id"], f["status"], f["text"]) for f in kf)
sd = os.path.join(R, "seeded"); rows = []
for d in sorted(os.listdir(sd)) if os.path.isdir(sd) else []:
    m = os.path.join(sd, d, "meta.json")
    if os.path.exists(m):
        m = json.load(open(m)); rows.append("| %s | %s | %s | %s | %s |" % (d, m["property"], m["what_it_breaks"].replace("|", "/"), m["needs"].replace("|", "/"), J("seed_results.json").get(d, "")))
st = "| seed | property | what it breaks | needs | outcome |\n|---|---|---|---|---|\n" + "\n".join(rows)
t = open(os.path.join(R, "tools", "DESIGN.in.md")).read()
for k, v in (("@@NOTES@@", notes), ("@@NA@@", nat), ("@@FINDINGS@@", ft), ("@@SEEDS@@", st)): t = t.replace(k, v)
open(os.path.join(R, "DESIGN.md"), "w").write(t)
