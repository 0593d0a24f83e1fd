"""python3 docs/design.py: rewrites DESIGN.md from design_head.md, design_props.md, design_tail.md, list.py, the evidence and the seeds."""
import json, os, re, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rd = lambda p: open(os.path.join(V, p)).read()
prose = dict(re.findall(r"^## (C\d\d)\n(.*?)(?=^## C\d\d|\Z)", rd("docs/design_props.md"), re.M | re.S))
props = [json.loads(l) for l in rd("properties.jsonl").splitlines()]
man = json.loads(rd("MANIFEST.json"))
na = {x["property"]: x["reason"] for x in man["not_applicable"]}
chk = {c["property"]: c for c in man["checks"]}
seeds = {}
for s in sorted(os.listdir(os.path.join(V, "seeded"))):
    m = json.loads(rd("seeded/%s/meta.json" % s))
    seeds.setdefault(m["property"], []).append((s, m["needs"]))
fixed = re.findall(r"^fixed: property=(C\d\d) (\w+) (.*)$", rd("known_findings.txt"), re.M)
out = ["# Properties", "",
       "Times are wall-clock seconds of the quick check on eight idle cores. A planted bug is listed under the check that catches it (exit 1",
       "with this property's VIOLATION line); all listed bugs are caught.", ""]
for p in props:
    i = p["id"]
    out += ["## %s: %s" % (i, p["title"]), ""]
    if i in na:
        out += ["Not applicable: " + na[i], ""]
        continue
    out += [prose.get(i, "").strip(), "", "*Strength*: " + chk[i]["level_note"] + ".", ""]
    try:
        e = json.loads(rd("evidence/%s.json" % i))
        c = e["coverage"]
        rows = c["contracts"]
        pr = [r["contract"] for r in rows if r["kind"] != "bounded"]
        bo = [r["contract"] for r in rows if r["kind"] == "bounded"]
        out += ["*Contracts* (%s): %s%s. %d obligations proved (%s), %d inside bounds; about %d s." % (
            ", ".join(sorted({"contracts/" + r["file"] for r in rows})),
            ("proved: " + ", ".join(pr)) if pr else "none proved for all inputs",
            ("; bounded: " + ", ".join(bo)) if bo else "", c["obligations"],
            ", ".join("%s %d" % kv for kv in sorted(c["by_backend"].items())) or "none", c["bounded"]["obligations"], round(e["wall_s"])), ""]
    except FileNotFoundError:
        pass
    f = ["%s (%s)" % (h, t) for q, h, t in fixed if q == i]
    if f:
        out += ["*Genuine defects found and repaired*: " + "; ".join(f) + ".", ""]
    if i in seeds:
        out += ["*Planted bugs caught*: " + "; ".join("`%s` (needs: %s)" % x for x in seeds[i]) + ".", ""]
head = rd("docs/design_head.md").replace("@@PER_PROPERTY@@", "\n".join(out).rstrip())
open(os.path.join(V, "DESIGN.md"), "w").write(head.rstrip() + "\n\n" + rd("docs/design_tail.md").strip() + "\n")
