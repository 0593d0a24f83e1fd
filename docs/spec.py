"""Single source of properties.jsonl and MANIFEST.json: python3 docs/spec.py rewrites both."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
NA = []


def prop(id, title, statement, over, qtext, why, files, mech, observe, note, level="proof"):
    P.append((dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                   anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=[observe])), note, level))


def na(id, title, statement, over, qtext, why, files, mech, observe, reason):
    P.append((dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                   anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=[observe])), None, None))
    NA.append(dict(property=id, reason=reason))


exec(open(os.path.join(V, "docs", "list.py")).read())

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p, _, _ in P:
        f.write(json.dumps(p) + "\n")
checks = []
for p, note, level in P:
    if note is None:
        continue
    checks.append(dict(property=p["id"], quick_cmd="./run %s --tier quick" % p["id"], thorough_cmd="./run %s --tier thorough" % p["id"],
                       technique="contract-based deductive verification: contracts on the real C++ functions, verification conditions generated from the LLVM IR of /repo's current sources, discharged by z3/cvc5 for all inputs",
                       level=level, level_note=note))
json.dump(dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=NA,
               notes="The verifier (vc/) generates verification conditions function by function from the LLVM IR of the current sources; see DESIGN.md."),
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
