#!/usr/bin/env python3
"""Source of /verif/properties.jsonl and /verif/MANIFEST.json (python3 tools/props.py rewrites both)."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), note="", na=None, level="proof"):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], state=[dict(name=n, meaning=m, where=w) for n, m, w in state], observe_at=list(observe), hook_needed=None), note=note, na=na, level=level))


exec(open(os.path.join(V, "tools", "props_list.py")).read())


def claimed(p):
    return p["na"] is None


def main():
    with open(V + "/properties.jsonl", "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["id"]
            assert p["statement"].count(". ") <= 2, p["id"]
            f.write(json.dumps({k: v for k, v in p.items() if k not in ("note", "na", "level")}) + "\n")
    m = dict(version=1, setup_cmd="python3 tools/vk.py setup",
             checks=[dict(property=p["id"], quick_cmd="python3 tools/vk.py check %s --tier quick" % p["id"], thorough_cmd="python3 tools/vk.py check %s --tier thorough" % p["id"],
                          technique="contract-based deductive verification: contracts on the real functions, obligations generated by symbolic execution of the LLVM IR lowered from /repo on every run, discharged by simplification, an incremental SAT solver, z3 and cvc5; counterexamples replayed natively",
                          level=p["level"], level_note=p["note"]) for p in P if claimed(p)],
             not_applicable=[dict(property=p["id"], reason=p["na"]) for p in P if not claimed(p)],
             notes="No hooks: private members are reached with -fno-access-control in the verification build only. Known and repaired defects: KNOWN_FINDINGS.")
    json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
    open(V + "/MANIFEST.json", "a").write("\n")
    print(len(P), "properties,", len(m["checks"]), "claimed")


main()
