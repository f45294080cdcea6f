#!/usr/bin/env python3
"""The one source of properties.jsonl, MANIFEST.json and checks.json."""
import json, os

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
PBT = "property-based testing (rapid), generated cases against "


def p(id, title, statement, over, text, why, files, mech, pkg=None, oracle=None, note=None,
      race=False, run=None, na=None, observe=(), timeout=None, assumptions=(), scale=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why,
                  files=files, mech=mech, pkg=pkg, oracle=oracle, note=note, race=race,
                  run=run, na=na, observe=list(observe), timeout=timeout,
                  assumptions=list(assumptions), scale=scale or SCALE.get(id)))


# how much more of the quick tier's cases a check runs
SCALE = dict(C01=15, C02=20, C03=20, C04=5, C05=6, C06=2, C07=20, C08=2.5, C09=6, C10=6, C11=3,
             C12=6, C13=5, C14=20, C15=4, C17=20, C18=25, C19=25, C20=15, C21=40, C22=30, C23=2.5,
             C24=25, C25=15, C26=2, C31=15, C32=20, C33=6, C34=30, C35=5, C38=2.5, C40=2.5, C42=5, C45=4)

exec(open(os.path.join(VERIF, "tools", "list.py")).read())

checks, manifest, na = {}, [], []
with open(os.path.join(VERIF, "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        n = x["statement"].count(". ") + 1
        assert n <= 3, (x["id"], n)
        f.write(json.dumps({
            "id": x["id"], "title": x["title"], "statement": x["statement"],
            "quantifier": {"over": x["over"], "text": x["text"]},
            "why_tests_cant": x["why"],
            "anchors": {"files": x["files"],
                        "mechanism": [{"name": a, "where": b} for a, b in x["mech"]],
                        "observe_at": x["observe"]},
        }) + "\n")
        if x["na"] or not x["pkg"]:
            na.append({"property": x["id"], "reason": x["na"] or "the check is not built yet"})
            continue
        c = {"pkg": x["pkg"], "assumptions": x["assumptions"]}
        if x["race"]:
            c["race"] = True
        if x["run"]:
            c["run"] = x["run"]
        if x["scale"]:
            c["scale"] = x["scale"]
        if x["timeout"]:
            c["timeout"] = x["timeout"]
        checks[x["id"]] = c
        manifest.append({
            "property": x["id"],
            "quick_cmd": "bin/check " + x["id"],
            "thorough_cmd": "bin/check %s --tier thorough" % x["id"],
            "evidence_file": "evidence/%s.json" % x["id"],
            "technique": PBT + x["oracle"],
            "level": "exploration",
            "level_note": x["note"],
        })
with open(os.path.join(VERIF, "checks.json"), "w") as f:
    json.dump(checks, f, indent=1)
    f.write("\n")
with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
    json.dump({
        "version": 1,
        "setup_cmd": "bin/setup",
        "checks": manifest,
        "not_applicable": na,
        "notes": "Checks are Go test binaries of the module in harness/, built against /repo's working tree; see DESIGN.md. /repo needs no hooks.",
    }, f, indent=1)
    f.write("\n")
print(len(manifest), "claimed,", len(na), "not")
