"""Single source of properties.jsonl and MANIFEST.json: python3 tools/spec.py"""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MC = "model_checking"


def M(name, where):
    return dict(name=name, where=where)


def P(id, title, statement, over, text, why, files, mech, state=(), observe="", hook=False, built=None, technique=None,
      note=None, level=MC, na=None):
    return dict(
        prop=dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=mech, state=[dict(name=a, meaning=b) for a, b in state],
                               observe_at=[observe] if observe else [], hook_needed=hook or None)),
        built=built, technique=technique, note=note, level=level, na=na)


PROPS = []
exec(open(os.path.join(H, "tools", "props.py")).read())
exec(open(os.path.join(H, "tools", "built.py")).read())
for p in PROPS:
    p["built"] = p["prop"]["id"] in BUILT
    p["note"] = BUILT.get(p["prop"]["id"])

if __name__ == "__main__":
    ids = [p["prop"]["id"] for p in PROPS]
    assert len(set(ids)) == len(ids)
    with open(os.path.join(H, "properties.jsonl"), "w") as f:
        for p in PROPS:
            assert len(p["prop"]["title"]) <= 80, p["prop"]["title"]
            f.write(json.dumps(p["prop"]) + "\n")
    checks, na = [], []
    for p in PROPS:
        i = p["prop"]["id"]
        if os.path.exists(os.path.join(H, "checks", i.lower() + ".py")) and p["built"]:
            checks.append(dict(property=i, quick_cmd=f"./run.sh {i} --tier quick", thorough_cmd=f"./run.sh {i} --tier thorough",
                               technique=p["technique"], level=p["level"], level_note=p["note"]))
        else:
            na.append(dict(property=i, reason=NA.get(i) or "the exploration for this property is not built yet"))
    m = dict(version=1, setup_cmd="./setup.sh",
             hooks=dict(guard="none: no hooks or instrumentation were added to /repo",
                        enable="not needed", source_commits=[]),
             checks=checks, not_applicable=na,
             notes="Commits in /repo are repairs only (fix: ...); they are listed in findings/known_findings.json and DESIGN.md.")
    json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
    import jsonschema
    jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
    ps = json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for p in PROPS:
        jsonschema.validate(p["prop"], ps)
    print(len(checks), "checks,", len(na), "not claimed")
