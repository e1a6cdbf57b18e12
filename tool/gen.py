"""gen.py [spec]: writes properties.jsonl and MANIFEST.json from the property table; with `spec`, also the reference
summaries from the current (reviewed) tree."""
import os, sys, json
import build, props, specio
V = build.VERIF
def main():
    with open(os.path.join(V, "properties.jsonl"), "w") as fh:
        for p in props.P + props.NA:
            a = dict(files=p["files"], mechanism=[dict(name=n, where=w) for n, w in p["mech"]], hook_needed=None)
            if p["state"]: a["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in p["state"]]
            if p["observe"]: a["observe_at"] = p["observe"]
            assert len(p["title"]) <= 80, p["id"]
            fh.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"], quantifier=dict(over=p["over"], text=p["qtext"]), why_tests_cant=p["why"], anchors=a)) + "\n")
    checks = []
    for p in props.P:
        checks.append(dict(property=p["id"], quick_cmd="python3 check.py %s quick" % p["id"], thorough_cmd="python3 check.py %s thorough" % p["id"],
            technique=p.get("technique") or "interprocedural value-graph and effect dataflow over LLVM IR, compared with reviewed reference effects",
            level="other", level_note=p.get("note") or props.NOTE))
    m = dict(version=1, setup_cmd="python3 tool/setup.py", checks=checks, not_applicable=[dict(property=p["id"], reason=p["na"]) for p in props.NA],
             notes="All checks are static: they compile /repo's current sources to LLVM IR, analyse them and never run the planner.")
    json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
    if "spec" in sys.argv:
        import summ
        print("reference summaries:", specio.write(summ.summaries(None, specio.printfns())))
main()
