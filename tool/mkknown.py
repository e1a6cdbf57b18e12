"""Writes known_planner.txt: the functions that keep their own summary and whose calls stay visible in their callers.
Everything else (small accessors, lambdas, functions added later) is analysed as part of its callers."""
import json, os, re, sys
import build
KEEP = {"sat_capsule::new_variable", "ensureBDD"}
# clause helpers: callers are compared by the clauses they emit, whichever helper spells them
# pure look-ups: part of their callers too, which may as well spell them out
PURE = {"PDT::getListIndexOfChildrenForMethods", "PDT::getPrunedCausesForAbstract", "PDT::getPrunedCausesForPrimitive", "symbolic::SymVariables::isStripsVariable", "symbolic::SymVariables::getDomainSize", "can_state_features_co_occur"}
INLINE = PURE | {"assertYes", "assertNot", "implies", "impliesAnd", "impliesNot", "impliesOr", "impliesPosAndNegImpliesOr", "impliesAllNot", "notImpliesAllNot", "andImplies", "notAll", "atLeastOne"}
t = os.path.join(build.cache_dir(), "all.txt"); open(t, "w").write("*\n")
j = json.load(open(build.planner_facts(t)))
called = set()
for f in j["functions"]:
    for b in f["blocks"]:
        for i in b:
            if i["op"] == "call" and i.get("proj"): called.add(i["cm"])
out = set()
for f in j["functions"]:
    n = sum(len(b) for b in f["blocks"])
    if f["q"] in INLINE: continue
    if "$_" in f["q"] or "{lambda" in f["q"] or f["q"].startswith(("__cxx_global", "_GLOBAL_")): continue
    if len(f["blocks"]) <= 1 and n <= 14 and f["m"] in called and f["q"] not in KEEP: continue
    out.add(f["q"])
open(os.path.join(build.HERE, "known_planner.txt"), "w").write("\n".join(sorted(out)) + "\n")
print(len(out))
