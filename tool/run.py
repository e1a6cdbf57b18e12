"""One property's check: reference summaries against the current tree's, plus the property's own rules."""
import os, sys, time, json, re, traceback
import build, props, specio, cmpfn, judge, summ

EVID = os.path.join(build.VERIF, "evidence")

class Broken(Exception): pass

def known_findings():
    p = os.path.join(build.VERIF, "known_findings.json")
    if not os.path.exists(p): return []
    return json.load(open(p)).get("findings", [])

def effects(p, R):
    """judges every function the property is anchored to; R collects findings and counts"""
    S = summ.summaries(None, specio.printfns())
    spec = [e for e in specio.load() if specio.funcs_of(p, e["q"], e["file"])]
    if not spec: raise Broken("no reference summary belongs to this property")
    cur, base = {}, {}
    for m, e in S.items():
        if e["lines"] is not None: cur.setdefault(e["q"], []).append(e)
    for e in spec: base.setdefault(e["q"], []).append(e)
    n = dict(functions=0, effects=0, undecided=0, changed=0)
    und, gone, sample = [], [], []
    flt = p.get("only")
    for q, bs in sorted(base.items()):
        for b, c in cmpfn.pair(bs, cur.get(q, [])):
            if c is None: gone.append(q); continue
            v = judge.judge(b, c)
            n["functions"] += 1
            n["effects"] += len(c["lines"])
            if v.same:
                if len(sample) < 6 and len(c["lines"]) > 2: sample.append(dict(function=q, at="%s:%d" % (c["file"], c["line"]), effect=c["lines"][len(c["lines"]) // 2][1][:300]))
                continue
            n["changed"] += 1
            for msg, line, file in v.bad:
                R["bad"].append(dict(function=q, at="src/%s:%s" % (file or c["file"], line or c["line"]), what=msg))
            if not v.bad:
                n["undecided"] += 1
                und.append(dict(function=q, at="src/%s:%d" % (c["file"], c["line"]), why=v.soft[0][0][:300] if v.soft else ""))
    if n["functions"] == 0: raise Broken("none of the functions the property is anchored to exists any more: %s" % ", ".join(gone[:8]))
    R["counts"].update(functions_compared=n["functions"], effects_compared=n["effects"], functions_changed=n["changed"], functions_undecided=n["undecided"], functions_absent=len(gone))
    R["undecided"] += und
    R["absent"] += gone
    R["samples"] += sample

def main(pid, tier):
    t0 = time.time()
    p = next((x for x in props.P if x["id"] == pid), None)
    if p is None or tier not in ("quick", "thorough"):
        print("usage: check.py <property> [quick|thorough]"); return 2
    R = dict(bad=[], counts={}, undecided=[], absent=[], samples=[], rules=[])
    try:
        if p["funcs"]:
            effects(p, R)
            R["rules"].append("effect agreement: every function above has exactly its reference effects (operation, operands, range, condition, order)")
        if p["rule"]:
            import rules
            rules.RULES[p["rule"]](p, R, tier)
    except (build.BuildError, Broken) as e:
        print("ANALYSIS-BROKEN property=%s %s" % (pid, str(e)[:3000])); return 2
    except Exception:
        traceback.print_exc(); print("ANALYSIS-BROKEN property=%s internal error" % pid); return 2
    kf = [k for k in known_findings() if k["property"] == pid]
    bad, seen = [], set()
    for b in R["bad"]:
        k = next((k for k in kf if k["function"] == b["function"] and k["contains"] in b["what"]), None)
        if k:
            if k["what"] not in seen: print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
            seen.add(k["what"])
        else: bad.append(b)
    os.makedirs(EVID, exist_ok=True)
    rep = os.path.join(EVID, "%s.violations.txt" % pid)
    if bad:
        with open(rep, "w") as fh:
            for b in bad: fh.write("%s: %s: %s\n" % (b["at"], b["function"], b["what"]))
        for b in bad[:12]: print("%s: in %s: %s" % (b["at"], b["function"], b["what"][:700]))
        print("VIOLATION property=%s replay=%s" % (pid, os.path.relpath(rep, build.VERIF)))
    elif os.path.exists(rep): os.unlink(rep)
    cov = dict(explanation="Static analysis of LLVM IR of the current sources; no execution, no solver. " + "; ".join(R["rules"]), **R["counts"])
    cov["undecided"] = R["undecided"][:40]
    cov["absent"] = R["absent"][:40]
    cov["samples"] = R["samples"][:8]
    ev = dict(property=pid, tier=tier, seed=int(os.environ.get("VERIF_SEED", "1") or 1), level="other", coverage=cov, wall_s=round(time.time() - t0, 2), violations=len(bad),
              assumptions=["clang 18 translates the sources as the build's compiler does", "the reference summaries in spec/ were reviewed against the property",
                           "a function listed as undecided has neither been confirmed nor refuted on this run"])
    json.dump(ev, open(os.path.join(EVID, pid + ".json"), "w"), indent=1)
    print("property %s: %s; %d finding(s), %d undecided, %.1f s" % (pid, ", ".join("%s=%s" % x for x in R["counts"].items()), len(bad), len(R["undecided"]), time.time() - t0))
    return 1 if bad else 0
