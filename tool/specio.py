"""Reference effect summaries (the specification) in /verif/spec, one JSON file per source file of the planner."""
import os, json, re, hashlib
import build, props

SPEC = os.path.join(build.VERIF, "spec")

def printfns():
    return sorted({x for p in props.P for x in p["prints"]})

# texts for people: not part of any guarantee
WORDS = re.compile(r"::(getDescription|dot_string|bdd_to_dot)$")

def funcs_of(p, q, file):
    return not WORDS.search(q) and any(re.search(f, file) and re.search(r, q) for f, r in p["funcs"])

def covered(e):
    return any(funcs_of(p, e["q"], e["file"]) for p in props.P)

def dup(q):
    """the base-object variants of constructors and destructors repeat the complete-object ones"""
    return False

def write(S):
    by = {}
    for m, e in S.items():
        if e["lines"] is None or not covered(e): continue
        by.setdefault(e["file"], []).append(dict(m=m, q=e["q"], d=e["d"], file=e["file"], line=0,
            lines=[[l[0], l[1], l[2], 0, ""] for l in e["lines"]], defs=e["defs"]))
    os.makedirs(SPEC, exist_ok=True)
    for f in os.listdir(SPEC):
        if f.endswith(".json"): os.unlink(os.path.join(SPEC, f))
    n = 0
    for f, es in by.items():
        es.sort(key=lambda e: e["m"])
        n += len(es)
        with open(os.path.join(SPEC, f.replace("/", "__") + ".json"), "w") as fh:
            json.dump(es, fh, indent=0, sort_keys=True)
            fh.write("\n")
    return n

def load():
    r = []
    for f in sorted(os.listdir(SPEC)):
        if f.endswith(".json"): r += json.load(open(os.path.join(SPEC, f)))
    return r
