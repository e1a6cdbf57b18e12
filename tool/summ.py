"""Summaries of every function of the planner, computed in parallel from the fact base of the current tree."""
import os, sys, json, hashlib, re
from multiprocessing import Pool
import build, sem

CTX = None
OPTS = {}

def one(m):
    f = CTX.fns[m]
    try:
        S = sem.summarise(CTX, f, dict(OPTS, prints=f["q"] in OPTS.get("printfns", ())))
        L = S.lines()
        st = dict(blocks=len(f["blocks"]), insts=sum(len(b) for b in f["blocks"]), loops=len(S.fn.loops),
                  effects=sum(1 for x in L if x[0] == "eff"), conds=len(S.t.atoms), order=sum(1 for x in L if x[0] == "ord"))
        need, todo = {}, set(re.findall(r"~[0-9a-f]{8}", "\n".join(x[1] for x in L)))
        while todo:
            x = todo.pop()
            if x in S.defs and x not in need: need[x] = S.defs[x]; todo |= set(re.findall(r"~[0-9a-f]{8}", S.defs[x]))
        L = [(a, b, c, d, os.path.normpath(e) if e else e) for a, b, c, d, e in L]
        return m, L, st, need
    except RecursionError as e:
        return m, None, {"error": "recursion"}, {}

def summaries(known=None, printfns=()):
    global CTX, OPTS
    facts = build.planner_facts(known)
    src = b"".join(open(os.path.join(build.HERE, x), "rb").read() for x in ("sem.py", "summ.py"))
    key = hashlib.sha256(open(facts, "rb").read() + src + repr(sorted(printfns)).encode()).hexdigest()[:24]
    out = os.path.join(build.cache_dir(), "summ-%s.json" % key)
    if os.path.exists(out):
        return json.load(open(out))
    CTX = sem.Ctx(facts)
    CTX.mods()
    OPTS = dict(printfns=set(printfns))
    ms0 = sorted(CTX.fns, key=lambda m: -sum(len(b) for b in CTX.fns[m]["blocks"]))
    # per-function results are reused when the function, and what its callees may change, are the same
    gl = hashlib.sha256((json.dumps(CTX.glob, sort_keys=True) + repr(CTX.vt if hasattr(CTX, "vt") else "")).encode() + src).hexdigest()
    fk, ms, rs = {}, [], []
    for m in ms0:
        f = CTX.fns[m]
        cs = sorted({x for b in f["blocks"] for i in b for x in [i.get("cm")] + i.get("vt", []) if x in CTX.fns})
        k = hashlib.sha256((gl + json.dumps(f, sort_keys=True) + repr([(c, sorted(map(repr, CTX.mods()[c]))) for c in cs]) + str(f["q"] in OPTS["printfns"])).encode()).hexdigest()[:32]
        fk[m] = os.path.join(build.cache_dir(), "fn-" + k)
        try: rs.append(json.load(open(fk[m])))
        except (OSError, ValueError): ms.append(m)
    if ms:
        with Pool(min(8, os.cpu_count() or 4)) as p:
            new = p.map(one, ms, chunksize=1)
        for r in new:
            if os.environ.get("VERIF_FNCACHE"):
                json.dump(r, open(fk[r[0]] + ".tmp%d" % os.getpid(), "w")); os.rename(fk[r[0]] + ".tmp%d" % os.getpid(), fk[r[0]])
        rs += new
    res = {}
    for m, L, st, defs in rs:
        f = CTX.fns[m]
        res[m] = dict(m=m, q=f["q"], d=f["d"], file=os.path.normpath(f["file"]), line=f["line"], lines=L, st=st, defs=defs)
    tmp = out + ".tmp%d" % os.getpid()
    json.dump(res, open(tmp, "w"))
    os.rename(tmp, out)
    return res

if __name__ == "__main__":
    R = summaries(sys.argv[1] if len(sys.argv) > 1 and sys.argv[1] != "-" else None)
    pat = sys.argv[2] if len(sys.argv) > 2 else "."
    for m, r in sorted(R.items(), key=lambda x: (x[1]["file"], x[1]["line"])):
        if not re.search(pat, r["q"]): continue
        print("==", r["q"], "%s:%d" % (r["file"], r["line"]), r["st"])
        for k, t, mm, l, f in r["lines"] or (): print("  %4d %s" % (l, t))
