"""Rules beside the effect comparison: the command line option table, conditional effects, sources of randomness."""
import os, re, json, shlex
import build, specio, summ

OPT = os.path.join(build.VERIF, "spec", "options.txt")

def parse_ggo(text):
    """option table: name -> dict(short, type, default, values, group); help texts do not count"""
    r, group = {}, None
    lines = [l for l in text.split("\n") if not l.lstrip().startswith("#")]
    # declarations may continue over lines: one starts at a keyword
    decl, cur = [], ""
    for l in lines:
        if re.match(r"\s*(option|groupoption|defgroup|section|text|package|version|purpose|usage|args|defmode|modeoption)\b", l):
            decl.append(cur); cur = l
        else: cur += "\n" + l
    decl.append(cur)
    for d in decl:
        t = re.findall(r'"(?:[^"\\]|\\.)*"|=|,|[^\s",=]+', d)
        if not t: continue
        if t[0] not in ("option", "groupoption", "modeoption") or len(t) < 4: continue
        name, short = t[1].strip('"'), t[2].strip('"')
        o = dict(short=short, type="none", default=None, values=None, group=None, multiple=False, required=False)
        i = 4
        while i < len(t):
            x = t[i]
            if x in ("int", "string", "long", "float", "double", "short", "longlong", "longdouble", "enum"): o["type"] = x
            elif x == "flag": o["type"] = "flag"
            elif x in ("on", "off") and o["type"] == "flag": o["default"] = x
            elif x == "multiple": o["multiple"] = True
            elif x == "required": o["required"] = True
            elif x in ("default", "group", "values") and i + 2 < len(t) and t[i + 1] == "=":
                if x == "values":
                    v, j = [t[i + 2].strip('"')], i + 3
                    while j + 1 < len(t) and t[j] == ",": v.append(t[j + 1].strip('"')); j += 2
                    o["values"] = sorted(v); i = j; continue
                o[x] = t[i + 2].strip('"'); i += 3; continue
            i += 1
        r[name] = o
    return r

def options(p, R, tier):
    f = os.path.join(build.SRC, "options.ggo")
    cur = parse_ggo(open(f).read())
    ref = json.load(open(OPT))
    if len(cur) < 10: raise build.BuildError("option table not understood: %d options" % len(cur))
    text = open(f).read().split("\n")
    n = 0
    for name, o in sorted(ref.items()):
        line = next((i + 1 for i, l in enumerate(text) if re.search(r'option\s+"%s"' % re.escape(name), l)), 0)
        if name not in cur:
            R["bad"].append(dict(function="options.ggo", at="src/options.ggo", what="option --%s is gone" % name)); continue
        for k, v in o.items():
            n += 1
            c = cur[name].get(k)
            if k == "values" and v and c and set(v) <= set(c): continue      # further values may be offered
            if c != v: R["bad"].append(dict(function="options.ggo", at="src/options.ggo:%d" % line, what="option --%s: %s is %s, documented %s" % (name, k, c, v)))
    shorts = {}
    for name, o in cur.items():
        if o["short"] != "-": shorts.setdefault(o["short"], []).append(name)
    for s, ns in shorts.items():
        if len(ns) > 1: R["bad"].append(dict(function="options.ggo", at="src/options.ggo", what="options %s share the letter -%s" % (", ".join(ns), s)))
    R["counts"].update(options=len(ref), option_attributes=n)
    R["rules"].append("option table: every documented option keeps its letter, type, default, values and group")

def conditional(p, R, tier):
    S = summ.summaries(None, specio.printfns())
    n = 0
    for e in S.values():
        if e["q"] != "progression::Model::apply" or e["lines"] is None: continue
        n += 1
        for fld in ("conditionalAddLists", "conditionalDelLists"):
            if not any(fld in l[1] for l in e["lines"]):
                R["bad"].append(dict(function=e["q"], at="src/%s:%d" % (e["file"], e["line"]), what="action application does not use Model.%s" % fld))
    if not n: raise build.BuildError("Model::apply not found")
    R["counts"].update(conditional_effect_uses=n)
    R["rules"].append("conditional effects: action application reads the conditional effect tables filled by the reader")

# sources of randomness other than the seeded generator, and calls that seed a generator
SOURCES = re.compile(r"^(std::random_device::|std::chrono::.*::now$|random$|drand48$|lrand48$|mrand48$|getrandom$|getentropy$|arc4random|rdrand|rdtsc|getpid$|getppid$|std::random_shuffle)")
ENGINES = re.compile(r"^std::(mersenne_twister_engine|linear_congruential_engine|subtract_with_carry_engine)<.*>::(seed|mersenne_twister_engine|linear_congruential_engine|subtract_with_carry_engine)")
SEEDS = {"srand", "srandom", "srand48", "seed48", "initstate"}

def seed(p, R, tier):
    """every random draw reachable from main comes from the generator main seeds with the configured seed"""
    D = json.load(open(build.planner_facts(os.path.join(build.HERE, "known_planner.txt"))))
    fns, info = {}, {}
    for f in D["functions"]:
        cs = []
        for b in f["blocks"]:
            for i in (b if isinstance(b, list) else b.get("i") or b.get("ins") or []):
                if not isinstance(i, dict): continue
                if i.get("op") in ("call", "invoke") and i.get("c"): cs.append((i.get("cm") or i["c"], i))
                for a in i.get("a", []):
                    if isinstance(a, list) and len(a) > 1 and a[0] == "F": cs.append((a[1], i))
        fns[f["m"]], info[f["m"]] = cs, f
    if "main" not in fns: raise build.BuildError("no main function")
    seen, todo = set(), ["main"]
    # reachability ignores virtual dispatch targets by name: add every virtual override (address in a vtable) as a root
    todo += [m for m, f in info.items() if f["file"] != "" and f.get("member")]
    while todo:
        m = todo.pop()
        if m in seen or m not in fns: continue
        seen.add(m); todo += [c for c, _ in fns[m]]
    draws = seeds = 0
    for m in sorted(seen):
        f = info[m]
        for c, i in fns[m]:
            n = i.get("cd") or c
            at = "src/%s:%s" % (f["file"], i.get("l", f["line"]))
            if n in ("rand", "rand()"): draws += 1
            elif i.get("c") in SEEDS or n in SEEDS:
                seeds += 1
                if m != "main": R["bad"].append(dict(function=f["q"], at=at, what="%s reseeds the random generator outside the seed option" % n))
            elif SOURCES.search(re.sub(r"\(.*", "", n)) or ENGINES.search(n):
                R["bad"].append(dict(function=f["q"], at=at, what="%s draws on something the seed does not determine" % n))
    S = summ.summaries(None, specio.printfns())
    main = [e for e in S.values() if e["q"] == "main" and e["lines"]]
    ok = any("srand" in l[1] and "seed_arg" in l[1] for e in main for l in e["lines"])
    if not ok: R["bad"].append(dict(function="main", at="src/SearchEngine.cpp", what="the random generator is not seeded with the seed option"))
    if not seeds: R["bad"].append(dict(function="main", at="src/SearchEngine.cpp", what="the random generator is never seeded"))
    R["counts"].update(functions_reachable=len(seen), random_draws=draws, seed_calls=seeds)
    R["rules"].append("randomness: every source of randomness in code reachable from main is the generator seeded with the seed option")

RULES = dict(options=options, conditional=conditional, seed=seed)
