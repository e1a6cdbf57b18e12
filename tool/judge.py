"""Decides whether the difference between two summaries of one function is a definite change of behaviour.

Equal summaries: the function does what the specification says.  Different summaries are compared effect by effect.
A difference is definite when it can be put as "this effect happens under another condition / with another operand /
over another range / not at all / in addition", in terms that both summaries interpret alike (fields, arguments,
constants, operators, calls).  Where the only differences are in how a value is accumulated or a collection is walked
(carried values, unrecognised loops, local collections), the two summaries are not comparable and nothing is claimed
about the function: it is counted as undecided.
"""
import hashlib, re
from collections import Counter

TOK = re.compile(r'"(?:[^"\\]|\\.)*"|~[0-9a-f]{8}|[A-Za-z_$][\w$]*(?:::[~\w$]+)*(?:#[0-9a-f]{6})?|\d+|[<>=!&|+\-*/]+|\S')
OPAQUE = re.compile(r"^(SELF|rec|gl|final|at_exit|VIA|inst|undef|out|atx|cexpr|vector|set|map|unordered_set|unordered_map|pair|tuple|deque|list|forward_list|queue|stack|priority_queue|arr|tup|bitof|steps|pdiff|ev|\[\d.*|ctor|it|elem|begin|end|next|prev|deref)$")

LOCAL = re.compile(r"^(rec|gl|final|out|vector|set|map|unordered_set|unordered_map|pair|tuple|deque|list|forward_list|queue|stack|priority_queue|arr|ctor)$")

SUM = re.compile(r"[^ ,;]+(?: [+-] [^ ,;]+)+")
def terms(m, key):
    """a sum with its terms in a canonical order"""
    w = m.group(0).split(" ")
    p = sorted(w[:1] + [w[k + 1] for k in range(1, len(w), 2) if w[k] == "+"], key=key)
    n = sorted((w[k + 1] for k in range(1, len(w), 2) if w[k] == "-"), key=key)
    return " + ".join(p) + "".join(" - " + x for x in n)
def coarse(t):
    """elements of a local array as the objects they were filled with"""
    while True:
        u = re.sub(r"\bnew\[[^\[\]]*\]'*(?!&)", "new", t)
        u = re.sub(r"\bnew(?:#\w+)?\[(?:[^\[\]]|\[[^\[\]]*\])*\]'*(?!&)", "new", u)
        if u == t: return t
        t = u

def resort(txt):
    """conjunctions and disjunctions in a canonical order once names are masked"""
    out, st = [], []
    buf = []
    cur = []
    def close(parts):
        t = SUM.sub(lambda m: terms(m, full), "".join(parts))
        if " & " not in t and " | " not in t: return t
        # the condition starts after the last separator that is not part of it
        pre = ""
        for sep in ("  if ", "; ", ": ", ", ", " -> "):
            k = t.rfind(sep) if sep != " -> " else -1
            if k >= 0 and " & " in t[k:] or k >= 0 and " | " in t[k:]:
                pre, t = t[:k + len(sep)], t[k + len(sep):]
                break
        return pre + " | ".join(sorted((" & ".join(sorted(c.split(" & "), key=full)) for c in t.split(" | ")), key=full))
    stack = [[]]
    hold = []
    def full(t): return re.sub("\x00(\\d+)\x00", lambda m: hold[int(m.group(1))], t)
    for ch in txt:
        if ch in "([{":
            stack[-1].append(ch); stack.append([])
        elif ch in ")]}" and len(stack) > 1:
            x = close(stack.pop())
            hold.append(full(x))
            stack[-1].append("\x00%d\x00" % (len(hold) - 1)); stack[-1].append(ch)
        else: stack[-1].append(ch)
    while len(stack) > 1:
        x = close(stack.pop()); stack[-1].append(x)
    return full(close(stack[0]))

REF = re.compile(r"~[0-9a-f]{8}")
HUE = re.compile(r"#[0-9a-f]{6}")

class Canon:
    """the definitions of one summary with result names masked and renumbered by content, so that two summaries
    that differ only in how equal-looking results are told apart have the same keys"""
    def __init__(s, defs): s.d, s.memo, s.out = defs, {}, {}
    def text(s, t): return resort(HUE.sub("", REF.sub(lambda m: s.key(m.group(0)), t)))
    def key(s, k):
        r = s.memo.get(k)
        if r is None:
            s.memo[k] = k
            t = s.text(s.d[k]) if k in s.d else k[1:]
            r = s.memo[k] = "~" + hashlib.sha1(t.encode()).hexdigest()[:8]
            s.out[r] = t
        return r

def selfname(kind, txt):
    """a carried value's own name inside its update"""
    if kind != "rec": return txt
    m = re.match(r"REC (\S+) :=", txt)
    return txt.replace(m.group(1), "SELF") if m else txt

# ----- tables of conditional values
def parts(t, sep):
    """split at a separator outside brackets and quotes"""
    r, d, k, q = [], 0, 0, False
    i = 0
    while i < len(t):
        ch = t[i]
        if q:
            if ch == "\\": i += 1
            elif ch == '"': q = False
        elif ch == '"': q = True
        elif ch in "([{": d += 1
        elif ch in ")]}": d -= 1
        elif d == 0 and t.startswith(sep, i): r.append(t[k:i]); i += len(sep); k = i; continue
        i += 1
    r.append(t[k:])
    return r
def unwrap(t):
    t = t.strip()
    while t.startswith("(") and t.endswith(")"):
        d = 0
        for i, ch in enumerate(t):
            d += ch == "("; d -= ch == ")"
            if d == 0: break
        if i != len(t) - 1: break
        t = t[1:-1].strip()
    return t
NEG = {"!=": "==", ">=": "<", "<=": ">"}
def cond(t):
    """('or'|'and', parts) | ('atom', text, sign)"""
    t = unwrap(t)
    p = parts(t, " | ")
    if len(p) > 1: return ("or", [cond(x) for x in p])
    p = parts(t, " & ")
    if len(p) > 1: return ("and", [cond(x) for x in p])
    if t.startswith("!(") and unwrap(t[1:]) != t[1:]:
        return ("not", cond(t[1:]))
    for op in (" == ", " != ", " >= ", " <= ", " < ", " > "):
        q = parts(t, op)
        if len(q) == 2:
            o = op.strip()
            a, b = q
            if o in ("==", "!=") and (b, a) < (a, b) and not re.match(r"-?\d+$", b): a, b = b, a
            return ("atom", "%s %s %s" % (a, NEG.get(o, o), b), o not in NEG)
    if t in ("0", "1"): return ("const", t == "1")
    return ("atom", t, True)
def atoms(c, r):
    if c[0] == "atom": r.add(c[1])
    elif c[0] == "not": atoms(c[1], r)
    elif c[0] != "const":
        for x in c[1]: atoms(x, r)
    return r
def holds(c, m):
    if c[0] == "atom": return m[c[1]] == c[2]
    if c[0] == "not": return not holds(c[1], m)
    if c[0] == "const": return c[1]
    return (any if c[0] == "or" else all)(holds(x, m) for x in c[1])
def table(t):
    """[(condition, value)] of a value"""
    t = t.strip()
    if t.startswith("ite[") and t.endswith("]") and len(parts(t, ";")) == 1:
        r = []
        for a in parts(t[4:-1], "; "):
            q = parts(a, " -> ")
            if len(q) != 2: return None
            r.append((cond(q[0]), q[1].strip()))
        return r
    return [(("const", True), t)]
def inner(t):
    """start and end of an innermost conditional inside a value"""
    i = t.rfind("ite[")
    if i < 0: return None
    d = 0
    for j in range(i + 3, len(t)):
        d += t[j] == "["; d -= t[j] == "]"
        if d == 0: return i, j + 1
    return None
def resolve(v, m):
    """a value with its inner conditionals decided"""
    while True:
        k = inner(v)
        if k is None: return v
        T = table(v[k[0]:k[1]])
        if T is None: return None
        w = [x for c, x in T if holds(c, m)]
        if len(w) != 1: return None
        v = v[:k[0]] + w[0] + v[k[1]:]
def nested(v, at):
    """collects the conditions inside a value; False if it cannot be read"""
    while True:
        k = inner(v)
        if k is None: return True
        T = table(v[k[0]:k[1]])
        if T is None: return False
        for c, x in T: atoms(c, at)
        v = v[:k[0]] + "(" + " ".join(x for c, x in T) + ")" + v[k[1]:]
def consistent(m):
    one = {}
    for a, v in m.items():
        q = re.match(r"(.*) == (-?\d+)$", a)
        if q and v:
            if q.group(1) in one: return False
            one[q.group(1)] = int(q.group(2))
    for a, v in m.items():
        q = re.match(r"(.*) ([<>]) (-?\d+)$", a)
        if q and q.group(1) in one:
            x, k = one[q.group(1)], int(q.group(3))
            if (x < k if q.group(2) == "<" else x > k) != v: return False
    return True
VAGUE = re.compile(r"~|\b(at_exit|VIA|inst|undef|min|max|steps|pdiff|cexpr|EX)\b|\.\.\.")
def recdiff(x, y):
    """two updates of one carried value over the same loop: the case in which they differ, or None"""
    p = re.compile(r"REC (\S+) := (.*) @([^@]*)$", re.S)
    a, b = p.match(x), p.match(y)
    if not a or not b or a.group(3) != b.group(3): return None
    ia, ib = parts(a.group(2), " ; "), parts(b.group(2), " ; ")
    if len(ia) != 2 or len(ib) != 2: return None
    if ia[0] != ib[0]:
        if ia[1] == ib[1] and not VAGUE.search(ia[0] + ib[0]) and not opaque(Counter(toks(ia[0] + " " + ib[0]))): return "starts with %s instead of %s" % (ib[0], ia[0])
        return None
    ta, tb = table(ia[1]), table(ib[1])
    if ta is None or tb is None: return None
    at = set()
    for c, v in ta + tb:
        atoms(c, at)
        if not nested(v, at): return None
    at = sorted(at)
    if len(at) > 9: return None
    flag = all(v in ("0", "1", "SELF") for c, v in ta + tb) and ia[0] in ("0", "1")
    for k in range(1 << len(at)):
        m = {z: bool(k >> j & 1) for j, z in enumerate(at)}
        if not consistent(m): continue
        va, vb = [v for c, v in ta if holds(c, m)], [v for c, v in tb if holds(c, m)]
        if len(va) != 1 or len(vb) != 1: continue
        va, vb = resolve(va[0], m), resolve(vb[0], m)
        if va is None or vb is None: continue
        for z, v in m.items():
            q = re.match(r"SELF == (-?\d+)$", z)
            if q and v: n = q.group(1)
            elif q and flag: n = str(1 - int(q.group(1)))
            else: continue
            va, vb = (n if u == "SELF" else u for u in (va, vb))
        if va == vb or Counter(toks(va)) == Counter(toks(vb)): continue
        if VAGUE.search(va + vb) or any(VAGUE.search(z) for z in at): return None
        w = " & ".join(z if v else "!(%s)" % z for z, v in m.items())
        return "when %s it becomes %s instead of %s" % (w or "the loop runs", vb, va)
    return None

def canon(e):
    c = e.get("_canon")
    if c is None:
        c = Canon(e["defs"])
        c.lines = [(l[0], c.text(selfname(l[0], l[1])), l[3], l[4]) for l in e["lines"]]
        e["_canon"] = c
    return c

def expand(txt, defs, lim=6000):
    n = 0
    while n < 12:
        m = re.findall(r"~[0-9a-f]{8}", txt)
        if not m or len(txt) > lim: break
        for x in set(m): txt = txt.replace(x, defs.get(x, x[1:]))
        n += 1
    return resort(re.sub(r"#[0-9a-f]{6}", "", txt))

def toks(txt): return TOK.findall(txt)

def head(kind, txt):
    """what the effect does, without its operands, range and condition"""
    if kind == "ord": return "ORDER"
    if kind == "rec": return "REC"
    if kind == "gl": return "LOOP"
    t = re.sub(r"^for .*?: (?=[\w.$:<>~ ,*&]+[ =(])", "", txt) if txt.startswith("for ") else txt
    m = re.match(r"(?:[\w.]+ = )?([^\s(]+(?:<[^()]*>)?(?:::[^\s(]+)?)\(", t)
    nm = m.group(1) if m else t.split("(")[0]
    if nm in ("store", "copy", "fill") or nm.startswith("."):
        rest = t[t.find("(") + 1:]
        d, out = 0, ""
        for ch in rest:
            if ch in "([{<": d += 1
            elif ch in ")]}>":
                if d == 0: break
                d -= 1
            if ch == "," and d == 0: break
            out += ch
        f = re.findall(r"[A-Za-z_]\w*", re.sub(r"\[.*\]", "", out))
        nm += ":" + (f[-1] if f else "")
    return nm

def opaque(c):
    return [t for t in c if OPAQUE.match(t.split("#")[0])]

KIND = re.compile(r"\b(vector|set|map|unordered_set|unordered_map|deque|list|forward_list|queue|stack|priority_queue)\b(?!::)")
FEW = re.compile(r"i\d*<(\d)>")
def recast(b, M, E):
    """the same work organised in another way, which the two summaries do not express alike"""
    m, e = " ".join(x[1] for x in M), " ".join(x[1] for x in E)
    me = b.get("q", "").split("(")[0].split("::")[-1]
    if me:
        # a function that called itself now repeats, or the other way round
        call = re.compile(r"= %s\(" % re.escape(me))
        for x, y, Y in ((m, e, E), (e, m, M)):
            if call.search(x) and not call.search(y) and any(z[0] == "gl" or z[1].startswith("for ") for z in Y): return "recursion became a loop"
    # local collections of another kind
    km, ke = set(KIND.findall(m)), set(KIND.findall(e))
    if km and ke and not km & ke and len(M) > 1 and len(E) > 1: return "local collections of another kind: %s for %s" % (", ".join(sorted(ke)), ", ".join(sorted(km)))
    # a few repetitions written out, or folded into a loop
    fm, fe = set(FEW.findall(m)), set(FEW.findall(e))
    if bool(fm) != bool(fe) and len(M) > 1 and len(E) > 1:
        X = E if fe else M
        if all(FEW.search(x[1]) for x in X if x[0] not in ("rec", "gl")): return "repetitions folded or written out"
    return None

class Verdict:
    def __init__(s): s.same = True; s.bad = []; s.soft = []

def judge(b, c):
    """b: specified summary entry, c: current summary entry (dicts of summ.py). Verdict.bad = [(text, line, file)]"""
    v = Verdict()
    B, C = Counter(l[1] for l in b["lines"]), Counter(l[1] for l in c["lines"])
    if B == C: return v
    v.same = False
    kb, kc = canon(b), canon(c)
    def rest(mine, other):
        left, r = Counter(x[1] for x in mine.lines) - Counter(x[1] for x in other.lines), []
        for x in mine.lines:
            if left[x[1]] > 0: left[x[1]] -= 1; r.append((x[0], expand(x[1], mine.out), x[2], x[3]))
        return r
    EB, EC = rest(kb, kc), rest(kc, kb)
    cb, cc = Counter(x[1] for x in EB), Counter(x[1] for x in EC)
    M, E = [], []
    left = cb - cc
    for x in EB:
        if left[x[1]] > 0: left[x[1]] -= 1; M.append(x)
    left = cc - cb
    for x in EC:
        if left[x[1]] > 0: left[x[1]] -= 1; E.append(x)
    if not M and not E:
        # same effects, related differently to each other (which of several equal-looking results is used where)
        v.soft.append(("same effects, differently linked", c["line"], c["file"]))
        v.linked = True
        return v
    Mo, Eo = [x for x in M if x[0] == "ord"], [x for x in E if x[0] == "ord"]
    M, E = [x for x in M if x[0] != "ord"], [x for x in E if x[0] != "ord"]
    w = recast(b, M, E)
    if w:
        v.soft.append((w, c["line"], c["file"]))
        return v
    tm = [(x, Counter(toks(x[1])), head(x[0], x[1])) for x in M]
    te = [(x, Counter(toks(x[1])), head(x[0], x[1])) for x in E]
    # pair by head, closest first
    cand = []
    for i, (x, t, h) in enumerate(tm):
        for j, (y, u, k) in enumerate(te):
            if h != k: continue
            d1, d2 = t - u, u - t
            n = sum(d1.values()) + sum(d2.values())
            cand.append((n, i, j, d1, d2))
    cand.sort(key=lambda z: (z[0], z[1], z[2]))
    um, ue = set(range(len(tm))), set(range(len(te)))
    pairs = []
    for n, i, j, d1, d2 in cand:
        if i in um and j in ue: um.discard(i); ue.discard(j); pairs.append((n, i, j, d1, d2))
    # nothing about how values are accumulated or ranges are walked differs, and every effect has its counterpart:
    # names of carried values, loops and local collections mean the same thing on both sides
    stable = not um and not ue and not any(x[0] in ("rec", "gl") for x in M + E)
    stable = stable and not any(not LOCAL.match(t.split("#")[0]) and not (t in tm[i][1] and t in te[j][1])
                                for n, i, j, d1, d2 in pairs for t in opaque(d1) + opaque(d2))
    for n, i, j, d1, d2 in pairs:
        x, y = tm[i][0], te[j][0]
        size = sum(tm[i][1].values()) + sum(te[j][1].values())
        if tm[i][2] == "REC" and sum(1 for z in M if z[0] in ("rec", "gl")) == sum(1 for z in E if z[0] in ("rec", "gl")):
            w = recdiff(x[1], y[1])
            if w:
                v.bad.append(("carried value changed: %s: was [%s] now [%s]" % (w[:400], x[1][:400], y[1][:400]), y[2] or c["line"], y[3])); continue
        op = opaque(d1) + opaque(d2)
        if stable: op = []
        if x[1].count("new[") != y[1].count("new[") and coarse(x[1]) == coarse(y[1]): op = ["new"]
        msg = ("changed: was [%s] now [%s]" % (x[1][:600], y[1][:600]), y[2] or c["line"], y[3])
        if op: v.soft.append(msg)
        elif n <= max(14, 0.6 * size): v.bad.append(msg)
        else: v.soft.append(msg)
    structural = any(x[0] in ("rec", "gl") for x in M + E) or bool(v.soft)
    for i in sorted(um):
        x, t, h = tm[i]
        msg = ("missing: [%s]" % x[1][:800], x[2] and c["line"] or c["line"], c["file"])
        if h in ("REC", "LOOP"): v.soft.append(msg); continue
        kept = any(head(l[0], expand(l[1], kc.out)) == h for l in kc.lines)
        if opaque(t) and (E or structural): v.soft.append(msg)
        elif kept and structural: v.soft.append(msg)
        else: v.bad.append(msg)
    for j in sorted(ue):
        y, u, k = te[j]
        msg = ("new: [%s]" % y[1][:800], y[2] or c["line"], y[3])
        if k in ("REC", "LOOP"): v.soft.append(msg); continue
        had = any(head(l[0], expand(l[1], kb.out)) == k for l in kb.lines)
        if opaque(u) and (M or structural): v.soft.append(msg)
        elif had and structural: v.soft.append(msg)
        else: v.bad.append(msg)
    if not v.bad and not M and not E:
        for x in Mo[:6] + Eo[:6]: v.bad.append(("order: " + x[1][:800], x[2] or c["line"], x[3]))
    return v
