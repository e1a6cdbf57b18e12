"""Guarded-effect summaries of functions, computed from the exported SSA facts.

A summary is the set of effects a function has on memory outside its own scalars, each with
 - the loops (ranges) it is repeated over,
 - the exact condition under which it happens (a boolean function over atoms, kept as an ROBDD),
 - its operands as normalised terms over arguments, fields, loop indices and call results.
Two texts that differ by extracted helpers, renamed or reordered independent statements, index/iterator/range/while
loops, early exits versus flags, nested versus combined conditions... have the same summary.
"""
import sys, re, json, hashlib
from functools import lru_cache
sys.setrecursionlimit(100000)

# ----------------------------------------------------------------------------------------------- BDD
class B:
    def __init__(s):
        s.n = [(1 << 60, 0, 0), (1 << 60, 1, 1)]
        s.u = {}
        s.memo = {}
    def mk(s, v, l, h):
        if l == h: return l
        k = (v, l, h)
        r = s.u.get(k)
        if r is None:
            r = len(s.n); s.n.append(k); s.u[k] = r
        return r
    def var(s, v): return s.mk(v, 0, 1)
    def ite(s, f, g, h):
        if f == 1: return g
        if f == 0: return h
        if g == h: return g
        if g == 1 and h == 0: return f
        k = (f, g, h)
        r = s.memo.get(k)
        if r is not None: return r
        n = s.n
        v = min(n[f][0], n[g][0], n[h][0])
        f0, f1 = (n[f][1], n[f][2]) if n[f][0] == v else (f, f)
        g0, g1 = (n[g][1], n[g][2]) if n[g][0] == v else (g, g)
        h0, h1 = (n[h][1], n[h][2]) if n[h][0] == v else (h, h)
        r = s.mk(v, s.ite(f0, g0, h0), s.ite(f1, g1, h1))
        s.memo[k] = r
        return r
    def NOT(s, f): return s.ite(f, 0, 1)
    def AND(s, f, g): return s.ite(f, g, 0)
    def OR(s, f, g): return s.ite(f, 1, g)
    def XOR(s, f, g): return s.ite(f, s.NOT(g), g)
    def cof(s, f, v, b, memo=None):
        if memo is None: memo = {}
        if f < 2: return f
        r = memo.get(f)
        if r is not None: return r
        w, l, h = s.n[f]
        if w > v: r = f
        elif w == v: r = h if b else l
        else: r = s.mk(w, s.cof(l, v, b, memo), s.cof(h, v, b, memo))
        memo[f] = r
        return r
    def support(s, f):
        seen, st, vs = set(), [f], set()
        while st:
            x = st.pop()
            if x < 2 or x in seen: continue
            seen.add(x)
            w, l, h = s.n[x]
            vs.add(w); st.append(l); st.append(h)
        return vs
    def isop(s, lo, up, memo=None):
        """Minato irredundant sum of products for an f with lo <= f <= up; returns (bdd, cubes)"""
        if memo is None: memo = {}
        if lo == 0: return 0, []
        if up == 1: return 1, [()]
        k = (lo, up)
        if k in memo: return memo[k]
        v = min(s.n[lo][0], s.n[up][0])
        l0, l1 = s.cof(lo, v, 0), s.cof(lo, v, 1)
        u0, u1 = s.cof(up, v, 0), s.cof(up, v, 1)
        f0, c0 = s.isop(s.AND(l0, s.NOT(u1)), u0, memo)
        f1, c1 = s.isop(s.AND(l1, s.NOT(u0)), u1, memo)
        r0, r1 = s.AND(l0, s.NOT(f0)), s.AND(l1, s.NOT(f1))
        fd, cd = s.isop(s.OR(r0, r1), s.AND(u0, u1), memo)
        f = s.OR(fd, s.mk(v, f0, f1))
        cs = [((v, 0),) + c for c in c0] + [((v, 1),) + c for c in c1] + cd
        memo[k] = (f, cs)
        return f, cs

# ----------------------------------------------------------------------------------------------- terms
class T:
    __slots__ = ("k", "a", "id", "free")
    def __repr__(s): return show(s)

class Terms:
    """hash-consed terms plus the boolean layer over them"""
    def __init__(s):
        s.tab = {}
        s.b = B()
        s.atoms = []           # bdd var -> T
        s.atomidx = {}
        s.smemo = {}
    def mk(s, k, *a):
        key = (k, a)
        t = s.tab.get(key)
        if t is None:
            t = T(); t.k = k; t.a = a; t.id = len(s.tab)
            s.tab[key] = t
            fr = set()
            def w(x):
                if isinstance(x, T): fr.update(x.free)
                elif isinstance(x, tuple):
                    for y in x: w(y)
            for x in a: w(x)
            if k in ("iv", "it", "rec", "gl"): fr.add(t)
            if k == "bool":
                for v in s.b.support(a[0]): fr |= s.atoms[v].free
            if k == "ex": fr -= {a[0]}
            t.free = frozenset(fr)
        return t
    # ---- ints
    def I(s, n): return s.mk("int", n)
    def lin(s, t):
        if t.k == "int": return t.a[0], {}
        if t.k == "sum": return t.a[0], dict(t.a[1])
        return 0, {t: 1}
    def unlin(s, c, d):
        d = {t: k for t, k in d.items() if k}
        if not d: return s.I(c)
        if c == 0 and len(d) == 1:
            (t, k), = d.items()
            if k == 1: return t
        # vector size: finish - start
        fins = [t for t in d if t.k == "ld" and t.a[0].k == "p" and t.a[0].a[1] and t.a[0].a[1][-1] == ("f", "vec.fin")]
        for f in fins:
            st = None
            for t in d:
                if t.k == "ld" and t.a[0].k == "p" and t.a[0].a[1] and t.a[0].a[1][-1] == ("f", "vec.start") and \
                   t.a[0].a[0] is f.a[0].a[0] and t.a[0].a[1][:-1] == f.a[0].a[1][:-1] and d[t] == -d[f]:
                    st = t
            if st is not None:
                k = d.pop(f); d.pop(st)
                sz = s.mk("bytes", s.mk("size", s.mkp(f.a[0].a[0], f.a[0].a[1][:-1]), f.a[1]))
                d[sz] = d.get(sz, 0) + k
                return s.unlin(c, d)
        # the same through a reference chosen by a condition
        fins = [t for t in d if t.k == "phi" and all(x.k == "ld" and x.a[0].k == "p" and x.a[0].a[1][-1] == ("f", "vec.fin") for g, x in t.a[0])]
        for f in fins:
            for u in d:
                if u is f or u.k != "phi" or d[u] != -d[f] or len(u.a[0]) != len(f.a[0]): continue
                gu = dict((g, x) for g, x in u.a[0])
                if len(gu) != len(u.a[0]) or any(g not in gu for g, x in f.a[0]): continue
                m = [(g, s.add(x, gu[g], -1)) for g, x in f.a[0]]
                if any(x.k != "bytes" for g, x in m): continue
                k = d.pop(f); d.pop(u)
                r = s.phi(m)
                d[r] = d.get(r, 0) + k
                return s.unlin(c, d)
        return s.mk("sum", c, tuple(sorted(d.items(), key=lambda x: x[0].id)))
    def add(s, x, y, ky=1):
        if x.k == "phi" or y.k == "phi":
            pass
        c, d = s.lin(x); c2, d2 = s.lin(y)
        d = dict(d)
        for t, k in d2.items(): d[t] = d.get(t, 0) + k * ky
        c += c2 * ky
        ch = [t for t, k in d.items() if k and (t.k == "bool" or t.k == "phi" and all(z.k == "int" for g, z in t.a[0]))]
        if 0 < len(ch) < 3:
            # a number chosen by a condition
            arms = [(1, c)]
            for t in ch:
                k = d.pop(t)
                ar = [(t.a[0], 1), (s.b.NOT(t.a[0]), 0)] if t.k == "bool" else [(g, z.a[0]) for g, z in t.a[0]]
                arms = [(s.b.AND(g, g2), n + k * z) for g, n in arms for g2, z in ar]
            return s.phi([(g, s.unlin(n, d)) for g, n in arms])
        return s.unlin(c, d)
    def scale(s, x, k):
        c, d = s.lin(x)
        return s.unlin(c * k, {t: v * k for t, v in d.items()})
    def mul(s, x, y):
        if x.k == "int": return s.scale(y, x.a[0])
        if y.k == "int": return s.scale(x, y.a[0])
        fs = []
        for t in (x, y):
            if t.k == "mul": fs += list(t.a[0])
            else: fs.append(t)
        return s.mk("mul", tuple(sorted(fs, key=lambda t: t.id)))
    def opn(s, o, x, y):
        if o in ("and", "or", "xor", "fadd", "fmul"):
            if y.id < x.id: x, y = y, x
        if x.k == "int" and y.k == "int":
            a, b = x.a[0], y.a[0]
            try:
                if o == "and": return s.I(a & b)
                if o == "or": return s.I(a | b)
                if o == "xor": return s.I(a ^ b)
                if o == "shl": return s.I(a << b)
                if o in ("lshr", "ashr"): return s.I(a >> b)
                if o == "div" and b: return s.I(int(a / b))
                if o == "rem" and b: return s.I(a - int(a / b) * b)
            except Exception: pass
        if o == "div" and y.k == "int":
            if y.a[0] == 1: return x
            if x.k == "phi" and all(z.k == "bytes" for g, z in x.a[0]): return s.phi([(g, s.opn(o, z, y)) for g, z in x.a[0]])
            c, d = s.lin(x)
            # exact pointer difference
            if d and all(t.k == "bytes" for t in d) and c % y.a[0] == 0 and all(v in (1, -1) for v in d.values()):
                r = s.I(c // y.a[0])
                for t, v in d.items(): r = s.add(r, t.a[0], v)
                return r
            if d and y.a[0] and all(v % y.a[0] == 0 for v in d.values()) and c % y.a[0] == 0 and any(t.k == "bytes" for t in d):
                return s.unlin(c // y.a[0], {t: v // y.a[0] for t, v in d.items()})
        if o == "shl" and y.k == "int" and 0 <= y.a[0] < 31: return s.scale(x, 1 << y.a[0])
        if o == "or" and (x.k == "int" and x.a[0] == 0): return y
        if o == "or" and (y.k == "int" and y.a[0] == 0): return x
        return s.mk("op", o, x, y)
    # ---- pointers
    def mkp(s, base, path):
        if base.k == "p": return s.mkp(base.a[0], base.a[1] + tuple(path))
        if not path: return base
        if base.k == "phi": return s.phi([(g, s.mkp(x, path)) for g, x in base.a[0]])
        return s.mk("p", base, tuple(path))
    def gep(s, p, step):
        """step: ('f',name) | ('i',T) pointer arithmetic | ('arr',T) element of an embedded array"""
        if p.k == "phi": return s.phi([(g, s.gep(x, step)) for g, x in p.a[0]])
        base, path = (p.a[0], p.a[1]) if p.k == "p" else (p, ())
        if step[0] == "f":
            n = fieldname(step[1])
            if n is None: return p
            return s.mkp(base, path + (("f", n),))
        if step[0] == "i":
            if path and path[-1][0] == "i":
                ix = s.add(path[-1][1], step[1])
                path = path[:-1]
            else: ix = step[1]
            if ix.k == "int" and ix.a[0] == 0: return s.mkp(base, path) if path else base
            return s.mkp(base, path + (("i", ix),))
        if step[0] == "arr":
            return s.mkp(base, path + (("a", step[1]),))
        return s.mkp(base, path + (step,))
    # ---- booleans
    def boolT(s, n):
        return s.mk("bool", n)
    def atom(s, t):
        i = s.atomidx.get(t)
        if i is None:
            i = len(s.atoms); s.atoms.append(t); s.atomidx[t] = i
        return s.b.var(i)
    def truthy(s, t):
        if t.k == "bool": return t.a[0]
        if t.k == "int": return 1 if t.a[0] else 0
        if t.k == "phi":
            r = 0
            for g, x in t.a[0]: r = s.b.OR(r, s.b.AND(g, s.truthy(x)))
            return r
        return s.b.NOT(s.eq0(t))
    def edge(s, d):
        """(which, sign) when d is, up to sign and a constant, the distance of a loop index from its first or last value:
        d = sign * (index - first) + rest or sign * (index - last) + rest; returns (side, sign, rest)"""
        c, l = s.lin(d)
        for v, k in l.items():
            if v.k != "iv" or v.a[0].k != "rng" or v.a[0].a[1] or k not in (1, -1): continue
            if len(l) == 1: return "first", k, c
            n, m = s.lin(v.a[0].a[0])
            if len(m) != len(l) - 1: continue
            if all(l.get(t) == -k * q for t, q in m.items()): return "last", k, c - k * (1 - n)
        return None
    def count(s, t):
        """a value that is a number of things"""
        if t.k in ("size",): return True
        if t.k == "iv": return True
        if t.k == "ld" and t.a[0].k == "p" and len(t.a[0].a[1]) == 1 and t.a[0].a[1][0][0] == "i": return s.count(t.a[0].a[0])
        return t.k == "ld" and t.a[0].k == "p" and any(x[0] == "f" for x in t.a[0].a[1]) and COUNT.match([x[1] for x in t.a[0].a[1] if x[0] == "f"][-1].split(".")[-1].split("::")[-1]) is not None
    def atleast(s, x, y):
        """x >= y for sure"""
        if x is y: return True
        c, l = s.lin(s.add(x, y, -1))
        if c < 0: return False
        if all(k > 0 and s.count(t) for t, k in l.items()): return True
        # a task is primitive or abstract: there are at least as many tasks as actions
        m = [(t, k) for t, k in l.items() if not (k > 0 and s.count(t))]
        if len(m) == 1 and m[0][1] < 0:
            f = lambda t: t.a[0].a[1][-1][1] if t.k == "ld" and t.a[0].k == "p" and t.a[0].a[1][-1][0] == "f" else ""
            a = m[0][0]
            return f(a).endswith("numActions") and any(k >= -m[0][1] and f(t).endswith("numTasks") and t.a[0].a[0] is a.a[0].a[0] for t, k in l.items())
        return False
    def eq0(s, d):
        if d.k == "int": return 1 if d.a[0] == 0 else 0
        if d.k == "null": return 1
        if d.k == "bool": return s.b.NOT(d.a[0])
        if d.k in ("al", "new", "fn", "glob", "str") or (d.k == "p" and d.a[1]): return 0
        if d.k == "phi":
            r = 0
            for g, x in d.a[0]: r = s.b.OR(r, s.b.AND(g, s.eq0(x)))
            return r
        c, l = s.lin(d)
        if len(l) == 1:
            (t, k), = l.items()
            if t.k in ("size", "bytes") or (t.k == "call" and t.a[0] in NONNEG) or t.k == "ld" and c == 0 and s.count(t):
                if c == 0: return s.lt0(s.add(t.a[0] if t.k == "bytes" else t, s.I(-1)))
            if k < 0: return s.eq0(s.scale(d, -1))
            if k > 1 and c % k == 0: return s.eq0(s.unlin(c // k, {t: 1}))
            if t.k == "in" : return s.b.NOT(s.atom(t)) if c == 0 else (s.atom(t) if c == -1 else 0)
            if t.k == "bool": return s.b.NOT(t.a[0]) if c == 0 else (t.a[0] if c == -1 else 0)
            if t.k == "phi" and len(t.a[0]) <= 8:
                r = 0
                for g, x in t.a[0]: r = s.b.OR(r, s.b.AND(g, s.eq0(s.add(s.scale(x, k), s.I(c)))))
                return r
        elif len(l) == 2 and c == 0:
            (t1, k1), (t2, k2) = l.items()
            # it == end()
            if k1 == -k2 and t1.k == "call" and t2.k == "call":
                f, e = (t1, t2) if t1.a[0].endswith("::find") else (t2, t1)
                if f.a[0].endswith("::find") and e.a[0].endswith("::end") and s.unver(f.a[1][0]) is e.a[1][0]:
                    return s.b.NOT(s.atom(s.mk("in", f.a[1][1], f.a[1][0])))
            if k1 == -k2 and t1.k == "bool" and t2.k == "bool":
                return s.b.NOT(s.b.XOR(t1.a[0], t2.a[0]))
            if k1 == -k2:
                # order of begin/end
                for x, y in ((t1, t2), (t2, t1)):
                    if x.k == "phi" and len(x.a[0]) <= 8:
                        r = 0
                        for g, z in x.a[0]: r = s.b.OR(r, s.b.AND(g, s.eq0(s.add(z, y, -1))))
                        return r
        ph = next((t for t in l if t.k == "phi" and len(t.a[0]) <= 8), None)
        if ph is not None and sum(1 for t in l if t.k == "phi") <= 3:
            k = l.pop(ph); rest = s.unlin(c, l); r = 0
            for g, z in ph.a[0]: r = s.b.OR(r, s.b.AND(g, s.eq0(s.add(rest, z, k))))
            return r
        if l:
            f = min(l, key=lambda t: t.id)
            if l[f] < 0: d = s.scale(d, -1)
        return s.atom(s.mk("eq0", d))
    def unver(s, x):
        return s.mkp(x.a[0], x.a[1][:-1]) if x.k == "p" and x.a[1][-1] == ("v", "'") else x
    def lt0(s, d):
        if d.k == "int": return 1 if d.a[0] < 0 else 0
        if d.k == "bool": return 0
        c, l = s.lin(d)
        if len(l) == 1:
            (t, k), = l.items()
            if t.k == "phi" and len(t.a[0]) <= 8:
                r = 0
                for g, x in t.a[0]: r = s.b.OR(r, s.b.AND(g, s.lt0(s.add(s.scale(x, k), s.I(c)))))
                return r
            if t.k == "bytes" and (k, c) in ((1, -1), (-1, 0)): return s.lt0(s.add(s.scale(t.a[0], k), s.I(c)))
            if t.k in ("size",) or (t.k == "call" and t.a[0] in NONNEG):
                if k == 1 and c >= 0: return 0
                if k == -1 and c < 0: return 1
            if t.k == "in":
                return s.b.OR(s.b.AND(s.atom(t), s.lt0(s.I(k + c))), s.b.AND(s.b.NOT(s.atom(t)), s.lt0(s.I(c))))
            if t.k == "bool":
                return s.b.ite(t.a[0], s.lt0(s.I(k + c)), s.lt0(s.I(c)))
        ph = next((t for t in l if t.k == "phi" and len(t.a[0]) <= 8), None)
        if ph is not None and sum(1 for t in l if t.k == "phi") <= 3:
            k = l.pop(ph); rest = s.unlin(c, l); r = 0
            for g, z in ph.a[0]: r = s.b.OR(r, s.b.AND(g, s.lt0(s.add(rest, z, k))))
            return r
        w = s.edge(d)
        if w:
            # the index is never before its first and never after its last value
            side, k, r = w
            if side == "first" and k == 1 and r == -1: return s.eq0(s.add(d, s.I(1)))
            if side == "first" and k == -1 and r == 0: return s.b.NOT(s.eq0(d))
            if side == "last" and k == 1 and r == 0: return s.b.NOT(s.eq0(d))
            if side == "last" and k == -1 and r == -1: return s.eq0(s.add(d, s.I(1)))
        if l:
            f = min(l, key=lambda t: t.id)
            if l[f] < 0:   # d<0 <=> not(-d <= 0) <=> not(-d-1 < 0)
                return s.b.NOT(s.atom(s.mk("lt0", s.add(s.scale(d, -1), s.I(-1)))))
        return s.atom(s.mk("lt0", d))
    def cmp(s, p, x, y):
        if p in ("eq", "ne"):
            if y.k == "null": r = s.eq0(x)
            elif x.k == "null": r = s.eq0(y)
            elif x is y: r = 1
            else: r = s.eq0(s.add(x, y, -1))
            return r if p == "eq" else s.b.NOT(r)
        p = p[1:] if p[0] in "su" else p
        if p == "lt": return s.lt0(s.add(x, y, -1))
        if p == "gt": return s.lt0(s.add(y, x, -1))
        if p == "le": return s.b.NOT(s.lt0(s.add(y, x, -1)))
        if p == "ge": return s.b.NOT(s.lt0(s.add(x, y, -1)))
        raise Exception(p)
    def settle(s, g, C=1):
        """one form for a condition, known to be looked at only where C holds, whose atoms say something about each other:
        x<y, x<=y and x==y of the same x and y; and that something in a range satisfies P means the range is not empty"""
        if g < 2: return g
        k = ("settle", g, C)
        r = s.smemo.get(k)
        if r is not None: return r
        b, g0 = s.b, g
        sup = b.support(g)
        tri = {}
        for v in sorted(sup | (b.support(C) if C > 1 else set())):
            t = s.atoms[v] if v < len(s.atoms) else None
            if t is None: continue
            if t.k == "ex" and v in sup and t.a[0].k == "iv" and t.a[0].a[0].k == "rng" and not t.a[0].a[0].a[1]:
                e = s.lt0(s.add(t.a[0].a[0].a[0], s.I(-1)))
                if e > 1:
                    w, lo, hi = b.n[e]
                    if w in sup and lo < 2 and hi < 2:
                        g = b.ite(b.var(v), b.cof(b.cof(g, v, 1), w, 0 if hi else 1), b.cof(g, v, 0))
            elif t.k in ("eq0", "lt0"):
                c, l = s.lin(t.a[0])
                tri.setdefault(tuple(sorted(((x.id, n) for x, n in l.items()))), []).append((c, t.k, v, t.a[0]))
        for L in tri.values():
            if len(L) < 2: continue
            cs = {c for c, kk, v, d in L if kk == "eq0"} | {c for c, kk, v, d in L if kk == "lt0" and any(c2 == c - 1 and k2 == "lt0" for c2, k2, v2, d2 in L)}
            for c in sorted(cs):
                d = next(s.add(d, s.I(c - c2)) for c2, kk, v, d in L)
                E, lo, up = s.mk("eq0", d), s.mk("lt0", d), s.mk("lt0", s.add(d, s.I(-1)))
                vs = [s.atomidx.get(x) for x in (E, lo, up)]
                if sum(1 for v in vs if v is not None and any(v == q[2] for q in L)) < 2: continue
                def case(f, *val):
                    for v, x in zip(vs, val):
                        if v is not None: f = b.cof(f, v, x)
                    return f
                Es, Ls, Gs = case(g, 1, 0, 1), case(g, 0, 1, 1), case(g, 0, 0, 0)
                if C > 1:
                    if case(C, 1, 0, 1) == 0: Es = None
                    if case(C, 0, 1, 1) == 0: Ls = None
                    if case(C, 0, 0, 0) == 0: Gs = None
                vals = [x for x in (Es, Ls, Gs) if x is not None]
                if not vals: continue
                if len(set(vals)) == 1: g = vals[0]
                elif Es is None or Es == Gs: g = b.ite(s.atom(lo), Ls if Ls is not None else Gs, Gs if Gs is not None else Ls)
                elif Gs is None: g = b.ite(s.atom(lo), Ls, Es)
                elif Ls is None or Ls == Gs: g = b.ite(s.atom(E), Es, Gs)
                elif Es == Ls: g = b.ite(s.atom(up), Es, Gs)
                else: g = b.ite(s.atom(E), Es, b.ite(s.atom(lo), Ls, Gs))
        s.smemo[k] = g
        return g
    def within(s, x, C):
        """a value looked at only where C holds"""
        if C < 2 or x.k != "phi": return x
        return s.phi([(s.settle(g, C), y) for g, y in x.a[0]])
    def fcmp(s, p, x, y):
        q = p[1:]
        if p in ("true", "false"): return int(p == "true")
        if q == "ne": return s.b.NOT(s.fcmp("oeq", x, y))
        if q == "eq":
            if y.id < x.id: x, y = y, x
            return s.atom(s.mk("feq", x, y))
        if q == "lt": return s.atom(s.mk("flt", x, y))
        if q == "gt": return s.atom(s.mk("flt", y, x))
        if q == "le": return s.b.NOT(s.atom(s.mk("flt", y, x)))
        if q == "ge": return s.b.NOT(s.atom(s.mk("flt", x, y)))
        return s.atom(s.mk("fcmp", p, x, y))
    def phi(s, arms):
        """arms: [(guard bdd, T)]; guards are exclusive"""
        d = {}
        for g, t in arms:
            if g == 0: continue
            if t.k == "phi" :
                for g2, t2 in t.a[0]:
                    gg = s.b.AND(g, g2)
                    if gg: d[t2] = s.b.OR(d.get(t2, 0), gg)
            else: d[t] = s.b.OR(d.get(t, 0), g)
        if not d: return s.mk("undef")
        d2 = {t: g for t, g in d.items() if t.k != "undef"}
        if d2: d = d2
        if len(d) == 1: return next(iter(d))
        if all(t.k == "bool" or (t.k == "int" and t.a[0] in (0, 1)) for t in d):
            r = 0
            for t, g in d.items(): r = s.b.OR(r, s.b.AND(g, s.truthy(t)))
            return s.boolT(r) if r > 1 else s.I(r)
        return s.mk("phi", tuple(sorted(((g, t) for t, g in d.items()), key=lambda x: x[1].id)))
    # ---- substitution
    def cat(s, xs):
        """concatenation of strings: nested ones flattened, neighbouring literals joined, empty ones dropped"""
        r = []
        for x in xs:
            for y in (x.a[0] if x.k == "cat" else (x,)):
                if y.k == "int" and 0 < y.a[0] < 128: y = s.mk("str", json.dumps(chr(y.a[0])))
                if y.k == "str" and y.a[0] == '""': continue
                if r and y.k == "str" and r[-1].k == "str" and y.a[0].startswith('"') and r[-1].a[0].startswith('"'):
                    r[-1] = s.mk("str", r[-1].a[0][:-1] + y.a[0][1:]); continue
                r.append(y)
        return s.mk("str", '""') if not r else r[0] if len(r) == 1 else s.mk("cat", tuple(r))
    def subst(s, t, m, memo=None, deep=False):
        if memo is None: memo = {}
        if not deep and not any(x in m for x in t.free) and not (t in m): return t
        r = memo.get(t)
        if r is not None: return r
        if t in m: r = m[t]
        else:
            S = lambda x: s.subst(x, m, memo, deep)
            k = t.k
            if deep and k in ("ex", "atx", "via", "bool", "rec", "res", "iv", "it", "fin", "in", "phi"): memo[t] = t; return t
            if k == "sum":
                r = s.I(t.a[0])
                for x, c in t.a[1]: r = s.add(r, S(x), c)
            elif k == "mul":
                r = s.I(1)
                for x in t.a[0]: r = s.mul(r, S(x))
            elif k == "op": r = s.opn(t.a[0], S(t.a[1]), S(t.a[2]))
            elif k == "p":
                r = S(t.a[0])
                for st in t.a[1]:
                    r = s.gep(r, (st[0], S(st[1]))) if isinstance(st[1], T) and st[0] in "i" else \
                        s.mkp(r, ((st[0], S(st[1]) if isinstance(st[1], T) else st[1]),))
            elif k == "bool": r = s.boolT(s.bsubst(t.a[0], m, memo)); r = s.I(r.a[0]) if r.a[0] < 2 else r
            elif k == "phi": r = s.phi([(s.bsubst(g, m, memo), S(x)) for g, x in t.a[0]])
            elif k == "bytes": r = s.mk("bytes", S(t.a[0]))
            elif k == "cat": r = s.cat([S(x) for x in t.a[0]])
            else:
                def w(x):
                    if isinstance(x, T): return S(x)
                    if isinstance(x, tuple): return tuple(w(y) for y in x)
                    return x
                r = s.mk(k, *[w(x) for x in t.a])
        memo[t] = r
        return r
    def atombdd(s, t):
        if t.k == "eq0": return s.eq0(t.a[0])
        if t.k == "lt0": return s.lt0(t.a[0])
        return s.atom(t)
    def bsubst(s, f, m, memo=None):
        if f < 2: return f
        if memo is None: memo = {}
        k = ("b", f)
        if k in memo: return memo[k]
        v, l, h = s.b.n[f]
        a = s.atoms[v]
        a2 = s.subst(a, m, memo)
        av = s.b.var(v) if a2 is a else s.atombdd(a2)
        r = s.b.ite(av, s.bsubst(h, m, memo), s.bsubst(l, m, memo))
        memo[k] = r
        return r

NONNEG = set()
COUNT = re.compile(r"^(num[A-Z]\w*|\w*[sS]ize)$")

_fn_cache = {}
def fieldname(n):
    r = _fn_cache.get(n)
    if r is not None: return r or None
    m = re.sub(r"<[^<>]*>", "", n)
    while "<" in m and re.search(r"<[^<>]*>", m): m = re.sub(r"<[^<>]*>", "", m)
    if m.startswith("std::_Vector_base"):
        m = "vec.start" if m.endswith("_M_start") else "vec.fin" if m.endswith("_M_finish") else ""
    elif m.startswith("std::") and (m.endswith(".#0") or m.endswith("._M_impl") or m.endswith("._M_t")): m = ""
    else:
        m = m.replace("progression::", "").replace("symbolic::", "")
    _fn_cache[n] = m
    return m or None

def show(t, d=0):
    if not isinstance(t, T): return str(t)
    if d > 12: return "…"
    return t.k + "(" + ",".join(show(x, d + 1) if isinstance(x, T) else
                                ("[" + ",".join(show(y, d + 1) if isinstance(y, T) else "(" + ",".join(show(z, d + 1) for z in y) + ")" if isinstance(y, tuple) else str(y) for y in x) + "]" if isinstance(x, tuple) else str(x)) for x in t.a) + ")"

# ----------------------------------------------------------------------------------------------- library model
OBJ_TYPES = ("std::vector", "std::deque", "std::set", "std::map", "std::multimap", "std::multiset", "std::unordered_set", "std::unordered_map",
             "std::__cxx11::list", "std::forward_list", "std::queue", "std::stack", "std::priority_queue", "std::__cxx11::basic_stringstream",
             "std::__cxx11::basic_istringstream", "std::__cxx11::basic_ostringstream", "std::basic_ofstream", "std::basic_ifstream",
             "std::basic_ios", "std::locale", "std::function", "Cudd", "std::queue")
CONTAINERS = ("std::vector::", "std::deque::", "std::set::", "std::map::", "std::multimap::", "std::multiset::", "std::unordered_set::", "std::unordered_map::",
              "std::__cxx11::list::", "std::forward_list::", "std::queue::", "std::stack::", "std::priority_queue::", "std::bitset::", "std::__cxx11::basic_string::")
CPURE = {"size", "count", "find", "begin", "end", "front", "back", "top", "empty", "length", "at", "data", "c_str", "compare", "rbegin", "rend",
         "cbegin", "cend", "lower_bound", "upper_bound", "substr", "rfind", "contains", "find_first_of", "find_last_of", "find_first_not_of", "max_size", "capacity", "test", "to_string", "none", "any", "all"}
LOCRET = {"front", "back", "top"}
VALUE_CLASSES = {"BDD", "ABDD", "ADD", "DD"}
PURE_FREE = {"std::min", "std::max", "std::abs", "std::log", "std::log2", "std::ceil", "std::floor", "std::to_string", "std::stoi", "std::pow", "std::sqrt",
             "std::numeric_limits::max", "std::numeric_limits::min", "std::operator+", "std::operator==", "std::operator!=", "std::operator<", "std::operator>",
             "strlen", "strcmp", "strncmp", "atoi", "abs", "llvm.ctlz.i32", "llvm.ctlz.i64", "llvm.ceil.f64", "std::type_info::operator==", "std::type_info::operator!=",
             "std::tolower", "std::operator|", "std::operator&", "std::hash::operator()", "_Rb_tree_increment", "std::_Rb_tree_increment", "std::_Rb_tree_decrement", "std::isnan",
             "std::unique_ptr::operator->", "std::unique_ptr::get", "std::unique_ptr::operator*", "std::less::operator()", "llvm.floor.f64", "log2", "ceil", "floor", "log", "pow",
             "__errno_location", "strerror", "llvm.fabs.f64", "std::find", "std::_Deque_iterator::operator*", "std::_Deque_iterator::operator->", "std::_Deque_iterator::operator+", "std::_Deque_iterator::operator-"}
IGNORE = {"clock", "gettimeofday", "llvm.experimental.noalias.scope.decl", "__cxa_atexit", "std::setw", "std::setprecision", "std::flush", "std::endl", "fflush",
          "std::allocator::allocator", "std::__new_allocator::__new_allocator", "__clang_call_terminate", "llvm.stacksave", "llvm.stackrestore",
          "std::ios_base::Init::Init", "std::locale::locale", "std::fixed", "std::hex", "std::dec", "printf", "puts", "putchar", "llvm.assume", "std::__new_allocator::~__new_allocator"}
IGNORE_RE = re.compile(r"^(llvm\.lifetime|llvm\.dbg|llvm\.invariant|std::basic_ostream::|std::ostream::|std::basic_ios::|std::ios_base|std::basic_ofstream|std::allocator|std::chrono|std::this_thread)")
COMM = {"BDD::operator*", "BDD::operator+", "BDD::operator|", "BDD::operator&", "BDD::operator^", "BDD::And", "BDD::Or", "BDD::Xnor"}
ASSIGN_OPS = {"operator*=": "operator*", "operator+=": "operator+", "operator|=": "operator|", "operator&=": "operator&", "operator-=": "operator-", "operator^=": "operator^"}

def params(dem):
    """parameter types and constness from a demangled signature"""
    const = dem.rstrip().endswith("const")
    s = dem.rstrip()
    s = re.sub(r"( const| \[clone.*\]|&)*$", "", s)
    if not s.endswith(")"): return [], const
    d = 0
    for i in range(len(s) - 1, -1, -1):
        if s[i] == ")": d += 1
        elif s[i] == "(":
            d -= 1
            if d == 0: break
    inner = s[i + 1:-1]
    res, d, cur = [], 0, ""
    for j, ch in enumerate(inner):
        if ch in "<([{": d += 1
        elif ch in ">)]}" and not (ch == ">" and j and inner[j - 1] == "-"): d -= 1
        if ch == "," and d == 0: res.append(cur.strip()); cur = ""
        else: cur += ch
    if cur.strip() and cur.strip() != "void": res.append(cur.strip())
    return res, const

def opens(x):
    return x

# ----------------------------------------------------------------------------------------------- functions
PUREOPS = {"trunc", "zext", "sext", "freeze", "xor", "and", "or", "icmp", "add", "sub", "mul", "load", "getelementptr", "br", "select", "extractvalue", "bitcast", "ptrtoint"}

def threadphi(f):
    """short-circuit joins: a block that only branches on a phi is entered through its predecessors' own branches"""
    bl = f["blocks"]
    uses = {}
    pred = {}
    for bi, b in enumerate(bl):
        for i in b:
            for a in i.get("a", []):
                if isinstance(a, int): uses.setdefault(a, []).append((bi, i))
            for g in i.get("g", []):
                if g[0] == "i" and isinstance(g[1], int): uses.setdefault(g[1], []).append((bi, i))
        for x in (b[-1].get("s", []) if b else []): pred.setdefault(x, []).append(bi)
    for B, b in enumerate(bl):
        if B == 0 or not b or B not in pred: continue
        t = b[-1]
        if t["op"] != "br" or not t.get("a") or not isinstance(t["a"][0], int): continue
        if t["s"][0] == t["s"][1] or B in t["s"]: continue
        phis = [i for i in b if i["op"] == "phi"]
        if len(phis) != len(b) - 1:
            continue
        c = next((i for i in phis if i["i"] == t["a"][0]), None)
        if c is None: continue
        if not any(isinstance(a, list) and a[0] == "C" for a in c["a"]): continue
        ids = {i["i"] for i in phis}
        T = t["s"]
        ok = True
        for x in ids:
            for ub, u in uses.get(x, []):
                if u is t: continue
                if u["op"] == "phi" and all(pb == B for a, pb in zip(u["a"], u["in"]) if a == x) and ub in T: continue
                ok = False
        if not ok: continue
        if any(bl[p][-1]["op"] not in ("br",) for p in pred[B]): continue
        if any(len([1 for p in pred[B] if p == q]) > 1 for q in pred[B]): continue
        # a pred that already goes to a target: a phi there would need two entries
        plan = []
        for v, p in zip(c["a"], c["in"]):
            if isinstance(v, list) and v[0] == "C": plan.append((p, (T[0] if v[1] else T[1],), None))
            else:
                pt = bl[p][-1]
                if len(pt["s"]) != 1 or pt.get("a"): ok = False; break
                plan.append((p, tuple(T), v))
        if not ok: continue
        for p, ts, v in plan:
            for x in ts:
                if x in bl[p][-1]["s"] and x != B:
                    # two edges from p to x: fine only if x's phis agree
                    for ph in bl[x]:
                        if ph["op"] != "phi": break
                        vb = [a for a, pb in zip(ph["a"], ph["in"]) if pb == B]
                        vp = [a for a, pb in zip(ph["a"], ph["in"]) if pb == p]
                        if vb and vp:
                            w = vb[0]
                            if w in ids: w = next(a for i2 in phis if i2["i"] == w for a, pb in zip(i2["a"], i2["in"]) if pb == p)
                            if w != vp[0]: ok = False
        if not ok: continue
        for x in set(T):
            for ph in bl[x]:
                if ph["op"] != "phi": break
                k = ph["in"].index(B)
                w = ph["a"][k]
                del ph["a"][k]; del ph["in"][k]
                for p, ts, v in plan:
                    if x not in ts: continue
                    if p in ph["in"]: continue
                    ww = w
                    if isinstance(w, int) and w in ids: ww = next(a for i2 in phis if i2["i"] == w for a, pb in zip(i2["a"], i2["in"]) if pb == p)
                    ph["a"].append(ww); ph["in"].append(p)
        for p, ts, v in plan:
            pt = bl[p][-1]
            if v is None:
                pt["s"] = [ts[0] if x == B else x for x in pt["s"]]
            else:
                pt["s"] = list(ts); pt["a"] = [v]
                if "l" in t: pt["l"] = t["l"]
        bl[B] = [{"i": t["i"], "op": "unreachable", "l": t.get("l", 0)}]
        return True
    return False

def mergeblocks(f):
    """joins straight-line blocks"""
    bl = f["blocks"]
    live, st = {0}, [0]
    while st:
        for x in bl[st.pop()][-1].get("s", []):
            if x not in live: live.add(x); st.append(x)
    for b in range(len(bl)):
        if b not in live: bl[b] = [{"i": bl[b][-1]["i"], "op": "unreachable", "l": 0}]
        else:
            for i in bl[b]:
                if i["op"] != "phi": break
                for k in range(len(i["in"]) - 1, -1, -1):
                    if i["in"][k] not in live or b not in bl[i["in"][k]][-1].get("s", []): del i["in"][k]; del i["a"][k]
    pred = {}
    for b in live:
        for x in dict.fromkeys(bl[b][-1].get("s", [])): pred.setdefault(x, []).append(b)
    sub = {}
    for b in sorted(live):
        if bl[b][-1]["op"] == "unreachable" and len(bl[b]) == 1: continue
        while True:
            t = bl[b][-1]
            if t["op"] != "br" or t.get("a") or len(t["s"]) != 1: break
            x = t["s"][0]
            if x == b or x == 0 or pred.get(x) != [b]: break
            body = bl[x]
            k = 0
            while body[k]["op"] == "phi":
                sub[body[k]["i"]] = body[k]["a"][0]; k += 1
            bl[b] = bl[b][:-1] + body[k:]
            bl[x] = [{"i": t["i"], "op": "unreachable", "l": 0}]
            for y in dict.fromkeys(bl[b][-1].get("s", [])):
                pred[y] = [b if p == x else p for p in pred[y]]
                for i in bl[y]:
                    if i["op"] != "phi": break
                    i["in"] = [b if p == x else p for p in i["in"]]
    if sub:
        def r(v):
            while isinstance(v, int) and v in sub: v = sub[v]
            return v
        for b in bl:
            for i in b:
                if "a" in i: i["a"] = [r(v) for v in i["a"]]
                if "cv" in i: i["cv"] = [r(v) for v in i["cv"]]
                if "g" in i: i["g"] = [([g[0], r(g[1])] + g[2:]) if g[0] == "i" else g for g in i["g"]]

def flagval(s, v, d=0):
    """a value that is 0 or 1"""
    if isinstance(v, list): return v[0] == "C" and v[1] in (0, 1)
    i = s.ins[v]
    if i.d["ty"] == "i1": return True
    if d > 8: return True
    if i.op == "zext": return s.ins[i.d["a"][0]].d["ty"] == "i1" if isinstance(i.d["a"][0], int) else True
    if i.op == "phi": return all(flagval(s, a, d + 1) for a in i.d["a"])
    if i.op == "select": return all(flagval(s, a, d + 1) for a in i.d["a"][1:])
    return False

class Inst:
    __slots__ = ("i", "op", "b", "pos", "d")
    def __init__(s, i, op, b, pos, d): s.i, s.op, s.b, s.pos, s.d = i, op, b, pos, d

class Loop:
    __slots__ = ("h", "blocks", "parent", "kids", "latch", "pre", "fn", "info", "id", "dep", "exits", "_side", "depth", "term")

class Ctx:
    def __init__(s, path):
        s.j = json.load(open(path))
        s.fns = {}
        s.byq = {}
        for f in s.j["functions"]:
            s.fns[f["m"]] = f
            f["q"] = re.sub(r"\$_\d+", "$_", re.sub(r"\[abi:\w+\]", "", f["q"]))
            if f.get("srty") and (f["srty"] in VALUE_CLASSES or f["srty"].startswith(("std::pair", "std::tuple", "std::__cxx11::basic_string"))): sretcell(f)
            if f["q"].startswith("void "): f["q"] = re.sub(r"<[^<>]*>", "", f["q"][5:])
            for bl in f["blocks"]:
                for i in bl:
                    if i["op"] == "call" and i.get("b") and "[abi:" in i["b"]: i["b"] = re.sub(r"\[abi:\w+\]", "", i["b"])
            s.byq.setdefault(f["q"], []).append(f)
        s.glob = s.j["globals"]
        s.virtuals()
        s._mods = None
        s.summ = {}
    # --- the functions a virtual call may reach: those in the same slot of some vtable
    def virtuals(s):
        slots = {}
        for g, v in s.glob.items():
            if g.startswith("_ZTV") and isinstance(v, list):
                for k, q in enumerate(v[2:]):
                    if q and "~" not in q: slots.setdefault(k, set()).add(q)
        for f in s.fns.values():
            ins = None
            for b in f["blocks"]:
                for i in b:
                    if i["op"] != "call" or i.get("b") is not None or not i.get("cv") or not isinstance(i["cv"][0], int): continue
                    if ins is None: ins = {j["i"]: j for bb in f["blocks"] for j in bb}
                    l = ins[i["cv"][0]]
                    if l["op"] != "load" or not isinstance(l["a"][0], int): continue
                    g, k = ins[l["a"][0]], 0
                    if g["op"] == "getelementptr":
                        if not (isinstance(g["a"][0], int) and len(g["g"]) == 1 and isinstance(g["g"][0][1], list) and g["g"][0][1][0] == "C"): continue
                        k = g["g"][0][1][1]
                    i["vt"] = sorted(h["m"] for q in slots.get(k, ()) for h in s.byq.get(q, ()) if len(h["args"]) == len(i["a"]) and h["ret"] == i["ty"])
    # --- which memory does a function change (classes), transitively
    def mods(s):
        if s._mods is not None: return s._mods
        direct, calls = {}, {}
        for m, f in s.fns.items():
            cl = Cls(f)
            d, cs = set(), []
            for b in f["blocks"]:
                for i in b:
                    if i["op"] == "store":
                        c, r = cl.scls(i["a"][1]), cl.root(i["a"][1])
                        if r[0] in ("al", "new"): continue
                        v = i["a"][0]
                        if isinstance(v, list) and v[0] in ("E", "G") and "_ZTV" in str(v): continue
                        d.add((c, r))
                    elif i["op"] == "call":
                        k = callkind(i)
                        if i.get("sret"):
                            r = cl.root(i["a"][0])
                            if r[0] not in ("al", "new"): d.add((cl.scls(i["a"][0]), r))
                        if k == "mut":
                            a0 = i["a"][1 if i.get("sret") else 0]
                            r = cl.root(a0)
                            if r[0] in ("al", "new"): continue
                            d.add((("sz", cl.pcls(a0)), r)); d.add((("e", cl.pcls(a0)), r))
                        elif k == "proj": cs.append((i, cl, i["cm"]))
                        elif i.get("vt"): cs += [(i, cl, m2) for m2 in i["vt"]]
                        elif k == "ext" and OWNARGS.match(i.get("b") or ""):
                            for v in i["a"]:
                                if isinstance(v, int) and cl.ins[v].get("ty") != "ptr": continue
                                r = cl.root(v)
                                if r[0] not in ("al", "new"): d.add((("e", cl.pcls(v)), r))
                        elif k in ("ext", "virt", "alloc"): d.add((("ext", i.get("b") or "virt"), ("*",)))
            direct[m], calls[m] = d, cs
        changed = True
        rounds = 0
        while changed and rounds < 30:
            changed = False; rounds += 1
            for m in s.fns:
                d = direct[m]; n0 = len(d)
                for i, cl, m2 in calls[m]:
                    g = direct.get(m2)
                    if g is None: d.add((("ext", i.get("b")), ("*",))); continue
                    for c, r in list(g):
                        if r[0] == "a":
                            if r[1] >= len(i["a"]): continue
                            r2 = cl.root(i["a"][r[1]])
                            if r2[0] in ("al", "new"): continue
                        else: r2 = r
                        d.add((submod(c, i, cl), r2))
                if len(d) != n0: changed = True
        s._mods = direct
        return direct
    def pure(s, m):
        return m in s.fns and not s.mods()[m]

# what these change is what they are handed
OWNARGS = re.compile(r"std::_Bit_iterator(_base)?::operator(\+\+|--|\+=|-=)$|std::(__cxx11::)?basic_[io]?stringstream::(basic_[io]?stringstream|~?basic_[io]?stringstream)$|std::istream::operator>>$|std::operator>>$|std::getline$|std::swap$")
def streamop(b): return b in ("std::istream::operator>>", "std::operator>>") or b.startswith("std::getline")
def sretcell(f):
    """the returned small value is handled like a local that is read by the return"""
    n = max(i["i"] for b in f["blocks"] for i in b) + 1
    def w(x):
        if isinstance(x, list):
            if len(x) >= 2 and x[0] == "A" and x[1] == 0: return n
            return [w(y) for y in x]
        return x
    for b in f["blocks"]:
        for i in b:
            if "a" in i: i["a"] = w(i["a"])
            if "g" in i: i["g"] = w(i["g"])
    f["blocks"][0].insert(0, {"i": n, "op": "alloca", "ty": "ptr", "aty": f["srty"], "nm": "ret"})
    f["sretcell"] = n

def submod(c, i, cl, depth=0):
    if isinstance(c, tuple):
        if c and c[0] == "a" and len(c) == 2 and isinstance(c[1], int):
            return cl.pcls(i["a"][c[1]]) if c[1] < len(i["a"]) else c
        if depth > 3: return c
        return tuple(submod(x, i, cl, depth + 1) for x in c)
    return c

class Cls:
    """syntactic alias classes of pointers"""
    def __init__(s, f):
        s.f = f
        s.ins = {i["i"]: i for b in f["blocks"] for i in b}
    def element(s, v):
        """a pointer to an element: steps from it stay in the same array"""
        if not isinstance(v, int) or s.ins[v]["op"] != "getelementptr": return False
        st = [x for x in s.ins[v]["g"] if x[0] != "f" or fieldname(x[1])]
        return bool(st) and st[-1][0] != "f"
    def scls(s, v, d=0):
        if isinstance(v, int):
            i = s.ins[v]
            if i["op"] == "getelementptr":
                st = [x for x in i["g"] if x[0] != "f" or fieldname(x[1])]
                if st and st[-1][0] == "f":
                    n = fieldname(st[-1][1])
                    if n == "vec.fin": return ("sz", s.pcls(i["a"][0], d + 1))
                    if n == "vec.start": return ("st", s.pcls(i["a"][0], d + 1))
                    if n.startswith("std::pair."):
                        return ("e", s.pcls(i["a"][0], d + 1))
                    return ("f", n)
                if s.element(i["a"][0]): return s.scls(i["a"][0], d + 1)
                return ("e", s.pcls(i["a"][0], d + 1))
            if i["op"] in ("phi", "select") and d < 10:
                for a in (i["a"][1:] if i["op"] == "select" else i["a"]):
                    if a == v or not isinstance(a, int): continue
                    r = s.scls(a, d + 3)
                    if r[1] != ("?",): return r
        return ("e", s.pcls(v, d + 1))
    def pcls(s, v, d=0):
        if d > 12: return ("?",)
        if isinstance(v, int):
            i = s.ins[v]; o = i["op"]
            if o == "load":
                c = s.scls(i["a"][0], d + 1)
                return c[1] if c[0] == "st" else c
            if o == "getelementptr":
                st = [x for x in i["g"] if x[0] != "f" or fieldname(x[1])]
                if st and st[-1][0] == "f":
                    n = fieldname(st[-1][1])
                    if n.startswith("std::pair.") or n.startswith("std::_"): return s.pcls(i["a"][0], d + 1)
                    return ("f", n)
                if st and s.element(i["a"][0]): return s.pcls(i["a"][0], d + 1)
                if st: return ("e", s.pcls(i["a"][0], d + 1))
                return s.pcls(i["a"][0], d + 1)
            if o in ("phi", "select"):
                for a in (i["a"][1:] if o == "select" else i["a"]):
                    if a != v:
                        r = s.pcls(a, d + 3)
                        if r != ("?",): return r
                return ("?",)
            if o == "alloca": return ("al", v)
            if o == "call":
                b = i.get("b") or "virt"
                if b.split("::")[-1] in ("operator[]", "front", "back", "top", "at", "begin", "end", "find", "operator*", "operator->"):
                    a = i["a"][1 if i.get("sret") else 0] if i["a"] else None
                    if a is not None: return ("e", s.pcls(a, d + 1))
                if b.startswith("operator new") or b in ("malloc", "calloc"): return ("new", v)
                if b == "std::_Rb_tree_increment" or b == "std::_Rb_tree_decrement": return s.pcls(i["a"][0], d + 3)
                return ("c", b)
            return ("?",)
        if v[0] == "A": return ("a", v[1])
        if v[0] == "G": return ("g", v[1])
        return ("?",)
    def root(s, v, d=0):
        if d > 14: return ("*",)
        if isinstance(v, int):
            i = s.ins[v]; o = i["op"]
            if o == "getelementptr": return s.root(i["a"][0], d + 1)
            if o == "alloca": return ("al", v)
            if o in ("phi", "select"):
                for a in (i["a"][1:] if o == "select" else i["a"]):
                    if a != v: return s.root(a, d + 4)
            if o == "call":
                b = i.get("b") or ""
                if b.startswith("operator new") or b in ("malloc", "calloc"): return ("new", v)
                if b.split("::")[-1] in ("operator[]", "front", "back", "top", "at", "begin", "end", "find") and i["a"]:
                    r = s.root(i["a"][1 if i.get("sret") else 0], d + 1)
                    return r
                return ("*",)
            if o == "load":
                c = s.scls(i["a"][0])
                if c[0] == "st": return s.root(i["a"][0], d + 1)
                r = s.root(i["a"][0], d + 1)
                return ("*",) if r[0] != "al" else ("*",)
            return ("*",)
        if v[0] == "A": return ("a", v[1])
        return ("*",)

def callkind(i):
    """ignore | pure | mut (library container change) | val (value class op) | proj | ext | virt | alloc | free | exit"""
    b = i.get("b")
    if b is None: return "virt"
    if b in ("operator new", "operator new[]", "malloc", "calloc"): return "alloc"
    if b in ("operator delete", "operator delete[]", "free"): return "free"
    if i.get("proj"): return "proj"
    if b in IGNORE or IGNORE_RE.match(b): return "ignore"
    last = b.split("::")[-1]
    if last.startswith("~"): return "ignore"
    if b.startswith(("llvm.memcpy", "llvm.memmove", "llvm.memset")): return "mem"
    if b.startswith("llvm.") and "with.overflow" in b: return "pure"
    if b in ("exit", "abort", "_exit", "std::terminate") or b.startswith("std::__throw"): return "exit"
    if b.split("::")[0] in VALUE_CLASSES: return "val"
    if b.startswith("Cudd::") and i.get("cd", "").rstrip().endswith("const") and last in ("bddOne", "bddZero", "bddVar", "addOne", "addZero", "addVar", "ReadSize", "IndicesToCube", "computeCube", "bddComputeCube"): return "pure"
    if b.startswith("std::_Bit_reference"): return "val"
    if b.startswith(("std::_Deque_iterator::operator++", "std::_Deque_iterator::operator--")): return "val"
    if b.startswith(("std::operator<<", "std::ostream")): return "ignore"
    if b.replace("__cxx11::", "") in PURE_FREE: return "pure"
    if b.startswith("std::__cxx11::basic_string::"):
        if last in CPURE or last == "operator[]": return "pure"
        return "val"
    for c in CONTAINERS:
        if b.startswith(c):
            cls = c.split("::")[-2]
            if last in CPURE: return "pure"
            if last == "operator[]": return "pure"
            if last == cls: return "mut" if ctor_copies(i) else "ctor"
            return "mut"
    if last.startswith("operator") and b.startswith("std::") and i.get("cd", "").rstrip().endswith("const"): return "pure"
    return "ext"

def ctor_copies(i):
    p, _ = params(i.get("cd", ""))
    return len([x for x in p if "allocator" not in x.split("<")[0]]) > 0

class Fn:
    def __init__(s, ctx, f, opts=None):
        s.ctx, s.f = ctx, f
        s.opts = opts or {}
        s.t = Terms()
        s.b = s.t.b
        if not f.get("threaded"):
            f["threaded"] = 1
            while threadphi(f): pass
            mergeblocks(f)
        while True:
            s._build(f)
            if s._onelatch(): continue
            if not s._rotate(): break
            while threadphi(f): pass
            mergeblocks(f)
        s.cl = Cls(f)
        s._allocas()
        s.memo, s.cmemo, s.ecm, s.rm, s.cellmemo = {}, {}, {}, {}, {}
        s.reclist, s.recinfo = [], {}
        s.callm = {}
        s._reachability()
        s._defs()
    def _build(s, f):
        s.blocks = []
        s.ins = {}
        for bi, bl in enumerate(f["blocks"]):
            L = []
            for p, i in enumerate(bl):
                x = Inst(i["i"], i["op"], bi, p, i)
                s.ins[x.i] = x; L.append(x)
            s.blocks.append(L)
        s.file = f["file"]
        n = len(s.blocks)
        s.succ = [s.blocks[b][-1].d.get("s", []) if s.blocks[b] else [] for b in range(n)]
        s.pred = [[] for _ in range(n)]
        for b in range(n):
            for x in dict.fromkeys(s.succ[b]): s.pred[x].append(b)
        s.rpo = s._rpo()
        s.rank = {b: k for k, b in enumerate(s.rpo)}
        s.pred = [[p for p in ps if p in s.rank] for ps in s.pred]
        s._dead()
        s._dom()
        s._loops()
    def _onelatch(s):
        """gives every loop one block that all its iterations end in"""
        ch = False
        bl = s.f["blocks"]
        for L in s.loops.values():
            if len(L.latch) < 2: continue
            n = len(bl)
            nid = max(i["i"] for b in bl for i in b) + 1
            nb = []
            ls = set(L.latch)
            for i in bl[L.h]:
                if i["op"] != "phi": break
                ks = [k for k, p in enumerate(i["in"]) if p in ls]
                vs = [i["a"][k] for k in ks]
                if all(v == vs[0] for v in vs): v = vs[0]
                else:
                    d = dict(i); d["i"] = nid; d["a"] = vs; d["in"] = [i["in"][k] for k in ks]
                    nb.append(d); v = nid; nid += 1
                for k in reversed(ks): del i["a"][k]; del i["in"][k]
                i["a"].append(v); i["in"].append(n)
            nb.append({"i": nid, "op": "br", "s": [L.h], "l": bl[L.latch[0]][-1].get("l", 0)})
            for p in ls:
                t = bl[p][-1]
                t["s"] = [n if x == L.h else x for x in t["s"]]
            bl.append(nb)
            ch = True
            break
        return ch
    def _rotate(s):
        """a loop continued while a flag holds that the body recomputes is the loop left where the flag is lost"""
        for L in s.loops.values():
            if len(L.latch) != 1 or len(L.pre) < 1: continue
            lb = L.latch[0]
            lt = s.blocks[lb][-1]
            if lt.op != "br" or lt.d.get("a") or lb == L.h: continue
            # blocks tested before the body
            chain = [L.h]
            while True:
                x = chain[-1]
                nx = [y for y in s.succ[x] if y in L.blocks]
                if len(s.succ[x]) != 2 or len(nx) != 1 or nx[0] in chain or len(s.pred[nx[0]]) != 1: break
                y = nx[0]
                if s.blocks[y][-1].op != "br" or any(i.op not in PUREOPS for i in s.blocks[y][:-1]): break
                chain.append(y)
            if any(i.op not in PUREOPS and i.op != "phi" for i in s.blocks[L.h][:-1]): continue
            phis = {i.i: i for i in s.blocks[L.h] if i.op == "phi"}
            for k, tb in enumerate(chain):
                term = s.blocks[tb][-1]
                if term.op != "br" or not term.d.get("a") or not isinstance(term.d["a"][0], int): continue
                out = [y for y in s.succ[tb] if y not in L.blocks]
                if len(out) != 1 or out[0] in s.dead: continue
                out = out[0]; stay = [y for y in s.succ[tb] if y in L.blocks][0]
                # condition is a chain of conversions of a header phi
                ops, v = [], term.d["a"][0]
                while v not in phis:
                    i = s.ins[v]
                    if i.op in ("trunc", "zext", "sext", "freeze"): ops.append(i); v = i.d["a"][0]
                    elif i.op in ("xor", "icmp") and isinstance(i.d["a"][1], list) and i.d["a"][1][0] == "C" and isinstance(i.d["a"][0], int): ops.append(i); v = i.d["a"][0]
                    else: v = None; break
                    if not isinstance(v, int): v = None; break
                if v is None: continue
                ph = phis[v]
                inits = [a for a, pb in zip(ph.d["a"], ph.d["in"]) if pb not in L.blocks]
                new = [a for a, pb in zip(ph.d["a"], ph.d["in"]) if pb in L.blocks][0]
                if not inits or any(not (isinstance(a, list) and a[0] == "C") or a[1] != inits[0][1] for a in inits): continue
                if ph.d["ty"] not in ("i1", "i8"): continue
                def ev(c):
                    for o in reversed(ops):
                        if o.op == "trunc" and o.d["ty"] == "i1": c &= 1
                        elif o.op == "xor":
                            m = o.d["a"][1][1]
                            c = (c ^ m) & 1 if o.d["ty"] == "i1" else c ^ m
                        elif o.op == "icmp":
                            r = o.d["a"][1][1]; pr = o.d["p"]
                            if pr not in ("eq", "ne"): return None
                            c = int((c == r) == (pr == "eq"))
                    return c & 1
                stayval = 1 if term.d["s"][0] == stay else 0
                c0 = inits[0][1] & 0xff
                if ev(c0) != stayval: continue
                c1 = next((c for c in (0, 1) if ev(c) is not None and ev(c) == 1 - stayval), None)
                if c1 is None: continue
                if isinstance(new, list): continue
                if not flagval(s, new): continue
                # leaving through the other tests first must look the same
                oth = [c for c in chain[:k]]
                ok = True
                for i in s.blocks[out]:
                    if i.op != "phi": break
                    mine = [a for a, pb in zip(i.d["a"], i.d["in"]) if pb == tb]
                    for a in mine:
                        if isinstance(a, int) and a not in phis and s.bof(a) in L.blocks: ok = False
                    for c in oth:
                        for a, pb in zip(i.d["a"], i.d["in"]):
                            if pb == c and a != mine[0] : ok = False
                for c in oth:
                    if out not in s.succ[c]: ok = False
                if not ok: continue
                # rewrite
                nid = max(s.ins) + 1
                cur = new
                lbl = s.f["blocks"][lb]
                br = lbl[-1]
                for o in reversed(ops):
                    d = dict(o.d); d["i"] = nid; d["a"] = [cur] + list(o.d["a"][1:])
                    lbl.insert(len(lbl) - 1, d); cur = nid; nid += 1
                if not ops and s.ins[new].d["ty"] != "i1": continue
                br["a"] = [cur]; br["s"] = [L.h, out] if stayval else [out, L.h]
                t2 = s.f["blocks"][tb][-1]
                t2["s"] = [stay]; t2["a"] = []
                for i in s.f["blocks"][out]:
                    if i["op"] != "phi": break
                    a = [x for x, pb in zip(i["a"], i["in"]) if pb == tb][0]
                    drop = [n for n, pb in enumerate(i["in"]) if pb == tb]
                    for n in reversed(drop): del i["a"][n]; del i["in"][n]
                    if a == v: i["a"].append(["C", c1, 8]); 
                    elif isinstance(a, int) and a in phis:
                        i["a"].append([x for x, pb in zip(phis[a].d["a"], phis[a].d["in"]) if pb in L.blocks][0])
                    else: i["a"].append(a)
                    i["in"].append(lb)
                pd = next(i for i in s.f["blocks"][L.h] if i["i"] == v)
                for n, pb in enumerate(pd["in"]):
                    if pb in L.blocks: pd["a"][n] = ["C", c0, 8]
                return True
        return False
    def bof(s, v): return s.ins[v].b
    # ------------------------------------------------------------------ CFG
    def _rpo(s):
        seen, order = set(), []
        st = [(0, iter(s.succ[0]))]
        seen.add(0)
        while st:
            b, it = st[-1]
            for x in it:
                if x not in seen:
                    seen.add(x); st.append((x, iter(s.succ[x]))); break
            else:
                order.append(b); st.pop()
        return order[::-1]
    def _dead(s):
        s.dead = set()
        ch = True
        while ch:
            ch = False
            for b in reversed(s.rpo):
                if b in s.dead: continue
                o = s.blocks[b][-1].op
                if o == "unreachable" or (s.succ[b] and all(x in s.dead for x in s.succ[b])):
                    s.dead.add(b); ch = True
    def _dom(s):
        idom = {0: 0}
        ch = True
        while ch:
            ch = False
            for b in s.rpo[1:]:
                nd = None
                for p in s.pred[b]:
                    if p in idom:
                        if nd is None: nd = p
                        else:
                            x, y = p, nd
                            while x != y:
                                while s.rank[x] > s.rank[y]: x = idom[x]
                                while s.rank[y] > s.rank[x]: y = idom[y]
                            nd = x
                if nd is not None and idom.get(b) != nd: idom[b] = nd; ch = True
        s.idom = idom
    def dominates(s, a, b):
        while True:
            if a == b: return True
            if b == 0: return False
            b = s.idom[b]
    def _loops(s):
        s.loops = {}
        heads = {}
        for b in s.rpo:
            for x in s.succ[b]:
                if s.rank[x] <= s.rank[b] and s.dominates(x, b): heads.setdefault(x, []).append(b)
        for h, ls in heads.items():
            L = Loop(); L.h, L.latch, L.blocks, L.parent, L.kids, L.fn, L.info, L.dep, L._side, L.term = h, ls, {h}, None, [], s, None, None, None, None
            st = list(ls)
            while st:
                x = st.pop()
                if x in L.blocks: continue
                L.blocks.add(x); st += s.pred[x]
            L.pre = [p for p in s.pred[h] if p not in L.blocks]
            L.id = h
            s.loops[h] = L
        s.loopof = {}
        for L in sorted(s.loops.values(), key=lambda L: -len(L.blocks)):
            for b in L.blocks:
                s.loopof[b] = L
        for L in s.loops.values():
            cand = [M for M in s.loops.values() if M is not L and L.h in M.blocks]
            L.parent = min(cand, key=lambda M: len(M.blocks)) if cand else None
            if L.parent: L.parent.kids.append(L)
            L.exits = []
            for b in sorted(L.blocks, key=lambda x: s.rank[x]):
                for x in dict.fromkeys(s.succ[b]):
                    if x not in L.blocks and x not in s.dead: L.exits.append((b, x))
    def chain(s, b):
        """loops around block b, outermost first"""
        r, L = [], s.loopof.get(b)
        while L: r.append(L); L = L.parent
        return r[::-1]
    def _reachability(s):
        n = len(s.blocks)
        s.rb = [0] * n
        ch = True
        while ch:
            ch = False
            for b in reversed(s.rpo):
                m = 0
                for x in s.succ[b]: m |= (1 << x) | s.rb[x]
                if m != s.rb[b]: s.rb[b] = m; ch = True
    def canreach(s, i, j):
        """instruction i can execute before instruction j"""
        if i.b == j.b and i.pos < j.pos: return True
        return bool(s.rb[i.b] >> j.b & 1)
    # ------------------------------------------------------------------ allocas
    def _allocas(s):
        s.al = {}
        s.cell = set()
        for i in s.ins.values():
            if i.op == "alloca": s.al[i.i] = i
        s.aptrm = {}
        bad = set()
        for i in s.ins.values():
            for k, a in enumerate(i.d.get("a", [])):
                if not isinstance(a, int): continue
                p = s.aptr(a)
                if p is None:
                    continue
                ok = i.op == "load" or (i.op == "store" and k == 1) or (i.op == "getelementptr" and k == 0) or i.op == "call"
                if i.op == "getelementptr" and k == 0 and "off" not in i.d: ok = False
                if not ok: bad.add(p[0])
        s.pod = bad
        for a, i in s.al.items():
            ty = i.d["aty"]
            base = re.sub(r"\.\d+$", "", ty)
            if a in bad: continue
            if base in OBJ_TYPES or ty.startswith("["): continue
            if s.isprojtype(base): continue
            s.cell.add(a)
    def isprojtype(s, t):
        if t in VALUE_CLASSES or t.startswith("{") or t.startswith("std::") or t.startswith("__gnu") or t in ("ptr", "float", "double") or re.match(r"i\d+$", t): return False
        return True
    def aptr(s, v):
        """(alloca, byte offset) for pointers into an alloca at a constant offset"""
        if not isinstance(v, int): return None
        r = s.aptrm.get(v, 0)
        if r != 0: return r
        i = s.ins[v]
        r = None
        if i.op == "alloca": r = (v, 0)
        elif i.op == "getelementptr":
            p = s.aptr(i.d["a"][0])
            if p and "off" in i.d: r = (p[0], p[1] + i.d["off"])
        s.aptrm[v] = r
        return r
    def cptr(s, v):
        p = s.aptr(v)
        return p if p and p[0] in s.cell else None
    # ------------------------------------------------------------------ memory definitions (versions)
    def _defs(s):
        s.mdefs = []       # (inst, class, root)
        s.inprogress = {}
        mods = s.ctx.mods()
        for i in s.ins.values():
            if i.b not in s.rank: continue
            if i.op == "store":
                if s.cptr(i.d["a"][1]): continue
                for v in s.arms(i.d["a"][1]):
                    m = (i, s.cl.scls(v), s.cl.root(v))
                    if m not in s.mdefs[-4:]: s.mdefs.append(m)
            elif i.op == "call":
                k = callkind(i.d)
                if i.d.get("sret") and not s.cptr(i.d["a"][0]):
                    s.mdefs.append((i, s.cl.scls(i.d["a"][0]), s.cl.root(i.d["a"][0])))
                if k == "mut":
                    a0 = i.d["a"][1 if i.d.get("sret") else 0]
                    c, r = s.cl.pcls(a0), s.cl.root(a0)
                    s.mdefs.append((i, ("sz", c), r)); s.mdefs.append((i, ("e", c), r))
                    if i.d["b"].split("::")[-1] in ("swap",) and len(i.d["a"]) > 1:
                        c, r = s.cl.pcls(i.d["a"][1]), s.cl.root(i.d["a"][1])
                        s.mdefs.append((i, ("sz", c), r)); s.mdefs.append((i, ("e", c), r))
                elif k == "val":
                    a0 = i.d["a"][1 if i.d.get("sret") else 0] if i.d["a"] else None
                    if i.d["b"] == "std::_Bit_reference::operator=":
                        # store through a bit reference
                        pr = s.cptr(i.d["a"][0])
                        c = ("e", ("bit",)); s.mdefs.append((i, c, ("*",)))
                    elif a0 is not None and not s.cptr(a0) and valmut(i.d):
                        s.mdefs.append((i, s.cl.scls(a0), s.cl.root(a0)))
                elif k == "proj" or i.d.get("vt"):
                    for m2 in i.d.get("vt") or (i.d["cm"],):
                      for c, r in mods.get(m2, ()):
                        if r[0] == "a":
                            if r[1] >= len(i.d["a"]): continue
                            r2 = s.cl.root(i.d["a"][r[1]])
                        else: r2 = r
                        s.mdefs.append((i, submod(c, i.d, s.cl), r2))
        s.mbyc = {}
        for d in s.mdefs: s.mbyc.setdefault(d[1], []).append(d)
        s.vermemo = {}
    def ver(s, inst, c, r):
        k = (inst.i, c, r)
        if k in s.vermemo: return s.vermemo[k]
        v = 0
        for d in s.mbyc.get(c, ()):
            if not s.canreach(d[0], inst) or not s.mayalias(d, r, inst): continue
            v = 1; break
        s.vermemo[k] = v
        return v
    def since(s, i, c, r, B):
        """memory of this class may have changed between the creation of the object by B and i"""
        for d in s.mbyc.get(c, ()):
            D = d[0]
            if D is B or not s.canreach(D, i) or not s.mayalias(d, r, i): continue
            if D.b == i.b and D.pos < i.pos and not (D.b == B.b and D.pos < B.pos < i.pos): return True
            seen, st = set(), ([] if D.b == B.b and D.pos < B.pos else list(s.succ[D.b]))
            while st:
                x = st.pop()
                if x in seen: continue
                seen.add(x)
                if x == i.b and not (x == B.b and B.pos < i.pos): return True
                if x != B.b: st += s.succ[x]
        return False
    def mayalias(s, d, r, i=None):
        r2 = d[2]
        if r2 == r and r2[0] != "*": return True
        if r2[0] == "*" and d[0].op == "store": r2 = s.troot(d[0], r2)
        if r2 != r:
            for x, y in ((r, r2), (r2, r)):
                if x[0] == "al" or x[0] == "new" and not (y[0] == "*" and s.escaped(x[1]) and not (y is r and i is not None and s.old(i))): return False
        return True
    def troot(s, S, r):
        """root of a stored-to location once loads of known contents are resolved"""
        k = ("tr", S.i)
        if k in s.vermemo: return s.vermemo[k]
        if s.inprogress.get(k): return r
        s.inprogress[k] = 1
        x = s.val(S.d["a"][1])
        s.inprogress[k] = 0
        r2 = s.rootof(x)
        s.vermemo[k] = r2 = r2 or (("old",) if r[0] == "*" and s.given(x) else r)
        return r2
    def given(s, x):
        """a pointer that was there when the function started"""
        if x.k == "p": x = x.a[0]
        return x.k == "ld" and x.a[1] == 0 and (x.a[0].k != "p" or all(st[0] == "f" or not st[1].free for st in x.a[0].a[1] if st[0] == "f" or isinstance(st[1], T)))
    def old(s, i):
        """i loads through a pointer that was there when the function started"""
        if i.op != "load": return False
        k = ("old", i.i)
        if k in s.vermemo: return s.vermemo[k]
        if s.inprogress.get(k): return False
        s.inprogress[k] = 1
        x = s.val(i.d["a"][0])
        s.inprogress[k] = 0
        s.vermemo[k] = r = s.given(x)
        return r
    def escaped(s, n):
        """the object made by instruction n can be reached through memory"""
        k = ("esc", n)
        if k in s.vermemo: return s.vermemo[k]
        res, todo, seen = False, [n], set()
        uses = s.vermemo.get("uses")
        if uses is None:
            uses = s.vermemo["uses"] = {}
            for i in s.ins.values():
                for x in i.d.get("a", ()):
                    if isinstance(x, int): uses.setdefault(x, []).append(i)
        while todo and not res:
            x = todo.pop()
            if x in seen: continue
            seen.add(x)
            for i in uses.get(x, ()):
                if i.op == "store" and i.d["a"][0] == x: res = True
                elif i.op in ("phi", "select", "bitcast"): todo.append(i.i)
        s.vermemo[k] = res
        return res
    def rootof(s, x):
        if x.k == "p": x = x.a[0]
        if x.k == "al": return ("al", x.a[0])
        if x.k == "res":
            i = s.ins[x.a[0]]
            if i.op == "call" and callkind(i.d) == "alloc": return ("new", x.a[0])
        return None
    def forward(s, i, c, r, loc):
        """value of a load that can only see one store of this function"""
        D = []
        for d in s.mbyc.get(c, ()):
            if s.canreach(d[0], i) and s.mayalias(d, r, i): D.append(d[0])
        for S in D:
            if S.op != "store" or not (s.dominates(S.b, i.b) and (S.b != i.b or S.pos < i.pos)): continue
            LS = s.chain(S.b)
            if LS and (not s.chain(i.b) or LS[-1] not in s.chain(i.b)): continue
            more = [d for d in D if d is not S and s.canreach(S, d) and s.between(d, i, S)]
            if len(more) > 3 or any(d.op != "store" or d.b == S.b or s.chain(d.b) != LS or not s.dominates(S.b, d.b) or s.dominates(d.b, i.b) for d in more): continue
            if any(s.inprogress.get(d.i) for d in more + [S]): continue
            own = more + [S]
            for d in own: s.inprogress[d.i] = 1
            try:
                if any(s.val(d.d["a"][1]) is not loc for d in more + [S]): continue
                x = s.val(S.d["a"][0])
                # stores that happen on some of the ways from S to i, the last one counts
                while more:
                    d = next((d for d in more if not any(e is not d and s.between(e, d, S) for e in more)), None)
                    if d is None: break
                    more.remove(d)
                    g = s.condto(S.b, d.b)
                    x = s.t.phi([(g, s.val(d.d["a"][0])), (s.b.NOT(g), x)])
                if more: continue
                return x
            finally:
                for d in own: s.inprogress[d.i] = 0
        return None
    def arms(s, v):
        """the pointers a pointer chosen by a condition may be"""
        R, todo, seen = [], [v], set()
        while todo:
            x = todo.pop()
            if isinstance(x, int):
                if x in seen: continue
                seen.add(x)
                i = s.ins[x]
                if i.op == "select": todo += i.d["a"][1:]; continue
                if i.op == "phi" and i.b not in s.loops: todo += i.d["a"]; continue
            R.append(x)
        return R if 1 < len(R) <= 4 else [v]
    def table(s, i, c, r, loc):
        """element of a small local array whose elements have all been set one by one: a case distinction on the index"""
        if loc.k != "p" or loc.a[0].k != "al" or len(loc.a[1]) != 1 or loc.a[1][0][0] not in "ai" or loc.a[1][0][1].k == "int": return None
        def element(x):
            """index in a local array"""
            if x.k == "al": return 0
            if x.k != "p" or any(st[0] not in "ai" or st[1].k != "int" for st in x.a[1]) or len(x.a[1]) > 2 or [st[0] for st in x.a[1]] == ["a", "a"]: return None
            return sum(st[1].a[0] for st in x.a[1])
        D = [d[0] for d in s.mbyc.get(c, ()) if s.canreach(d[0], i) and s.mayalias(d, r, i)]
        if not 1 < len(D) <= 8 or any(S.op != "store" or s.inprogress.get(S.i) for S in D): return None
        vals = {}
        for S in D: s.inprogress[S.i] = 1
        try:
            for S in D:
                if not (s.dominates(S.b, i.b) and (S.b != i.b or S.pos < i.pos)): return None
                LS = s.chain(S.b)
                if LS and (not s.chain(i.b) or LS[-1] not in s.chain(i.b)): return None
                x = s.val(S.d["a"][1])
                n = element(x)
                if n is None or (x if x.k == "al" else x.a[0]) is not loc.a[0]: return None
                if n in vals: return None
                vals[n] = s.val(S.d["a"][0])
        finally:
            for S in D: s.inprogress[S.i] = 0
        if sorted(vals) != list(range(len(vals))): return None
        arms, rest = [], 1
        for n in range(len(vals)):
            g = s.t.cmp("eq", loc.a[1][-1][1], s.t.I(n)) if n + 1 < len(vals) else 1
            arms.append((s.b.AND(rest, g), vals[n])); rest = s.b.AND(rest, s.b.NOT(g))
        return s.t.phi(arms)
    def stream(s, v):
        """the stream that a reading operation gives back"""
        n = 0
        while isinstance(v, int) and v in s.ins and s.ins[v].op == "call" and streamop(s.ins[v].d.get("b") or "") and s.ins[v].d.get("a"):
            v = s.ins[v].d["a"][1 if s.ins[v].d.get("sret") else 0]; n += 1
        return v
    def condto(s, D, b):
        """condition to come to b, given that its dominator D was reached in the same pass"""
        r = 0
        for p in s.pred[b]:
            if p in s.rank: r = s.b.OR(r, s.condfrom(D, p, b))
        return r
    def current(s, i, loc, c, r):
        """what a location is known to contain before i: values loaded from it and not changed since"""
        k = ("cur", i.i, loc)
        if k in s.vermemo: return s.vermemo[k]
        res = []
        for l in s.ins.values():
            if l.op != "load" or l.b not in s.rank or not s.dominates(l.b, i.b) or l.b == i.b and l.pos > i.pos: continue
            if s.chain(l.b) != s.chain(i.b) or s.cl.scls(l.d["a"][0]) != c: continue
            if s.val(l.d["a"][0]) is not loc: continue
            if any(d[0] is not i and s.mayalias(d, r) and s.canreach(l, d[0]) and s.between(d[0], i, l) for d in s.mbyc.get(c, ())): continue
            x = s.val(l.i)
            if x.k == "ld" and x.a[0] is loc and x not in res: res.append(x)
        s.vermemo[k] = res
        return res
    def between(s, d, i, S):
        """d can execute between S and i (S dominates i)"""
        if d.b == S.b:
            if d.pos < S.pos: return False
            if i.b == S.b: return d.pos < i.pos
        elif d.b == i.b and d.pos < i.pos: return True
        if i.b == S.b: return False
        seen, st = set(), [d.b]
        while st:
            x = st.pop()
            for y in s.succ[x]:
                if y == i.b: return True
                if y == S.b or y in seen: continue
                seen.add(y); st.append(y)
        return False
    # ------------------------------------------------------------------ conditions
    def ec(s, p, x):
        """condition on the edge p->x given p is reached"""
        k = (p, x)
        if k in s.ecm: return s.ecm[k]
        i = s.blocks[p][-1]
        t = s.t
        r = 1
        if i.op == "br" and i.d.get("a"):
            a, b2 = i.d["s"]
            if a == b2: r = 1
            elif x not in s.dead and (b2 if x == a else a) in s.dead: r = 1
            else:
                L = s.loopof.get(p)
                inf = s.info(L) if L else None
                while L and not (inf and inf["test"] == p): L = L.parent; inf = s.info(L) if L else None
                if L and inf and inf["test"] == p and s.loopof.get(p) is L:
                    r = 1 if x in L.blocks else 0     # handled through the range
                    if x not in L.blocks: r = s.b.var(1 << 50)   # never used
                else:
                    c = s.cond(i.d["a"][0])
                    r = c if x == a else s.b.NOT(c)
        elif i.op == "switch":
            live = [y for y in i.d["s"] if y not in s.dead]
            v = s.val(i.d["a"][0])
            cs, ss = i.d["cs"], i.d["s"]
            r, anyc = 0, 0
            for c, d in zip(cs, ss[1:]):
                e = s.t.cmp("eq", v, t.I(c)); anyc = s.b.OR(anyc, e)
                if d == x: r = s.b.OR(r, e)
            if ss[0] == x: r = s.b.OR(r, s.b.NOT(anyc))
            if len(set(live)) == 1 and x in live: r = 1
            elif ss[0] in s.dead and x not in s.dead and len(set(live)) > 1: pass
        s.ecm[k] = r
        return r
    def relcond(s, L, p, x):
        """condition, relative to an iteration of L (or the function body if L is None), to take edge p->x"""
        M = s.loopof.get(p)
        if M is L: return s.b.AND(s.reach(p), s.ec(p, x))
        while M.parent is not L: M = M.parent
        # p is inside the child loop M of L, and the edge leaves M
        return s.b.AND(s.hreach(M), s.exitcond(M, p, x))
    def hreach(s, L):
        k = ("h", L.id)
        if k in s.rm: return s.rm[k]
        r = 0
        for p in L.pre: r = s.b.OR(r, s.relcond(L.parent, p, L.h))
        if len(L.pre) == 1 and s.loopof.get(L.pre[0]) is L.parent and False: pass
        s.rm[k] = r
        return r
    def reach(s, b):
        """condition to reach block b relative to an iteration of its innermost loop"""
        if b in s.rm: return s.rm[b]
        L = s.loopof.get(b)
        if (L and b == L.h) or b == 0: r = 1
        else:
            r = 0
            for p in s.pred[b]: r = s.b.OR(r, s.relcond(L, p, b))
        s.rm[b] = r
        return r
    def exitcond(s, L, p, x):
        k = ("x", L.id, p, x)
        if k in s.rm: return s.rm[k]
        t = s.t
        if x in s.dead:
            # leaving into a block that ends the program
            c = s.relcond(L, p, x)
            r = t.atom(t.mk("ex", s.loopterm(L), t.boolT(c))) if c > 1 else c
            s.rm[k] = r
            return r
        exits = L.exits
        inf = s.info(L)
        if len(exits) == 1: r = 1
        else:
            side = [e for e in exits if not (inf and e[0] == inf["test"] and s.loopof.get(e[0]) is L)]
            normal = [e for e in exits if e not in side]
            C = 0
            cs = {}
            for e in side:
                cs[e] = s.relcond(L, *e); C = s.b.OR(C, cs[e])
            lt = s.loopterm(L)
            if normal:
                E = t.atom(t.mk("ex", lt, t.boolT(C))) if C > 1 else C
                if (p, x) in normal: r = s.b.NOT(E)
                else:
                    r = E
                    tg = [e for e in side]
                    if len(tg) > 1:
                        r = s.b.AND(E, s._via(L, lt, side, cs, C, (p, x)))
            else:
                r = s._via(L, lt, side, cs, C, (p, x))
        s.rm[k] = r
        return r
    def _via(s, L, lt, side, cs, C, e):
        """which of several exits is taken (first in iteration order); exits whose conditions partition C"""
        t = s.t
        acc = 1
        for k, f in enumerate(side):
            if k == len(side) - 1: return acc
            v = t.atom(t.mk("via", lt, t.boolT(cs[f]) if cs[f] > 1 else t.I(cs[f]), t.boolT(C) if C > 1 else t.I(C)))
            if f == e: return s.b.AND(acc, v)
            acc = s.b.AND(acc, s.b.NOT(v))
        return acc
    # total condition of a block with the loops it is repeated over
    def guard(s, b):
        g = s.reach(b)
        L = s.loopof.get(b)
        while L:
            g = s.b.AND(g, s.hreach(L)); L = L.parent
        return g
    # ------------------------------------------------------------------ loops
    def lindep(s, v, phi, d=0):
        """v == phi + c ?  returns c (int) or None; pointers count in elements"""
        if not isinstance(v, int): return None
        if v == phi: return 0
        if d > 40: return None
        i = s.ins[v]
        if i.op in ("add", "sub"):
            x, y = i.d["a"]
            if isinstance(y, list) and y[0] == "C":
                r = s.lindep(x, phi, d + 1)
                return None if r is None else r + (y[1] if i.op == "add" else -y[1])
            if isinstance(x, list) and x[0] == "C" and i.op == "add":
                r = s.lindep(y, phi, d + 1)
                return None if r is None else r + x[1]
            return None
        if i.op in ("sext", "zext", "trunc", "freeze", "bitcast"): return s.lindep(i.d["a"][0], phi, d + 1)
        if i.op == "getelementptr" and len(i.d["g"]) == 1 and i.d["g"][0][0] == "i":
            ix = i.d["g"][0][1]
            if isinstance(ix, list) and ix[0] == "C":
                r = s.lindep(i.d["a"][0], phi, d + 1)
                return None if r is None else r + ix[1]
            return None
        if i.op == "phi" and i.b not in s.loops:
            rs = {s.lindep(a, phi, d + 1) for a in i.d["a"]}
            return rs.pop() if len(rs) == 1 else None
        return None
    def follows(s, v, phi, d=0):
        """v is the next node of a chain iteration over phi: returns a step name"""
        if not isinstance(v, int) or d > 6: return None
        i = s.ins[v]
        if i.op == "call" and i.d.get("b") in ("std::_Rb_tree_increment", "std::_Rb_tree_decrement"):
            return i.d["b"][-9:] if s.lindep(i.d["a"][0], phi) == 0 else None
        if i.op == "load":
            a = i.d["a"][0]
            if a == phi: return "next"
            if isinstance(a, int) and s.ins[a].op == "getelementptr" and s.ins[a].d["a"][0] == phi and all(g[0] == "f" for g in s.ins[a].d["g"]):
                return "next." + ".".join(g[1] for g in s.ins[a].d["g"])
        if i.op == "phi" and i.b not in s.loops:
            rs = {s.follows(a, phi, d + 1) for a in i.d["a"]}
            return rs.pop() if len(rs) == 1 else None
        return None
    def loopdep(s, L):
        """values inside L that vary with the iteration"""
        if L.dep is not None: return L.dep
        dep = set()
        stored = set()
        for b in L.blocks:
            for i in s.blocks[b]:
                if i.op == "store":
                    p = s.cptr(i.d["a"][1])
                    if p: stored.add(p[0])
                elif i.op == "call":
                    for a in i.d["a"]:
                        p = s.cptr(a)
                        if p and s.cellwrites(i, p[0]): stored.add(p[0])
        ch = True
        while ch:
            ch = False
            for b in L.blocks:
                for i in s.blocks[b]:
                    if i.i in dep: continue
                    hit = False
                    if i.op == "phi" and b == L.h: hit = True
                    elif i.op == "load" and s.cptr(i.d["a"][0]) and s.cptr(i.d["a"][0])[0] in stored: hit = True
                    elif i.op == "call" and callkind(i.d) not in ("pure",): hit = True
                    elif i.op == "call" and any(s.cptr(a) and s.cptr(a)[0] in stored for a in i.d["a"]): hit = True
                    else:
                        for a in i.d.get("a", []):
                            if isinstance(a, int) and a in dep: hit = True; break
                        if not hit and i.op == "getelementptr":
                            for g in i.d["g"]:
                                if g[0] == "i" and isinstance(g[1], int) and g[1] in dep: hit = True
                        if not hit and i.op == "phi":
                            # a join inside the loop depends on the conditions that select it
                            for pb in i.d["in"]:
                                tt = s.blocks[s.idom[b]][-1]
                                if tt.d.get("a") and isinstance(tt.d["a"][0], int) and tt.d["a"][0] in dep: hit = True
                    if hit: dep.add(i.i); ch = True
        L.dep = dep
        return dep
    def info(s, L):
        """range of the loop: {test block, phi, init, count term, kind} or None for a general loop"""
        if L.info is not None: return L.info or None
        L.info = {}
        cands = []
        if len(L.latch) != 1: return None
        lb = L.latch[0]
        for tb in [L.h] + ([lb] if lb != L.h else []):
            term = s.blocks[tb][-1]
            if term.op != "br" or not term.d.get("a"): continue
            if s.loopof.get(tb) is not L: continue
            a, b2 = term.d["s"]
            if (a in L.blocks) == (b2 in L.blocks): continue
            out = b2 if a in L.blocks else a
            if out in s.dead: continue
            c = term.d["a"][0]
            if not isinstance(c, int): continue
            neg = a not in L.blocks      # stays when condition false
            ci = s.ins[c]
            while ci.op == "xor" and isinstance(ci.d["a"][1], list) and ci.d["a"][1][0] == "C" and isinstance(ci.d["a"][0], int):
                neg = not neg; ci = s.ins[ci.d["a"][0]]
            if ci.op != "icmp": 
                continue
            cands.append((tb, ci, neg))
        for tb, ci, neg in cands:
            r = s._range(L, tb, ci, neg, lb)
            if r:
                L.info = r
                return r
        return None
    def _range(s, L, tb, ci, neg, lb):
        t = s.t
        dep = s.loopdep(L)
        x, y = ci.d["a"]
        p = ci.d["p"]
        for flip in (0, 1):
            if flip:
                x, y = y, x
                p = {"eq": "eq", "ne": "ne"}.get(p) or p[0] + {"lt": "gt", "gt": "lt", "le": "ge", "ge": "le"}[p[1:]]
            if isinstance(y, int) and y in dep: continue
            if not isinstance(x, int): continue
            for ph in s.blocks[L.h]:
                if ph.op != "phi": break
                c0 = s.lindep(x, ph.i)
                if c0 is None: continue
                step = None; init = None; ok = True
                for a, pb in zip(ph.d["a"], ph.d["in"]):
                    if pb in L.blocks:
                        st = s.lindep(a, ph.i)
                        fo = s.follows(a, ph.i) if st is None else None
                        step = st if st is not None else fo
                        if step is None: ok = False
                    else:
                        init = a
                if not ok or init is None: continue
                q = p
                if neg: q = {"eq": "ne", "ne": "eq", "lt": "ge", "ge": "lt", "gt": "le", "le": "gt"}[p if p in ("eq", "ne") else p[1:]]
                else: q = p if p in ("eq", "ne") else p[1:]
                # value of x in the test: phi + c0 ; in a latch test it is compared after the body
                if isinstance(step, str):
                    if q != "ne" or c0 != 0: continue
                    iT, yT = s.valout(L, init), s.val(y)
                    return dict(test=tb, phi=ph.i, kind="chain", init=iT, end=yT, step=step, do=tb != L.h and False)
                if not step: continue
                iT = s.valout(L, init); yT = s.val(y)
                do = False
                base = t.add(iT, t.I(c0)) if iT.k != "p" and yT.k != "p" else None
                if tb != L.h:
                    # do-while: first test happens after one body; shift so that the test is on phi
                    if abs(step) != 1 or c0 != step: continue
                    do = True
                    base = iT       # body runs for phi = init.. while test(phi+step)
                    c0e = 0
                if iT.k == "p" or yT.k == "p" or self_ptr(s, ph.i):
                    if step != 1 or q != "ne" and q != "lt": continue
                    n = s.ptrdiff(yT, iT)
                    if c0: continue
                    return dict(test=tb, phi=ph.i, kind="range", init=iT, step=1, count=n, lo=None, do=do)
                if abs(step) == 1:
                    if step == 1:
                        if q in ("lt", "ne"): n = t.add(yT, base, -1)
                        elif q == "le": n = t.add(t.add(yT, base, -1), t.I(1))
                        else: continue
                        lo = iT
                    else:
                        if q in ("gt", "ne"): n = t.add(base, yT, -1); lo = t.add(t.add(yT, t.I(1)), t.I(-c0 if not do else 0))
                        elif q == "ge": n = t.add(t.add(base, yT, -1), t.I(1)); lo = t.add(yT, t.I(-c0 if not do else 0))
                        else: continue
                    return dict(test=tb, phi=ph.i, kind="range", init=iT, step=step, count=n, lo=lo, do=do)
                else:
                    if q == "lt" and step > 1 or q == "gt" and step < 0 or q in ("le", "ge"):
                        n = t.mk("steps", q, t.add(yT, base, -1), step)
                        return dict(test=tb, phi=ph.i, kind="range", init=iT, step=step, count=n, lo=None, do=do)
        return None
    def ptrdiff(s, y, x):
        t = s.t
        if y.k == "ld" and x.k == "ld" and y.a[0].k == "p" and x.a[0].k == "p":
            py, px = y.a[0], x.a[0]
            if py.a[1] and px.a[1] and py.a[1][-1] == ("f", "vec.fin") and px.a[1][-1] == ("f", "vec.start") and py.a[0] is px.a[0] and py.a[1][:-1] == px.a[1][:-1]:
                return t.mk("size", t.mkp(py.a[0], py.a[1][:-1]), y.a[1])
        bx, ix = (x, t.I(0)); by, iy = (y, t.I(0))
        if x.k == "p" and x.a[1][-1][0] == "i": bx, ix = t.mkp(x.a[0], x.a[1][:-1]), x.a[1][-1][1]
        if y.k == "p" and y.a[1][-1][0] == "i": by, iy = t.mkp(y.a[0], y.a[1][:-1]), y.a[1][-1][1]
        if bx is by: return t.add(iy, ix, -1)
        if by.k == "ld" and bx.k == "ld":
            r = s.ptrdiff(by, bx) if (bx is not x or by is not y) else None
            if r is not None and r.k != "pdiff": return t.add(t.add(r, iy), ix, -1)
        return t.mk("pdiff", y, x)
    def loopterm(s, L):
        """the bound variable standing for an iteration of L"""
        if L.term is not None: return L.term
        t = s.t
        inf = s.info(L)
        if not inf: r = t.mk("gl", L.id)
        else:
            key = t.mk("rng", inf["count"], inf["do"]) if inf["kind"] == "range" else t.mk("chain", inf["init"], inf["end"], inf["step"])
            d = 0
            P = L.parent
            while P:
                pt = s.loopterm(P)
                if pt.k == "iv" and pt.a[0] is key: d += 1
                P = P.parent
            r = t.mk("iv", key, d)
        L.term = r
        return r
    def valout(s, L, v):
        return s.val(v)
    def phival(s, i):
        """value of a loop header phi inside the loop"""
        t = s.t
        L = s.loops[i.b]
        inf = s.info(L)
        init = latch = None
        nl = 0
        for a, pb in zip(i.d["a"], i.d["in"]):
            if pb in L.blocks: latch = a; nl += 1
            else: init = (a, pb) if init is None else "multi"
        if nl == 1 and init != "multi" and init is not None:
            if latch == i.i: return s.val(init[0])
            if isinstance(latch, list) and isinstance(init[0], list) and latch[0] == "C" and init[0][0] == "C" and latch[1] == init[0][1]: return s.val(init[0])
            c = s.lindep(latch, i.i)
            if c == 0: return s.val(init[0])
            if inf and inf["kind"] == "range" and c is not None:
                iv = s.loopterm(L)
                if i.i == inf["phi"]:
                    if inf["step"] == -1: return t.add(inf["lo"], iv) if inf["lo"] is not None else iv
                i0 = s.val(init[0])
                st = inf["step"]
                # iteration number: for descending loops the canonical variable runs upwards
                if st == -1: k = t.add(t.add(inf["count"], t.I(-1)), iv, -1)
                else: k = iv
                if i.d["ty"] == "ptr" : return t.gep(i0, ("i", t.scale(k, c)))
                return t.add(i0, t.scale(k, c))
            if inf and inf["kind"] == "chain" and i.i == inf["phi"]:
                return t.mk("it", s.loopterm(L))
        r = t.mk("rec", i.i)
        if i.d["ty"] == "ptr" and nl == 1 and init not in ("multi", None) and s.stepped(latch, i.i):
            p0 = s.val(init[0])
            if p0.k in ("p", "res", "al", "ld", "arg"):
                # a pointer moved within one array: where it started and a number
                s.recinfo.setdefault(r, ("pphi", L, i))
                return t.gep(p0, ("i", r))
        s.recinfo.setdefault(r, ("phi", L, i))
        return r
    def stepped(s, v, phi):
        """the value is the pointer phi after some steps"""
        todo, seen, n = [v], set(), 0
        while todo:
            x = todo.pop()
            if x in seen or x == phi: continue
            if not isinstance(x, int): return False
            seen.add(x)
            i = s.ins[x]
            if i.op == "select": todo += i.d["a"][1:]
            elif i.op == "phi": todo += i.d["a"]
            elif i.op == "getelementptr" and len(i.d["g"]) == 1 and i.d["g"][0][0] == "i": todo.append(i.d["a"][0]); n += 1
            else: return False
            if i.op == "phi" and i.b in s.loops: return False
        return n > 0
    # ------------------------------------------------------------------ values
    def const(s, v):
        t = s.t
        k = v[0]
        if k == "A": return t.mk("arg", v[1])
        if k == "C":
            n = v[1]
            if v[2] == 1: n = 1 if n else 0
            return t.I(n)
        if k == "F": return t.mk("flt", v[1])
        if k == "N": return t.mk("null")
        if k == "U": return t.mk("undef")
        if k == "Z": return t.I(0)
        if k == "Fn": return t.mk("fn", v[1])
        if k == "G":
            g = s.ctx.glob.get(v[1])
            if isinstance(g, str) and g.startswith('"'): return t.mk("str", g)
            n = v[2]
            if v[1].startswith(".str") and not (isinstance(g, str) and g): return t.mk("str", '""')
            if v[1].startswith(".") or v[1].startswith("__const."): n = re.sub(r"[.\d]+$", "", v[1])
            return t.mk("glob", n)
        if k == "E":
            if v[1] == "getelementptr" and len(v) > 3:
                p = s.val(v[3])
                if all(isinstance(o, list) and o[0] == "C" and o[1] == 0 for o in v[4:]): return p
                return t.mk("cexpr", p, str([o[1] for o in v[4:] if isinstance(o, list)]))
            return t.mk("cexpr", t.mk("str", v[1]), *[s.val(o) for o in v[3:]])
        return t.mk("const", str(v[1:]))
    def val(s, v):
        if not isinstance(v, int): return s.const(v)
        r = s.memo.get(v)
        if r is None:
            if v in s.memo:      # recursion through a cycle that is not a recognised recurrence
                return s.t.mk("rec", v)
            s.memo[v] = None
            r = s._val(s.ins[v])
            s.memo[v] = r
        return r
    def cond(s, v):
        if isinstance(v, list):
            return s.t.truthy(s.const(v))
        return s.t.truthy(s.val(v))
    def asbool(s, n): return s.t.I(n) if n < 2 else s.t.boolT(n)
    def _val(s, i):
        t, d, o = s.t, i.d, i.op
        A = d.get("a")
        if o in ("sext", "zext", "trunc", "bitcast", "freeze", "ptrtoint", "inttoptr", "fpext", "fptrunc", "uitofp", "sitofp", "fptoui", "fptosi"):
            x = s.val(A[0])
            if o == "trunc" and d["ty"] == "i1": return s.asbool(t.truthy(x))
            if o == "sext" and x.k == "bool": return t.scale(x, -1)
            if o in ("fptoui", "fptosi"): return t.mk("toint", x)
            return x
        if o == "add": return t.add(s.val(A[0]), s.val(A[1])) if d["ty"] != "i1" else s.asbool(s.b.XOR(s.cond(A[0]), s.cond(A[1])))
        if o == "sub": return t.add(s.val(A[0]), s.val(A[1]), -1)
        if o == "mul": return t.mul(s.val(A[0]), s.val(A[1]))
        if o in ("and", "or", "xor") and d["ty"] == "i1":
            x, y = s.cond(A[0]), s.cond(A[1])
            return s.asbool({"and": s.b.AND, "or": s.b.OR, "xor": s.b.XOR}[o](x, y))
        if o in ("sdiv", "udiv"): return t.opn("div", s.val(A[0]), s.val(A[1]))
        if o in ("srem", "urem"): return t.opn("rem", s.val(A[0]), s.val(A[1]))
        if o in ("and", "or", "xor", "shl", "lshr", "ashr", "fadd", "fsub", "fmul", "fdiv", "frem"):
            if o == "xor" and isinstance(A[1], list) and A[1][0] == "C" and A[1][1] == -1:
                return t.add(t.I(-1), s.val(A[0]), -1)
            return t.opn("shr" if o in ("lshr", "ashr") else o, s.val(A[0]), s.val(A[1]))
        if o == "fneg": return t.mk("op", "fneg", s.val(A[0]), t.I(0))
        if o == "icmp":
            return s.asbool(t.cmp(d["p"], s.val(A[0]), s.val(A[1])))
        if o == "fcmp": return s.asbool(t.fcmp(d["p"], s.val(A[0]), s.val(A[1])))
        if o == "select":
            c = s.cond(A[0])
            if d["ty"] == "i1": return s.asbool(s.b.ite(c, s.cond(A[1]), s.cond(A[2])))
            return t.phi([(c, s.val(A[1])), (s.b.NOT(c), s.val(A[2]))])
        if o == "getelementptr":
            p = s.cptr(i.i)
            if p: return t.mk("cptr", p[0], p[1])
            r = s.val(A[0])
            for g in d["g"]:
                if g[0] == "f": r = t.gep(r, ("f", g[1]))
                elif g[0] == "i":
                    if g[3] == "arr": r = t.gep(r, ("arr", s.val(g[1])))
                    elif g[3] == "i8" and False: pass
                    else: r = t.gep(r, ("i", s.val(g[1])))
            return r
        if o == "alloca":
            if i.i in s.cell: return t.mk("cptr", i.i, 0)
            return t.mk("al", i.i)
        if o == "load":
            p = s.cptr(A[0])
            if p:
                x = s.readcell(p[0], p[1], i.b, i.pos, d.get("sz"))
                if d["ty"] == "i1": return s.asbool(t.truthy(x))
                return x
            return s.load(s.val(A[0]), i, A[0])
        if o == "phi": return s.phi(i)
        if o == "call": return s.callval(i)
        if o == "extractvalue":
            x = s.val(A[0])
            if x.k == "ovf": return x.a[0] if d["ix"] == [0] else t.I(0)
            if x.k == "ins":
                cur = x
                while cur.k == "ins":
                    if cur.a[2] == tuple(d["ix"]): return cur.a[1]
                    cur = cur.a[0]
                x = cur
            r = t.mk("ev", x, tuple(d["ix"]))
            return r
        if o == "insertvalue": return t.mk("ins", s.val(A[0]), s.val(A[1]), tuple(d["ix"]))
        return t.mk("inst", o, i.i)
    def load(s, p, i, a):
        t = s.t
        if p.k == "phi":
            j = s.ins.get(a) if isinstance(a, int) else None
            if j is not None and j.op == "select":
                c = s.cond(j.d["a"][0])
                return t.phi([(c, s.load(s.val(j.d["a"][1]), i, j.d["a"][1])), (s.b.NOT(c), s.load(s.val(j.d["a"][2]), i, j.d["a"][2]))])
            if j is not None and j.op == "phi" and j.b not in s.loops and all(x in s.rank for x in j.d["in"]):
                D = s.idom[j.b]
                return t.phi([(s.condfrom(D, x, j.b), s.load(s.edgeval(v, x, j.b), i, v)) for v, x in zip(j.d["a"], j.d["in"])])
            return t.phi([(g, s.load(x, i, a)) for g, x in p.a[0]])
        if p.k == "cptr": return s.readcell(p.a[0], p.a[1], i.b, i.pos, None)
        if p.k == "p" and p.a[1][-1] == ("f", "vec.start"): v = 0
        else:
            c, r = s.cl.scls(a), s.cl.root(a)
            if r[0] == "*": r = s.rootof(p) or r
            v = s.ver(i, c, r)
            if v:
                x = s.forward(i, c, r, p)
                if x is None: x = s.table(i, c, r, p)
                if x is not None: return x
                b = p.a[0] if p.k == "p" else p
                if b.k == "res" and s.since(i, c, r, s.ins[b.a[0]]): v = 2
        if p.k == "glob" and isinstance(s.ctx.glob.get(p.a[0]), str) and False: pass
        return t.mk("ld", p, v)
    def phi(s, i):
        t = s.t
        if i.b in s.loops: return s.phival(i)
        ins = list(zip(i.d["a"], i.d["in"]))
        if len(ins) == 1: 
            return s.edgeval(ins[0][0], ins[0][1], i.b)
        D = s.idom[i.b]
        arms = []
        for v, p in ins:
            if p not in s.rank: continue
            arms.append((s.condfrom(D, p, i.b), s.edgeval(v, p, i.b)))
        return t.phi(arms)
    def condfrom(s, D, p, x):
        """condition to take edge p->x, given that D (dominator of x) was reached"""
        L = s.loopof.get(x)
        if x == D: return 1
        memo = {}
        DL = s.loopof.get(D)
        def reach(b):
            if b in memo: return memo[b]
            if b == D: return 1
            M = s.loopof.get(b)
            if M is not L and False: pass
            if M and b == M.h and M is not L:
                r = 0
                for q in M.pre: r = s.b.OR(r, edge(M.parent, q, b))
            else:
                r = 0
                for q in s.pred[b]:
                    if L and b == L.h: continue
                    r = s.b.OR(r, edge(M, q, b))
            memo[b] = r
            return r
        def edge(M, q, b):
            N = s.loopof.get(q)
            if N is M: return s.b.AND(reach(q), s.ec(q, b))
            # leaves a loop nested in M
            K = N
            while K is not None and K.parent is not M: K = K.parent
            if K is None: return s.b.AND(reach(q), s.ec(q, b))
            if D in K.blocks:
                # the dominator itself is inside the loop that is left
                return s.exitcond(K, q, b)
            return s.b.AND(reach(K.h), s.exitcond(K, q, b))
        return edge(L, p, x)
    def edgeval(s, v, p, x):
        """value v as seen after leaving block p towards x (x may be outside of loops around p)"""
        r = s.val(v)
        L = s.loopof.get(p)
        X = s.loopof.get(x)
        while L is not None and x not in L.blocks:
            r = s.atexit(L, r, p, x)
            L = L.parent
        return r
    def varies(s, L, r):
        """does term r depend on the iteration of L"""
        lt = s.loopterm(L)
        for x in r.free:
            if x is lt: return True
            if x.k == "rec":
                inf = s.recinfo.get(x)
                if inf is None or L.h == inf[1].h or inf[1].h in L.blocks: return True
            if x.k == "iv" or x.k == "gl":
                if x is lt: return True
        return False
    def atexit(s, L, r, p, x):
        t = s.t
        if not s.varies(L, r): return r
        inf = s.info(L)
        lt = s.loopterm(L)
        if r.k == "bool" or (r.k == "phi"):
            pass
        normal = inf and p == inf["test"] and s.loopof.get(p) is L
        if normal and inf["kind"] == "range" and not inf["do"]:
            if not any(y.k == "rec" and s.varies(L, y) for y in r.free):
                if inf["step"] == -1:
                    return t.subst(r, {lt: t.I(-1)})
                return t.subst(r, {lt: inf["count"]})
        if r.k == "rec" and s.recinfo.get(r) and s.recinfo[r][1] is L:
            if normal or len(L.exits) == 1:
                q = s.recfinal(L, r)
                if q is not None: return q
                return t.mk("fin", r)
        if normal and inf["kind"] == "range" and not inf["do"]:
            # mixtures of the index and accumulators at the regular exit
            m = {lt: inf["count"] if inf["step"] != -1 else t.I(-1)}
            for y in r.free:
                if y.k == "rec" and s.recinfo.get(y) and s.recinfo[y][1] is L:
                    q = s.recfinal(L, y)
                    m[y] = q if q is not None else t.mk("fin", y)
            return t.subst(r, m)
        c = s.relcond(L, p, x)
        c = t.boolT(c) if c > 1 else t.I(c)
        if r is not lt and s.indexed(L, r, lt): return t.subst(r, {lt: t.mk("atx", lt, c, lt)})
        return t.mk("atx", lt, c, r)
    def indexed(s, L, r, lt):
        """a value that depends on the pass only through the index of the loop"""
        if any(x is not lt and s.varies(L, x) for x in r.free): return False
        seen = set()
        def w(x):
            if isinstance(x, tuple): return all(w(y) for y in x)
            if not isinstance(x, T) or x in seen or lt not in x.free: return True
            seen.add(x)
            if x.k not in ("ld", "p", "sum", "op", "mul", "iv", "arg") or x.k == "ld" and x.a[1]: return False
            return all(w(y) for y in x.a)
        return w(r)
    def recdef(s, r):
        kind, L, i = s.recinfo[r]
        if kind == "pphi":
            p0 = latch = None
            for a, pb in zip(i.d["a"], i.d["in"]):
                if pb in L.blocks: latch = s.t.within(s.val(a), s.b.AND(s.reach(pb), s.ec(pb, i.b)))
                else: p0 = s.val(a)
            def at(x): return x.a[1][-1][1] if x.k == "p" and x.a[1][-1][0] == "i" else s.t.I(0)
            return s.t.I(0), s.t.phi([(g, s.t.add(at(x), at(p0), -1)) for g, x in (latch.a[0] if latch.k == "phi" else [(1, latch)])])
        if kind == "phi":
            init = upd = None
            for a, pb in zip(i.d["a"], i.d["in"]):
                if pb in L.blocks:
                    upd = s.val(a)
                    if upd.k == "phi": upd = s.t.within(upd, s.b.AND(s.reach(pb), s.ec(pb, i.b)))
                else: init = s.val(a)
            return init, upd
        return s.cellrec(r)
    def recfinal(s, L, r):
        """closed form of boolean flags and sums at the regular exit of L"""
        t, b = s.t, s.b
        k = ("rf", r)
        if k in s.memo: return s.memo[k]
        s.memo[k] = None
        init, upd = s.recdef(r)
        res = None
        if upd is None or init is None: return None
        others = [y for y in upd.free if y.k == "rec" and y is not r and s.varies(L, y)]
        lt = s.loopterm(L)
        isb = lambda x: x.k == "bool" or (x.k == "int" and x.a[0] in (0, 1))
        if not others and isb(upd) and not t.eq0(r) < 0:
            R = t.truthy(r)
            rv = b.n[R][0] if R > 1 else None
            # the flag appears as the atom eq0(rec) or as itself
            at = s.t.atomidx.get(t.mk("eq0", r))
            u = t.truthy(upd)
            if at is not None:
                u1, u0 = b.cof(u, at, 0), b.cof(u, at, 1)   # value of update if flag true / false
                if not any(r in t.atoms[v].free for v in b.support(u1) | b.support(u0)):
                    iv = t.truthy(init) if isb(init) or init.k not in ("int",) else t.truthy(init)
                    ex = lambda c: (t.atom(t.mk("ex", lt, t.boolT(c))) if c > 1 and lt in t.boolT(c).free else c)
                    if u1 == 1:      # set-only flag: init or exists u0
                        res = s.asbool(b.OR(iv, ex(u0)))
                    elif u0 == 0:    # clear-only flag
                        res = s.asbool(b.AND(iv, b.NOT(ex(b.NOT(u1)))))
                    elif u1 == u0 and not (lt in t.boolT(u1).free if u1 > 1 else False) and False: pass
        s.memo[k] = res
        return res
    # ------------------------------------------------------------------ cells (address-taken scalars and small values)
    def cellrec(s, r):
        kind, L, key = s.recinfo[r]
        init = None
        for p in L.pre:
            v = s.readcell_end(key[0], key[1], p, key[2])
            init = v if init is None or init is v else s.t.mk("undef")
        upd = s.readcell_end(key[0], key[1], L.latch[0], key[2]) if len(L.latch) == 1 else None
        return init, upd
    def readcell(s, al, off, b, pos, sz):
        """content of the alloca at byte offset off just before position pos of block b"""
        ins = s.blocks[b]
        for k in range(pos - 1, -1, -1):
            r = s.celldef(ins[k], al, off, sz)
            if r is not None: return r
        return s.readcell_entry(al, off, b, sz)
    def readcell_end(s, al, off, b, sz):
        key = (al, off, b, "end")
        if key in s.cellmemo: return s.cellmemo[key]
        s.cellmemo[key] = None
        r = s.readcell(al, off, b, len(s.blocks[b]), sz)
        s.cellmemo[key] = r
        return r
    def cellstored(s, al):
        """blocks with an instruction that may change the cell"""
        k = ("cs", al)
        if k not in s.cellmemo:
            s.cellmemo[k] = {i.b for i in s.ins.values() if s.cellwrites(i, al)}
        return s.cellmemo[k]
    def cellwrites(s, i, al):
        if i.op == "store":
            p = s.aptr(i.d["a"][1])
            return bool(p and p[0] == al)
        if i.op != "call": return False
        d = i.d
        hit = [k for k, a in enumerate(d["a"]) if isinstance(a, int) and s.aptr(a) and s.aptr(a)[0] == al]
        if not hit: return False
        kind = callkind(d)
        if kind == "ignore": return False
        if kind == "mem": return hit[0] == 0
        if d.get("sret") and 0 in hit: return True
        if kind == "val": return (1 if d.get("sret") else 0) in hit and valmut(d)
        return any(s.argwritten(d, kind, k) for k in hit)
    def argwritten(s, d, kind, k):
        """operand k of the call is passed so that the callee can change what it refers to"""
        b = d.get("b") or "virt"
        ps, const = params(d.get("cd", "")) if d.get("cd") else ([], False)
        pi = k - (len(d["a"]) - len(ps))
        if pi < 0: return not (const or kind == "pure" or b.split("::")[-1].startswith("~"))
        p = ps[pi] if pi < len(ps) else "?"
        if kind in ("pure", "mut"): return False
        if p.endswith(("const&", "&&", "const*")): return False
        return "&" in p or "*" in p
    def readcell_entry(s, al, off, b, sz):
        key = (al, off, b)
        t = s.t
        if key in s.cellmemo:
            r = s.cellmemo[key]
            return r if r is not None else t.mk("undef")
        if b == 0: return t.mk("undef")
        s.cellmemo[key] = None
        if b in s.loops:
            L = s.loops[b]
            if not (s.cellstored(al) & L.blocks):
                arms = [(s.condfrom(s.idom[b], p, b), s.readcell_end(al, off, p, sz)) for p in L.pre]
                r = arms[0][1] if len(arms) == 1 else t.phi(arms)
            else:
                # a value carried around the loop
                r = t.mk("rec", "cell", al, off, b)
                s.recinfo[r] = ("cell", L, (al, off, sz))
                s.cellmemo[key] = r
                # written in every iteration before it is read: no carried value is visible; harmless
        else:
            ps = s.pred[b]
            if len(ps) == 1:
                r = s.readcell_end(al, off, ps[0], sz)
                L = s.loopof.get(ps[0])
                while L is not None and b not in L.blocks:
                    r = s.atexit(L, r, ps[0], b); L = L.parent
            else:
                arms = []
                for p in ps:
                    r = s.readcell_end(al, off, p, sz)
                    L = s.loopof.get(p)
                    while L is not None and b not in L.blocks:
                        r = s.atexit(L, r, p, b); L = L.parent
                    arms.append((p, r))
                if len({x.id for _, x in arms}) == 1: r = arms[0][1]
                else: r = t.phi([(s.condfrom(s.idom[b], p, b), x) for p, x in arms])
        s.cellmemo[key] = r
        return r
    def celldef(s, i, al, off, sz):
        t = s.t
        if i.op == "store":
            p = s.aptr(i.d["a"][1])
            if p and p[0] == al:
                if p[1] == off:
                    return s.val(i.d["a"][0])
                if p[1] < off < p[1] + i.d["sz"]:
                    x = s.val(i.d["a"][0])
                    return t.opn("shr", x, t.I(8 * (off - p[1])))
            return None
        if i.op != "call": return None
        d = i.d
        hit = [k for k, a in enumerate(d["a"]) if isinstance(a, int) and s.aptr(a) and s.aptr(a)[0] == al]
        if not hit: return None
        kind = callkind(d)
        if kind == "ignore": return None
        if kind == "mem":
            if hit[0] != 0: return None
            p = s.aptr(d["a"][0])
            n = d["a"][2][1] if isinstance(d["a"][2], list) and d["a"][2][0] == "C" else 1 << 30
            if not (p[1] <= off < p[1] + n): return None
            if d["b"].startswith("llvm.memset"): return s.val(d["a"][1])
            q = s.cptr(d["a"][1])
            if q: return s.readcell(q[0], q[1] + off - p[1], i.b, i.pos, sz)
            src = s.val(d["a"][1])
            return t.mk("ld", t.mkp(src, (("o", off - p[1]),)) if off - p[1] else src, 0)
        return s.callcell(i, al, off, hit, kind)
    def callcell(s, i, al, off, hit, kind):
        """effect of a call on a cell passed by address; None = unchanged"""
        t, d = s.t, i.d
        b = d.get("b") or "virt"
        last = b.split("::")[-1]
        sret = bool(d.get("sret"))
        if sret and 0 in hit:
            base = s.aptr(d["a"][0])[1]
            if off < base: return None
            if b.split("::")[0] in VALUE_CLASSES and last in list(ASSIGN_OPS) + ["operator="]:
                return s.valnew(i)
            r = s.callterm(i)
            return r if off == base and s.valuecell(al) else t.mk("ev", r, off - base)
        if kind == "val":
            k0 = 1 if sret else 0
            if k0 in hit and valmut(d):
                if s.aptr(d["a"][k0])[1] != off and isstring(b): return None
                return s.valnew(i)
            return None
        for k in hit:
            if s.argwritten(d, kind, k): return t.mk("out", s.callid(i), k, off)
        return None
    def valuecell(s, al):
        base = re.sub(r"\.\d+$", "", s.al[al].d["aty"])
        return base in VALUE_CLASSES or "basic_string" in base or base in ("i32", "i64", "ptr", "i8", "float", "double") 
    def callid(s, i):
        return s.t.mk("res", i.i)
    def valnew(s, i):
        """new content of the object a value-class operation writes (first argument)"""
        t, d = s.t, i.d
        b = d["b"]; last = b.split("::")[-1]; cls = b.split("::")[-2] if "::" in b else b
        k0 = 1 if d.get("sret") else 0
        this = d["a"][k0]
        args = [s.argcontent(i, k) for k in range(k0 + 1, len(d["a"]))]
        if last == "operator=" or (last == cls and len(args) == 1) :
            return args[0]
        if last == cls or (last == "basic_string"):
            a2 = [x for x in args if x.k not in ("undef",)]
            if cls == "basic_string":
                if len(a2) == 2 and len(args) == 2 and params(d.get("cd", ""))[0][0].endswith(("int", "long")): return t.mk("call", "repeat", tuple(a2), 0)
                return a2[0] if a2 else t.mk("str", '""')
            return t.mk("call", cls, tuple(a2), 0)
        if last in ASSIGN_OPS:
            n = b[:-len(last)] + ASSIGN_OPS[last]
            x = [s.content(this, i), args[0]]
            if isstring(b): return t.cat(x)
            if n in COMM: x.sort(key=lambda z: z.id)
            return t.mk("call", n, tuple(x), 0)
        if last == "operator++": return t.mk("call", "next", (s.content(this, i),), 0)
        if last == "operator--": return t.mk("call", "prev", (s.content(this, i),), 0)
        if isstring(b) and (last == "push_back" or last == "append" and len(args) == 1): return t.cat([s.content(this, i), args[0]])
        if isstring(b) and last == "clear": return t.mk("str", '""')
        return t.mk("call", b + "!", tuple([s.content(this, i)] + args), 0)
    def content(s, v, i):
        """what a pointer operand points to, as seen before instruction i"""
        t = s.t
        p = s.cptr(v)
        if p: return s.cellcontent(p[0], p[1], i)
        x = s.val(v)
        return s.contentT(x, v, i)
    def contentT(s, x, v, i):
        t = s.t
        if x.k == "phi": return t.phi([(g, s.contentT(y, v, i)) for g, y in x.a[0]])
        if x.k == "cptr": return s.cellcontent(x.a[0], x.a[1], i)
        if x.k == "al": return x
        if x.k in ("str", "null", "fn"): return x
        return s.load(x, i, v)
    def cellcontent(s, al, off, i):
        t = s.t
        offs = set()
        for j in s.ins.values():
            if j.op == "store" or j.op == "load":
                p = s.aptr(j.d["a"][1] if j.op == "store" else j.d["a"][0])
                if p and p[0] == al: offs.add(p[1])
            elif j.op == "call" and isstring(j.d.get("b") or "") and callkind(j.d) == "val" and valmut(j.d):
                p = s.aptr(j.d["a"][1 if j.d.get("sret") else 0])
                if p and p[0] == al: offs.add(p[1])
        offs = sorted(o for o in offs if o >= off)
        if not offs or offs == [off]:
            return s.readcell(al, off, i.b, i.pos, None)
        r = []
        for o in offs:
            x = s.readcell(al, o, i.b, i.pos, None)
            if x.k != "undef": r.append((o - off, x))
        if len(r) == 1 and r[0][0] == 0: return r[0][1]
        if r and all(x.k == "ev" and isinstance(x.a[1], int) and x.a[1] == o and x.a[0] is r[0][1].a[0] for o, x in r): return r[0][1].a[0]
        return t.mk("tup", tuple(r))
    def argcontent(s, i, k):
        """operand k of a call as a value: references to scalars and small values are read"""
        t, d = s.t, i.d
        a = d["a"][k]
        ps, const = params(d.get("cd", ""))
        pi = k - (len(d["a"]) - len(ps))
        p = ps[pi] if 0 <= pi < len(ps) else ("this" if pi < 0 else "?")
        if isinstance(a, int) or (isinstance(a, list) and a[0] in ("A", "G")):
            if s.cptr(a): 
                return s.cellcontent(*s.cptr(a), i)
            if p == "this":
                if callkind(d) == "val" and (d.get("b") or "").split("::")[0] in VALUE_CLASSES and not valmut(d): return s.content(a, i)
                return s.val(a)
            isref = p.endswith("&")
            base = re.sub(r"( const)?&+$", "", p)
            small = is_small(base)
            if isref and small:
                return s.content(a, i)
        return s.val(a)
    # ------------------------------------------------------------------ calls
    def callterm(s, i):
        if i.i in s.callm: return s.callm[i.i]
        t, d = s.t, i.d
        kind = callkind(d)
        b = d.get("b") or "virt"
        k0 = 1 if d.get("sret") else 0
        s.callm[i.i] = t.mk("res", i.i)
        r = None
        if kind == "pure" or kind == "val" or (kind == "proj" and s.ctx.pure(d["cm"])) or (kind == "ignore" and d["ty"] != "void"):
            r = s.purecall(i, kind, b, k0)
        else: r = t.mk("res", i.i)
        s.callm[i.i] = r
        return r
    def purecall(s, i, kind, b, k0):
        t, d = s.t, i.d
        args = [s.argcontent(i, k) for k in range(k0, len(d["a"]))]
        last = b.split("::")[-1]
        if b.startswith("llvm."):
            if "with.overflow" in b:
                f = b.split(".")[1]
                x = t.mul(*args[:2]) if "mul" in f else t.add(args[0], args[1], -1 if "sub" in f else 1)
                return t.mk("ovf", x)
            return t.mk("call", re.sub(r"\.(i\d+|f\d+|p0)$", "", b), tuple(args), 0)
        for c in CONTAINERS:
            if b.startswith(c):
                cls = c.split("::")[-2]
                this = args[0]
                if cls == "basic_string": break
                v = s.ver(i, ("sz", s.cl.pcls(d["a"][k0])), s.cl.root(d["a"][k0])) if d["a"] else 0
                if last == "operator[]":
                    if cls in ("map", "unordered_map"): return t.mkp(this, (("k", args[1]),))
                    if cls == "vector":
                        loc = t.mkp(this, (("b", args[1]),))
                        if d["ty"] == "i1": return s.bitload(loc, i)
                        return t.mk("bitref", loc)
                    if cls == "bitset": return t.mk("call", b, tuple(args), v)
                    return t.mkp(this, (("i", args[1]),))
                if last == "at": return t.mkp(this, (("k" if "map" in cls else "i", args[1]),))
                if last in LOCRET: return t.mkp(this, (("c", last + ("'" if v else "")),))
                if last in ("size", "length"): return t.mk("size", this, v)
                if last == "empty": return s.asbool(t.eq0(t.mk("size", this, v)))
                if last in ("count", "contains") and cls not in ("multiset", "multimap"): return t.mk("in", args[1], this) if not v else t.mk("in", args[1], t.mkp(this, (("v", "'"),)))
                nm = "C::" + last
                if v and last == "find": args = [t.mkp(this, (("v", "'"),))] + args[1:]
                elif v and last == "end": args = [this]
                if last == "find" : return t.mk("call", nm, tuple(args), 0)
                if last == "end": return t.mk("call", nm, (this,), 0)
                return t.mk("call", nm, tuple(args), v)
        if b == "std::_Bit_reference::operator bool":
            return s.bitload(args[0], i)
        if b == "std::operator+" and "basic_string" in d.get("cd", "").split("operator+")[0]: return t.cat(args)
        if b in COMM: args.sort(key=lambda z: z.id)
        if b in ("BDD::operator=",): return args[1] if len(args) > 1 else args[0]
        if b.startswith("std::_Deque_iterator::operator*") or b.startswith("std::_Deque_iterator::operator->"):
            return t.mk("call", "deref", tuple(args), 0)
        if b == "std::operator!=" and len(args) == 2: return s.asbool(s.b.NOT(t.eq0(t.add(args[0], args[1], -1)) if args[0] is not args[1] else 1))
        if b == "std::operator==" and len(args) == 2: return s.asbool(t.eq0(t.add(args[0], args[1], -1)) if args[0] is not args[1] else 1)
        if last == "operator==" and len(args) == 2 and d["ty"] == "i1":
            args.sort(key=lambda z: z.id)
            return s.asbool(t.eq0(t.add(args[0], args[1], -1)) if args[0] is not args[1] else 1)
        if last == "operator!=" and len(args) == 2 and d["ty"] == "i1":
            return s.asbool(s.b.NOT(t.eq0(t.add(args[0], args[1], -1))) if args[0] is not args[1] else 0)
        r = t.mk("call", d.get("c") and b or "virt", tuple(args), 0)
        if d["ty"] == "i1": return s.asbool(t.truthy(r))
        return r
    def bitload(s, x, i):
        t = s.t
        loc = s.bitloc(x)
        v = s.ver(i, ("e", ("bit",)), ("*",))
        return s.asbool(t.truthy(t.mk("ld", loc, v)))
    def bitloc(s, x):
        t = s.t
        if x.k == "tup" and x.a[0] and x.a[0][0][1].k == "ev" and x.a[0][0][1].a[0].k == "bitref": return x.a[0][0][1].a[0].a[0]
        if x.k == "ev" and x.a[0].k == "bitref": return x.a[0].a[0]
        if x.k == "bitref": return x.a[0]
        if x.k == "p" and x.a[1][-1][0] == "b": return x
        return t.mk("bitof", x)
    def callval(s, i):
        d = i.d
        r = s.callterm(i)
        if r.k == "bool" or d["ty"] != "i1": return r
        return r

def self_ptr(s, v):
    return s.ins[v].d["ty"] == "ptr"

SMALL = re.compile(r"^(bool|char|signed char|unsigned char|short|unsigned short|int|unsigned int|long|unsigned long|long long|unsigned long long|float|double|std::size_t|BDD|ABDD|ADD|std::__cxx11::basic_string<.*>|std::string)( const)?$|\*( const)?$|^std::(pair|tuple)<")
def is_small(p):
    return bool(SMALL.search(p.strip()))

def isstring(b):
    return b.startswith("std::__cxx11::basic_string::")

def valmut(d):
    b = d["b"]; last = b.split("::")[-1]; cls = b.split("::")[-2] if "::" in b else b
    if last in ASSIGN_OPS or last in ("operator=", "operator++", "operator--"): return True
    if last == cls or last == "basic_string": return True
    if b.split("::")[0] in VALUE_CLASSES: return False
    if b.startswith("std::_Bit_reference"): return False
    if "basic_string" in b: return not (d.get("cd", "").rstrip().endswith("const"))
    return False

# ----------------------------------------------------------------------------------------------- summaries
# counters that only ever reach log output
STATISTICS = {"number_of_clauses"}

class Eff:
    __slots__ = ("name", "args", "loops", "g", "line", "file", "insts", "res", "cls", "h")
    def __init__(s, name, args, loops, g, line, file, inst, res=None, cls=None):
        s.name, s.args, s.loops, s.g, s.line, s.file, s.insts, s.res, s.cls = name, args, loops, g, line, file, [inst], res, cls

def findphi(x, d=0):
    """outermost conditional subterm"""
    if isinstance(x, tuple):
        for y in x:
            r = findphi(y, d)
            if r is not None: return r
        return None
    if not isinstance(x, T) or d > 60: return None
    if x.k == "phi": return x
    if x.k in ("ex", "atx", "via", "bool", "rec", "res", "iv", "it", "fin", "in"): return None
    for y in x.a:
        r = findphi(y, d + 1)
        if r is not None: return r
    return None

def self_reach(fn, a, b, head):
    st, seen = [y for y in fn.succ[a] if y != head], set()
    while st:
        x = st.pop()
        if x == b: return True
        if x in seen: continue
        seen.add(x); st += [y for y in fn.succ[x] if y != head]
    return False

class Summary:
    MAXSPLIT = 24
    def __init__(s, ctx, f, opts=None):
        s.opts = opts or {}
        s.fn = Fn(ctx, f, opts)
        s.t = s.fn.t
        s.b = s.t.b
        s.ctx = ctx
        s.effs = {}
        s.defs = {}
        s.notes = []
        s.collect()
        s.overwritten()
        s.objects()
        s.refine()
    # -------------------------------------------------------------- collecting
    def emit(s, name, args, i, res=None, cls=None, g=None):
        fn = s.fn
        if g is None: g = fn.guard(i.b)
        if g == 0: return
        loops = []
        for L in fn.chain(i.b):
            C = 0
            inf = fn.info(L)
            if inf and len(L.exits) > 1:
                for e in L.exits:
                    if not (e[0] == inf["test"] and fn.loopof.get(e[0]) is L): C = s.b.OR(C, fn.relcond(L, *e))
            loops.append((fn.loopterm(L), s.t.boolT(C) if C > 1 else s.t.I(C)))
        line = i.d.get("l", 0); file = i.d.get("f", fn.file)
        todo = [(tuple(args), g)]
        n = 0
        while todo:
            a, g = todo.pop()
            p = findphi(a) if n < s.MAXSPLIT else None
            if p is not None:
                n += len(p.a[0])
                for g2, x in p.a[0]:
                    gg = s.b.AND(g, g2)
                    if gg: todo.append((tuple(s.t.subst(y, {p: x}, None, True) if isinstance(y, T) else y for y in a), gg))
                continue
            bi = next((k for k, x in enumerate(a) if isinstance(x, T) and x.k == "bool"), None)
            if bi is not None and n < s.MAXSPLIT:
                n += 2
                f = a[bi].a[0]
                for v, gg in ((1, s.b.AND(g, f)), (0, s.b.AND(g, s.b.NOT(f)))):
                    if gg: todo.append((a[:bi] + (s.t.I(v),) + a[bi + 1:], gg))
                continue
            if name == "store" and isinstance(a[1], T) and a[1].k == "int" and a[1].a[0] in (0, 1) and g > 1 and cls and i.op == "store":
                # storing what is there already is no effect: the condition only matters where the value differs
                if a[1].a[0] == 0 or i.d.get("sty") in ("i8", "i1"):
                    z = s.t.eq0(s.t.mk("ld", a[0], 0))
                    if z > 1 and s.b.n[z][1] + s.b.n[z][2] == 1 and s.b.n[z][0] in s.b.support(g) and not fn.ver(i, *cls):
                        isz = 1 if s.b.n[z][2] == 1 else 0
                        g = s.b.cof(g, s.b.n[z][0], isz if a[1].a[0] else 1 - isz)
                        if g == 0: continue
            if name == "store" and i.op == "store" and cls and isinstance(a[1], T):
                cur = fn.current(i, a[0], *cls)
                if a[1] in cur: continue
                for x in cur:
                    if a[1].k not in ("ld", "sum", "int", "arg", "op", "mul", "call", "rec", "iv"): continue
                    l = s.t.lin(s.t.add(a[1], x, -1))[1]
                    if not l: continue
                    # where both are equal, storing makes no difference: x <= y counts as x < y
                    d = s.t.add(a[1], x, -1)
                    z, z0, z1 = s.t.eq0(d), s.t.lt0(d), s.t.lt0(s.t.add(d, s.t.I(-1)))
                    lit = lambda f: f > 1 and s.b.n[f][1] + s.b.n[f][2] == 1
                    if lit(z): g = s.b.cof(g, s.b.n[z][0], 0 if s.b.n[z][2] == 1 else 1)
                    if lit(z1) and lit(z0) and s.b.n[z1][0] in s.b.support(g):
                        v, up = s.b.n[z1][0], int(s.b.n[z1][2] == 1)
                        g = s.b.ite(z0, s.b.cof(g, v, up), s.b.cof(g, v, 1 - up))
                if g == 0: continue
            if name == "delete":
                z = s.t.eq0(a[0])
                if z > 1 and s.b.n[z][1] + s.b.n[z][2] == 1:
                    g = s.b.cof(g, s.b.n[z][0], 1 if s.b.n[z][1] == 1 else 0)
            lo = loops
            if name == "store" and g > 1: a, g, lo = s.narrow(a, g, loops)
            if g == 0: continue
            key = (name, a, tuple(sorted(lo, key=lambda x: x[0].id)))
            e = s.effs.get(key)
            if e is None: s.effs[key] = Eff(name, a, lo, g, line, file, i, res, cls)
            else:
                e.g = s.b.OR(e.g, g); e.insts.append(i)
                if res is not None and e.res is not None and res is not e.res: 
                    # two call sites with identical operands: keep them apart through their results
                    s.effs[key + (i.i,)] = Eff(name, a, lo, g, line, file, i, res, cls)
                    e.g = e.g; e.insts.pop()
    def narrow(s, a, g, loops):
        """a pass that only acts where its index is below or above some value is the pass over that part of the range"""
        t, b = s.t, s.b
        for n in range(6):
            todo = None
            for j, (v, C) in enumerate(loops):
                if v.k != "iv" or v.a[0].k != "rng" or v.a[0].a[1] or not (C.k == "int" and C.a[0] == 0): continue
                N = v.a[0].a[0]
                for x in sorted(b.support(g)):
                    at = t.atoms[x]
                    if at.k not in ("eq0", "lt0"): continue
                    c, l = t.lin(at.a[0])
                    k = l.pop(v, None)
                    if k not in (1, -1): continue
                    rest = t.unlin(c, l)
                    if v in rest.free or any(z.k == "rec" for z in rest.free): continue
                    pos = b.cof(g, x, 0) == 0
                    if not pos and b.cof(g, x, 1) != 0: continue
                    at0 = t.scale(rest, -1) if k == 1 else rest       # the value it is compared with
                    if at.k == "eq0":
                        if pos:
                            if at0.k == "int" and at0.a[0] >= 0: todo = (j, x, "at", at0); break
                        elif at0.k == "int" and at0.a[0] == 0: todo = (j, x, "from", t.I(1)); break
                        elif at0 is t.add(N, t.I(-1)): todo = (j, x, "to", at0); break
                        continue
                    B = at0 if k == 1 else t.add(at0, t.I(1))
                    if pos == (k == 1):
                        if B is not N and t.atleast(N, B): todo = (j, x, "to", B); break
                    elif t.atleast(B, t.I(0)) and not (B.k == "int" and B.a[0] == 0): todo = (j, x, "from", B); break
                if todo: break
            if not todo: break
            j, x, how, B = todo
            v = loops[j][0]
            N = v.a[0].a[0]
            fr = set().union(*[y.free for y in a if isinstance(y, T)], *[t.atoms[y].free for y in b.support(g)])
            if any(y.k == "rec" for y in fr): break
            up = b.cof(g, x, 1) if b.cof(g, x, 0) == 0 else b.cof(g, x, 0)
            if how == "at": new, w = None, B
            else:
                key = t.mk("rng", B if how == "to" else t.add(N, B, -1), v.a[0].a[1])
                if any(y.k == "iv" and y.a[0] is key for y, C in loops[j + 1:]): break
                new = t.mk("iv", key, sum(1 for y, C in loops[:j] if y.k == "iv" and y.a[0] is key))
                w = t.add(new, B) if how == "from" else new
            m = {v: w}
            a = tuple(t.subst(y, m) if isinstance(y, T) else y for y in a)
            g = t.bsubst(up, m)
            if how == "at": g = b.AND(g, t.cmp("slt", B, N))
            loops = [(t.subst(y, m) if q != j else new, t.subst(C, m)) for q, (y, C) in enumerate(loops) if q != j or new is not None]
        return a, g, loops
    def clauses(s):
        """literal emissions grouped by the terminator they run into first: {terminator inst: [literal insts]}, and the literals of each group in one block"""
        fn = s.fn
        isadd = lambda i: i.op == "call" and i.d.get("b") == "ipasir_add"
        isend = lambda i: isinstance(i.d["a"][1], list) and i.d["a"][1][0] == "C" and i.d["a"][1][1] == 0
        s.clend, s.cllits = {}, {}
        adds = [i for b in fn.rpo for i in fn.blocks[b] if isadd(i)]
        ends = {}
        for b in fn.rpo:
            ends[b] = next((i for i in fn.blocks[b] if isadd(i) and isend(i)), None)
        for i in adds:
            if isend(i): s.cllits.setdefault(i.i, []); continue
            T = set()
            j = next((k for k in fn.blocks[i.b][i.pos + 1:] if isadd(k) and isend(k)), None)
            if j is not None: T.add(j.i)
            else:
                seen, st = set(), list(fn.succ[i.b])
                while st:
                    x = st.pop()
                    if x in seen: continue
                    seen.add(x)
                    if ends.get(x) is not None: T.add(ends[x].i); continue
                    st += fn.succ[x]
            s.clend[i.i] = T
            for x in T: s.cllits.setdefault(x, []).append(i)
        s.whole = set()
        for x, L in s.cllits.items():
            if all(i.b == fn.ins[x].b and s.clend[i.i] == {x} for i in L): s.whole.add(x)
        # literals chosen by branches inside one pass: one clause per way through
        s.multi = {x for x, L in s.cllits.items() if x not in s.whole and L and all(fn.chain(i.b) == fn.chain(fn.ins[x].b) for i in L)}
        while True:
            bad = {x for x in s.multi if any(not s.clend[i.i] <= s.multi | s.whole for i in s.cllits[x])}
            if not bad: break
            s.multi -= bad
    def collect(s):
        fn, t = s.fn, s.t
        s.clauses()
        for b in fn.rpo:
            for i in fn.blocks[b]:
                if i.op == "store":
                    if fn.cptr(i.d["a"][1]): continue
                    v = i.d["a"][0]
                    if isinstance(v, list) and "_ZTV" in str(v): continue
                    loc = fn.val(i.d["a"][1])
                    val = fn.val(v)
                    if loc.k == "cptr": continue
                    if loc.k == "glob" and loc.a[0] in STATISTICS: continue
                    s.emit("store", (loc, val), i, cls=(fn.cl.scls(i.d["a"][1]), fn.rootof(loc) or fn.cl.root(i.d["a"][1])))
                elif i.op == "ret":
                    A = i.d.get("a") or []
                    if A: s.emit("return", (fn.val(A[0]),), i)
                    else:
                        if "sretcell" in s.fn.f and s.fn.f["sretcell"] in fn.cell:
                            s.emit("return", (fn.cellcontent(s.fn.f["sretcell"], 0, i),), i)
                elif i.op == "call": s.call(i)
                elif i.op == "unreachable": pass
    def overwritten(s):
        """a store whose location is stored to again in the same pass, without anything in between that may look, only
        counts where the later one does not happen"""
        fn = s.fn
        by = {}
        for e in s.effs.values():
            if e.name == "store" and e.cls: by.setdefault((e.args[0], e.cls[0], tuple(sorted((x[0].id for x in e.loops)))), []).append(e)
        for L in by.values():
            if len(L) < 2: continue
            for e in L:
                if e.insts[0].op != "store" or e.file != fn.file: continue
                later = 0
                for f in L:
                    if f is e or f.insts[0].op != "store" or fn.chain(f.insts[0].b) != fn.chain(e.insts[0].b): continue
                    if all(s.unseen(i, j, e) for i in e.insts for j in f.insts): later = s.b.OR(later, f.g)
                if later: e.h = s.b.AND(e.g, s.b.NOT(later))
        for L in by.values():
            for e in L:
                if getattr(e, "h", None) is not None: e.g = e.h
        s.effs = {k: e for k, e in s.effs.items() if e.g != 0}
    def unseen(s, i, j, e):
        """j comes after i in the same pass and nothing in between reads what i stores"""
        fn = s.fn
        if i is j: return False
        ch = fn.chain(i.b)
        head = ch[-1].h if ch else None
        def after(x):
            """instructions that can run after x in this pass"""
            st = [y for y in fn.succ[x.b] if y != head]
            seen = set()
            while st:
                y = st.pop()
                if y in seen: continue
                seen.add(y); st += [z for z in fn.succ[y] if z != head]
            return seen
        A = after(i)
        if j.b == i.b:
            if j.pos < i.pos or i.b in A: return False
            mid = fn.blocks[i.b][i.pos + 1:j.pos]
        else:
            if j.b not in A or i.b in after(j): return False
            P = {b for b in A if b != j.b and (b == i.b or self_reach(fn, b, j.b, head))}
            mid = fn.blocks[i.b][i.pos + 1:] + fn.blocks[j.b][:j.pos] + [k for b in P if b != i.b for k in fn.blocks[b]]
        c, r = e.cls
        for k in mid:
            if k.op == "load":
                if fn.cptr(k.d["a"][0]) or fn.cl.scls(k.d["a"][0]) != c: continue
                rr = fn.cl.root(k.d["a"][0])
                if not fn.mayalias((i, c, r), rr, k): continue
                p = fn.val(k.d["a"][0])
                if p is not e.args[0]: return False
                if fn.forward(k, c, rr, p) is None: return False
            elif k.op == "call" and callkind(k.d) in ("proj", "virt", "ext", "mem", "val"): return False
            elif k.op == "call" and k.d.get("vt"): return False
        return True
    def call(s, i):
        fn, t, d = s.fn, s.t, i.d
        k = callkind(d)
        b = d.get("b") or "virt"
        last = b.split("::")[-1]
        k0 = 1 if d.get("sret") else 0
        if k0 and not fn.cptr(d["a"][0]) and k != "ignore":
            loc = fn.val(d["a"][0])
            if loc.k != "cptr" and not (loc.k == "arg" and fn.f.get("sretcell") is not None):
                s.emit("store", (loc, fn.callterm(i)), i, cls=(fn.cl.scls(d["a"][0]), fn.cl.root(d["a"][0])))
        if k in ("ignore", "pure", "ctor"):
            if k == "ignore" and s.opts.get("prints") and (b.startswith("std::operator<<") or b.startswith("std::ostream::operator<<") or b == "printf"):
                args = [fn.argcontent(i, n) for n in range(1, len(d["a"]))]
                s.emit("print", args, i, cls=(("print",), ("*",)))
            return
        if k == "proj" and fn.ctx.pure(d["cm"]): return
        if k == "exit":
            s.emit("exit", [fn.val(a) for a in d["a"] if b in ("exit", "_exit")], i); return
        if k == "alloc":
            s.emit("new", (fn.val(d["a"][-1]),), i, res=t.mk("res", i.i)); return
        if k == "free":
            s.emit("delete", (fn.val(d["a"][0]),), i); return
        if k == "mem":
            if fn.cptr(d["a"][0]): return
            s.emit("copy" if not b.startswith("llvm.memset") else "fill", [fn.val(a) for a in d["a"][:3]], i); return
        if k == "val":
            if b == "std::_Bit_reference::operator=":
                loc = fn.bitloc(fn.argcontent(i, 0) if fn.cptr(d["a"][0]) else fn.val(d["a"][0]))
                v = fn.argcontent(i, 1)
                if isinstance(d["a"][1], int) and fn.ins[d["a"][1]].d["ty"] == "ptr":
                    v = fn.bitload(v, i)
                s.emit("store", (loc, v), i, cls=(("e", ("bit",)), ("*",)))
                return
            this = d["a"][k0]
            if fn.cptr(this) or not valmut(d): return
            loc = fn.val(this)
            if loc.k == "cptr": return
            if isstring(b) and (last.startswith("~") or last == "basic_string" and len(d["a"]) - k0 == 1): return
            s.emit("store", (loc, fn.valnew(i)), i, cls=(fn.cl.scls(this), fn.cl.root(this)))
            return
        if b == "ipasir_add":
            if i.i in s.whole:
                L = [fn.val(x.d["a"][1]) for x in s.cllits[i.i]]
                s.emit("clause", [fn.val(d["a"][0])] + L, i); return
            if i.i in s.multi:
                ways = [([], fn.guard(i.b))]
                for x in s.cllits[i.i]:
                    gx, v, nw = fn.guard(x.b), fn.val(x.d["a"][1]), []
                    for L, g in ways:
                        y, n = s.b.AND(g, gx), s.b.AND(g, s.b.NOT(gx))
                        if y: nw.append((L + [v], y))
                        if n: nw.append((L, n))
                    ways = nw
                    if len(ways) > 16: break
                if len(ways) <= 16:
                    for L, g in ways: s.emit("clause", [fn.val(d["a"][0])] + L, i, g=g)
                    return
            if i.i in s.cllits:
                s.emit("endclause", [fn.val(d["a"][0])], i, res=t.mk("res", i.i)); return
            T = sorted(s.clend[i.i])
            if T and all(x in s.whole or x in s.multi for x in T): return
            s.emit("literal", [fn.val(d["a"][1])] + [t.mk("res", x) for x in T], i); return
        args = [fn.argcontent(i, n) for n in range(k0, len(d["a"]))]
        if b == "virt" :
            fp = fn.val(d["cv"][0]) if d.get("cv") else t.mk("undef")
            args = [fp] + args
        nm = b
        if d.get("proj"): nm = d["c"]
        cls = None
        if k == "mut":
            a0 = d["a"][k0]
            cls = (("m", fn.cl.pcls(a0)), fn.cl.root(a0))
            c = next((c for c in CONTAINERS if b.startswith(c)), "")
            if last == "emplace_back": last = "push_back"
            if last == "emplace": last = "insert"
            nm = "." + last
            if last in ("insert",) and len(args) == 2 and ("set" in c): nm = ".insert"
            if c.split("::")[-2] == last: nm = "ctor"
            if nm == "ctor" and "vector" in c:
                # the allocator and a zero value are what is taken by default
                while len(args) > 2 and (args[-1].k == "undef" or args[-1].k == "int" and args[-1].a[0] == 0): args = args[:-1]
        if streamop(b):
            v = fn.stream(d["a"][k0])
            if v != d["a"][k0]: args = [fn.val(v)] + list(args[1:])
            cls = (("stream", fn.cl.pcls(v)), ("*",))
        res = t.mk("res", i.i) if (d["ty"] != "void" or d.get("sret") or k == "proj") else None
        if k == "mut" and nm == ".insert": res = None
        s.emit(nm, args, i, res=res, cls=cls)
    # -------------------------------------------------------------- objects and canonical names
    def deps(s, x, acc, seen):
        if isinstance(x, tuple):
            for y in x: s.deps(y, acc, seen)
            return
        if isinstance(x, T):
            if x in seen: return
            seen.add(x)
            if x.k in ("al", "res", "rec", "gl"): acc.add(x)
            if x.k == "bool": s.bdeps(x.a[0], acc, seen)
            elif x.k == "phi":
                for g, y in x.a[0]: s.bdeps(g, acc, seen); s.deps(y, acc, seen)
            else:
                for y in x.a: s.deps(y, acc, seen)
    def bdeps(s, f, acc, seen):
        for v in s.b.support(f): s.deps(s.t.atoms[v], acc, seen)
    def objects(s):
        s.items = []      # (kind, payload, deps)
        objs = {}
        work = []
        for key, e in s.effs.items():
            acc, seen = set(), set()
            s.deps(e.args, acc, seen); s.bdeps(e.g, acc, seen)
            for lt, c in e.loops: s.deps(lt, acc, seen); s.deps(c, acc, seen)
            own = set(acc)
            s.items.append(("eff", e, own | ({e.res} if e.res is not None else set())))
            work += list(acc)
        seenr = set()
        while work:
            o = work.pop()
            if o in seenr: continue
            seenr.add(o)
            acc, seen = set(), set()
            if o.k == "rec":
                if o in s.fn.recinfo:
                    init, upd = s.fn.recdef(o)
                    init = init if init is not None else s.t.mk("undef"); upd = upd if upd is not None else s.t.mk("undef")
                    L = s.fn.recinfo[o][1]
                    lt = s.fn.loopterm(L)
                    s.deps((init, upd, lt), acc, seen)
                    s.items.append(("rec", (o, init, upd, lt), acc | {o}))
            elif o.k == "gl":
                L = s.fn.loops[o.a[0]]
                cs = [s.fn.relcond(L, *e) for e in L.exits]
                C = 0
                for c in cs: C = s.b.OR(C, c)
                s.bdeps(C, acc, seen)
                s.items.append(("gl", (o, C), acc | {o}))
            work += [x for x in acc if x not in seenr]
        for k, p, d in s.items:
            for o in d: objs.setdefault(o, []).append((k, p))
        # a local object that is written and never looked at
        dead = {}
        for o, its in objs.items():
            if o.k != "al" or s.fn.al[o.a[0]].d["aty"][:1] != "[": continue
            if all(k == "eff" and p.name == "store" and s.fn.rootof(p.args[0]) == ("al", o.a[0]) and not s.mentions(p, o) for k, p in its):
                for k, p in its: dead[id(p)] = p
        if dead:
            s.effs = {k: e for k, e in s.effs.items() if id(e) not in dead}
            return s.objects()
        s.objs = objs
    def mentions(s, e, o):
        """the object occurs in a store other than as what is written to"""
        acc, seen = set(), set()
        s.deps(e.args[1], acc, seen); s.bdeps(e.g, acc, seen)
        if e.args[0].k == "p": s.deps(e.args[0].a[1], acc, seen)
        for lt, c in e.loops: s.deps(lt, acc, seen); s.deps(c, acc, seen)
        return o in acc
    def otype(s, o):
        fn = s.fn
        if o.k == "al":
            ty = re.sub(r"\.\d+$", "", fn.al[o.a[0]].d["aty"])
            return ty.split("::")[-1]
        if o.k == "res":
            d = fn.ins[o.a[0]].d
            b = d.get("b") or "virt"
            if b == "ipasir_add": return "clause"
            if d.get("proj"): b = d["c"]
            if b.startswith("operator new") or b in ("malloc", "calloc"): return "new"
            return "res." + b.split("::")[-1]
        return o.k
    def refine(s):
        col = {o: s.otype(o) for o in s.objs}
        s.base = dict(col)
        for rnd in range(s.opts.get("rounds", 4)):
            s.env = col
            s.rmemo = {}
            strs = {}
            for k, p, d in s.items:
                strs[id(p) if k == "eff" else (k, p[0])] = None
            new = {}
            cache = {}
            for o, its in s.objs.items():
                old = col[o]
                # cheap: render every item once with plain colours; mark own position by re-rendering with SELF
                s.env = dict(col); s.env[o] = "SELF"
                s.rmemo = {}
                L = sorted(s.ritem(k, p) for k, p in its)
                h = hashlib.sha1(("%s|%s" % (s.base[o], "\n".join(L))).encode()).hexdigest()[:6]
                new[o] = s.base[o] + "#" + h
            if len(set(new.values())) == len(set(col.values())) and rnd > 1:
                col = new; break
            col = new
        s.env = col
        s.rmemo = {}
    def ritem(s, k, p):
        if k == "eff": return s.reff(p)
        if k == "rec": return "REC %s := %s ; %s @%s" % (s.R(p[0]), s.R(p[1]), s.R(p[2]), s.R(p[3]))
        if k == "gl": return "LOOP %s until %s" % (s.R(p[0]), s.G(p[1]))
    def reff(s, e):
        A = [s.R(a) for a in e.args]
        if e.name == "clause": A[1:] = sorted(set(A[1:]))
        r = e.name + "(" + ", ".join(A) + ")"
        if e.res is not None and e.res in s.objs: r = s.env.get(e.res, "res") + " = " + r
        q = []
        for lt, c in e.loops:
            x = s.R(lt)
            if not (c.k == "int" and c.a[0] == 0): x += " until[" + s.R(c) + "]"
            q.append(x)
        if q: r = "for " + ", ".join(sorted(q)) + ": " + r
        if e.g != 1: r += "  if " + s.G(e.g)
        return r
    # -------------------------------------------------------------- rendering
    def R(s, x):
        if isinstance(x, str): return x
        if isinstance(x, tuple): return "[" + ", ".join(s.R(y) for y in x) + "]"
        if not isinstance(x, T): return str(x)
        r = s.rmemo.get(x)
        if r is not None: return r
        s.rmemo[x] = "…"
        r = s._R(x)
        if len(r) > 260 and x.k in ("phi", "bool", "ex", "via", "atx", "call", "sum", "op", "mul", "iv", "it", "ld", "p", "in", "tup"): r = s.short(r)
        s.rmemo[x] = r
        return r
    def short(s, r):
        h = "~" + hashlib.sha1(r.encode()).hexdigest()[:8]
        s.defs[h] = r
        return h
    def paren(s, x):
        r = s.R(x)
        return "(" + r + ")" if re.search(r"[ ]", r) and not r.endswith(")") else r
    def path(s, base, path):
        r = base
        for st in path:
            if st[0] == "f": r += "." + st[1].split(".", 1)[1] if "." in st[1] and not st[1].startswith("vec") else "." + st[1]
            elif st[0] in "ia": r += "[" + s.R(st[1]) + "]"
            elif st[0] == "b": r += "[" + s.R(st[1]) + "]"
            elif st[0] == "k": r += "{" + s.R(st[1]) + "}"
            elif st[0] == "c": r += "." + st[1] + "()"
            elif st[0] == "v": r += "'"
            else: r += "." + st[0] + str(st[1])
        return r
    def _R(s, x):
        k, a = x.k, x.a
        if k == "int": return str(a[0])
        if k == "arg":
            n = s.fn.f["args"][a[0]][0]
            return "this" if n == "this" else ("ret" if n == "agg.result" else "a%d" % a[0])
        if k in ("al", "res", "rec", "gl"): return s.env.get(x) or s.otype(x)
        if k == "null": return "null"
        if k in ("str", "glob", "fn", "flt"): return a[0]
        if k == "p":
            base = a[0]
            if base.k == "ld" and base.a[0].k == "p" and base.a[0].a[1][-1] == ("f", "vec.start"):
                return s.path(s.path(s.R(base.a[0].a[0]), base.a[0].a[1][:-1]), a[1]) + "&"
            return s.path(s.R(base), a[1]) + "&"
        if k == "ld":
            v = "'" * a[1]
            p = a[0]
            if p.k == "p" and p.a[1][-1] == ("f", "vec.start"): return s.path(s.R(p.a[0]), p.a[1][:-1]) + ".data"
            r = s.R(p)
            if p.k == "p" and r.endswith("&"): return r[:-1] + v
            if r.endswith(".data"): return r[:-5] + "[0]" + v
            return "*" + r + v
        if k == "size": return "|" + s.R(a[0]).rstrip("&") + "|" + ("'" if len(a) > 1 and a[1] else "")
        if k == "bytes": return "bytes" + s.R(a[0])
        if k == "sum":
            items = sorted(((s.R(t), c) for t, c in a[1]))
            r = ""
            for n, (t, c) in enumerate(items):
                if " " in t and not t.endswith(")"): t = "(" + t + ")"
                if abs(c) != 1: t = "%d*%s" % (abs(c), t)
                r += ("-" if c < 0 else "") + t if n == 0 else (" - " if c < 0 else " + ") + t
            if a[0]: r += (" + %d" if a[0] > 0 else " - %d") % abs(a[0])
            return r
        if k == "mul": return "*".join(sorted(s.paren(t) for t in a[0]))
        if k == "op":
            x1, x2 = s.paren(a[1]), s.paren(a[2])
            if a[0] in ("and", "or", "xor", "fadd", "fmul") and x2 < x1: x1, x2 = x2, x1
            return "%s(%s, %s)" % (a[0], x1, x2)
        if k == "bool": return "{" + s.G(a[0]) + "}"
        if k == "phi": return "ite[" + "; ".join(sorted(s.G(g) + " -> " + s.R(t) for g, t in a[0])) + "]"
        if k == "iv":
            key, d = a
            if key.k == "rng": return "i%s<%s>" % (d if d else "", s.R(key.a[0])) + ("do" if key.a[1] else "")
            return "it%s<%s..%s>" % (d if d else "", s.R(key.a[0]), s.R(key.a[1]))
        if k == "it": return "elem(" + s.R(a[0]) + ")"
        if k == "ex": return "EX %s: %s" % (s.R(a[0]), s.R(a[1]))
        if k == "via": return "VIA %s: %s of %s" % (s.R(a[0]), s.R(a[1]), s.R(a[2]))
        if k == "atx": return "at_exit(%s | %s: %s)" % (s.R(a[2]), s.R(a[0]), s.R(a[1]))
        if k == "fin": return "final(" + s.R(a[0]) + ")"
        if k == "in": return "%s in %s" % (s.paren(a[0]), s.R(a[1]).rstrip("&"))
        if k == "call":
            args = [s.R(y) for y in a[1]]
            if a[0] in COMM: args.sort()
            return a[0].split("::")[-1] + ("'" if a[2] else "") + "(" + ", ".join(args) + ")"
        if k == "cat": return "cat(" + ", ".join(s.R(y) for y in a[0]) + ")"
        if k == "tup": return "(" + ", ".join(s.R(y) for o, y in a[0]) + ")"
        if k == "cptr": return "&" + s.otype_al(a[0])
        return k + "(" + ", ".join(s.R(y) for y in a) + ")"
    def otype_al(s, i):
        return re.sub(r"\.\d+$", "", s.fn.al[i].d["aty"])
    # linear form with canonical sign: returns (text of linear part, const, flipped)
    def linR(s, d):
        c, l = s.t.lin(d)
        items = sorted((s.R(t), k) for t, k in l.items())
        flip = items[0][1] < 0
        if flip: items = [(t, -k) for t, k in items]; c = -c
        pos = [(t, k) for t, k in items if k > 0]; neg = [(t, -k) for t, k in items if k < 0]
        f = lambda L: " + ".join((("%d*" % k if k != 1 else "") + ("(" + t + ")" if " " in t and not t.endswith((")", ">", "|", "]", "}")) else t)) for t, k in L)
        return f(pos), f(neg), c, flip
    def atomR(s, x):
        """(text, negated, group) of an atom; group = (linear key, kind, const) for atoms over the same difference"""
        if x.k in ("eq0", "lt0"):
            p, n, c, flip = s.linR(x.a[0])
            key = p + " ~ " + n
            # L + c  (==|<) 0, L = p - n
            if x.k == "eq0": return s.cmpstr(p, "==", n, -c), 0, (key, "eq", -c), s.cmpstr(p, "!=", n, -c)
            if not flip: return s.cmpstr(p, "<", n, -c), 0, (key, "lt", -c), s.cmpstr(p, ">=", n, -c)
            # original: -(L+c) < 0  <=> L > -c <=> not (L < -c+1)
            return s.cmpstr(p, "<", n, -c + 1), 1, (key, "lt", -c + 1), s.cmpstr(p, ">=", n, -c + 1)
        if x.k in ("feq", "flt"):
            r = "%s %s %s" % (s.paren(x.a[0]), "f==" if x.k == "feq" else "f<", s.paren(x.a[1]))
            return r, 0, None, "!(" + r + ")"
        r = s.R(x)
        return r, 0, None, "!(" + r + ")"
    def cmpstr(s, p, o, n, c):
        r = n
        if not n: r = str(c)
        elif c: r = "%s %s %d" % (n, "+" if c > 0 else "-", abs(c))
        return "%s %s %s" % (p, o, r)
    def G(s, f):
        f = s.t.settle(f)
        if f == 1: return "true"
        if f == 0: return "false"
        key = ("G", f)
        r = s.rmemo.get(key)
        if r is not None: return r
        vs = s.b.support(f)
        at = {v: s.atomR(s.t.atoms[v]) for v in vs}
        names = sorted({a[0] for a in at.values()})
        negs = {a[0]: a[3] for a in at.values()}
        idx = {n: k for k, n in enumerate(names)}
        nb = B()
        memo = {}
        def conv(x):
            if x < 2: return x
            if x in memo: return memo[x]
            v, l, h = s.b.n[x]
            a = at[v]
            y = nb.var(idx[a[0]])
            if a[1]: y = nb.NOT(y)
            memo[x] = r = nb.ite(y, conv(h), conv(l))
            return r
        g = conv(f)
        # one constant: the difference is below it, equal to it or above it
        groups = {}
        for a in at.values():
            if a[2]: groups.setdefault(a[2][0], set()).add((a[2][1], a[2][2], a[0]))
        grown = False
        for key2, L in sorted(groups.items(), key=str):
            ks = {k for o, k, n in L if o == "lt"} | {k + e for o, k, n in L if o == "eq" for e in (0, 1)}
            if len(L) < 2 or len(ks) != 2 or max(ks) - min(ks) != 1: continue
            k0 = min(ks)
            have = {(o, k): idx[n] for o, k, n in L}
            lo, eq, hi = g, g, g
            for (o, k), v in sorted(have.items()):
                lo = nb.cof(lo, v, 0 if o == "eq" else 1)
                eq = nb.cof(eq, v, 1 if o == "eq" else int(k > k0))
                hi = nb.cof(hi, v, 0)
            def av(o, k):
                nonlocal grown
                if (o, k) in have: return nb.var(have[o, k])
                x, y = key2.split(" ~ ")
                a = (s.cmpstr(x, "==" if o == "eq" else "<", y, k), 0, (key2, o, k), s.cmpstr(x, "!=" if o == "eq" else ">=", y, k))
                idx[a[0]] = len(names); names.append(a[0]); negs[a[0]] = a[3]; at[a[0]] = a; grown = True
                have[o, k] = idx[a[0]]
                return nb.var(idx[a[0]])
            if lo == eq == hi: g = lo
            elif lo == hi: g = nb.ite(av("eq", k0), eq, lo)
            elif lo == eq: g = nb.ite(av("lt", k0 + 1), lo, hi)
            elif eq == hi: g = nb.ite(av("lt", k0), lo, hi)
            else: g = nb.ite(av("lt", k0 + 1), nb.ite(av("lt", k0), lo, eq), hi)
        if grown:
            old, n2, memo = names, B(), {}
            names = sorted(old); idx = {n: k for k, n in enumerate(names)}
            def again(x):
                if x < 2: return x
                if x not in memo:
                    v, l, h = nb.n[x]
                    memo[x] = n2.ite(n2.var(idx[old[v]]), again(h), again(l))
                return memo[x]
            g = again(g); nb = n2
        # facts between comparisons of the same difference with different constants
        C = 1
        groups = {}
        used = {names[v] for v in nb.support(g)}
        for a in at.values():
            if a[2] and a[0] in used: groups.setdefault(a[2][0], set()).add((a[2][1], a[2][2], a[0]))
        for L in groups.values():
            L = sorted(L)
            for x in L:
                for y in L:
                    if x >= y: continue
                    vx, vy = nb.var(idx[x[2]]), nb.var(idx[y[2]])
                    imp = lambda p, q: nb.OR(nb.NOT(p), q)
                    if x[0] == "eq" and y[0] == "eq": C = nb.AND(C, nb.NOT(nb.AND(vx, vy)))
                    elif x[0] == "eq": C = nb.AND(C, imp(vx, vy if x[1] < y[1] else nb.NOT(vy)))
                    elif x[0] == "lt" and y[0] == "lt":
                        C = nb.AND(C, imp(vx, vy))
                        if y[1] == x[1] + 1:
                            for z in L:
                                if z[0] == "eq" and z[1] == x[1]: C = nb.AND(C, imp(nb.AND(vy, nb.NOT(vx)), nb.var(idx[z[2]])))
        if C != 1:
            for v in sorted(nb.support(g)):
                for bit in (0, 1):
                    h = nb.cof(g, v, bit)
                    if nb.AND(h, C) == nb.AND(g, C): g = h; break
            if nb.AND(g, C) == 0: g = 0
            if nb.OR(g, nb.NOT(C)) == 1: g = 1
        if g < 2: r = "true" if g else "false"
        else:
            _, cubes = nb.isop(nb.AND(g, C) if C != 1 else g, nb.OR(g, nb.NOT(C)) if C != 1 else g)
            def lit(v, p):
                return names[v] if p else negs[names[v]]
            cs = sorted(" & ".join(lit(v, p) for v, p in sorted(c)) for c in cubes)
            r = cs[0] if len(cs) == 1 else " | ".join("(" + c + ")" for c in cs)
            if len(r) > 1500: r = s.short(r)
        s.rmemo[key] = r
        return r
    # -------------------------------------------------------------- output
    def lines(s):
        """[(canonical text, masked text, line, file)]"""
        s.rmemo = {}
        res = []
        for k, p, d in s.items:
            txt = s.ritem(k, p)
            line = p.line if k == "eff" else 0
            file = p.file if k == "eff" else s.fn.file
            if k == "eff" and p.g and s.G(p.g) == "false": continue
            res.append((k, txt, re.sub(r"#[0-9a-f]{6}", "", txt), line, file))
        res.sort(key=lambda r: (r[3], r[1]))
        res += s.order()
        return res
    def order(s):
        fn = s.fn
        L = [e for e in s.effs.values() if e.cls is not None]
        by = {}
        for e in L: by.setdefault(e.cls[0] if e.cls[0][0] != "sz" else e.cls[0], []).append(e)
        out = []
        for c, es in by.items():
            if len(es) < 2: continue
            before = {}
            for x in range(len(es)):
                for y in range(x + 1, len(es)):
                    e, f = es[x], es[y]
                    r1, r2 = e.cls[1], f.cls[1]
                    if r1 != r2 and (r1[0] in ("al", "new") or r2[0] in ("al", "new")): continue
                    if e.name == "store" and f.name == "store":
                        if len(e.args) > 1 and e.args[1] is f.args[1]: continue
                        if s.different(e.args[0], f.args[0]): continue
                        if s.increment(e) and s.increment(f): continue
                    if e.name in (".insert",) and f.name == e.name: continue
                    if s.b.AND(e.g, f.g) == 0 and not (e.loops or f.loops): continue
                    ef = any(s.fwd(i, j) for i in e.insts for j in f.insts)
                    fe = any(s.fwd(j, i) for i in e.insts for j in f.insts)
                    if ef == fe: continue
                    if fe: x2, y2 = y, x
                    else: x2, y2 = x, y
                    before.setdefault(x2, set()).add(y2)
            for x, ys in before.items():
                for y in ys:
                    if any(y in before.get(z, ()) for z in ys if z != y): continue
                    e, f = es[x], es[y]
                    txt = "ORDER [%s] before [%s]" % (s.brief(e), s.brief(f))
                    out.append(("ord", txt, re.sub(r"#[0-9a-f]{6}", "", txt), f.line, f.file))
        return sorted(out, key=lambda r: r[1])
    def brief(s, e):
        r = s.reff(e)
        if len(r) < 160: return r
        h = e.name + "(" + ", ".join(s.R(a) for a in e.args)[:80] + "..) "
        return h + "#" + hashlib.sha1(r.encode()).hexdigest()[:6]
    def increment(s, e):
        """adds a constant to what it stores into: such updates commute"""
        if len(e.args) < 2: return False
        l, v = s.R(e.args[0]), s.R(e.args[1])
        return l.endswith("&") and re.fullmatch(re.escape(l[:-1]) + r"' [+-] \d+", v) is not None
    def bounds(s, x):
        """least and greatest value over all passes"""
        c, l = s.t.lin(x)
        lo = hi = s.t.I(c)
        for v, k in l.items():
            if v.k == "iv" and v.a[0].k == "rng" and not v.a[0].a[1]:
                top = None if v.a[0].a[0].free else s.t.scale(s.t.add(v.a[0].a[0], s.t.I(-1)), k)
                if k > 0: hi = s.t.add(hi, top) if hi is not None and top is not None else None
                else: lo = s.t.add(lo, top) if lo is not None and top is not None else None
            elif v.free: return None, None
            else: lo, hi = (s.t.add(z, v, k) if z is not None else None for z in (lo, hi))
        return lo, hi
    def different(s, p, q):
        if p.k != "p" and q.k != "p": return False
        zero = lambda x, y: s.t.mk("p", x, (("i", s.t.I(0)),)) if x.k != "p" and y.a[0] is x and len(y.a[1]) == 1 and y.a[1][0][0] == "i" else x
        if p.k != "p": p = zero(p, q)
        elif q.k != "p": q = zero(q, p)
        if p.k != "p" or q.k != "p": return False
        if p.a[0] is q.a[0]:
            for x, y in zip(p.a[1], q.a[1]):
                if x == y: continue
                if len(p.a[1]) != len(q.a[1]): return x[0] == "f" and y[0] == "f"
                if isinstance(x[1], T) and isinstance(y[1], T):
                    if not (x[1].free or y[1].free):
                        d = s.t.add(x[1], y[1], -1)
                        return d.k == "int" and d.a[0] != 0
                    (l1, h1), (l2, h2) = s.bounds(x[1]), s.bounds(y[1])
                    one = s.t.I(1)
                    return l1 is not None and h2 is not None and s.t.atleast(l1, s.t.add(h2, one)) or \
                           l2 is not None and h1 is not None and s.t.atleast(l2, s.t.add(h1, one))
                return x[0] == "f" and y[0] == "f"
        return False
    def fwd(s, i, j):
        """i can come before j within one iteration of their innermost common loop"""
        fn = s.fn
        if i.b == j.b: return i.pos < j.pos
        Li, Lj = fn.chain(i.b), fn.chain(j.b)
        com = None
        for a, b in zip(Li, Lj):
            if a is b: com = a
        seen, st = set(), [i.b]
        while st:
            x = st.pop()
            for y in fn.succ[x]:
                if com and (y == com.h or y not in com.blocks): continue
                if y == j.b: return True
                if y not in seen: seen.add(y); st.append(y)
        return False

def summarise(ctx, f, opts=None):
    return Summary(ctx, f, opts)

if __name__ == "__main__":
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument("facts"); ap.add_argument("name"); ap.add_argument("--prints", action="store_true")
    o = ap.parse_args()
    ctx = Ctx(o.facts)
    for f in ctx.j["functions"]:
        if re.search(o.name, f["q"]):
            print("==", f["q"], "%s:%d" % (f["file"], f["line"]), [a[0] for a in f["args"]])
            S = summarise(ctx, f, {"prints": o.prints})
            for k, txt, m, line, file in S.lines(): print("  %4d %s" % (line, txt))
