"""Comparison of two sets of function summaries: effects that are missing, new or changed."""
from collections import Counter

def fnkey(q): return q

def pair(base, cur):
    """base, cur: lists of entries of the same name; pairs overloads"""
    res, left = [], list(cur)
    todo = []
    for b in base:
        m = next((c for c in left if c.get("m") and c.get("m") == b.get("m")), None)
        if m is not None: left.remove(m); res.append((b, m))
        else: todo.append(b)
    rest, todo = todo, []
    for b in rest:
        m = next((c for c in left if c["d"] == b["d"]), None)
        if m is not None: left.remove(m); res.append((b, m))
        else: todo.append(b)
    for b in todo:
        if not left: res.append((b, None)); continue
        B = Counter(l[1] for l in b["lines"])
        best = max(left, key=lambda c: sum((B & Counter(l[1] for l in c["lines"] or ())).values()))
        left.remove(best); res.append((b, best))
    return res

def diff(b, c):
    """[(kind, text, line, file)] of effects in b (expected) but not c (found), and the reverse; primary differences first"""
    B, C = Counter(l[1] for l in b["lines"]), Counter(l[1] for l in c["lines"])
    miss, new = B - C, C - B
    if not miss and not new: return [], 0
    mB, mC = Counter(l[2] for l in b["lines"]), Counter(l[2] for l in c["lines"])
    pm, pn = mB - mC, mC - mB
    out = []
    for L, cnt, prim, kind in ((c["lines"], new, pn, "found"), (b["lines"], miss, pm, "expected")):
        cnt = Counter(cnt); prim = Counter(prim)
        for l in L:
            if cnt[l[1]] > 0:
                cnt[l[1]] -= 1
                p = prim[l[2]] > 0
                if p: prim[l[2]] -= 1
                out.append((not p, l[0] == "ord", kind, l[1], l[3], l[4]))
    out.sort(key=lambda x: (x[0], x[1]))
    return out, len(out)
