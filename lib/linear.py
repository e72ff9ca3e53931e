"""Implication between linear constraints over integers, by Fourier-Motzkin elimination (tightened by divisibility)."""
from math import gcd
from terms import unlin, arith, neg


def norm_le(c, d):
    """c + sum d <= 0 with coprime coefficients"""
    g = 0
    for v in d.values():
        g = gcd(g, abs(v))
    if g > 1:
        return -((-c) // g), {k: v // g for k, v in d.items()}     # ceil(c / g)
    return c, d


def infeasible(cs, limit=4000):
    """cs: list of (c, d) meaning c + sum d <= 0; True when no integer point is proved to exist (rationally)"""
    cs = [norm_le(c, {k: v for k, v in d.items() if v}) for c, d in cs]
    while True:
        if any(not d and c > 0 for c, d in cs):
            return True
        cs = [(c, d) for c, d in cs if d]
        if not cs:
            return False
        var = min({k for _, d in cs for k in d}, key=lambda k: sum(1 for _, d in cs if d.get(k, 0) > 0) * sum(1 for _, d in cs if d.get(k, 0) < 0))
        pos = [x for x in cs if x[1].get(var, 0) > 0]
        ne = [x for x in cs if x[1].get(var, 0) < 0]
        rest = [x for x in cs if not x[1].get(var, 0)]
        for c1, d1 in pos:
            for c2, d2 in ne:
                a, b = d1[var], -d2[var]
                d = {}
                for k, v in d1.items():
                    d[k] = d.get(k, 0) + b * v
                for k, v in d2.items():
                    d[k] = d.get(k, 0) + a * v
                rest.append(norm_le(b * c1 + a * c2, {k: v for k, v in d.items() if v}))
        if len(rest) > limit:
            return False
        cs = rest


def cases(t, val=True):
    """disjunctive normal form of a test: list of conjunctions of (c, d) <= 0 plus opaque literals"""
    if t[0] == "lit":
        return [([], [])] if bool(t[1]) == val else []
    if t[0] == "not":
        return cases(t[1], not val)
    if t[0] == "le0":
        x = t[1] if val else arith("Sub", ("lit", 1), t[1])
        return [([unlin(x)], [])]
    if t[0] == "eq0":
        c, d = unlin(t[1])
        m = (-c, {k: -v for k, v in d.items()})
        if val:
            return [([(c, d), m], [])]
        return [([(c + 1, d)], []), ([(1 - c, m[1])], [])]
    if t[0] == "and" and val or t[0] == "or" and not val:
        return [(a + c, b + d) for a, b in cases(t[1], val) for c, d in cases(t[2], val)]
    if t[0] == "and" or t[0] == "or":
        return cases(t[1], val) + [(a + c, b + d) for a, b in cases(t[1], not val) for c, d in cases(t[2], val)]
    if t[0] == "if":
        return [(a + c, b + d) for a, b in cases(t[1], True) for c, d in cases(t[2], val)] + \
               [(a + c, b + d) for a, b in cases(t[1], False) for c, d in cases(t[3], val)]
    return [([], [(t, val)])]


def paths(t, pre=None):
    """(constraints, opaque literals, leaf) of every way through an if-tree, infeasible ones left out"""
    pre = pre or ([], [])
    if t[0] == "if":
        for val, sub in ((True, t[2]), (False, t[3])):
            for a, b in cases(t[1], val):
                if any((x, not v) in b for x, v in pre[1]):
                    continue
                c = pre[0] + a
                if infeasible(c):
                    continue
                yield from paths(sub, (c, pre[1] + b))
        return
    yield pre[0], pre[1], t
