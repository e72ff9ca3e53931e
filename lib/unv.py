"""W07: the header of unversioned properties (fragments and zero mask).

The layout depends on sums over the fragments, so it is not one sequence of events.  The reader is walked over fragments
that are given and mask bytes that are symbols; it has to take the number of mask bytes the format prescribes (one, two,
or whole 32-bit words; none without zeroed properties), and the writer has to leave the same words and bytes."""
from interp import *
from wire import *
from pak import call, good, sessions, show, Unmodelled
from lengths import TooMany

# (skip, has zeros, count) of each fragment
CASES = [[(0, 0, 1)], [(3, 1, 0)], [(0, 1, 1)], [(0, 1, 8)], [(1, 1, 9)], [(0, 1, 16)], [(2, 1, 17)], [(0, 1, 32)], [(0, 1, 33)], [(0, 1, 64)],
         [(0, 1, 65)], [(0, 1, 97)], [(1, 0, 9), (2, 1, 8)], [(1, 1, 8), (2, 1, 1)], [(1, 1, 8), (2, 0, 40)], [(0, 0, 0), (5, 0, 3)],
         [(0, 1, 30), (1, 1, 30), (2, 1, 40)], [(0, 1, 10), (1, 0, 30), (2, 1, 6)], [(0, 1, 10), (1, 0, 30), (2, 1, 7)], [(7, 0, 2), (0, 0, 1), (1, 0, 4)]]


def mask_size(bits):
    return 0 if bits == 0 else 1 if bits <= 8 else 2 if bits <= 16 else (bits + 31) // 32 * 4


def tail(t):
    return t.peel().h.rsplit("::", 1)[-1]


def check(P, rep, W):
    try:
        return run(P, rep, W)
    except (Unmodelled, TooMany, StopIteration) as e:
        rep.unsure("unversioned header", "header", "not modelled: %r" % (e,))
    except (Limit, RecursionError, KeyError, AttributeError, TypeError, IndexError, ValueError, AssertionError) as ex:
        rep.unsure("unversioned header", "header", "analysis gave up: %r" % (ex,))


def run(P, rep, W):
    fns = [f for f in P.fns.values() if f.b is not None and f.self_ty is not None and tail(f.self_ty) == "UnversionedHeader" and f.impl_trait is None]
    rd = [f for f in fns if len(f.ins) == 1 and "UnversionedHeader" in f.out.s and "Result" in f.out.s and P.is_arc(f.ins[0], f)]
    wr = [f for f in fns if len(f.ins) == 2 and tail(f.ins[0]) == "UnversionedHeader" and P.is_arc(f.ins[1], f) and "()" in f.out.s]
    if len(rd) != 1 or len(wr) != 1:
        raise Unmodelled("reader and writer of the header")
    rd, wr = rd[0], wr[0]
    n = 0
    for case in CASES:
        n += one(W, rep, rd, wr, case)
    rep.cov["unversioned_headers"] = n
    rep.floor("unversioned header", n, len(CASES), "headers read and written")


def walk(W, side, root, script, **kw):
    """all paths with unversioned properties on"""
    out, work = [], [{"has_unversioned_properties": (1, 1)}]
    while work:
        cfg = work.pop()
        try:
            out += [(I, r) for I, r in sessions(W, side, cfg, script, root, **kw)]
        except Split as s:
            parts = split_cfg(dict(W.ranges, **cfg), W, s.var, s.cuts)
            if len(parts) == 1:
                raise
            work.extend(parts)
    return out


def one(W, rep, rd, wr, case):
    words = [s | z << 7 | (i == len(case) - 1) << 8 | n << 9 for i, (s, z, n) in enumerate(case)]
    bits = sum(n for s, z, n in case if z)
    size = mask_size(bits)
    name = "fragments %s" % (", ".join("skip %d, %d values%s" % (s, n, " with zeros" if z else "") for s, z, n in case))
    n = 0

    def bad(f, key, d):
        rep.bad("unversioned header", key, "%s (%s): %s: %s" % (f.key, f.file, name, d))

    def content(I, label, pos, nb):
        if pos.t or nb is None or nb.t:
            raise Unmodelled("position %s" % pos)
        if label == "w2le" and pos.k % 2 == 0 and pos.k // 2 < len(words):
            return C(words[pos.k // 2]), nb
        return Sy(("mask", str(pos.k - 2 * len(words)), str(nb.k))), nb

    for I, r in walk(W, "r", rd, lambda I, fr: call(I, fr, rd, Ar("main")), content=content, rounds=140, dead=True):
        g = good(r) if not I.dead() else None
        v = I.deepval(g) if g is not None else None
        if isinstance(v, Ad) and v.k == OPT and set(v.alts) == {0}:
            if I.st.bytes.k or I.st.bytes.t:
                bad(rd, "absent", "%s bytes are read and no header is returned" % I.st.bytes)
            continue
        n += 1
        if g is None:
            bad(rd, "refused", "refused")
            continue
        if I.st.bytes.t or I.st.bytes.k != 2 * len(words) + size:
            bad(rd, "mask size", "%s bytes are read where the header has %d" % (I.st.bytes, 2 * len(words) + size))
            continue
        h = v.alts[1]["0"] if isinstance(v, Ad) and v.k == OPT and set(v.alts) == {1} else v
        if not isinstance(h, Ad) or len(h.alts) != 1:
            raise Unmodelled("header is %s" % show(h))
        fs = h.alts[0]
        frags = I.deref(fs.get("fragments", TOP))
        if not isinstance(frags, Li) or frags.items is None:
            raise Unmodelled("fragments are %s" % show(frags))
        first, want = 0, []
        for i, (sk, z, c) in enumerate(case):
            want.append({"skip_num": sk, "value_num": c, "first_num": first + sk, "is_last": i == len(case) - 1, "has_zeros": bool(z)})
            first += sk + c
        have = [x.alts[0] if isinstance(x, Ad) and len(x.alts) == 1 else {} for x in map(I.deref, frags.items)]
        for i, (x, y) in enumerate(zip(have, want)):
            for k, c in y.items():
                z = I.deref(x.get(k, TOP))
                if isinstance(z, C) and z.v == c:
                    continue
                if not isinstance(z, C):
                    raise Unmodelled("%s of a fragment is %s" % (k, show(z)))
                bad(rd, k, "%s of fragment %d is %s, the format says %s" % (k, i, show(z), c))
        if len(have) != len(want):
            bad(rd, "fragments", "%d fragments for %d" % (len(have), len(want)))
        x = I.deref(fs.get("unversioned_property_index", TOP))
        if x != C(case[0][0]):
            bad(rd, "first property", "the first property is %s, the format says %d" % (show(x), case[0][0]))
        for J, r2 in walk(W, "w", wr, lambda J, fr: call(J, fr, wr, h, Ar("main")), rounds=140, dead=True):
            if J.dead() or good(r2) is None:
                bad(wr, "refused on write", "a header that was read is refused on write")
                continue
            n += 1
            at, out = 0, []
            for ev, pos, nb, patch in J.trace:
                if pos.t or pos.k != at or nb is None or nb.t or patch:
                    raise Unmodelled("writes at %s" % pos)
                at += nb.k
                x = J.deepval(ev.val)
                if isinstance(x, Li) and x.items is not None:
                    out += [J.deref(y) for y in x.items]
                else:
                    out.append(x)
            if out[:len(words)] != [C(w) for w in words]:
                bad(wr, "fragments on write", "fragments %s are written as %s" % (words, show(out[:len(words)])))
                continue
            k = 0
            for x in out[len(words):]:
                if not isinstance(x, Sy) or x.p[0] != "mask":
                    raise Unmodelled("mask is written as %s" % show(x))
                if x.p[1] != str(k):
                    bad(wr, "mask order", "byte %d of the mask is written from byte %s" % (k, x.p[1]))
                k += int(x.p[2])
            if k != size or at != 2 * len(words) + size:
                bad(wr, "mask on write", "%d bytes of zero mask are written where %d were read" % (at - 2 * len(words), size))
    if n:
        rep.ok("unversioned header")
    return n
