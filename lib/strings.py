"""S01: a text that is written reads back as that text.

The writer of a string is walked on a symbolic text, once per representation it distinguishes; the layout it leaves, with
the number of code units fixed, is what the reader is walked over.  The reader has to come to the end of the layout and to
return the same text, absent for absent and empty for empty."""
from interp import *
from wire import *
from pak import call, good, sessions, show, Unmodelled, layout, misread
from lengths import TooMany

S = ("s",)
LONG = 131071


def tail(t):
    return t.peel().h.rsplit("::", 1)[-1]


def value(x, env):
    """the number a linear term has for this text"""
    r = x.k
    for k, c in x.t.items():
        if k not in env:
            raise Unmodelled("length %s" % (k,))
        r += c * env[k]
    return r


def rounds(I):
    """how many code units the path writes one by one"""
    for k, v in I.assume.items():
        if k[0] == "iters" and any(p[:1] == S for p, o in k[1]):
            return v
    return None


class Text:
    """the bytes left by a writer, for a text of n code units"""

    def __init__(self, I, n, wide):
        self.n, self.wide, self.at, self.missed = n, wide, {}, []
        env = {("len", S): n if not wide else n + 1, ("len", S + ("utf16",)): n}
        pos = nth = 0
        for at, label, v, nb, ev in layout(I):
            at = value(at, env)
            if at != pos:
                raise Unmodelled("a write at %s after %s" % (at, pos))
            size = value(nb, env)
            if label == "bytes*" or label.startswith("bytes") and isinstance(v, Sy):
                if v == Sy(S + ("utf16", "bytes")) or v == Sy(S + ("utf16",)):
                    xs = [Sy(("unit%d" % (i // 2), "hi" if i % 2 else "lo")) for i in range(size)] if n < 100 else None
                    w = True
                elif v == Sy(S):
                    xs = [Sy(("byte%d" % i,)) for i in range(size)] if n < 100 else None
                    w = False
                else:
                    raise Unmodelled("%s is written" % show(v))
                if w != wide:
                    raise Unmodelled("representation")
            else:
                if isinstance(v, Ln):
                    v = C(value(v, env))
                if isinstance(v, Sy) and v == Sy(elemof(S + ("utf16",))) and label in ("w2le", "w2be") and rounds(I) == n:
                    # written unit by unit
                    xs = [Sy(("unit%d" % nth, h)) for h in (("lo", "hi") if label == "w2le" else ("hi", "lo"))]
                    nth += 1
                    for i, x in enumerate(xs):
                        self.at[pos + i] = (1, x)
                    pos += size
                    continue
                if not isinstance(v, C):
                    raise Unmodelled("%s is written" % show(v))
                xs = [C(b) for b in (v.v & (1 << 8 * size) - 1).to_bytes(size, "little" if not label.endswith("be") else "big")]
            if xs is None:
                self.at[pos] = (size, None)
            else:
                for i, x in enumerate(xs):
                    self.at[pos + i] = (1, x)
            pos += size
        self.end = pos

    def content(self, I, label, pos, nb):
        if pos.t or nb is None or nb.t:
            self.missed.append("reads %s bytes at %s" % (nb, pos))
            return None
        p, n = pos.k, nb.k
        if p in self.at and self.at[p] == (n, None):
            return Sy(S), nb
        xs = []
        for i in range(n):
            if p + i not in self.at or self.at[p + i][1] is None:
                self.missed.append("reads %d bytes at %d of %d" % (n, p, self.end))
                return None
            xs.append(self.at[p + i][1])
        if label.startswith("bytes"):
            return Li(None, (), xs), nb
        if n == 1:
            return xs[0], nb
        if all(isinstance(x, C) for x in xs):
            v = int.from_bytes(bytes(x.v for x in xs), "big" if label.endswith("be") else "little")
            if v >> 31 and n == 4:
                v -= 1 << 32
            return C(v), nb
        if n == 2 and not label.endswith("be") and [x.p for x in xs] == [(xs[0].p[0], "lo"), (xs[0].p[0], "hi")]:
            return Sy((xs[0].p[0],)), nb
        self.missed.append("reads %s of %s" % (label, show(xs)))
        return None


def compose(op, *a):
    """a code unit put together from its bytes"""
    if op in ("from_le_bytes", "from_be_bytes") and len(a) == 2 and all(isinstance(x, Sy) for x in a):
        lo, hi = a if op == "from_le_bytes" else a[::-1]
        if not lo.ops and not hi.ops and lo.p[1:] == ("lo",) and hi.p[1:] == ("hi",) and lo.p[0] == hi.p[0]:
            return Sy(lo.p[:1])
        return Sy(("mixed",) + tuple(map(str, a)))
    if op in ("BitOr", "Add", "BitXor") and all(isinstance(x, Sy) for x in a):
        for lo, hi in (a, a[::-1]):
            if not lo.ops and lo.p[1:] == ("lo",) and hi.p == (lo.p[0], "hi") and hi.ops == (("Shl", 8),):
                return Sy(lo.p[:1])
    return None


def same(I, v, T):
    """True, False, or None: not a value this rule knows"""
    v = I.deref(v)
    if T.n > 100:
        return v == Sy(S) if isinstance(v, Sy) else None
    if v == Sy(S):
        return True
    if isinstance(v, C) and isinstance(v.v, str):
        return v.v == "" and T.n == 0
    if isinstance(v, Li) and v.items is None and v.e is None:
        return T.n == 0
    if not isinstance(v, Li) or v.items is None:
        return None
    xs = [I.deref(x) for x in v.items]
    if not T.wide:
        return xs == [Sy(("byte%d" % i,)) for i in range(T.n)]
    if all(isinstance(x, Sy) for x in xs):
        return xs == [Sy(("unit%d" % i,)) for i in range(T.n)]
    return None


def check(P, rep, W):
    try:
        return run(P, rep, W)
    except (Unmodelled, TooMany, StopIteration) as e:
        rep.unsure("text", "text", "not modelled: %r" % (e,))
    except (Limit, RecursionError, KeyError, AttributeError, TypeError, IndexError, ValueError, AssertionError) as ex:
        rep.unsure("text", "text", "analysis gave up: %r" % (ex,))


def run(P, rep, W):
    n = 0
    w = [f for f in P.fns.values() if f.name == "write_fstring" and f.b is not None and f.key.startswith("unreal_helpers::")]
    r = [f for f in P.fns.values() if f.name == "read_fstring" and f.b is not None and f.key.startswith("unreal_helpers::")]
    if len(w) != 1 or len(r) != 1:
        raise Unmodelled("string extension")
    w, r = w[0], r[0]
    none = Ad(OPT, {0: {}})
    some = Ad(OPT, {1: {"0": Sy(S)}})
    n += pair(W, rep, "string", lambda I, fr, v: call(I, fr, w, Ar("main"), v), lambda J, fr: call(J, fr, r, Ar("main")), w, r, [("absent", none), ("text", some)], lambda J, g: g, True)
    for T in ("ExStringConst", "ExUnicodeStringConst"):
        k = [k for k in P.adts if k.endswith("::" + T)]
        js = [(rf, wf, wi) for t, rf, wf, wi, fx in W.pairs if t.endswith("::" + T)]
        if len(k) != 1 or not js:
            raise Unmodelled(T)
        rf, wf, wi = js[0]
        fld = [f["n"] for f in P.adts[k[0]]["v"][0]["f"] if tail(f["t"]) == "String"]
        if len(fld) != 1:
            raise Unmodelled(T)
        ob = Ad(k[0], {0: {f["n"]: Sy(S) if f["n"] == fld[0] else Sy((f["n"],)) for f in P.adts[k[0]]["v"][0]["f"]}})

        def put(I, fr, v, wf=wf, wi=wi):
            a = [Ar("main")] * len(wf.ins)
            a[wi] = v
            return call(I, fr, wf, *a)
        n += pair(W, rep, T, put, lambda J, fr, rf=rf: call(J, fr, rf, Ar("main")), wf, rf, [("text", ob)],
                  lambda J, g, fld=fld: J.deref(g).alts[0][fld[0]] if isinstance(J.deref(g), Ad) and len(J.deref(g).alts) == 1 else TOP, False)
    rep.cov["texts"] = n
    rep.floor("text", n, 12, "texts written and read back")


def is_wide(I):
    return any(isinstance(v, Sy) and v.p[:2] == S + ("utf16",) for at, label, v, nb, ev in layout(I)) or \
        any(k[0] == "iters" and any(p == S + ("utf16",) for p, o in k[1]) for k in I.assume)


def pair(W, rep, what, put, get, wf, rf, args, pick, long):
    n = 0
    for name, v in args:
        for I, r in sessions(W, "w", {}, lambda I, fr: put(I, fr, v), wf, dead=True, rounds=3):
            rep.fns |= set(I.seen)
            if I.dead() or good(r) is None:
                rep.bad("text", what + " refused", "%s (%s): %s %s is refused" % (wf.key, wf.file, what, name))
                continue
            wide = is_wide(I)
            for k in ((0,) if name == "absent" else (0, 1, 2, 3) + ((LONG,) if long and not wide else ())):
                if wide and k == 0 and long or rounds(I) is not None and rounds(I) != k:
                    continue
                T = Text(I, k, wide)
                d = "%s of %d %s" % (what, k, "code units that is not ASCII" if wide else "bytes") if name != "absent" else what + " that is absent"
                for J, r2 in sessions(W, "r", {}, get, rf, content=T.content, rounds=5, dead=True, compose=compose):
                    rep.fns |= set(J.seen)
                    if infeasible(J):
                        continue
                    n += 1
                    m = "; it %s" % T.missed[0] if T.missed else ""
                    g = good(r2) if not J.dead() else None
                    if g is None:
                        rep.bad("text", "%s not read" % what, "%s (%s): %s is refused as it was written by %s%s" % (rf.key, rf.file, d, wf.key, m))
                        continue
                    g = J.deref(pick(J, g))
                    if J.st.bytes.t or J.st.bytes.k != T.end:
                        rep.bad("text", "%s size" % what, "%s (%s): %s takes %d bytes, %s are read%s" % (rf.key, rf.file, d, T.end, J.st.bytes, m))
                        continue
                    if isinstance(g, Ad) and g.k == OPT:
                        if set(g.alts) != {0 if name == "absent" else 1}:
                            rep.bad("text", "%s presence" % what, "%s (%s): %s reads back as %s" % (rf.key, rf.file, d, show(g)))
                            continue
                        if name == "absent":
                            rep.ok("text")
                            continue
                        g = g.alts[1]["0"]
                    ok = same(J, g, T)
                    if ok is None:
                        raise Unmodelled("%s reads back as %s" % (d, show(J.deepval(g))))
                    if not ok:
                        rep.bad("text", "%s content" % what, "%s (%s): %s reads back as %s%s" % (rf.key, rf.file, d, show(J.deepval(g)), m))
                        continue
                    rep.ok("text")
    return n


def infeasible(J):
    """a code unit of a text is not zero"""
    z = set()
    for k, v in J.assume.items():
        if k[0] == "Eq" and k[2] == () and k[3] == 0 and v is True:
            if k[1][0].startswith("byte") or k[1][0].startswith("unit") and len(k[1]) == 1:
                return True
            z.add(k[1])
    return any(x[1:] == ("lo",) and (x[0], "hi") in z for x in z)


def S01(P, rep):
    import lint
    check(P, rep, World(P))
    lint.check(P, rep, ["unreal_helpers::"])
