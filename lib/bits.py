"""K01: packed representations.  Values are followed bit by bit (each bit is a constant, a bit of an input, or unknown) through masks, shifts, casts and
tests; packing after unpacking has to put every bit of the input back where it was, and unpacking after packing every bit of the parts."""
import terms as T
from terms import INT, BITS

TOPB = None
WD = dict(BITS, u128=128, i128=128, bool=1, char=32)
N = 160


class Bad(Exception):
    pass


def const(v):
    return [(v >> i) & 1 for i in range(N)]


def leafbits(name, w, signed=False):
    return [("b", name, i) for i in range(w)] + [("b", name, w - 1) if signed else 0] * (N - w)


def band(x, y):
    if x == 0 or y == 0:
        return 0
    if x == 1:
        return y
    if y == 1:
        return x
    return x if x == y else TOPB


def bor(x, y):
    if x == 1 or y == 1:
        return 1
    if x == 0:
        return y
    if y == 0:
        return x
    return x if x == y else TOPB


def bxor(x, y):
    if x == 0:
        return y
    if y == 0:
        return x
    if x == y and x is not TOPB:
        return 0
    if x == 1:
        return bnot(y)
    if y == 1:
        return bnot(x)
    return TOPB


def bnot(x):
    if x in (0, 1):
        return 1 - x
    if x is TOPB:
        return TOPB
    return x[1] if x[0] == "not" else ("not", x)


def shl(b, k):
    return [0] * k + b[:N - k]


def shr(b, k):
    return b[k:] + [b[-1]] * k


def cast(b, ty):
    if ty not in WD:
        raise Bad("cast to " + ty)
    w = WD[ty]
    return b[:w] + [b[w - 1] if ty[0] == "i" else 0] * (N - w)


class Bits:
    def __init__(self, leaf):
        self.leaf = leaf

    def of(self, t):
        h = t[0]
        x = self.leaf(t)
        if x is not None:
            return x
        if h == "lit":
            return const(int(t[1]))
        if h == "cast":
            return cast(self.of(t[2]), t[1])
        if h == "bin" and t[1] in ("BitAnd", "BitOr", "BitXor"):
            f = {"BitAnd": band, "BitOr": bor, "BitXor": bxor}[t[1]]
            return [f(a, b) for a, b in zip(self.of(t[2]), self.of(t[3]))]
        if h == "bin" and t[1] in ("Shl", "Shr") and t[3][0] == "lit":
            return (shl if t[1] == "Shl" else shr)(self.of(t[2]), int(t[3][1]))
        if h == "bin" and t[1] == "Mul":
            for a, b in ((t[2], t[3]), (t[3], t[2])):
                if a[0] == "lit" and a[1] > 0 and a[1] & (a[1] - 1) == 0:
                    return shl(self.of(b), a[1].bit_length() - 1)
        if h == "bin" and t[1] == "Div" and t[3][0] == "lit" and t[3][1] > 0 and t[3][1] & (t[3][1] - 1) == 0:
            b = self.of(t[2])
            if b[-1] == 0:
                return shr(b, t[3][1].bit_length() - 1)
        if h == "bin" and t[1] == "Rem" and t[3][0] == "lit" and t[3][1] > 0 and t[3][1] & (t[3][1] - 1) == 0:
            b = self.of(t[2])
            if b[-1] == 0:
                k = t[3][1].bit_length() - 1
                return b[:k] + [0] * (N - k)
        if h == "lin":
            acc = const(t[1]) if t[1] >= 0 else None
            for x, c in t[2]:
                if acc is None or c <= 0 or c & (c - 1):
                    raise Bad("arithmetic on parts")
                b = shl(self.of(x), c.bit_length() - 1)
                k = next((i for i, (p, q) in enumerate(zip(acc, b)) if p != 0 and q != 0), N)
                # where parts overlap a carry may come out
                acc = [bor(p, q) for p, q in zip(acc[:k], b[:k])] + [TOPB] * (N - k)
            return acc
        if h == "if":
            c = self.cond(t[1])
            return [self.mux(c, a, b) for a, b in zip(self.of(t[2]), self.of(t[3]))]
        if h == "adt" and not t[3]:
            return const(int(t[2]))
        if h in ("not", "eq0", "le0", "and", "or", "cmp", "is"):
            return [self.cond(t)] + [0] * (N - 1)
        if h == "index" and t[1][0] == "array" and t[2][0] == "lit":
            return self.of(t[1][1 + t[2][1]])
        if h == "un" and t[1] == "Not":
            return [bnot(x) for x in self.of(t[2])]
        if h == "call" and t[1] == "bits" and len(t[2]) == 1:
            return self.of(t[2][0])
        raise Bad("cannot follow " + str(t)[:120])

    def mux(self, c, a, b):
        if a == b:
            return a
        if c in (0, 1):
            return a if c else b
        if (a, b) == (1, 0):
            return c
        if (a, b) == (0, 1):
            return bnot(c)
        if b == 0 and a == c or a == 0 and b == bnot(c):
            return a if b == 0 else b
        return TOPB

    def cond(self, t):
        if t[0] == "lit":
            return int(bool(t[1]))
        if t[0] == "not":
            return bnot(self.cond(t[1]))
        if t[0] == "eq0":
            c, d = T.unlin(t[1])
            if c == 0 and len(d) == 1:
                nz = {x for x in self.of(next(iter(d))) if x != 0}
                if len(nz) == 1 and TOPB not in nz:
                    return bnot(next(iter(nz)))
                if not nz:
                    return 1
            if len(d) == 1 and abs(next(iter(d.values()))) == 1:
                # x == k with all the other bits constant
                x, s = next(iter(d.items()))
                k = const(-c * s)
                df = [(a, b) for a, b in zip(self.of(x), k) if a != b]
                if any(a in (0, 1) for a, b in df):
                    return 0
                un = {(a, b) for a, b in zip(self.of(x), k) if a not in (0, 1)}
                if len(un) == 1 and next(iter(un))[0] is not TOPB:
                    a, b = next(iter(un))
                    return a if b else bnot(a)
            return TOPB
        if t[0] == "le0":
            c, d = T.unlin(t[1])
            if c == 1 and len(d) == 1 and next(iter(d.values())) == -1:       # 1 <= x
                b = self.of(next(iter(d)))
                if b[-1] == 0:
                    nz = {x for x in b if x != 0}
                    if len(nz) == 1:
                        return next(iter(nz))
            return TOPB
        if t[0] == "cmp" and t[1] == "Eq" and t[3][0] == "lit":
            return self.cond(("eq0", T.arith("Sub", t[2], t[3])))
        b = self.of(t)
        return b[0]


class Form:
    """normal form of a function together with what it takes from and hands to its stream"""

    def __init__(self, P, f, args=None):
        self.reads = []
        self.writes = []
        N_ = T.Norm(P, extra=self.extra, casts=False, deep=6)
        N_.loops = True
        N_.typed = True
        self.t = N_.fn(f, args)
        self.writes = self.out(self.t)

    def out(self, t):
        """what is written, in order; alternatives become conditional values"""
        if t[0] in ("seq", "try"):
            return ([(t[1][1], t[1][2])] if t[1][0] == "wr" else []) + self.out(t[2])
        if t[0] == "wr":
            return [(t[1], t[2])]
        if t[0] == "if":
            a, b = self.out(t[2]), self.out(t[3])
            if len(a) != len(b) or any(x[0] != y[0] for x, y in zip(a, b)):
                raise Bad("writes differ between branches")
            return [(x[0], T.mkif(t[1], x[1], y[1])) for x, y in zip(a, b)]
        return []

    def extra(self, N_, name, d, tgt, vs, e, fn):
        if name.startswith("read_") and name[5:] in WD and len(vs) == 1:
            self.reads.append(name[5:])
            return ("adt", "Result", 0, (("0", ("in", len(self.reads) - 1, name[5:])),))
        if name.startswith("write_") and name[6:] in WD and len(vs) == 2:
            return ("wr", name[6:], vs[1])
        if name == "bits" and len(vs) == 1:
            return ("call", "bits", tuple(vs))
        return None


def fld(P, ty):
    """type name of each field of a struct"""
    return {f["n"]: f["t"] for f in P.adts[ty]["v"][0]["f"]}


def fields_of(t):
    while t[0] == "adt" and t[1] == "Result" and t[2] == 0:
        t = dict(t[3])["0"]
    return dict(t[3]) if t[0] == "adt" else None


def find(P, ty, name, trait=None):
    r = [f for f in P.fns.values() if f.self_ty is not None and f.self_ty.peel().h.split("::")[-1] == ty and f.name == name and f.b is not None]
    return r


def same(got, want):
    """first place where two bit lists differ"""
    for i, (a, b) in enumerate(zip(got, want)):
        if a != b:
            return i, a, b
    return None


def shownb(x):
    if x in (0, 1):
        return str(x)
    if x is TOPB:
        return "unknown"
    if x[0] == "not":
        return "not " + shownb(x[1])
    return "bit %d of %s" % (x[2], x[1])


def stream_pair(P, rep, name, rd, wr, skip=()):
    """reading takes words apart, writing puts them together again"""
    rep.fns |= {rd.key, wr.key}
    try:
        R = Form(P, rd)
        fs = fields_of(R.t)
        if fs is None:
            raise Bad("reader gives %s" % str(R.t)[:100])

        def rleaf(t):
            if t[0] == "in":
                return leafbits("word %d" % t[1], WD[t[2]], t[2][0] == "i")
            return None
        RB = Bits(rleaf)
        parts = {}

        def wleaf(t):
            if t[0] == "f" and t[1] == ("p", 0):
                if t[2] not in parts:
                    parts[t[2]] = RB.of(fs[t[2]])
                return parts[t[2]]
            return None
        Wf = Form(P, wr)
        if len(Wf.writes) != len(R.reads):
            rep.bad("packed", name, "%d words are read and %d written" % (len(R.reads), len(Wf.writes)))
            return
        WB = Bits(wleaf)
        for i, ((ty, t), rt) in enumerate(zip(Wf.writes, R.reads)):
            w = WD[ty]
            d = same(cast(WB.of(t), ty)[:w], leafbits("word %d" % i, WD[rt])[:w])
            if d is None and w == WD[rt]:
                rep.ok("packed", w)
            elif d is None:
                rep.bad("packed", name, "word %d is read as %s and written as %s" % (i, rt, ty))
            else:
                rep.bad("packed", "%s word %d" % (name, i), "bit %d of word %d is written back as %s" % (d[0], i, shownb(d[1])))
    except (T.Unk, Bad, KeyError) as e:
        rep.unsure("packed", name, str(e))


def split_pair(P, rep, name, unpack, pack, inty, self_arg=True):
    """unpack: integers -> struct; pack: struct -> integers.  pack(unpack(x)) = x"""
    rep.fns |= {unpack.key, pack.key}
    try:
        U = Form(P, unpack)

        def rleaf(t):
            if t[0] == "p":
                return leafbits("input %d" % t[1], WD[inty], inty[0] == "i")
            if t[0] == "f" and t[1] == ("p", 0) and t[2].isdigit():
                return leafbits("input %s" % t[2], WD[inty], inty[0] == "i")
            return None
        RB = Bits(rleaf)
        V = Form(P, pack, [U.t])
        outs = V.t[1:] if V.t[0] == "tuple" else (V.t,)
        for i, t in enumerate(outs):
            w = WD[inty]
            d = same(cast(RB.of(t), inty)[:w], leafbits("input %d" % i, w)[:w])
            if d is None:
                rep.ok("packed", w)
            else:
                rep.bad("packed", "%s part %d" % (name, i), "bit %d of part %d comes back as %s" % (d[0], i, shownb(d[1])))
    except (T.Unk, Bad, KeyError) as e:
        rep.unsure("packed", name, str(e))


def check(P, rep):
    def one(ty, name, pred=lambda f: True):
        r = [f for f in find(P, ty, name) if pred(f)]
        if len(r) != 1:
            rep.bad("anchor", "%s::%s" % (ty, name), "not found" if not r else "ambiguous: %s" % [f.key for f in r])
            return None
        return r[0]
    fr, fw = one("UnversionedHeaderFragment", "read"), one("UnversionedHeaderFragment", "write")
    if fr and fw:
        stream_pair(P, rep, "unversioned header fragment", fr, fw)
    sr, sw = one("SerializedNameHeader", "read"), one("SerializedNameHeader", "write")
    if sr and sw:
        stream_pair(P, rep, "serialized name header", sr, sw)
    cu, cp = one("Color", "from_argb"), one("Color", "to_argb")
    if cu and cp:
        split_pair(P, rep, "argb color", cu, cp, "i32")
    for ity in ("u128", "(u32, u32, u32, u32)"):
        a = [f for f in P.fns.values() if f.name == "from" and f.out.h.split("::")[-1] == "Guid" and f.ins and f.ins[0].s.replace(" ", "") == ity.replace(" ", "") and f.b]
        b = [f for f in P.fns.values() if f.name == "from" and f.out.s.replace(" ", "") == ity.replace(" ", "") and f.ins and f.ins[0].peel().h.split("::")[-1] == "Guid" and f.b]
        if len(a) != 1 or len(b) != 1:
            rep.bad("anchor", "Guid from %s" % ity, "conversions not found")
            continue
        split_pair(P, rep, "guid of %s" % ity, a[0], b[0], "u128" if ity == "u128" else "u32")
