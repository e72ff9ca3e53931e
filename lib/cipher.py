"""E01: encrypting and decrypting are inverse.

The public functions of the AC7 module are interpreted one after the other on files whose bytes are symbols, with a key whose position in the key table is a symbol as
well; exclusive or is kept in normal form (a set of atoms and a constant), so that a byte that comes back is recognised by cancellation.  Lengths are small and fixed, the
position is arbitrary, so every way of wrapping around is walked."""
from interp import *
from wire import *
from pak import call, sessions, show, Unmodelled
from lengths import TooMany
from linear import infeasible

MOD = "unreal_asset::ac7::"


class Odd(Exception):
    pass


def xor(op, a, b):
    if op != "BitXor":
        return None
    x, y = form(a), form(b)
    if x is None or y is None or not x[0] and not y[0]:
        return None
    return make(x[0] ^ y[0], x[1] ^ y[1])


def make(atoms, k):
    if not atoms:
        return C(k)
    if len(atoms) == 1 and not k:
        return Sy(next(iter(atoms)))
    return Sy(("xor", tuple(sorted(atoms, key=repr)), k))


def form(v):
    if isinstance(v, C) and isinstance(v.v, int) and not isinstance(v.v, bool):
        return frozenset(), v.v
    if isinstance(v, Sy):
        if any(not (isinstance(o, tuple) and o[0] in ("trunc", "ext", "cast")) for o in v.ops):
            return None
        if v.p[:1] == ("xor",):
            return frozenset(v.p[1]), v.p[2]
        if v.p[:1] in (("byte",), ("table",)):
            return frozenset([v.p]), 0
    return None


class Cipher:
    def __init__(self, W):
        self.W, P = W, W.P
        self.f = {f.name: f for k, f in P.fns.items() if k.startswith(MOD) and f.b is not None and f.self_ty is None}
        ks = [k for k in P.adts if k.startswith(MOD)]
        self.keyt = [k for k in ks if k.endswith("::AC7XorKey")]
        if len(self.keyt) != 1:
            raise Unmodelled("AC7XorKey")
        self.kf = [(x["n"], x["t"].h) for x in P.adts[self.keyt[0]]["v"][0]["f"]]
        self.hooks = {f.key: self.own for k, f in P.fns.items() if k.startswith(MOD) and f.b is not None and f.name not in ("fmt", "eq", "hash")}
        self.bad = None
        self.size = None
        for k, (x, c) in P.consts.items():
            if k.startswith(MOD):
                st = [x.get("b")]
                while st:
                    y = st.pop()
                    if isinstance(y, dict):
                        if isinstance(y.get("bytes"), str) and len(y["bytes"]) > 200:
                            self.size = y["bytes"].count(",") + 1
                        st.extend(y.values())
                    elif isinstance(y, (list, tuple)):
                        st.extend(y)

    def own(self, I, a, fr, fn):
        if fn.name == "clone":
            return I.deref(a[0])
        return I.inline(fn, a, [], fr, None, None)

    def key(self, I):
        """a key anywhere in its range"""
        fs = {}
        for n, t in self.kf:
            fs[n] = Ln(0, {(("key", n), ()): 1})
        for n, hi in self.range.items():
            self.fact(I, fs[n])
            self.fact(I, lin_add(Ln(hi, {}), fs[n], -1))
        return Ad(self.keyt[0], {0: fs})

    def fact(self, I, d):
        f, s = I.form(d)
        lo, hi, ne = I.facts.get(f, (None, None, frozenset()))
        k = -d.k * s
        if s > 0:
            lo = k if lo is None else max(lo, k)
        else:
            hi = k if hi is None else min(hi, k)
        I.facts = {**I.facts, f: (lo, hi, ne)}

    def system(self, I):
        cs = []
        for f, (lo, hi, ne) in I.facts.items():
            e = dict(f)
            if lo is not None:
                cs.append((lo, {k: -v for k, v in e.items()}))
            if hi is not None:
                cs.append((-hi, e))
        return cs

    def implied(self, I, d):
        return infeasible(self.system(I) + [(d.k + 1, dict(d.t))])

    def index(self, I, b, i):
        v = I.deref(b)
        if isinstance(v, C) and not isinstance(v.v, (int, bool)) and len(str(v.v)) > 1000:
            j = I.aslin(i)
            if j is None:
                raise Odd("place in the key table %s" % show(i)[:40])
            if not self.implied(I, j) or not self.implied(I, lin_add(Ln(self.size - 1, {}), j, -1)):
                if not infeasible(self.system(I)):
                    self.bad = self.bad or "a place outside of the key table is used"
            return Sy(("table", tuple(sorted(j.t.items(), key=repr)), j.k))
        return None

    def std(self, I, d, args, fr, targs):
        n = d["n"]
        if n in ("clone", "copy", "to_owned") and len(args) == 1 and isinstance(I.deref(args[0]), Ad) and I.deref(args[0]).k == self.keyt[0]:
            return I.deref(args[0])
        if n in ("index", "get") and args:
            r = self.index(I, args[0], I.deref(args[1])) if len(args) == 2 else None
            if r is not None:
                return r
        if n in ("to_le_bytes", "to_be_bytes", "to_ne_bytes") and len(args) == 1:
            v = I.deref(args[0])
            w = 4
            if isinstance(v, C) and isinstance(v.v, int):
                return Li(None, (), [C(x) for x in (v.v % (1 << 8 * w)).to_bytes(w, "big" if n == "to_be_bytes" else "little")])
        if n in ("index", "index_mut") and len(args) == 2:
            r = self.range_of(I, args[1], args[0])
            if r is not None:
                t = self.target(I, args[0])
                self.subs.append((t, r[0], r[1]))
                if n == "index_mut":
                    return Sy(("part", len(self.subs) - 1))
                return Rf(I.cell(Li(None, (), list(I.load(t.c, t.p).items[r[0]:r[1]]))))
        if n in ("copy_from_slice", "clone_from_slice") and len(args) == 2:
            a, b = I.deepval(args[0]), I.deepval(args[1])
            if isinstance(a, Sy) and a.p[:1] == ("part",) and isinstance(b, Li) and b.items is not None:
                t, lo, hi = self.subs[a.p[1]]
                it = list(I.load(t.c, t.p).items)
                if len(b.items) != hi - lo:
                    I.kill()
                    return TOP
                I.assign(t.c, t.p, Li(None, (), it[:lo] + list(b.items) + it[hi:]))
                return UNIT
        return NotImplemented

    def target(self, I, v):
        while isinstance(v, Rf) and isinstance(I.load(v.c, v.p), Rf):
            v = I.load(v.c, v.p)
        return v

    def range_of(self, I, v, base):
        v = I.deref(v)
        t = self.target(I, base)
        if not isinstance(t, Rf):
            return None
        l = I.load(t.c, t.p)
        if not (isinstance(v, Ad) and len(v.alts) == 1 and isinstance(l, Li) and l.items is not None):
            return None
        f = {k: I.aslin(I.deref(x)) for k, x in v.alts[0].items()}
        if any(x is None or x.t for x in f.values()):
            return None
        k = v.k.rsplit("::", 1)[-1]
        lo = f["start"].k if "start" in f else 0
        hi = f["end"].k if "end" in f else len(l.items)
        if k.startswith("RangeInclusive") or k.startswith("RangeToInclusive"):
            return None
        return (lo, hi) if 0 <= lo <= hi <= len(l.items) else None

    def paths(self, script, root):
        for I, r in sessions(self.W, "w", {}, script, root, dead=True, errs=True, facts=True, symlin=True, stdfx=self.std, hooks=self.hooks, vertypes={}, statics={}, rounds=12,
                             index=self.index, bitop=xor):
            if not infeasible(self.system(I)):
                yield I, r

    def bytes(self, I, v):
        v = I.deepval(v)
        if isinstance(v, Li) and v.items is not None:
            out = []
            for x in v.items:
                w = form(I.deepval(x))
                if w is None:
                    raise Odd("a byte that is %s" % show(I.deepval(x))[:60])
                out.append(w)
            return out
        raise Odd("a file that is %s" % show(v)[:60])


def data(name, n, head=()):
    return Li(None, (), [C(x) for x in head] + [Sy(("byte", name, str(i))) for i in range(n)])


def want(name, n, head=()):
    return [(frozenset(), x) for x in head] + [(frozenset([("byte", name, str(i))]), 0) for i in range(n)]


UE = (0xC1, 0x83, 0x2A, 0x9E)
AC = (0x41, 0x43, 0x45, 0x37)


def check(P, rep):
    W = World(P)
    try:
        c = Cipher(W)
    except Unmodelled as e:
        rep.bad("cipher", "module", "the AC7 module has lost its key type: %s" % e)
        return
    if c.size is None:
        rep.unsure("cipher", "table", "the key table is not a constant")
        rep.floor("cipher", 0, 1, "key tables")
        return
    pos = [n for n, t in c.kf if n in ("pk1", "pk2")]
    c.range = {"pk1": c.size // 1024 - 1, "pk2": 1023} if len(pos) == 2 else {}
    n = 0
    for a in (0, 1, 2):
        for b in (0, 1, 2):
            for first, second, h1, h2 in (("encrypt", "decrypt", UE, AC), ("decrypt", "encrypt", AC, UE)):
                try:
                    n += there_and_back(c, rep, first, second, h1, h2, a, b)
                except Odd as e:
                    rep.unsure("cipher", "%s then %s" % (first, second), "not modelled: %s" % e)
                except (Unmodelled, TooMany, StopIteration) as e:
                    rep.unsure("cipher", "%s then %s" % (first, second), "not modelled: %r" % (e,))
                except (Limit, RecursionError, KeyError, AttributeError, TypeError, IndexError, ValueError, AssertionError) as ex:
                    rep.unsure("cipher", "%s then %s" % (first, second), "analysis gave up: %r" % (ex,))
    rep.cov["paths"] = n


def there_and_back(c, rep, first, second, h1, h2, a, b):
    for x in (first, second):
        if x not in c.f:
            rep.bad("cipher", x, "%s is gone" % x)
            return 0
    mid = []

    def script(I, fr):
        c.bad, c.subs = None, []
        mid.clear()
        r = I.deref(call(I, fr, c.f[first], Rf(I.cell(data("asset", a, h1))), Rf(I.cell(data("exports", b))), c.key(I)))
        if I.dead():
            return r
        mid.extend((r.alts[0]["0"], r.alts[0]["1"]))
        return call(I, fr, c.f[second], Rf(I.cell(I.deref(mid[0]))), Rf(I.cell(I.deref(mid[1]))), c.key(I))
    n = 0
    what = "%s then %s" % (first, second)
    for I, r in c.paths(script, c.f[first]):
        rep.fns |= {x for x in I.seen if x.startswith(MOD)}
        if c.bad:
            rep.bad("cipher", "%s: %s" % (what, c.bad), "%s: %s" % (what, c.bad))
            continue
        if I.dead():
            rep.bad("cipher", what + ": fails", "%s can panic" % what)
            continue
        n += 1
        m0, m1 = c.bytes(I, mid[0]), c.bytes(I, mid[1])
        head = m0[:4]
        if head != [(frozenset(), x) for x in h2]:
            rep.bad("cipher", first + ": magic", "what %s gives does not begin with the magic of such a file" % first)
            continue
        plain = [x for x in m0[4:] + m1 if not any(t[0] == "table" for t in x[0])]
        if plain:
            rep.bad("cipher", first + ": plain", "a byte is not changed by the key table in %s" % first)
            continue
        r = I.deref(r)
        g0, g1 = c.bytes(I, r.alts[0]["0"]), c.bytes(I, r.alts[0]["1"])
        if g0 != want("asset", a, h1):
            rep.bad("cipher", what + ": asset", "%s does not give back the uasset file: %s" % (what, describe(g0, want("asset", a, h1))))
        elif g1 != want("exports", b):
            rep.bad("cipher", what + ": exports", "%s does not give back the uexp file: %s" % (what, describe(g1, want("exports", b))))
        else:
            rep.ok("cipher")
    rep.floor("cipher", n, 1, "paths of %s" % what)
    return n


def describe(g, w):
    if len(g) != len(w):
        return "%d bytes instead of %d" % (len(g), len(w))
    return "byte %d" % next(i for i in range(len(g)) if g[i] != w[i])
