"""V01: two chained files read as one.

`Chain` is walked path by path through short histories of its public operations (construction, seeks, reads) with every length, offset and buffer size a
symbol.  The two files are ghosts: a position each, moved by seek and read.  Wherever a read delivers bytes, they have to be the bytes of the concatenated
stream at the logical position; a seek arrives at the position it was given and reports it."""
import itertools
from interp import *
from wire import *
from pak import call, sessions, show, Unmodelled
from lengths import TooMany
from linear import infeasible

LEN = {"first": Ln(0, {(("first", "size"), ()): 1}), "second": Ln(0, {(("second", "size"), ()): 1})}
DEEP = 3


class Chain:
    def __init__(self, W):
        self.W = W
        P = W.P
        adts = [k for k, a in P.adts.items() if k.rsplit("::", 1)[-1] == "Chain" and k.startswith("unreal")]
        if len(adts) != 1:
            raise Unmodelled("Chain: %d types" % len(adts))
        self.k = adts[0]
        f = {}
        for g in P.fns.values():
            if g.b is not None and g.self_ty is not None and g.self_ty.h == self.k and g.name in ("new", "read", "seek", "rewind", "stream_position", "read_exact"):
                f[g.name] = g
        for n in ("new", "read", "seek"):
            if n not in f:
                raise Unmodelled("Chain::" + n)
        self.f = f
        self.hooks = {g.key: self.h_own for g in P.fns.values() if g.b is not None and g.self_ty is not None and g.self_ty.h == self.k}

    def start(self, I):
        self.pos = {"first": None, "second": None}     # ghost positions; None: before anything is known
        self.pos = {"first": Ln(0, {(("first", "at"), ()): 1}), "second": Ln(0, {(("second", "at"), ()): 1})}
        self.bufs, self.nread, self.bad, self.odd = {}, 0, None, None
        for n in ("first", "second"):
            self.fact(I, LEN[n])

    def h_own(self, I, a, fr, fn):
        return I.inline(fn, a, [], fr, None, None)

    def fact(self, I, d):
        """d >= 0 holds"""
        if not d.t:
            return
        f, s = I.form(d)
        lo, hi, ne = I.facts.get(f, (None, None, frozenset()))
        k = -d.k * s
        if s > 0:
            lo = k if lo is None else max(lo, k)
        else:
            hi = k if hi is None else min(hi, k)
        I.facts = {**I.facts, f: (lo, hi, ne)}

    def implied(self, I, d):
        """does the path imply d >= 0"""
        cs = self.system(I)
        return infeasible(cs + [(d.k + 1, dict(d.t))])

    def system(self, I):
        cs = []
        for f, (lo, hi, ne) in I.facts.items():
            d = dict(f)
            if lo is not None:
                cs.append((lo, {k: -v for k, v in d.items()}))
            if hi is not None:
                cs.append((-hi, d))
        return cs

    def stream(self, I, v):
        v = I.deepval(v)
        if isinstance(v, Sy) and v.p in (("first",), ("second",)) and not v.ops:
            return v.p[0]
        return None

    def buf(self, I, v):
        v = I.deepval(v)
        if isinstance(v, Sy) and len(v.p) == 2 and v.p[0] == "buf":
            return v.p[1]
        return None

    def lin(self, I, v):
        v = I.aslin(I.deref(v))
        if v is None:
            self.odd = "a size or place that is not linear"
            return Ln(0, {})
        return v

    def std(self, I, d, args, fr, targs):
        n = d["n"]
        s = self.stream(I, args[0]) if args else None
        ok = lambda x: Ad(RES, {0: {"0": x}})
        if n in ("unwrap_or_default", "unwrap_or", "unwrap_or_else"):
            w = I.deref(args[0])
            if isinstance(w, Ad) and w.k == RES and set(w.alts) == {0}:
                return w.alts[0]["0"]
        if s:
            if n in ("seek", "rewind", "stream_position", "seek_relative"):
                if n == "seek":
                    w = I.deref(args[1])
                    if not (isinstance(w, Ad) and len(w.alts) == 1):
                        self.odd = "seek by an unknown kind"
                        return ok(TOP)
                    (i, fs), = w.alts.items()
                    o = self.lin(I, fs["0"])
                    to = o if i == 0 else lin_add(LEN[s] if i == 1 else self.pos[s], o)
                elif n == "rewind":
                    to = Ln(0, {})
                elif n == "seek_relative":
                    to = lin_add(self.pos[s], self.lin(I, args[1]))
                else:
                    to = self.pos[s]
                self.pos[s] = to
                return ok(to if n not in ("rewind", "seek_relative") else UNIT)
            if n in ("read", "read_exact"):
                b = self.buf(I, args[1])
                if b is None:
                    self.odd = "a read into something that is not a buffer"
                    return ok(TOP)
                size, segs = self.bufs[b]
                at = self.pos[s]
                if n == "read":
                    self.nread += 1
                    c = Ln(0, {(("count", str(self.nread)), ()): 1})
                    self.fact(I, c)
                    self.fact(I, lin_add(size, c, -1))
                    left = lin_add(LEN[s], at, -1)
                    if self.implied(I, left) or left.t and I.decide("Ge", left):
                        self.fact(I, lin_add(left, c, -1))
                    else:
                        c = Ln(0, {})
                    if s == "first" and not self.second:
                        pass
                    elif s == "first" and not self.implied(I, lin_add(lin_add(LEN[s], at, -1), Ln(-1, {}))) and not self.void(I, size):
                        self.wrong("reads the first file at its end although the second one follows")
                else:
                    c = size
                    if not self.implied(I, lin_add(lin_add(LEN[s], at, -1), c, -1)):
                        self.wrong("asks for more of the %s file than may be left of it" % s)
                segs.append((s, at, c))
                self.pos[s] = lin_add(at, c)
                return ok(c if n == "read" else UNIT)
            if n in ("by_ref", "as_mut", "borrow_mut"):
                return args[0]
            self.odd = "%s of a file" % n
            return TOP
        if n == "from_elem":
            b = len(self.bufs)
            self.bufs[b] = [self.lin(I, args[1]), []]
            return Sy(("buf", b))
        b = self.buf(I, args[0]) if args else None
        if b is not None:
            if n == "len":
                return self.bufs[b][0]
            if n == "is_empty":
                return NotImplemented
            if n in ("append", "extend_from_slice", "extend"):
                o = self.buf(I, args[1])
                if o is None:
                    self.odd = n
                    return UNIT
                self.bufs[b] = [lin_add(self.bufs[b][0], self.bufs[o][0]), self.bufs[b][1] + self.bufs[o][1]]
                if n == "append":
                    self.bufs[o] = [Ln(0, {}), []]
                return UNIT
            if n in ("as_slice", "as_mut_slice", "as_ref", "as_mut", "deref", "deref_mut", "borrow", "borrow_mut", "by_ref", "as_ptr"):
                return args[0]
            if n in ("read", "read_exact", "copy_from_slice", "clone_from_slice"):
                src, dst = (b, self.buf(I, args[1])) if n.startswith("read") else (self.buf(I, args[1]), b)
                if src is None or dst is None:
                    self.odd = n
                    return ok(TOP)
                size, segs = self.bufs[src]
                if not self.implied(I, lin_add(self.bufs[dst][0], size, -1)):
                    self.odd = "a copy that may not fit"
                self.bufs[dst][1].extend(segs)
                return UNIT if n.startswith("c") else ok(size if n == "read" else UNIT)
            if n in ("index", "index_mut", "split_at_mut", "split_at", "get_mut", "truncate", "resize"):
                return self.part(I, n, b, args)
            self.odd = "%s of a buffer" % n
            return TOP
        return NotImplemented

    def part(self, I, n, b, args):
        """parts of a buffer are buffers whose bytes arrive in it in the order they are filled"""
        if n in ("index", "index_mut"):
            r = I.deref(args[1])
            k = r.k.rsplit("::", 1)[-1] if isinstance(r, Ad) and len(r.alts) == 1 else None
            size, segs = self.bufs[b]
            fs = next(iter(r.alts.values())) if k else {}
            lo = fs.get("start", fs.get("0") if k == "RangeFrom" else None)
            hi = fs.get("end", fs.get("1" if k == "Range" else "0") if k in ("Range", "RangeTo") else None)
            if k == "Range" and "start" not in fs:
                lo = fs.get("0")
            if k in ("RangeTo", "Range", "RangeFrom", "RangeFull"):
                lo = self.lin(I, lo) if lo is not None else Ln(0, {})
                hi = self.lin(I, hi) if hi is not None else size
                fill = Ln(0, {})
                for x, y, l in segs:
                    fill = lin_add(fill, l)
                if same(self, I, fill, lo):
                    if not self.implied(I, lin_add(size, hi, -1)):
                        self.wrong("cuts a part out of a buffer that may be shorter")
                    self.bufs[len(self.bufs)] = [lin_add(hi, lo, -1), segs]
                    return Rf(I.cell(Sy(("buf", len(self.bufs) - 1))))
        self.odd = "%s of a buffer" % n
        return TOP

    def void(self, I, size):
        return self.implied(I, lin_add(Ln(0, {}), size, -1))

    def wrong(self, what):
        self.bad = self.bad or what


def history(c, I, fr, ops):
    """run one history; the complaints end up in c.bad"""
    c.start(I)
    first, second = Sy(("first",)), Sy(("second",))
    opt = Ad(OPT, {1: {"0": second}}) if c.second else Ad(OPT, {0: {}})
    obj = Rf(I.cell(call(I, fr, c.f["new"], first, opt)))
    at = Ln(0, {})
    total = lin_add(LEN["first"], LEN["second"]) if c.second else LEN["first"]
    for i, op in enumerate(ops):
        if I.dead() or c.odd:
            return
        if op == "read":
            size = Ln(0, {(("size", str(i)), ()): 1})
            c.fact(I, lin_add(size, Ln(-1, {})))
            b = len(c.bufs)
            c.bufs[b] = [size, []]
            r = call(I, fr, c.f["read"], obj, Rf(I.cell(Sy(("buf", b)))))
            if I.dead() or c.odd or c.bad:
                return
            n = take(I, r)
            if n is None:
                c.odd = "a read that does not give a number: %s" % show(I.deref(r))[:60]
                return
            cur, got = at, Ln(0, {})
            for s, p, l in c.bufs[b][1]:
                if c.void(I, l):
                    continue
                here = p if s == "first" else lin_add(LEN["first"], p)
                if not same(c, I, here, cur):
                    c.wrong("after %s, a read delivers the %s file from another place than the position in the chain" % (" and ".join(ops[:i]) or "nothing", s))
                    return
                if s == "first" and c.second and not c.implied(I, lin_add(lin_add(LEN["first"], p, -1), Ln(0, {}))):
                    c.wrong("after %s, a read of the first file begins behind its end" % (" and ".join(ops[:i]) or "nothing"))
                    return
                cur, got = lin_add(cur, l), lin_add(got, l)
            if not same(c, I, got, n):
                c.wrong("a read reports another number of bytes than it delivers")
                return
            at = lin_add(at, n)
        else:
            off = Ln(0, {(("offset", str(i)), ()): 1})
            kind = {"start": 0, "end": 1, "current": 2}[op]
            to = off if kind == 0 else lin_add(total if kind == 1 else at, off)
            c.fact(I, to)
            r = call(I, fr, c.f["seek"], obj, Ad(c.seek, {kind: {"0": off}}))
            if I.dead() or c.odd or c.bad:
                return
            n = take(I, r)
            if n is None:
                c.odd = "a seek that does not give a number: %s" % show(I.deref(r))[:60]
                return
            if not same(c, I, n, to):
                c.wrong("a seek (%s) reports another position than the one it was given" % op)
                return
            at = to


def take(I, r):
    r = I.deref(r)
    if isinstance(r, Ad) and r.k == RES and set(r.alts) == {0}:
        return I.aslin(I.deref(r.alts[0]["0"]))
    return None


def same(c, I, a, b):
    d = lin_add(a, b, -1)
    if not d.t:
        return d.k == 0
    return c.implied(I, d) and c.implied(I, Ln(-d.k, {k: -v for k, v in d.t.items()}))


def check(P, rep):
    W = World(P)
    try:
        return run(P, rep, W)
    except (Unmodelled, TooMany, StopIteration) as e:
        rep.unsure("chain", "chain", "not modelled: %r" % (e,))
    except (Limit, RecursionError, KeyError, AttributeError, TypeError, IndexError, ValueError, AssertionError) as ex:
        rep.unsure("chain", "chain", "analysis gave up: %r" % (ex,))


def run(P, rep, W):
    c = Chain(W)
    c.seek = c.f["seek"].ins[1].h
    n, paths = 0, 0
    for second in (True, False):
        c.second = second
        for ops in [("read",) + x for x in itertools.product(("read",), repeat=2)] + \
                [x + ("read",) for k in range(1, DEEP + 1) for x in itertools.product(("start", "end", "current", "read"), repeat=k)
                 if k < DEEP or "end" not in x]:
            n += 1
            fine = True
            for I, r in sessions(W, "r", {}, lambda I, fr: history(c, I, fr, ops), c.f["new"], dead=True, errs=True, facts=True, stdfx=c.std, vertypes={}, statics={}, symlin=True, hooks=c.hooks):
                paths += 1
                rep.fns |= {x for x in I.seen if x.startswith("unreal_asset")}
                if c.odd:
                    rep.unsure("chain", c.odd[:80], "not modelled: %s" % c.odd)
                    fine = False
                elif c.bad and not infeasible(c.system(I)):
                    rep.bad("chain", c.bad.split(", ", 1)[-1], "%s (history: %s; %s)" % (c.bad, ", ".join(ops), "two files" if second else "one file"))
                    fine = False
                if not fine:
                    break
            if fine:
                rep.ok("chain")
    rep.cov.update(histories=n, paths=paths)
    rep.floor("chain", paths, 500, "paths through histories")
