"""R01: no byte of an export is lost.

The function that reads one export is walked path by path: the class is any class, the reader of a kind of export succeeds (having read some
number of bytes) or fails.  On every path the bytes between the place of the export and the next one end up in the object that is returned: as a body
read from the stored place followed by everything up to the next export, or raw, from the stored place and of the stored size."""
from interp import *
from wire import *
from pak import call, good, sessions, show, Unmodelled, lkey
from lengths import TooMany
import pkgrt, registry

# what an export of a class is, in the engine: the reader that fits it
CLASSES = [(None, None), ("Level", "LevelExport"), ("World", "WorldExport"), ("UserDefinedStruct", "UserDefinedStructExport"), ("StringTable", "StringTableExport"),
           ("Enum", "EnumExport"), ("UserDefinedEnum", "EnumExport"), ("Function", "FunctionExport"), ("DataTable", "DataTableExport"), ("CompositeDataTable", "DataTableExport"),
           ("GameStringTable", "StringTableExport"), ("BlueprintGeneratedClass", "ClassExport"), ("WidgetBlueprintGeneratedClass", "ClassExport"),
           ("AnimBlueprintGeneratedClass", "ClassExport"), ("MapProperty", "PropertyExport"), ("IntProperty", "PropertyExport"), ("Property", "PropertyExport"),
           ("StaticMesh", "NormalExport"), ("Blueprint", "NormalExport"), ("SoundClass", "NormalExport"), ("CurveTable", "NormalExport"), ("WorldSettings", "NormalExport"), ("LevelScriptBlueprint", "NormalExport"), ("LevelSequence", "NormalExport"), ("ChildActorComponent", "NormalExport"), ("MyTable_C", "NormalExport")]


class Exp(pkgrt.Pkg):
    def __init__(self, W):
        pkgrt.Pkg.__init__(self, W)
        P = W.P
        roots = [f for f in P.fns.values() if f.b is not None and f.key.startswith("unreal_asset::") and f.out.h.endswith("Result") and f.out.a and f.out.a[0].h == self.exk
                 and any(pkgrt.tail(t) == "BaseExport" for t in f.ins) and any(t.h == "u64" for t in f.ins)]
        if len(roots) != 1:
            raise Unmodelled("reader of one export: %d candidates" % len(roots))
        self.root = roots[0]
        hk = {k: h for k, h in self.hooks.items() if h != self.h_read_export}
        self.kinds = set()
        for k, f in P.fns.items():
            s = pkgrt.tail(f.self_ty) if f.self_ty is not None else ""
            if f.b is not None and k.startswith("unreal_asset_exports::") and f.impl_trait is None and f.out.h.endswith("Result") and f.out.a \
                    and f.self_ty is not None and f.out.a[0].h == f.self_ty.h and self.holds(f.self_ty.h) and any(P.is_arc(t, f) for t in f.ins) \
                    and any(t.peel().h == self.bek for t in f.ins) and s != "RawExport":
                hk[k] = self.h_from_base
                self.kinds.add(s)
            elif f.name == "get_export_class_type":
                hk[k] = self.h_class
            elif s == "IndexedMap" and f.name in ("extend", "into_iter"):
                hk[k] = lambda I, a, fr, fn: Li(None, (), []) if fn.name == "into_iter" else UNIT
        self.hooks = hk
        fn = [k for k, a in P.adts.items() if k.startswith("unreal_asset_base::") and k.endswith("::FName")]
        alt = [i for k in fn for i, v in enumerate(P.adts[k]["v"]) if any(f["n"] == "value" for f in v["f"])]
        if len(fn) != 1 or len(alt) != 1:
            raise Unmodelled("FName with its text")
        self.fname, self.dummy = fn[0], alt[0]

    def h_class(self, I, a, fr, fn):
        if self.cls is None:
            return Ad(OPT, {0: {}})
        return pkgrt.opt(Ad(self.fname, {self.dummy: {"value": C(self.cls), "number": C(0)}}))

    def h_from_base(self, I, a, fr, fn):
        if I.dead():
            return TOP
        I.setar(a)
        s = pkgrt.tail(fn.self_ty)
        if I.choose(2):
            I.emit("part " + s, None, None, fr, None, None, Ln(0, {("part", s): 1}))
            self.failed.append(s)
            return Ad(RES, {1: {"0": Sy(("error",))}})
        b = next(x for x, t in zip(a, fn.ins) if t.peel().h == self.bek)
        I.emit("body " + s, None, None, fr, None, None, Ln(0, {("body", s): 1}))
        x = self.wrap(fn.self_ty.h, I.deepval(b), 0)
        return Ad(RES, {0: {"0": self.clear(x)}})

    def clear(self, x):
        if not isinstance(x, Ad) or x.k == self.bek:
            return x
        return Ad(x.k, {i: {n: Li(None, (), []) if n in ("extras", "loaded_properties") else self.clear(v) for n, v in fs.items()} for i, fs in x.alts.items()})

    def kind_of(self, I, x):
        x = I.deref(x)
        while isinstance(x, Ad) and x.k == self.exk and len(x.alts) == 1:
            x = I.deref(next(iter(x.alts.values())).get("0"))
        return x.k.rsplit("::", 1)[-1] if isinstance(x, Ad) else None

    def find(self, I, x, n):
        x = I.deref(x)
        if not isinstance(x, Ad):
            return None
        for fs in x.alts.values():
            if n in fs:
                return I.deref(fs[n])
            for v in fs.values():
                if isinstance(v, Ad):
                    r = self.find(I, v, n)
                    if r is not None:
                        return r
        return None


def check(P, rep):
    W = World(P)
    try:
        return run(P, rep, W)
    except (Unmodelled, TooMany, StopIteration) as e:
        rep.unsure("export", "export", "not modelled: %r" % (e,))
    except (Limit, RecursionError, KeyError, AttributeError, TypeError, IndexError, ValueError, AssertionError) as ex:
        rep.unsure("export", "export", "analysis gave up: %r" % (ex,))


def run(P, rep, W):
    p = Exp(W)
    p.case = dict(pkgrt.CASE)
    rep.floor("export", len(p.kinds), 10, "readers of kinds of exports")
    ns, kinds, raw, bad = 0, {}, [0], {}

    def script(I, fr):
        p.failed = []
        p.want = p.base(I, p.export(I, 0, "NormalExport", {}))
        return call(I, fr, p.root, Ar("main"), p.want, Sy(("next",)))

    for cls, kind in CLASSES:
        p.cls, p.kind, n, before = cls, kind, 0, len(bad)
        for I, r in sessions(W, "r", {}, script, p.root, hooks=p.hooks, rounds=2, dead=True, innerar=True, errs=True, facts=True):
            n += 1
            rep.fns |= {x for x in I.seen if x.startswith("unreal_asset")}
            one(p, rep, I, r, kinds, raw, bad)
        got = kinds.get(cls, set())
        if cls is not None and not got and len(bad) == before:
            rep.unsure("class", cls, "no path reads an export of this class as anything but raw bytes")
        for k in sorted(got - {kind}):
            rep.bad("class", "%s read as %s" % (cls, k), "an export of class %s is read by the reader of %s; exports of that class are %s" % (cls, k, kind))
        rep.ok("class")
        rep.floor("class", n, 1 if cls is None else 3, "paths that read an export of class %s" % cls)
        ns += n
    for (k, why), text in sorted(bad.items(), key=str):
        if why is None:
            rep.unsure("export", k, text)
        else:
            rep.bad("export", "%s: %s" % (k, why), text)
    rep.cov["paths"] = ns
    rep.cov["classes"] = len(CLASSES)
    rep.cov["kinds"] = sorted(set().union(*kinds.values()))
    rep.cov["raw paths"] = raw[0]
    rep.ok("export", ns)


def one(p, rep, I, r, kinds, raw, bad):
    tr = I.trace
    body = [(e.label.split(" ")[1], at, nb) for e, at, nb, pt in tr if e.label.startswith("body ")]
    kind = body[-1][0] if body else p.failed[-1] if p.failed else "unknown class"
    how = "when its reader fails" if p.failed else "when its class is not known" if not body else "when it is read"
    r = I.deref(r)
    ok = isinstance(r, Ad) and r.k == RES
    if I.dead() or ok and set(r.alts) == {1}:
        bad[(kind, "refused " + how)] = "an export that cannot be read as %s makes the whole file unreadable instead of being kept raw" % kind
        return
    if not ok or set(r.alts) != {0}:
        bad[(kind, None)] = "result not understood: %s" % show(r)[:100]
        return
    ex = r.alts[0]["0"]
    start, size, nxt = (I.aslin(Sy(x)) for x in (("serial_offset", "0"), ("serial_size", "0"), ("next",)))
    be = p.find(I, ex, "base_export")
    if be is None:
        bad[(kind, None)] = "no base export in the result"
        return
    wb, gb = I.deepval(p.want), I.deepval(be)
    if gb != wb:
        t = [f for f in wb.alts[0] if not isinstance(gb, Ad) or gb.alts[0].get(f) != wb.alts[0][f]]
        bad[(kind, "entry not kept: %s" % ", ".join(t))] = "fields %s of the entry of the export differ after its body is read" % ", ".join(t)
    data = p.find(I, ex, "data")
    typed = p.kind_of(I, ex)
    if typed == "RawExport":
        raw[0] += 1
        got, at, nb = where(I, data), start, size
        what = "the raw bytes"
        if body and len(body) == 1 and not p.failed:
            lo, hi = I.known(lin_add(nxt, lin_add(body[0][1], body[0][2]), -1))
            if hi is None or hi >= 0:
                bad[(kind, "understood but kept raw")] = "an export whose contents end where the next export starts, or before, is kept as raw bytes although its reader understood it"
    else:
        mine = [b for b in body if b[0] == typed]
        if len(mine) != 1:
            bad[(kind, None)] = "result of kind %s, %d bodies read" % (typed, len(mine))
            return
        if lkey(mine[0][1]) != lkey(start):
            bad[(typed, "place")] = "the body is read at %s, the entry says %s" % (lshow(mine[0][1]), lshow(start))
        kinds.setdefault(p.cls, set()).add(typed)
        at = lin_add(mine[0][1], mine[0][2])
        nb = lin_add(nxt, at, -1)
        lo, hi = I.known(nb)
        if lo is None or lo < 0:
            bad[(typed, "runs past the next export")] = "contents that run past the next export are taken although the number of bytes left is negative"
        got = where(I, p.find(I, ex, "extras"))
        what = "the bytes after the body"
    if got is None:
        bad[(kind, None)] = "%s are not a block of the file: %s" % (what, show(data)[:80])
    elif got == "none":
        bad[(typed if typed != "RawExport" else kind, "%s dropped %s" % (what, how))] = "%s are not kept in the export" % what
    elif lkey(got[0]) != lkey(at) or lkey(got[1]) != lkey(nb):
        bad[(typed if typed != "RawExport" else kind, "%s %s" % (what, how))] = "%s kept are %s bytes at %s, they should be %s bytes at %s" % (
            what, lshow(got[1]), lshow(got[0]), lshow(nb), lshow(at))


def lshow(x):
    return " + ".join((["%d" % x.k] if x.k or not x.t else []) + ["%s%s" % ("" if c == 1 else "%d*" % c, ".".join(str(y) for y in (k[1] if isinstance(k[1], tuple) else k[:2]))) for k, c in x.t.items()])


def where(I, x):
    """the block of the file a value was read from: (place, size), "none" for nothing, None if not one block"""
    x = I.deref(x) if x is not None else None
    if x is None or isinstance(x, Li) and x.items == []:
        return "none"
    if isinstance(x, Sy) and not x.ops and len(x.p) == 1 and isinstance(x.p[0], str) and x.p[0].startswith("#"):
        i = int(x.p[0][1:]) - 1
        if 0 <= i < len(I.trace) and I.trace[i][0].label == "bytes*":
            return I.trace[i][1], I.trace[i][2]
    return None
