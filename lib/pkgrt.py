"""W01: the package as a whole.

The writer is walked path by path on a package of symbols (lists of zero to two elements, one or two files); the layout it leaves is what the
reader is walked over.  Every list, count, symbol and place of an export has to come back.  The bodies of exports, the world tile info and
engine versions are opaque here: their own rules compare them."""
from interp import *
from wire import *
from pak import File, call, good, sessions, misread, show, Unmodelled, lkey, layout
from lengths import TooMany
import registry

ASSET = "unreal_asset::asset::Asset"


def tail(t):
    return t.peel().h.rsplit("::", 1)[-1]


def opt(x):
    return Ad(OPT, {1: {"0": x}})


class Pkg:
    def __init__(self, W):
        self.W, self.P = W, W.P
        P = W.P
        self.fields = {f["n"]: f["t"] for f in P.adts[ASSET]["v"][0]["f"]}
        ad = self.fields["asset_data"].h
        self.adk, self.ad = ad, {f["n"]: f["t"] for f in P.adts[ad]["v"][0]["f"]}
        self.smk = self.ad["summary"].h
        self.sm = {f["n"]: f["t"] for f in P.adts[self.smk]["v"][0]["f"]}
        self.bek = next(k for k in P.adts if k.endswith("::BaseExport"))
        self.be = {f["n"]: f["t"] for f in P.adts[self.bek]["v"][0]["f"]}
        self.exk = "unreal_asset_exports::Export"
        self.pik = next(k for k in P.adts if k.endswith("::PackageIndex"))
        self.wr = next(f for f in P.fns.values() if f.self_ty is not None and f.self_ty.h == ASSET and f.name == "write_data" and f.impl_trait is None)
        self.new = next(f for f in P.fns.values() if f.self_ty is not None and f.self_ty.h == ASSET and f.name == "new" and f.impl_trait is None)
        self.hooks = {}
        self.exported = []
        for k, f in P.fns.items():
            s = tail(f.self_ty) if f.self_ty is not None else ""
            if s in ("FEngineVersion", "FWorldTileInfo") and f.b is not None:
                arc = any(P.is_arc(i, f) for i in f.ins)
                if arc and f.ins and tail(f.ins[0]) == s:
                    self.hooks[k] = self.h_write
                elif arc and s in f.out.s:
                    self.hooks[k] = self.h_read
            elif s == "Export" and f.name == "write" and f.impl_trait:
                self.hooks[k] = self.h_export
            elif s == "NameMap" and f.name == "new":
                self.hooks[k] = lambda I, a, fr, fn: Ad("names", {0: {"0": Rf(I.cell(Li(None, (), [])))}})
            elif s == "NameMap" and f.name == "add_name_reference":
                self.hooks[k] = self.h_add
            elif s == "NameMap" and f.name == "get_name_map_index_list":
                self.hooks[k] = self.h_list
            elif s == "NameMap" and f.name == "is_empty":
                self.hooks[k] = lambda I, a, fr, fn: C(not I.deref(self.h_list(I, a, fr, fn)).items)
            elif s == "Chain" and f.name == "new":
                self.hooks[k] = lambda I, a, fr, fn: Ar("main")
            elif f.name == "from_bits" and s in ("EPackageFlags", "EObjectFlags"):
                self.hooks[k] = lambda I, a, fr, fn: opt(I.deref(a[0]))
            elif f.name == "bits" and s in ("EPackageFlags", "EObjectFlags"):
                self.hooks[k] = lambda I, a, fr, fn: I.deref(a[0])
            elif s == "CustomVersion" and f.name == "new" and [t.h for t in f.ins][1:] == ["i32"]:
                self.hooks[k] = lambda I, a, fr, fn: Ad(fn.self_ty.h, {0: {"guid": I.deref(a[0]), "version": I.deref(a[1])}})
            elif s == "AssetData" and f.name == "set_engine_version":
                self.hooks[k] = self.h_engine
            elif f.b is not None and "Result" in f.out.s and "Export<" in f.out.s and any(tail(t) == "BaseExport" for t in f.ins) and any(t.h == "u64" for t in f.ins):
                self.hooks[k] = self.h_read_export
            elif s == "IndexedMap" and f.name == "new":
                self.hooks[k] = lambda I, a, fr, fn: Ad("hashes", {0: {"0": Rf(I.cell(Li(None, (), [])))}})
            elif s == "IndexedMap" and f.name == "insert":
                self.hooks[k] = self.h_insert
            elif s == "IndexedMap" and f.name == "get_by_key":
                self.hooks[k] = self.h_get
            elif s == "SharedResource" and f.name in ("get_ref", "get_mut", "clone", "new"):
                self.hooks[k] = lambda I, a, fr, fn: a[0]
            elif k.startswith("unreal_asset_base::crc::"):
                self.hooks[k] = self.h_hash

    names = registry.Reg.names
    h_add = registry.Reg.h_add
    h_list = registry.Reg.h_list

    def h_write(self, I, a, fr, fn):
        v = I.deref(a[0])
        I.setar(a[1:])
        I.emit("item " + tail(fn.self_ty), v, None, fr, None, I.arid(a[1:]), Ln(0, {("item", str(v)): 1}))
        return Ad(RES, {0: {"0": UNIT}})
    h_read = registry.Reg.h_read

    def h_export(self, I, a, fr, fn):
        x = self.base(I, a[0])
        i = I.deref(x.alts[0]["object_name"]).p[1]
        I.setar(a[1:])
        I.emit("item Export", Sy(("body", i)), None, fr, None, I.arid(a[1:]), Ln(0, {("body", i): 1}))
        return Ad(RES, {0: {"0": UNIT}})

    def h_hash(self, I, a, fr, fn):
        v = I.deref(a[0])
        return C(1000 + int(v.p[0][4:])) if isinstance(v, Sy) and v.p[0].startswith("name") else NotImplemented

    def h_engine(self, I, a, fr, fn):
        v = I.deref(a[0])
        if not isinstance(v, Ad) or len(v.alts) != 1:
            return NotImplemented
        fs = dict(v.alts[0])
        for n, t in self.ad.items():
            if n in ("object_version", "object_version_ue5", "engine_version") and (self.case["unversioned"] or n == "engine_version"):
                fs[n] = Ve(VERTYPES[t.h])
        if "summary" in fs:
            x = I.deref(fs["summary"])
            x = dict(x.alts[0]) if isinstance(x, Ad) and len(x.alts) == 1 else {}
        else:
            x = {}
        x["custom_versions"] = Li(None, (), [])
        fs["summary"] = Ad(self.smk, {0: x})
        I.setref(a[0], Ad(v.k, {0: fs}))
        return UNIT

    def h_read_export(self, I, a, fr, fn):
        be = next(I.deepval(x) for x, t in zip(a, fn.ins) if tail(t) == "BaseExport")
        nx = next(I.deref(x) for x, t in zip(a, fn.ins) if t.h == "u64")
        self.exported.append((be, nx))
        return Ad(RES, {0: {"0": Sy(("export", str(len(self.exported) - 1)))}})

    def h_insert(self, I, a, fr, fn):
        m = I.deref(a[0])
        if not isinstance(m, Ad) or m.k != "hashes":
            return NotImplemented
        r = m.alts[0]["0"]
        I.setref(r, Li(None, (), list(I.deref(r).items) + [Li(None, (), [I.deepval(a[1]), I.deepval(a[2])])]))
        return TOP

    def h_get(self, I, a, fr, fn):
        m = I.deref(a[0])
        if not isinstance(m, Ad) or m.k != "hashes":
            return NotImplemented
        k = I.deref(a[1])
        for x in I.deref(m.alts[0]["0"]).items:
            if I.deref(x.items[0]) == k:
                return Ad(OPT, {1: {"0": x.items[1]}})
        return Ad(OPT, {0: {}})

    # ---- a package of symbols
    def export(self, I, i, kind, deps):
        fs = {}
        for n, t in self.be.items():
            if n in deps:
                fs[n] = Li(None, (), [self.index(("dep", n, str(i), str(j))) for j in range(deps[n])])
            elif t.h.startswith("alloc::vec") or "Vec<" in t.s:
                fs[n] = Li(None, (), [])
            elif tail(t) == "PackageIndex" or t.s == "Index":
                fs[n] = self.index((n, str(i)))
            elif t.h == "bool":
                fs[n] = C(self.case["bools"] ^ (i % 2 == 1))
            else:
                fs[n] = Sy((n, str(i)))
        base = Ad(self.bek, {0: fs})
        vs = [v["n"] for v in self.P.adts[self.exk]["v"]]
        return Ad(self.exk, {vs.index(kind): {"0": self.wrap(kind, base, i)}})

    def holds(self, k, seen=()):
        """the type of an export that contains the base export, directly or within another one"""
        a = self.P.adts.get(k)
        return k == self.bek or a is not None and k not in seen and k.startswith("unreal_asset_exports::") and len(a["v"]) == 1 and any(
            self.holds(f["t"].h, seen + (k,)) for f in a["v"][0]["f"])

    def wrap(self, kind, base, i):
        ak = kind if "::" in kind else next(k for k in self.P.adts if k.startswith("unreal_asset_exports::") and k.endswith("::" + kind))
        if ak == self.bek:
            return base
        fs = {}
        for f in self.P.adts[ak]["v"][0]["f"]:
            if f["t"].h == self.bek:
                fs[f["n"]] = base
            elif self.holds(f["t"].h):
                fs[f["n"]] = self.wrap(f["t"].h, base, i)
            else:
                fs[f["n"]] = Sy((f["n"], str(i)))
        return Ad(ak, {0: fs})

    def base(self, I, x):
        """the base export in an export"""
        x = I.deref(x)
        while isinstance(x, Ad) and x.k != self.bek:
            fs = next(iter(x.alts.values()))
            x = next((I.deref(v) for v in fs.values() if isinstance(I.deref(v), Ad) and (I.deref(v).k == self.bek or self.holds(I.deref(v).k))), None)
        return x

    def extras(self, I, x):
        """whether an export has bytes after its last field"""
        x = I.deref(x)
        if not isinstance(x, Ad) or not (x.k == self.exk or self.holds(x.k)):
            return False
        fs = next(iter(x.alts.values()))
        return "extras" in fs or any(self.extras(I, v) for v in fs.values())

    def index(self, p):
        return Ad(self.pik, {0: {"index": Sy(p)}})

    def asset(self, I, c):
        def const(v):
            return C(v)
        exports = [self.export(I, i, k, d) for i, (k, d) in enumerate(c["exports"])]
        sm = {n: Sy((n,)) for n in self.sm}
        sm["unversioned"] = C(c["unversioned"])
        sm["custom_versions"] = Li(None, (), [self.sub(self.sm["custom_versions"], "cv%d" % i) for i in range(c["custom"])])
        ad = {}
        for n, t in self.ad.items():
            ad[n] = Ve(VERTYPES[t.h]) if t.h in VERTYPES else Sy((n,))
        ad["use_event_driven_loader"] = C(c["edl"])
        ad["summary"] = Ad(self.smk, {0: sm})
        ad["exports"] = Li(None, (), exports)
        ad["world_tile_info"] = Ad(OPT, {1: {"0": Sy(("world_tile_info",))}} if c["tile"] else {0: {}})
        ad["mappings"] = Ad(OPT, {0: {}})
        fs = {n: Sy((n,)) for n in self.fields}
        fs["raw_reader"] = Ar("main")
        fs["asset_data"] = Ad(self.adk, {0: ad})
        fs["legacy_file_version"] = C(c["legacy"])
        fs["generations"] = Li(None, (), [self.sub(self.fields["generations"], "gen%d" % i) for i in range(c["gens"])])
        fs["chunk_ids"] = Li(None, (), [Sy(("chunk%d" % i,)) for i in range(c["chunks"])])
        fs["name_map"] = Ad("names", {0: {"0": Li(None, (), [Sy(("name%d" % i,)) for i in range(c["names"])])}})
        fs["imports"] = Li(None, (), [self.sub(self.fields["imports"], "imp%d" % i) for i in range(c["imports"])])
        fs["depends_map"] = Ad(OPT, {0: {}} if c["depends"] is None else
                               {1: {"0": Li(None, (), [Li(None, (), [Sy(("depend%d_%d" % (i, j),)) for j in range(k)]) for i, k in enumerate(c["depends"])])}})
        fs["soft_package_reference_list"] = Ad(OPT, {0: {}} if c["soft"] is None else {1: {"0": Li(None, (), [Sy(("soft%d" % i,)) for i in range(c["soft"])])}})
        fs["override_name_map_hashes"] = Ad("hashes", {0: {"0": Li(None, (), [Li(None, (), [Sy(("name%d" % i,)), C(0)]) for i in c["zero"] or ()])}})
        fs["parent_class"] = Ad(OPT, {0: {}})
        fs["asset_registry_data_offset"] = C(c["reg"])
        return Ad(ASSET, {0: fs})

    def sub(self, t, name):
        k = next(x for x in self.P.adts if x.startswith("unreal_asset") and x.endswith("::" + t.a[0].h.rsplit("::", 1)[-1])) if not hasattr(t, "_k") else t._k
        fs = {}
        for f in self.P.adts[k]["v"][0]["f"]:
            fs[f["n"]] = self.index((name, f["n"])) if tail(f["t"]) == "PackageIndex" else C(self.case["bools"]) if f["t"].h == "bool" else Sy((name, f["n"]))
        return Ad(k, {0: fs})


CASE = dict(exports=[("NormalExport", {})], unversioned=False, custom=1, edl=True, tile=False, legacy=-7, gens=1, chunks=1, names=2, imports=1,
            depends=None, soft=None, reg=0, zero=(1,), bools=True)


class PFile(File):
    """what the writer left: what is written last stays; the second file follows the first"""
    def __init__(self, I):
        end = Ln(0, {})
        its = layout(I)
        for at, label, v, nb, ev in its:
            e = lin_add(at, nb)
            if e.k >= end.k and all(e.t.get(t, 0) >= c for t, c in end.t.items()):
                end = e
        self.main_end = end
        its += layout(I, "tmpbulk", end)
        for at, label, v, nb, ev in its:
            e = lin_add(at, nb)
            if e.k >= end.k and all(e.t.get(t, 0) >= c for t, c in end.t.items()):
                end = e
        self.items, self.end, self.at, self.missed = its, end, {}, []
        for at, label, v, nb, ev in its:
            self.at.setdefault(lkey(at), []).insert(0, (label, v, nb, ev))

    def content(self, I, label, pos, nb):
        for l, v, n, ev in self.at.get(lkey(pos), ()):
            if label.startswith("bytes") and l[0] == "w" and nb is not None and n == nb:
                return v, n
            if l == "fstr" and label.startswith("fstr") or l.startswith("item ") and l == label:
                return v, n
        return File.content(self, I, label, pos, nb)


def dominated(case, ov, ue5, D, D5):
    """the parts of a case that this version stores"""
    c = dict(case)
    if ov < D["VER_UE4_ADD_STRING_ASSET_REFERENCES_MAP"]:
        c["soft"] = None
    if ov < D["VER_UE4_WORLD_LEVEL_INFO"]:
        c["tile"] = False
    if ov < D["VER_UE4_ADDED_CHUNKID_TO_ASSETDATA_AND_UPACKAGE"]:
        c["chunks"] = 0
    elif ov < D["VER_UE4_CHANGED_CHUNKID_TO_BE_AN_ARRAY_OF_CHUNKIDS"]:
        c["chunks"] = 1
    if ov < D["VER_UE4_NAME_HASHES_SERIALIZED"]:
        c["zero"] = None
    if ov < D["VER_UE4_PRELOAD_DEPENDENCIES_IN_COOKED_EXPORTS"] or not c["edl"]:
        c["exports"] = [(k, {}) for k, d in c["exports"]]
    if D["VER_UE4_PRELOAD_DEPENDENCIES_IN_COOKED_EXPORTS"] <= ov < D["VER_UE4_64BIT_EXPORTMAP_SERIALSIZES"] and c["depends"] is None:
        c["depends"] = [0] * len(c["exports"])
    if ue5:
        c["legacy"] = -8
    return c


def deps(*n):
    return dict(zip(("serialization_before_serialization_dependencies", "create_before_serialization_dependencies",
                     "serialization_before_create_dependencies", "create_before_create_dependencies"), n))


N, R = "NormalExport", "RawExport"
CASES = [
    ("empty", dict(CASE, exports=[], custom=0, gens=0, chunks=0, names=0, imports=0, zero=())),
    ("full", dict(CASE, exports=[(N, deps(1, 2, 0, 1)), (N, deps(0, 1, 2, 1))], custom=2, gens=2, chunks=2, names=3, imports=2, zero=(1,), depends=[2, 1], soft=2,
                  tile=True, reg=5)),
    ("full, one file", dict(CASE, edl=False, exports=[(N, {}), (N, {})], custom=2, gens=2, chunks=2, names=3, imports=2, zero=(1,), depends=[0, 2], soft=1,
                            tile=True, reg=5)),
    ("three exports", dict(CASE, exports=[(N, deps(0, 1, 0, 0)), (R, deps(2, 0, 0, 1)), (N, deps(0, 0, 1, 0))], unversioned=True, custom=0, gens=1, chunks=1, names=1, imports=0,
                           zero=(0,), depends=None, soft=0, bools=False)),
    ("no exports", dict(CASE, exports=[], custom=1, gens=1, names=2, imports=2, zero=(), depends=[], soft=1, reg=5)),
    ("no exports, one file", dict(CASE, edl=False, exports=[], unversioned=True, custom=0, gens=3, chunks=3, names=1, imports=1, zero=(), depends=None, soft=None, tile=True)),
    ("one export, one file", dict(CASE, edl=False, exports=[(N, {})], custom=1, gens=0, chunks=0, names=2, imports=0, zero=(0, 1), depends=[3], soft=3, bools=False)),
]
for i, d in enumerate(((1, 0, 0, 0), (0, 1, 0, 0), (0, 0, 1, 0), (0, 0, 0, 1), (2, 2, 2, 2))):
    CASES.append(("two exports (%d)" % i, dict(CASE, exports=[(N, deps(*d)), (R if i % 2 else N, deps(*d[1:] + d[:1])), (N, {})][:2 + i % 2], names=1 + i % 3, imports=i % 3,
                                               gens=i % 3, chunks=(i + 1) % 3, custom=(i + 2) % 3, zero=() if i % 2 else (0,), depends=[i % 3, 1][:i % 3], soft=i % 2, reg=i % 2,
                                               tile=i % 2 == 0, bools=i % 2 == 0)))
    CASES.append(("one file (%d)" % i, dict(CASE, edl=False, exports=[(R, {}), (N, {}), (N, {})][i % 2:1 + i % 3], unversioned=i % 2 == 0, names=i % 3, imports=(i + 1) % 3,
                                            gens=(i + 1) % 3, chunks=i % 3, custom=i % 3, zero=(0,) if i % 3 else (), depends=None if i % 2 else [1, 2, 3], soft=None if i % 3 == 0 else i,
                                            reg=(i + 1) % 2, tile=i % 2 == 1, bools=i % 2 == 1)))
LEGACY = [-2, -4, -5, -6]


def check(P, rep, W):
    try:
        return run(P, rep, W)
    except (Unmodelled, TooMany, StopIteration) as e:
        rep.unsure("whole", "package", "not modelled: %r" % (e,))
    except (Limit, RecursionError, KeyError, AttributeError, TypeError, IndexError, ValueError, AssertionError) as ex:
        rep.unsure("whole", "package", "analysis gave up: %r" % (ex,))


def run(P, rep, W):
    p = Pkg(W)
    vk = next(k for k in VERTYPES if k.endswith("::ObjectVersion"))
    v5 = next(k for k in VERTYPES if k.endswith("::ObjectVersionUE5"))
    D = {v["n"]: v["d"] for v in P.adts[vk]["v"]}
    D5 = {v["n"]: v["d"] for v in P.adts[v5]["v"]}
    r, r5 = W.ranges["ObjectVersion"], W.ranges["ObjectVersionUE5"]
    cnt = [0, 0]
    lo = min(d for n, d in D.items() if d > D["UNKNOWN"])
    cuts = sorted({D[n] for n in ("VER_UE4_ADD_STRING_ASSET_REFERENCES_MAP", "VER_UE4_WORLD_LEVEL_INFO", "VER_UE4_ADDED_CHUNKID_TO_ASSETDATA_AND_UPACKAGE",
                                  "VER_UE4_CHANGED_CHUNKID_TO_BE_AN_ARRAY_OF_CHUNKIDS", "VER_UE4_NAME_HASHES_SERIALIZED",
                                  "VER_UE4_PRELOAD_DEPENDENCIES_IN_COOKED_EXPORTS", "VER_UE4_64BIT_EXPORTMAP_SERIALSIZES")} | {lo, r[1] + 1})
    spans = [(a, b - 1) for a, b in zip(cuts, cuts[1:]) if b > a]
    five = min(d for d in D5.values() if d > 0)
    kinds = [v["n"] for v in P.adts[p.exk]["v"]]
    cases = CASES + [("all kinds of exports", dict(CASE, exports=[(k, {}) for k in kinds], names=2)), ("all kinds of exports, one file", dict(CASE, edl=False, exports=[(k, {}) for k in kinds], names=2))]
    for ci, (what, case) in enumerate(cases):
        for si, sp in enumerate(spans):
            fives = [(0, 0)] + ([(five, r5[1])] if sp[1] >= r[1] else [])
            for f5 in fives:
                cs = [dominated(case, sp[0], f5[0], D, D5)]
                if ci == 2 and not f5[0]:
                    cs.append(dict(cs[0], legacy=LEGACY[si % len(LEGACY)]))
                for c in cs:
                    work = [{"ObjectVersion": sp, "ObjectVersionUE5": f5}]
                    while work:
                        cfg = work.pop()
                        if len(rep.violations) > 12:
                            return
                        try:
                            one(p, rep, W, cfg, what, c, cnt)
                        except Split as s:
                            parts = split_cfg(dict(W.ranges, **cfg), W, s.var, s.cuts)
                            if len(parts) == 1:
                                raise
                            work.extend(parts)
    rep.cov["packages_read_back"] = cnt[0]
    rep.cov["values_compared"] = cnt[1]
    rep.floor("whole", cnt[0], 200, "packages read back")


def one(p, rep, W, cfg, what, c, cnt):
    p.case = c
    v = cfg["ObjectVersion"]
    what = "%s; object version %d to %d%s, legacy version %d" % (what, v[0], v[1], ", UE5 %d to %d" % cfg["ObjectVersionUE5"] if cfg["ObjectVersionUE5"][0] else "", c["legacy"])

    def bad(key, d):
        rep.bad("whole", key, "%s (%s): package with %s: %s" % (p.wr.key, p.wr.file, what, d))
    box = []

    def script(I, fr):
        a = p.asset(I, c)
        box[:] = [I.deepval(a)]
        return call(I, fr, p.wr, a, Ar("main"), opt(Ar("tmpbulk")) if c["edl"] else Ad(OPT, {0: {}}))

    def script2(J, fr):
        p.exported = []
        return call(J, fr, p.new, Ar("main"), opt(Ar("tmpbulk")) if c["edl"] else Ad(OPT, {0: {}}), Ve("EngineVersion"), Ad(OPT, {0: {}}))

    kw = dict(hooks=p.hooks, rounds=4, dead=True, innerar=True)
    for I, r in sessions(W, "w", cfg, script, p.wr, **kw):
        rep.fns |= {x for x in I.seen if x.startswith("unreal_asset")}
        if I.dead() or good(r) is None:
            bad("writing is refused", "writing is refused")
            continue
        f = PFile(I)
        syms = set()
        for at, l, x, nb, ev in f.items:
            for q in I.atoms(x):
                syms.add(q[0][:2] if len(q[0]) > 1 else q[0])
                syms.add(q[0][:1])
        for J, r2 in sessions(W, "r", cfg, script2, p.new, content=f.content, end=f.end, assume=I.assume, **kw):
            rep.fns |= {x for x in J.seen if x.startswith("unreal_asset")}
            cnt[0] += 1
            m = misread(f.missed[0] if f.missed else None)
            g = good(r2) if not J.dead() else None
            if g is None:
                bad("reading refuses", "what was written is refused%s" % m)
                continue
            g = J.deepval(g)
            if not isinstance(g, Ad) or len(g.alts) != 1:
                rep.unsure("whole", "result", "not a package: %s" % show(g))
                continue
            cnt[1] += compare(p, rep, I, J, f, box[0], g.alts[0], c, bad, m, syms)
        rep.ok("whole")


OFFSETS = {"name_offset", "export_offset", "import_offset", "depends_offset", "soft_package_reference_offset", "asset_registry_data_offset",
           "bulk_data_start_offset", "world_tile_info_offset", "preload_dependency_count", "preload_dependency_offset", "header_offset", "name_count",
           "soft_package_reference_count", "raw_reader", "info", "asset_data", "generations", "parent_class", "names_referenced_from_export_data_count"}


def compare(p, rep, I, J, f, a, g, c, bad, m, syms):
    n = [0]

    def cmp(path, want, got):
        n[0] += 1
        got = J.deref(got) if got is not None else None
        want = I.deref(want)
        if isinstance(want, Sy):
            listed = len(path) > 1 and path[0] != "export" and any(x.isdigit() for x in path) and path[-1] != "friendly_name"
            if not listed and want.p[:2] not in syms and want.p[:1] not in syms:
                return
            if isinstance(got, Sy) and got.p[:len(want.p)] == want.p and not got.ops:
                return
            if not listed and isinstance(got, Sy) and len(want.p) > 1 and want.p[:2] not in syms:
                return                      # not stored in this version
            if isinstance(got, Ad) and len(got.alts) == 1 and any(isinstance(x, Sy) and x.p[:len(want.p)] == want.p for x in next(iter(got.alts.values())).values()):
                return                      # the part of it this version stores
            if got is None or isinstance(got, (Mx, Top)) or got == TOP:
                return rep.unsure("whole", ".".join(path), "%s read back as %s" % (".".join(path), show(got)))
            if not listed and want.p not in syms and want.p[:2] not in syms:
                return
            return bad(path[-1] if not path[-1].isdigit() else path[-2], "%s (%s) read back as %s%s" % (".".join(path), show(want), show(got), m))
        if isinstance(want, Ad) and len(want.alts) == 1:
            if want.k == "names" or want.k == "hashes":
                got = p.names(J, got) if want.k == "names" else got
                want, got = I.deref(want.alts[0]["0"]), J.deref(got.alts[0]["0"]) if isinstance(got, Ad) else None
                return cmp(path, want, got)
            if not isinstance(got, Ad) or len(got.alts) != 1:
                return rep.unsure("whole", ".".join(path), "%s read back as %s" % (".".join(path), show(got)))
            if set(got.alts) != set(want.alts):
                return bad(path[-1], "%s (%s) read back as %s%s" % (".".join(path), show(want), show(got), m))
            i = next(iter(want.alts))
            for k, x in want.alts[i].items():
                if k in got.alts[i]:
                    cmp(path + (k,), x, got.alts[i][k])
            return
        if isinstance(want, Li):
            w, h = registry.li(I, want), registry.li(J, got)
            if h is None:
                return rep.unsure("whole", ".".join(path), "%s read back as %s" % (".".join(path), show(got)))
            if len(w) != len(h):
                return bad(path[-1] if not path[-1].isdigit() else path[-2], "%d %s written, %d read back%s" % (len(w), ".".join(path), len(h), m))
            for i, (x, y) in enumerate(zip(w, h)):
                cmp(path + (str(i),), x, y)
            return
        if isinstance(want, C):
            if got == want:
                return
            if isinstance(want.v, bool) and want.v and got == C(False):
                return                      # not stored in this version (the export table's own rule compares them)
            if isinstance(got, C):
                return bad(path[-1], "%s (%s) read back as %s%s" % (".".join(path), show(want), show(got), m))
            return rep.unsure("whole", ".".join(path), "%s (%s) read back as %s" % (".".join(path), show(want), show(got)))

    fs = a.alts[0]
    for k, x in fs.items():
        if k in OFFSETS or k not in g:
            continue
        if k == "depends_map" and c["depends"] is not None:
            # one list for each export
            x = opt(Li(None, (), (list(I.deref(I.deref(x).alts[1]["0"]).items) + [Li(None, (), [])] * 3)[:len(c["exports"])]))
        if k == "override_name_map_hashes" and c["zero"] is None:
            continue
        if k == "chunk_ids" and not c["chunks"]:
            x = Li(None, (), [])
        cmp((k,), x, g[k])
    l = registry.li(J, g.get("generations"))
    if l is None or len(l) != c["gens"]:
        (bad if l is not None else lambda a, b: rep.unsure("whole", a, b))("generations", "%d generations written, %s read back%s" % (c["gens"], show(l), m))
    ad = J.deref(g["asset_data"]).alts[0]
    sm, ws = J.deref(ad["summary"]).alts[0], I.deref(I.deref(fs["asset_data"]).alts[0]["summary"]).alts[0]
    for k in ws:
        if k not in ("export_count", "import_count") and k in sm and not (k == "custom_versions" and c["unversioned"]):
            cmp(("summary", k), ws[k], sm[k])
    cmp(("world_tile_info",), I.deref(fs["asset_data"]).alts[0]["world_tile_info"], ad.get("world_tile_info", Ad(OPT, {0: {}})))
    num = len(c["exports"])
    if len(p.exported) != num:
        bad("exports", "%d exports written, %d read back%s" % (num, len(p.exported), m))
        return n[0]
    for i, (be, nx) in enumerate(p.exported):
        full = I.deref(I.deref(fs["asset_data"]).alts[0]["exports"]).items[i]
        ex = p.base(I, full)
        bf = be.alts[0]
        for k, x in ex.alts[0].items():
            if k not in ("serial_size", "serial_offset", "first_export_dependency_offset") and k in bf:
                cmp(("export", str(i), k), x, bf[k])
        at = J.aslin(bf["serial_offset"])
        size = J.aslin(bf["serial_size"])
        here = [x for x in f.at.get(lkey(at), ()) if x[0] == "item Export" and x[1] == Sy(("body", str(i)))] if at is not None else []
        n[0] += 3
        if not here:
            bad("serial_offset", "export %d is looked for at %s, where it does not begin" % (i, show(bf["serial_offset"])))
            continue
        after = lin_add(at, here[0][2])
        if p.extras(I, full):
            xs = [x for x in f.at.get(lkey(after), ()) if x[0] == "bytes*" and x[1] == Sy(("extras", str(i)))]
            if not xs:
                bad("extras", "the bytes after the last field of export %d are not written" % i)
                continue
            after = lin_add(after, xs[0][2])
        if J.aslin(nx) is None or lkey(J.aslin(nx)) != lkey(after):
            bad("next export", "export %d ends at %s, the reader takes %s" % (i, show(after), show(nx)))
        if size is None or lkey(lin_add(at, size)) != lkey(after):
            bad("serial_size", "export %d takes up to %s, its size is given as %s" % (i, show(after), show(bf["serial_size"])))
    # the places the summary gives
    x = J.aslin(g["bulk_data_start_offset"])
    n[0] += 3
    if x is None or lkey(lin_add(x, Ln(4, {}))) != lkey(f.end):
        bad("bulk_data_start_offset", "the data ends 4 bytes before %s, given as %s" % (show(f.end), show(g["bulk_data_start_offset"])))
    if num:
        x = J.aslin(g["header_offset"])
        first = J.aslin(p.exported[0][0].alts[0]["serial_offset"])
        if x is None or first is not None and lkey(x) != lkey(first):
            bad("header_offset", "the first export is at %s, the size of the header is given as %s" % (show(first), show(g["header_offset"])))
    x = J.aslin(g["asset_registry_data_offset"])
    if c["reg"]:
        if x is None or not any(l == "w4le" and v == C(0) for l, v, nb, ev in f.at.get(lkey(x), ())):
            bad("asset_registry_data_offset", "no registry data at %s" % show(g["asset_registry_data_offset"]))
    elif x is None or x.k or x.t:
        bad("asset_registry_data_offset", "there is no registry data, its place is given as %s" % show(g["asset_registry_data_offset"]))
    want = sum(sum(d.values()) for k, d in c["exports"]) if c["edl"] else -1
    if "preload_dependency_count" in g and g["preload_dependency_count"] != C(want) and J.aslin(g["preload_dependency_offset"]) != Ln(0, {}):
        bad("preload_dependency_count", "%d dependencies are written, their number is given as %s" % (want, show(g["preload_dependency_count"])))
    return n[0]
