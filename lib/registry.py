"""W08: the asset registry as a whole.

The sections of a registry (assets, dependencies, packages, name table) are found by counts, a section size and the
offset of the name table, so the file is not one sequence.  As for pak files (pak.py), the writer is walked path by path
on a registry of symbols, which gives the layout of what it left; the reader is walked over that layout and has to give
back the same symbols.  Single assets, packages and identifiers are opaque here: their own readers and writers are
compared by the wire rule."""
from interp import *
from wire import *
from pak import File, call, good, sessions, misread, show, Unmodelled
from lengths import TooMany

REG = "unreal_asset_registry::"
OPAQUE = ("AssetData", "AssetPackageData", "AssetIdentifier")
LISTS = ("hard_dependencies", "soft_dependencies", "name_dependencies", "hard_manage_dependencies", "soft_manage_dependencies", "referencers")


def tail(t):
    return t.peel().h.rsplit("::", 1)[-1]


class Reg:
    def __init__(self, W):
        self.W, self.P = W, W.P
        P = W.P
        fns = [f for k, f in sorted(P.fns.items()) if k.startswith(REG) and f.b is not None]
        st = [f for f in fns if f.self_ty is not None and tail(f.self_ty) == "AssetRegistryState" and f.impl_trait is None]
        self.rd = self.one([f for f in st if "AssetRegistryState" in f.out.s and "Result" in f.out.s and len(f.ins) == 1], "reader of the registry")
        self.wr = self.one([f for f in st if len(f.ins) == 2 and "Cursor" in f.ins[1].s], "writer of the registry")
        self.k = next(k for k in P.adts if k.startswith(REG) and k.endswith("::AssetRegistryState"))
        self.nk = next(k for k in P.adts if k.startswith(REG) and k.endswith("::DependsNode"))
        self.fields = {f["n"]: f["t"] for f in P.adts[self.k]["v"][0]["f"]}
        self.nfields = {f["n"]: f["t"] for f in P.adts[self.nk]["v"][0]["f"]}
        if not set(LISTS) <= set(self.nfields) or not {"assets_data", "depends_nodes", "package_data", "name_map"} <= set(self.fields):
            raise Unmodelled("fields of the registry")
        self.hooks = {}
        for f in fns:
            if f.self_ty is not None and tail(f.self_ty) in OPAQUE and f.impl_trait is None:
                if any(tail(i) == tail(f.self_ty) for i in f.ins) and any(P.is_arc(i, f) for i in f.ins):
                    self.hooks[f.key] = self.h_write
                elif any(P.is_arc(i, f) for i in f.ins) and tail(f.self_ty) in f.out.s:
                    self.hooks[f.key] = self.h_read
        for k, f in P.fns.items():
            s = tail(f.self_ty) if f.self_ty is not None else ""
            if s == "NameMap" and f.name == "new":
                self.hooks[k] = lambda I, a, fr, fn: Ad("names", {0: {"0": Rf(I.cell(Li(None, (), [])))}})
            elif s == "NameMap" and f.name == "add_name_reference":
                self.hooks[k] = self.h_add
            elif s == "NameMap" and f.name == "get_name_map_index_list":
                self.hooks[k] = self.h_list
            elif s == "NameMap" and f.name == "from_name_batch":
                self.hooks[k] = lambda I, a, fr, fn: Ad("names", {0: {"0": I.deref(a[0])}})
            elif s == "SharedResource" and f.name in ("get_ref", "get_mut", "clone", "new"):
                self.hooks[k] = lambda I, a, fr, fn: a[0]
            elif k.startswith("unreal_asset_base::crc::"):
                self.hooks[k] = lambda I, a, fr, fn: Sy(("hash",) + tuple(x for v in a for x in (getattr(I.deref(v), "p", None) or ("?",))))

    def one(self, l, what):
        if len(l) != 1:
            raise Unmodelled("%s: %d candidates" % (what, len(l)))
        return l[0]

    def h_write(self, I, a, fr, fn):
        i = next(i for i, t in enumerate(fn.ins) if tail(t) == tail(fn.self_ty))
        I.emit("item " + tail(fn.self_ty), I.deref(a[i]), None, fr, None, None, None)
        return Ad(RES, {0: {"0": UNIT}})

    def h_read(self, I, a, fr, fn):
        return Ad(RES, {0: {"0": I.emit("item " + tail(fn.self_ty), None, None, fr, None, None, None)}})

    def names(self, I, v):
        v = I.deref(v)
        for _ in range(4):
            if isinstance(v, Ad) and v.k != "names" and len(v.alts) == 1 and set(next(iter(v.alts.values()))) == {"0"}:
                v = I.deref(next(iter(v.alts.values()))["0"])
        return v if isinstance(v, Ad) and v.k == "names" else None

    def h_add(self, I, a, fr, fn):
        m = self.names(I, a[0])
        if m is None:
            return NotImplemented
        r = m.alts[0]["0"]
        l = I.deref(r)
        if not isinstance(l, Li) or l.items is None or not isinstance(r, Rf):
            return NotImplemented
        I.setref(r, Li(None, (), list(l.items) + [I.deref(a[1])]))
        return Sy(("index",))

    def h_list(self, I, a, fr, fn):
        m = self.names(I, a[0])
        return I.deref(m.alts[0]["0"]) if m is not None else NotImplemented

    def nodes(self, I, shape, ver):
        """shape: per node, the indices in each list"""
        def node(i, deps):
            fs = {}
            for n, t in self.nfields.items():
                if n in LISTS:
                    fs[n] = Li(None, (), [node(j, {}) for j in deps.get(n, ())])
                elif n == "index":
                    fs[n] = C(i)
                elif tail(t) in OPAQUE:
                    fs[n] = Sy(("identifier%d" % i,))
                elif t.h in VERTYPES:
                    fs[n] = Ve(VERTYPES[t.h])
                elif ver:
                    fs[n] = Ad(OPT, {1: {"0": Li(None, (), [])}})       # one set of flags per dependency; there are none
                else:
                    fs[n] = Ad(OPT, {0: {}})
            return Ad(self.nk, {0: fs})
        return [node(i, d) for i, d in enumerate(shape)]

    def state(self, I, na, shape, np, nn, flagged):
        fs = {}
        for n, t in self.fields.items():
            if n == "assets_data":
                fs[n] = Li(None, (), [Sy(("asset%d" % i,)) for i in range(na)])
            elif n == "package_data":
                fs[n] = Li(None, (), [Sy(("package%d" % i,)) for i in range(np)])
            elif n == "depends_nodes":
                fs[n] = Li(None, (), self.nodes(I, shape, flagged))
            elif n == "name_map":
                fs[n] = Ad(OPT, {1: {"0": Ad("names", {0: {"0": Li(None, (), [Sy(("name%d" % i,)) for i in range(nn)])}})}})
            elif t.h in VERTYPES:
                fs[n] = Ve(VERTYPES[t.h])
            else:
                fs[n] = Sy((n,))
        return Ad(self.k, {0: fs})


class RFile(File):
    def __init__(self, I):
        File.__init__(self, I)
        for l in self.at.values():
            l.reverse()             # what is written last stays

    def content(self, I, label, pos, nb):
        for l, v, n, ev in self.at.get(lkey(pos), ()):
            if l == "fstr" and label.startswith("fstr"):
                return v, n
        r = None
        for back in (0, 2):
            for l, v, n, ev in self.at.get(lkey(lin_add(pos, Ln(-back, {}))), ()):
                if l == "w4le" and label == "w2le" and isinstance(v, Sy) and v.p[0] == "hash":
                    return Sy(v.p, ("half%d" % back,)), nb
        return File.content(self, I, label, pos, nb)


from pak import lkey

SHAPES = [
    [],
    [{}],
    [{}, {}],
    [{"hard_dependencies": [1], "soft_dependencies": [0, 1], "referencers": [0]}, {"name_dependencies": [1, 0, 1]}],
    [{"hard_manage_dependencies": [2, 0], "soft_manage_dependencies": [1]}, {}, {"hard_dependencies": [0, 1, 2], "referencers": [1, 2]}],
]


def check(P, rep, W):
    try:
        return run(P, rep, W)
    except (Unmodelled, TooMany, StopIteration) as e:
        rep.unsure("registry", "registry", "not modelled: %r" % (e,))
    except (Limit, RecursionError, KeyError, AttributeError, TypeError, IndexError, ValueError, AssertionError) as ex:
        rep.unsure("registry", "registry", "analysis gave up: %r" % (ex,))


def li(I, v):
    v = I.deref(v)
    if not isinstance(v, Li):
        return None
    if v.items is None:
        return [] if v.e is None else None
    return [I.deref(x) for x in v.items]


def run(P, rep, W):
    R = Reg(W)
    vk = next(k for k in VERTYPES if k.endswith("FAssetRegistryVersionType"))
    names = [(v["n"], v["d"]) for v in P.adts[vk]["v"]]
    flags = dict(names)["AddedDependencyFlags"]
    hard = dict(names)["AddedHardManage"]
    lo = dict(names)["RemovedMD5Hash"]
    cnt = 0
    top = W.ranges["AssetRegistryVersion"][1]
    for vn, v in names:
        if v > top or v < lo:
            continue
        for si, shape in enumerate(SHAPES):
            if v < hard:
                shape = [{k: x for k, x in d.items() if k != "hard_manage_dependencies"} for d in shape]
            if v >= flags and any(shape):
                continue            # bit sets of dependency flags are not modelled
            for na, np, nn in ((0, 0, 0), (1, 2, 3), (2, 1, 1)):
                if si and (na, np, nn) == (2, 1, 1):
                    continue
                work = [{"AssetRegistryVersion": (v, v)}]
                while work:
                    cfg = work.pop()
                    try:
                        cnt += one(R, rep, W, cfg, vn, shape, na, np, nn, v >= flags)
                    except TooMany:
                        if v < flags or len(shape) < 2:
                            raise
                        rep.bad("registry", "dependencies with flags", "%s (%s): what was written is read at other places" % (R.wr.key, R.wr.file))
                    except Split as s:
                        parts = split_cfg(dict(W.ranges, **cfg), W, s.var, s.cuts)
                        if len(parts) == 1:
                            raise
                        work.extend(parts)
    rep.cov["registries_read_back"] = cnt
    rep.floor("registry", cnt, 60, "registries read back")


def one(R, rep, W, cfg, vn, shape, na, np, nn, flagged):
    cnt, v0 = 0, len(rep.violations)
    what = "version %s, %d assets, %d nodes, %d packages, %d names" % (vn, na, len(shape), np, nn)
    dep = flagged and len(shape) > 1

    def bad(key, d):
        if dep:
            key = "dependencies with flags"
        if dep and len(rep.violations) > v0:
            return
        rep.bad("registry", key, "%s (%s): %s: %s" % (R.wr.key, R.wr.file, what, d))

    def script(I, fr):
        return call(I, fr, R.wr, R.state(I, na, shape, np, nn, flagged), Ar("main"))

    for I, r in sessions(W, "w", cfg, script, R.wr, hooks=R.hooks, rounds=4, dead=True):
        rep.fns |= {x for x in I.seen if x.startswith(REG)}
        if I.dead() or good(r) is None:
            bad("writing is refused", "a registry is refused")
            continue
        f = RFile(I)

        def script2(J, fr):
            return call(J, fr, R.rd, Ar("main"))
        for J, r2 in sessions(W, "r", cfg, script2, R.rd, hooks=R.hooks, rounds=4, content=f.content, end=f.end, assume=I.assume, dead=True):
            rep.fns |= {x for x in J.seen if x.startswith(REG)}
            cnt += 1
            if len(rep.violations) > v0 + (0 if dep else 8):
                return cnt
            m = misread(f.missed[0] if f.missed else None)
            g = good(r2) if not J.dead() else None
            if g is None:
                bad("reading refuses", "what was written is refused%s" % m)
                continue
            g = J.deepval(g)
            if not isinstance(g, Ad) or len(g.alts) != 1:
                rep.unsure("registry", "result", "not a registry: %s" % show(g))
                continue
            fs = g.alts[0]
            for n, want in (("assets_data", [Sy(("asset%d" % i,)) for i in range(na)]), ("package_data", [Sy(("package%d" % i,)) for i in range(np)])):
                got = li(J, fs.get(n, TOP))
                if got != want:
                    bad(n, "%s read back as %s%s" % (n, show(got), m))
            got = li(J, fs.get("depends_nodes", TOP))
            if got is None or len(got) != len(shape):
                bad("depends_nodes", "nodes read back as %s%s" % (show(got), m))
            else:
                for i, (x, d) in enumerate(zip(got, shape)):
                    x = x.alts[0] if isinstance(x, Ad) and len(x.alts) == 1 else {}
                    if J.deref(x.get("identifier", TOP)) != Sy(("identifier%d" % i,)):
                        bad("identifier", "identifier of node %d read back as %s%s" % (i, show(x.get("identifier")), m))
                    if J.deref(x.get("index", TOP)) != C(i):
                        bad("index", "index of node %d is %s" % (i, show(x.get("index"))))
                    for n in LISTS:
                        l = li(J, x.get(n, TOP))
                        ids = None if l is None else [J.deref(y.alts[0].get("index", TOP)) if isinstance(y, Ad) and len(y.alts) == 1 else y for y in l]
                        want = [C(j) for j in d.get(n, ())]
                        if ids != want:
                            bad(n, "%s of node %d read back as %s, written %s%s" % (n, i, show(ids), show(want), m))
            nm = fs.get("name_map")
            nm = J.deref(nm) if nm is not None else None
            if isinstance(nm, Ad) and nm.k == OPT and set(nm.alts) == {1}:
                x = R.names(J, nm.alts[1]["0"])
                l = li(J, x.alts[0]["0"]) if x is not None else None
                if l != [Sy(("name%d" % i,)) for i in range(nn)]:
                    bad("names", "names read back as %s%s" % (show(l), m))
        rep.ok("registry")
    return cnt
