"""W09 and P01: pak files.

A pak file is located by position (footer from the end, index from the footer, entries from the index), so its layout
is not a sequence.  The writer is walked path by path with the position in the file as a linear term over the symbolic
sizes of names and data; that gives the *layout* of what it wrote: position -> kind of field, value.  The reader is
then walked over that layout: a read at a position returns the value the writer left there, if the kind and size fit.
What comes out has to be, symbol for symbol, what went in.  Nothing is executed; names, data and sizes stay symbols."""
from interp import *
from wire import *
from lengths import TooMany, isok, okval, txt, conditions

PAK = "unreal_pak::"
LIMIT = 4000


class Unmodelled(Exception):
    pass


def find(P, pred):
    return [f for k, f in sorted(P.fns.items()) if k.startswith(PAK) and f.b is not None and pred(f)]


def only(P, pred, what):
    r = find(P, pred)
    if len(r) != 1:
        raise Unmodelled("%s: %d candidates" % (what, len(r)))
    return r[0]


def tyname(t):
    return t.peel().h.rsplit("::", 1)[-1]


def adt(P, name):
    for k in P.adts:
        if k.startswith(PAK) and k.endswith("::" + name):
            return k
    raise Unmodelled("type " + name)


def methods(P, ty):
    return find(P, lambda f: f.self_ty is not None and tyname(f.self_ty) == ty and f.impl_trait is None)


def method(P, ty, name):
    r = [f for f in methods(P, ty) if f.name == name]
    if len(r) != 1:
        raise Unmodelled("%s::%s" % (ty, name))
    return r[0]


def sessions(W, side, cfg, script, root, limit=LIMIT, dead=False, **opts):
    """all paths of a script of calls, one Interp each"""
    full = dict(W.ranges)
    full.update(cfg)
    path, n = [], 0
    base = dict(opts.pop("assume", {}))
    while True:
        I = Interp(W.P, full, side, {}, W.opts(root=None, self_type=None, obj_arg=None, path=path, exact=True, ra=True, assume=dict(base), **opts))
        fr = Frame(root, root.ctx, {}, None)
        I.framestack.append(fr)
        v = script(I, fr)
        n += 1
        if n > limit:
            raise TooMany()
        if not I.dead() or dead:
            yield I, v if not I.dead() else None
        path = list(I.path)[:len(I.pathlens)]
        while path and path[-1] + 1 >= I.pathlens[len(path) - 1]:
            path.pop()
        if not path:
            return
        path[-1] += 1


def call(I, fr, fn, *args):
    return I.inline(fn, list(args), [], fr, None, None)


def good(v):
    """Some(value) of a Result that is Ok on this path, None of an error"""
    if isinstance(v, Ad) and v.k == RES:
        return v.alts[0].get("0") if set(v.alts) == {0} else None
    return v


# ------------------------------------------------------------------ the layout a writer leaves
def layout(I, ar="main", base=None, depth=0):
    """[(position, label, value, size, event)], nested buffers unfolded"""
    out = []
    for ev, at, nb, patch in I.trace:
        if (ev.ar or "main") != ar:
            continue
        if base is not None:
            at = lin_add(at, base)
        v = ev.val
        if isinstance(v, Ar) and depth < 4 and ev.label == "bytes*":
            out += layout(I, v.id, at, depth + 1)
        elif isinstance(v, Ad) and v.k == "bytevec":
            for x in v.alts[0]["0"]:
                n = I.aslin(Sy(x.p, ("len",)))
                out.append((at, "bytes%d" % n.k if not n.t else "bytes*", x, n, ev))
                at = lin_add(at, n)
        else:
            if nb is None:
                nb = Ln(0, {("ev", ev.slot): 1})
            out.append((at, ev.label, v, nb, ev))
    return out


def lkey(x):
    return (x.k, frozenset(x.t.items()))


class File:
    def __init__(self, I):
        self.items = layout(I)
        self.at = {}
        for at, label, v, nb, ev in self.items:
            self.at.setdefault(lkey(at), []).append((label, v, nb, ev))
        self.end = I.st.bytes
        self.missed = []

    def content(self, I, label, pos, nb):
        for l, v, n, ev in self.at.get(lkey(pos), ()):
            if l == label and (nb is None or n == nb):
                return v, n
            if l.startswith("bytes") and label.startswith("bytes") and n == nb:
                return v, n
        if label == "w4be":
            return C(0), nb           # looking for the magic number somewhere else
        near = self.at.get(lkey(pos), ())
        self.missed.append((label, nb, pos, near[0][0] if near else None, near[0][1] if near else None))
        return None


# ------------------------------------------------------------------ values
def same_bytes(I, got, want):
    """the bytes of `want` (a symbol), as read back: the symbol, its elements in order, or all its chunks in order"""
    got = I.deref(got)
    if got == want:
        return True
    if empty(I, got):
        return any(k[0] == "iters" and n == 0 and any(p[:len(want.p)] == want.p for p, o in k[1]) for k, n in I.assume.items() if k[0] == "iters")
    if isinstance(got, Li) and got.items:
        return [I.deref(x) for x in got.items] == [Sy(want.p + ("[%d]" % i,)) for i in range(len(got.items))]
    if isinstance(got, Ad) and got.k == "bytevec":
        ps = got.alts[0]["0"]
        if not ps:
            return False
        if all(isinstance(x, Sy) and x.p[:-3] == want.p and x.p[-3] == "chunks" for x in ps):
            n = I.assume.get(("iters", frozenset([(ps[0].p[:-1], ("len",))])))
            return [x.p[-1] for x in ps] == [str(i) for i in range(len(ps))] and n == len(ps) and len({x.p[-2] for x in ps}) == 1
        return list(ps) == [want]
    return False


def empty(I, v):
    v = I.deref(v)
    return isinstance(v, Li) and (v.items == [] or v.items is None and v.e is None)


class Pak:
    def __init__(self, W):
        P = self.P = W.P
        self.W = W
        self.comp = adt(P, "Compression")
        self.methods = adt(P, "CompressionMethods")
        C_ = lambda f: f.self_ty is not None and tyname(f.self_ty) == "Compression"
        io = lambda f: f.out.s
        self.pack = only(P, lambda f: C_(f) and len(f.ins) == 2 and f.ins[1].s.endswith("[u8]") and "Vec<u8>" in f.out.s, "Compression -> packed bytes")
        self.unpack = only(P, lambda f: C_(f) and len(f.ins) == 3 and "mut" in f.ins[1].s and "Vec<u8>" in f.ins[1].s, "Compression -> unpacked bytes")
        self.tobytes = only(P, lambda f: C_(f) and len(f.ins) == 1 and "[u8; 32]" in f.out.s, "Compression -> stored name")
        self.frombytes = only(P, lambda f: C_(f) and len(f.ins) == 1 and P.is_arc(f.ins[0], f), "stored name -> Compression")
        self.vnum = P.adts[adt(P, "PakVersion")]
        self.hooks = {self.pack.key: self.h_pack, self.unpack.key: self.h_unpack, self.tobytes.key: self.h_tobytes, self.frombytes.key: self.h_frombytes}

    # the codec and the table of method names are symbols here; they have rules of their own
    def h_pack(self, I, a, fr, fn):
        v = I.deref(a[1])
        if not isinstance(v, Sy):
            raise Unmodelled("packing %s" % v)
        return Ad(RES, {0: {"0": Sy(v.p + ("packed",))}})

    def h_unpack(self, I, a, fr, fn):
        v, cur = I.deref(a[2]), I.pieces(a[1])
        if not isinstance(v, Sy) or v.p[-1] != "packed":
            v = Sy(("not packed", str(v)))
        else:
            v = Sy(v.p[:-1])
        if cur is None:
            cur = (Sy(("?", str(I.deref(a[1])))),)
        I.setref(a[1], Ad("bytevec", {0: {"0": cur + (v,)}}))
        return Ad(RES, {0: {"0": UNIT}})

    def h_tobytes(self, I, a, fr, fn):
        return Sy(("method", str(I.deepval(I.deref(a[0]))), "#32"))

    def h_frombytes(self, I, a, fr, fn):
        I.curar = I.arid(a)
        s = I.emit("bytes32", None, None, fr, None, I.arid(a), Ln(32, {}))
        for m in (self.none(), self.zlib()):
            if s == Sy(("method", str(m), "#32")):
                return Ad(RES, {0: {"0": m}})
        return Ad(RES, {0: {"0": s}})

    def variant(self, name):
        for i, v in enumerate(self.P.adts[self.comp]["v"]):
            if v["n"] == name:
                return i
        raise Unmodelled("Compression::" + name)

    def none(self):
        return Ad(self.comp, {self.variant("None"): {}})

    def zlib(self):
        return Ad(self.comp, {self.variant("Known"): {"0": C("Zlib")}})

    def table(self, first):
        return Ad(self.methods, {0: {"0": Li(None, (), [first] + [self.none()] * 4)}})



    # -------------------------------------------------------------- programs that write a pak file
    def new_memory(self, I, v, first, ents):
        k = adt(self.P, "PakMemory")
        me = {}
        for f in self.P.adts[k]["v"][0]["f"]:
            t = tyname(f["t"])
            if t == "PakVersion":
                me[f["n"]] = Ve("PakVersion")
            elif t == "CompressionMethods":
                me[f["n"]] = self.table(first)
            elif t == "String":
                me[f["n"]] = Sy(("mount",))
            elif t == "BTreeMap":
                me[f["n"]] = Li(None, (), [Ad(TUP, {0: {"0": a, "1": b}}) for a, b in ents])
            elif t == "u32":
                me[f["n"]] = Sy(("block_size",))
            else:
                raise Unmodelled("PakMemory." + f["n"])
        return Ad(k, {0: me})

    def write_memory(self, v, first, ents):
        fn = method(self.P, "PakMemory", "write")

        def script(I, fr):
            return call(I, fr, fn, Rf(I.cell(self.new_memory(I, v, first, ents))), Ar("main"))
        return script, fn

    def write_writer(self, v, first, ents, compress):
        P = self.P
        new, put, fin = method(P, "PakWriter", "new"), method(P, "PakWriter", "write_entry"), method(P, "PakWriter", "finish_write")
        k = adt(P, "PakWriter")
        fields = {tyname(f["t"]): f["n"] for f in P.adts[k]["v"][0]["f"]}

        def script(I, fr):
            me = call(I, fr, new, Ar("main"), Ve("PakVersion"))
            if not isinstance(me, Ad) or me.k != k:
                raise Unmodelled("PakWriter::new: %s" % me)
            fs = dict(me.alts[0])
            fs[fields["String"]] = Sy(("mount",))
            fs[fields["u32"]] = Sy(("block_size",))
            c = I.cell(Ad(k, {0: fs}))
            for (a, b), z in zip(ents, compress):
                r = call(I, fr, put, Rf(c), Rf(I.cell(a)), Rf(I.cell(b)), C(z))
                if I.dead() or good(r) is None:
                    return r
            return call(I, fr, fin, I.load(c, ()))
        return script, fin

    # -------------------------------------------------------------- programs that read one
    def read_memory(self):
        fn = method(self.P, "PakMemory", "load_from")

        def script(I, fr):
            r = call(I, fr, fn, Ar("main"))
            v = good(r)
            if I.dead() or v is None:
                return None
            k = adt(self.P, "PakMemory")
            fs = {tyname(f["t"]): I.deref(v.alts[0].get(f["n"], TOP)) for f in self.P.adts[k]["v"][0]["f"]} if isinstance(v, Ad) and v.k == k else {}
            m = fs.get("BTreeMap")
            if isinstance(m, Li) and m.items is None and m.e is None:
                m = Li(None, (), [])
            if not isinstance(m, Li) or m.items is None:
                raise Unmodelled("PakMemory::load_from: entries %s" % m)
            return fs.get("PakVersion"), fs.get("String"), [(I.deref(t.alts[0]["0"]), t.alts[0]["1"]) for t in map(I.deref, m.items)]
        return script, fn

    def read_reader(self, ents, by):
        P = self.P
        new, load, get = method(P, "PakReader", "new"), method(P, "PakReader", "load_index"), method(P, "PakReader", "read_entry")
        it = method(P, "PakReader", "iter")
        nxt = find(P, lambda f: f.name == "next" and f.self_ty is not None and tyname(f.self_ty) == "PakReaderIter")
        k = adt(P, "PakReader")
        fields = {tyname(f["t"]): f["n"] for f in P.adts[k]["v"][0]["f"]}

        def script(I, fr):
            me = call(I, fr, new, Ar("main"))
            c = I.cell(me)
            r = call(I, fr, load, Rf(c))
            if I.dead() or good(r) is None:
                return None
            v = I.load(c, ())
            got = []
            if by == "name":
                for a, b in ents:
                    d = call(I, fr, get, Rf(c), Rf(I.cell(a)))
                    if I.dead() or good(d) is None:
                        return None
                    got.append((a, good(d)))
                m = I.deref(v.alts[0][fields["BTreeMap"]])
                if not (isinstance(m, Li) and (m.items or []) is not None and len(m.items or []) == len(ents)):
                    return None
            else:
                if len(nxt) != 1:
                    raise Unmodelled("PakReaderIter::next")
                ic = I.cell(call(I, fr, it, Rf(c)))
                for _ in range(len(ents) + 1):
                    x = I.deref(call(I, fr, nxt[0], Rf(ic)))
                    if I.dead():
                        return None
                    if not isinstance(x, Ad) or x.k != OPT or len(x.alts) != 1:
                        raise Unmodelled("PakReaderIter::next: %s" % x)
                    if 0 in x.alts:
                        break
                    t = I.deref(x.alts[1]["0"])
                    d = good(I.deref(t.alts[0]["1"]))
                    if d is None:
                        return None
                    got.append((I.deref(t.alts[0]["0"]), d))
            return I.deref(v.alts[0][fields["PakVersion"]]), I.deref(v.alts[0][fields["String"]]), got
        return script, load

    def read_index(self):
        fn = method(self.P, "Index", "read")

        def script(I, fr):
            v = good(call(I, fr, fn, Ar("main")))
            if I.dead() or not isinstance(v, Ad):
                return None
            return I.deepval(v)
        return script, fn


def vname(P, i):
    return P.adts[adt(P, "PakVersion")]["v"][i]["n"]


def describe(p, first, ents, how):
    return "%s, %s, %d entries" % (how, "zlib" if first == p.zlib() else "stored", len(ents))


def written(p, W, counts, rounds):
    """every file the writers leave, over all versions, methods, entry counts and paths"""
    P = p.P
    nv = len(P.adts[adt(P, "PakVersion")]["v"])
    import itertools
    for v in range(nv):
        if vname(P, v) == "Invalid":
            continue
        for first in (p.none(), p.zlib()):
            for n in counts:
                ents = [(Sy(("name%d" % i,)), Sy(("data%d" % i,))) for i in range(n)]
                progs = [("PakMemory::write",) + p.write_memory(v, first, ents)]
                if first == p.zlib():
                    for z in itertools.product((False, True), repeat=n):
                        progs.append(("PakWriter",) + p.write_writer(v, first, ents, z))
                for how, script, root in progs:
                    for I, r in sessions(W, "w", {"PakVersion": (v, v)}, script, root, hooks=p.hooks, rounds=rounds, dead=True):
                        yield v, first, ents, how, I, r


def show(x):
    return str(x)[:120]


def P01(P, rep):
    import lint
    lint.check(P, rep, ["unreal_pak::"])
    thorough = rep.tier == "thorough"
    W = World(P)
    try:
        p = Pak(W)
        roundtrip(p, W, rep, thorough)
        codec(p, W, rep)
        refusals(p, W, rep)
    except Unmodelled as e:
        rep.unsure("round trip", "pak", "not modelled: %s" % e)
    except TooMany:
        rep.unsure("round trip", "pak", "too many paths")


def feasible(I):
    """a length that is not below some positive bound has chunks"""
    some = {k[1] for k, v in I.assume.items() if k[0] == "Lt" and k[2] == ("len",) and isinstance(k[3], int) and k[3] > 0 and v is False} if all(
        isinstance(k, tuple) for k in I.assume) else set()
    for k, n in I.assume.items():
        if k[0] == "iters" and n == 0:
            for q, o in k[1]:
                if "chunks" in q and q[:q.index("chunks")] in some:
                    return False
    return True


def roundtrip(p, W, rep, thorough):
    P = p.P
    oks = {}
    seen_fns = set()
    for v, first, ents, how, I, r in written(p, W, (0, 1, 2), 3 if thorough else 2):
        seen_fns |= I.seen
        what = "%s, version %s" % (how, vname(P, v))
        if not feasible(I):
            continue
        if I.dead() or good(r) is None:
            n = vname(P, v)
            if n in WRITABLE and not (n in PLAIN and first == p.zlib()):
                rep.bad("writable", "%s refuses" % what, "%s: refused when %s" % (describe(p, first, ents, what), str(conditions(I))[:200] or "always"))
            continue
        key = (how, v, first == p.zlib())
        oks[key] = oks.get(key, 0) + 1
        if I.unknown and set(I.unknown) - {"rand::rngs::thread::thread_rng", "rand::rng::Rng::gen"}:
            raise Unmodelled("%s" % sorted(I.unknown)[:3])
        f = File(I)
        progs = [("PakMemory::load_from",) + p.read_memory(), ("PakReader::read_entry",) + p.read_reader(ents, "name"),
                 ("PakReader iteration",) + p.read_reader(ents, "iter")]
        for by, script, root in progs:
            f.missed = []
            some = False
            for J, got in sessions(W, "r", {}, script, root, hooks=p.hooks, rounds=3, content=f.content, end=f.end, assume=I.assume, dead=True):
                seen_fns |= J.seen
                some = True
                w = "%s -> %s" % (what, by)
                if got is None:
                    m = f.missed[0] if f.missed else None
                    rep.bad("round trip", "%s refuses" % w, "%s: a file just written does not read back%s" % (describe(p, first, ents, w), misread(m)))
                    continue
                ver, mount, es = got
                if J.unknown:
                    raise Unmodelled("%s" % sorted(J.unknown)[:3])
                if J.num(ver) != v and not (isinstance(ver, Ad) and set(ver.alts) == {v}):
                    rep.bad("round trip", "%s version" % w, "%s: read back as version %s" % (describe(p, first, ents, w), show(ver)))
                elif mount != Sy(("mount",)):
                    rep.bad("round trip", "%s mount point" % w, "%s: the mount point reads back as %s" % (describe(p, first, ents, w), show(mount)))
                elif [a for a, b in es] != [a for a, b in ents]:
                    rep.bad("round trip", "%s names" % w, "%s: entries %s read back as %s" % (describe(p, first, ents, w), [a.p[0] for a, b in ents], [show(a) for a, b in es]))
                else:
                    bad = [(a, b, g) for (a, b), (_, g) in zip(ents, es) if not same_bytes(J, g, b)]
                    for a, b, g in bad:
                        rep.bad("round trip", "%s data" % w, "%s: the data of %s reads back as %s%s" % (describe(p, first, ents, w), a.p[0], show(J.deepval(g)), misread(f.missed[0] if f.missed else None)))
                    if not bad:
                        rep.ok("round trip", 1)
            if not some:
                rep.bad("round trip", "%s -> %s" % (what, by), "no path of the reader accepts the file")
        stored(p, W, rep, f, I, v, first, ents, how, what)
    rep.fns |= {k for k in seen_fns if k.startswith(PAK)}
    # which versions can be written is part of what users rely on
    names = [x["n"] for x in P.adts[adt(P, "PakVersion")]["v"]]
    for v, n in enumerate(names):
        if n in WRITABLE:
            for how, z in (("PakMemory::write", False), ("PakMemory::write", True), ("PakWriter", True)):
                if n in PLAIN and z and how == "PakMemory::write":
                    # small entries only
                    pass
                if not oks.get((how, v, z)):
                    rep.bad("writable", "%s %s" % (how, n), "%s no longer writes version %s" % (how, n))
                else:
                    rep.ok("writable", 1)
    rep.floor("round trip", sum(oks.values()), 100, "files written")


WRITABLE = ("Initial", "NoTimestamps", "CompressionEncryption", "IndexEncryption", "RelativeChunkOffsets", "DeleteRecords", "EncryptionKeyGuid",
            "FnameBasedCompressionMethodInitial", "FnameBasedCompressionMethod", "FrozenIndex")
PLAIN = ("Initial", "NoTimestamps")


def misread(m):
    if not m:
        return ""
    label, nb, pos, l2, v2 = m
    return "; it reads %s (%s bytes) at %s%s" % (label, txt(nb) if nb is not None else "?", txt(pos), ", where %s holds %s" % (l2, show(v2)) if l2 else ", where nothing was written")


def lin_eq(I, a, b):
    a, b = I.aslin(a) if not isinstance(a, Ln) else a, I.aslin(b) if not isinstance(b, Ln) else b
    return a is not None and b is not None and a == b


def stored(p, W, rep, f, I, v, first, ents, how, what):
    """what index and headers say about the entries: place, sizes, hash, block boundaries"""
    script, root = p.read_index()
    for J, ix in sessions(W, "r", {}, script, root, hooks=p.hooks, rounds=3, content=f.content, end=f.end, assume=I.assume):
        if ix is None:
            continue
        fs = ix.alts[0]
        es = J.deref(fs.get("entries", TOP))
        if isinstance(es, Li) and es.items is None and es.e is None:
            es = Li(None, (), [])
        if not isinstance(es, Li) or es.items is None:
            raise Unmodelled("index entries")
        for (name, data), t in zip(ents, es.items):
            h = J.deref(J.deref(t).alts[0]["1"]).alts[0]
            pieces = [(at, x, n) for at, label, x, n, ev in f.items if isinstance(x, Sy) and x.p[:1] == data.p and not x.ops]
            if not pieces and not (isinstance(data, Sy) and any(k[0] == "iters" and n == 0 for k, n in I.assume.items())):
                rep.bad("stored", "%s data missing" % what, "%s: the bytes of %s are not in the file" % (describe(p, first, ents, what), name.p[0]))
                continue
            total = Ln(0, {})
            for at, x, n in pieces:
                total = lin_add(total, n)
            vals = tuple(x for at, x, n in pieces)
            say = lambda k, d: rep.bad("stored", "%s %s" % (what, k), "%s: %s of %s: %s" % (describe(p, first, ents, what), k, name.p[0], d))
            if not lin_eq(J, h["compressed_size"], total):
                say("compressed size", "%s, the stored bytes are %s" % (show(h["compressed_size"]), txt(total)))
            elif not lin_eq(J, h["decompressed_size"], Sy(data.p, ("len",))):
                say("decompressed size", show(h["decompressed_size"]))
            else:
                rep.ok("stored", 2)
            dg = J.deref(h["hash"])
            dv = dg.alts[0]["0"] if isinstance(dg, Ad) and dg.k == "digest" else None
            if dv is not None and len(dv) == 1 and isinstance(dv[0], Ad) and dv[0].k == "bytevec":
                dv = dv[0].alts[0]["0"]
            if dv is not None and len(dv) == 1 and isinstance(dv[0], Li) and empty(J, dv[0]):
                dv = ()
            if dv != vals:
                say("hash", "of %s, stored is %s" % (show(dv), show(vals)))
            else:
                rep.ok("stored", 1)
            heads = [x for at, label, x, n, ev in f.items if at == J.aslin(h["offset"])]
            if not heads or heads[0] != C(0):
                say("offset", "%s, and the header there begins with %s" % (show(h["offset"]), show(heads[:1])))
            else:
                rep.ok("stored", 1)
            bl = J.deref(h["compression_blocks"])
            if isinstance(bl, Ad) and bl.k == OPT and 1 in bl.alts:
                bs = J.deref(bl.alts[1]["0"])
                items = bs.items if isinstance(bs, Li) and bs.items is not None else []
                if len(items) != len(pieces):
                    say("compression blocks", "%d for %d stored" % (len(items), len(pieces)))
                for b, (at, x, n) in zip(items, pieces):
                    b = J.deref(b).alts[0]
                    at = lin_add(at, J.aslin(h["offset"]), -1)
                    if not lin_eq(J, b["start"], at):
                        say("block start", "%s, the block is at %s" % (show(b["start"]), txt(at)))
                    elif not lin_eq(J, b["size"], n):
                        say("block size", "%s, the block has %s" % (show(b["size"]), txt(n)))
                    else:
                        rep.ok("stored", 1)
                z = J.deref(h["compression_block_size"])
                z = J.deref(z.alts[1]["0"]) if isinstance(z, Ad) and set(z.alts) == {1} else z
                if isinstance(z, Sy):
                    z = Sy(z.p, tuple(o for o in z.ops if not (isinstance(o, tuple) and o[0] == "trunc")))
                if not (z == Sy(("block_size",)) or len(items) == 1 and z == Sy(data.p, ("len",))):
                    say("compression block size", show(z))
            elif pieces and pieces[0][1].p[-1] == "packed":
                say("compression blocks", "none")
        ft = J.deref(fs.get("footer", TOP)).alts[0]
        tmp = [ev for ev, at, nb, pt in I.trace if isinstance(ev.val, Ar)]
        start = J.aslin(ft["index_offset"])
        mounts = [at for at, label, x, n, ev in f.items if "mount" in str(x)]
        if not mounts or not lin_eq(J, start, mounts[0]):
            rep.bad("stored", "%s index offset" % what, "%s: the index is at %s, the footer says %s" % (describe(p, first, ents, what), txt(mounts[0]) if mounts else "?", show(ft["index_offset"])))
        else:
            rep.ok("stored", 1)
        hv = J.deref(ft["index_hash"])
        if tmp:
            n = I.others.get(tmp[0].val.id)
            if not lin_eq(J, ft["index_size"], n):
                rep.bad("stored", "%s index size" % what, "%s: %s, the index has %s" % (describe(p, first, ents, what), show(ft["index_size"]), txt(n)))
            elif not (isinstance(hv, Ad) and hv.k == "digest" and hv.alts[0]["0"] == (tmp[0].val,)):
                rep.bad("stored", "%s index hash" % what, "%s: %s" % (describe(p, first, ents, what), show(hv)))
            else:
                rep.ok("stored", 2)


# ------------------------------------------------------------------ codec and method names
def codec(p, W, rep):
    """what packing a block with a known method hands to which encoder, and unpacking to which decoder"""
    P = p.P
    got = {}
    for fn, side in ((p.pack, "w"), (p.unpack, "r")):
        log = []

        data, buf = Sy(("block",)), Sy(("buffer",))

        def script(I, fr):
            args = [Rf(I.cell(p.zlib()))] + [Rf(I.cell(data if "mut" not in t.s else buf)) for t in fn.ins[1:]]
            return call(I, fr, fn, *args)
        res = []
        for I, r in sessions(W, side, {}, script, fn, rounds=1, callog=log, dead=True):
            if I.dead():
                continue
            res.append(str(I.deepval(r)))
        got[side] = (log, res)
    fam = {}
    for side in "wr":
        log, res = got[side]
        ks = {x for k, n, a in log for x in list(PAIRS) + list(PAIRS.values()) if x in k}
        if len(ks) != 1:
            raise Unmodelled("codec: %s" % sorted(ks))
        fam[side] = next(iter(ks))
        names = {n for k, n, a in log if fam[side] in k or "flate2" in k}
        whole = any("<block>" in a for k, n, a in log if n in ("write_all", "new"))
        part = names & {"write", "read", "take", "by_ref"} or not names & {"write_all", "read_to_end"} or side == "w" and "write_all" in names and "finish" not in names
        if part or not whole:
            rep.bad("codec", fam[side], "%s: %s does not process the whole block (%s)" % ((p.pack if side == "w" else p.unpack).key, fam[side], ", ".join(sorted(names))))
        else:
            rep.ok("codec", 1)
    if PAIRS.get(fam["w"]) != fam["r"]:
        rep.bad("codec", "codec", "blocks are packed with %s and unpacked with %s" % (fam["w"], fam["r"]))
    else:
        rep.ok("codec", 1)


PAIRS = {"ZlibEncoder": "ZlibDecoder", "DeflateEncoder": "DeflateDecoder", "GzEncoder": "GzDecoder"}


# ------------------------------------------------------------------ W09: the structures by themselves
STORED = {"index_encrypted": "IndexEncryption", "encryption_key_guid": "EncryptionKeyGuid", "compression_methods": "FnameBasedCompressionMethod"}


def footer(p, W, rep):
    P = p.P
    wr, rd = method(P, "Footer", "write"), method(P, "Footer", "read")
    k = adt(P, "Footer")
    names = [x["n"] for x in P.adts[adt(P, "PakVersion")]["v"]]
    fields = [f["n"] for f in P.adts[k]["v"][0]["f"]]
    hooks = dict(p.hooks)
    hooks[p.tobytes.key] = lambda I, a, fr, fn: Sy(I.deref(a[0]).p + ("#32",))

    def back(I, a, fr, fn):
        I.curar = I.arid(a)
        s = I.emit("bytes32", None, None, fr, None, I.arid(a), Ln(32, {}))
        return Ad(RES, {0: {"0": Sy(s.p[:-1]) if isinstance(s, Sy) and s.p[-1] == "#32" else s}})
    hooks[p.frombytes.key] = back
    table = [Sy(("method%d" % i,)) for i in range(5)]
    n = 0
    for v, vn in enumerate(names):
        if vn == "Invalid":
            continue
        want = {}
        for f in P.adts[k]["v"][0]["f"]:
            t = f["t"]
            if tyname(t) == "PakVersion":
                want[f["n"]] = Ve("PakVersion")
            elif tyname(t) == "CompressionMethods":
                want[f["n"]] = Ad(p.methods, {0: {"0": Li(None, (), list(table))}})
            elif t.peel().h == OPT:
                want[f["n"]] = Ad(OPT, {1: {"0": Sy((f["n"],))}})
            else:
                want[f["n"]] = Sy((f["n"],))

        def script(I, fr):
            i = next(i for i, t in enumerate(wr.ins) if tyname(t) == "Footer")
            val = Ad(k, {0: dict(want)})
            args = [Ar("main")] * len(wr.ins)
            args[i] = val if wr.ins[i].h not in ("&", "&mut") else Rf(I.cell(val))
            return call(I, fr, wr, *args)

        for I, r in sessions(W, "w", {"PakVersion": (v, v)}, script, wr, hooks=hooks, rounds=2, dead=True):
            if I.dead() or good(r) is None:
                rep.bad("footer", "Footer::write %s" % vn, "refused for version %s" % vn)
                continue
            if I.unknown:
                raise Unmodelled("footer: %s" % sorted(I.unknown)[:3])
            f = File(I)
            gone = lin_add(f.end, I.st.bytes, -1)
            # as the end of a longer file
            f2 = File(I)
            f2.at = {(kk[0], kk[1] | frozenset([(("before",), 1)])): x for kk, x in f.at.items()}
            f2.end = lin_add(f.end, Ln(0, {("before",): 1}))

            def script2(J, fr):
                return call(J, fr, rd, Ar("main"))
            for J, r2 in sessions(W, "r", {}, script2, rd, hooks=hooks, rounds=5, content=f2.content, end=f2.end, assume=I.assume, dead=True):
                rep.fns |= {x for x in I.seen | J.seen if x.startswith(PAK)}
                if J.dead():
                    m = str(conditions(J))
                    if "before" in m or not feasible(J):
                        continue            # only refused when the file is shorter than its footer
                    rep.bad("footer", "Footer::read refuses %s" % vn, "a footer of version %s is refused when %s%s" % (vn, m[:160], misread(f2.missed[0] if f2.missed else None)))
                    continue
                g = J.deepval(good(r2))
                if not isinstance(g, Ad) or g.k != k:
                    raise Unmodelled("Footer::read: %s" % show(g))
                if J.unknown:
                    raise Unmodelled("footer: %s" % sorted(J.unknown)[:3])
                for fn in fields:
                    x, w = J.deref(g.alts[0].get(fn, TOP)), want[fn]
                    gate = STORED.get(fn)
                    there = gate is None or gate not in names or v >= names.index(gate)
                    if not there:
                        continue
                    n += 1
                    if same_field(J, x, w, v) or known_bool(J, x, w):
                        rep.ok("footer", 1)
                    else:
                        rep.bad("footer", "%s in %s" % (fn, vn), "version %s: %s reads back as %s%s" % (vn, fn, show(x), misread(f2.missed[0] if f2.missed else None)))
    rep.floor("footer", n, 60, "fields read back")


def known_bool(J, x, w):
    """a flag read back as the constant the path has it for"""
    while isinstance(w, Ad) and w.k == OPT and isinstance(x, Ad) and x.k == OPT and set(x.alts) == {1} and set(w.alts) == {1}:
        x, w = J.deref(x.alts[1]["0"]), J.deref(w.alts[1]["0"])
    if not isinstance(x, C) or not isinstance(x.v, bool) or not isinstance(w, Sy) or w.ops:
        return False
    for k, t in J.assume.items():
        if k[0] in ("t", "Eq") and k[1] == w.p and k[2] == () and isinstance(t, bool):
            if k[0] == "t" or len(k) > 3 and isinstance(k[3], (bool, int)):
                is_true = t if k[0] == "t" else t == bool(k[3])
                return x.v == is_true
    return False


def same_field(J, x, w, v):
    x = J.deref(x)
    if isinstance(w, Ve):
        return J.num(x) == v or isinstance(x, Ad) and set(x.alts) == {v}
    if isinstance(w, Ad) and w.k == OPT:
        if not (isinstance(x, Ad) and x.k == OPT and set(x.alts) == {1}):
            return False
        return same_field(J, x.alts[1]["0"], w.alts[1]["0"], v)
    if isinstance(w, Ad):
        a, b = J.deref(x.alts[0]["0"]) if isinstance(x, Ad) and x.k == w.k else None, w.alts[0]["0"]
        return isinstance(a, Li) and a.items is not None and [J.deref(q) for q in a.items] == b.items
    if isinstance(x, Cond):
        return x.key == ("Eq", w.p, (), 0) and x.neg is True
    return same_bytes(J, x, w)


def index(p, W, rep):
    """the index with headers and footer as symbols"""
    P = p.P
    wr, rd = method(P, "Index", "write"), method(P, "Index", "read")
    hw, hr = method(P, "Header", "write"), method(P, "Header", "read")
    fw, fr_ = method(P, "Footer", "write"), method(P, "Footer", "read")
    k, fk = adt(P, "Index"), adt(P, "Footer")
    names = [x["n"] for x in P.adts[adt(P, "PakVersion")]["v"]]
    kept = {}

    def h_hw(I, a, fr, fn):
        i = next(i for i, t in enumerate(fn.ins) if tyname(t) == "Header")
        I.curar = I.arid(a)
        I.emit("header", I.deref(a[i]), None, fr, None, I.arid(a), None)
        return Ad(RES, {0: {"0": UNIT}})

    def h_hr(I, a, fr, fn):
        I.curar = I.arid(a)
        return Ad(RES, {0: {"0": I.emit("header", None, None, fr, None, I.arid(a), None)}})

    def h_fw(I, a, fr, fn):
        i = next(i for i, t in enumerate(fn.ins) if tyname(t) == "Footer")
        kept["footer"] = I.deepval(I.deref(a[i]))
        kept["at"] = I.st.bytes
        return Ad(RES, {0: {"0": UNIT}})

    def h_fr(I, a, fr, fn):
        I.st.bytes = Ln(0, {("somewhere",): 1})
        return Ad(RES, {0: {"0": kept["footer"]}})
    hooks = {hw.key: h_hw, hr.key: h_hr, fw.key: h_fw, fr_.key: h_fr}
    cnt = 0
    for v, vn in enumerate(names):
        if vn not in WRITABLE:
            continue
        for n in (0, 1, 2, 3):
            ents = [(Sy(("name%d" % i,)), Sy(("header%d" % i,))) for i in range(n)]

            def script(I, fr):
                ft = Ad(fk, {0: {f["n"]: Ve("PakVersion") if tyname(f["t"]) == "PakVersion" else Sy(("footer", f["n"])) for f in P.adts[fk]["v"][0]["f"]}})
                val = {}
                for f in P.adts[k]["v"][0]["f"]:
                    t = tyname(f["t"])
                    val[f["n"]] = ft if t == "Footer" else Sy((f["n"],)) if t != "Vec" else Li(None, (), [Ad(TUP, {0: {"0": a, "1": b}}) for a, b in ents])
                i = next(i for i, t in enumerate(wr.ins) if tyname(t) == "Index")
                args = [Ar("main")] * len(wr.ins)
                args[i] = Ad(k, {0: val})
                return call(I, fr, wr, *args)
            for I, r in sessions(W, "w", {"PakVersion": (v, v)}, script, wr, hooks=hooks, rounds=2, dead=True):
                kept_ = dict(kept)
                if I.dead() or good(r) is None:
                    rep.bad("index", "Index::write %s" % vn, "refused for version %s" % vn)
                    continue
                f = File(I)

                def script2(J, fr):
                    return call(J, fr, rd, Ar("main"))
                for J, r2 in sessions(W, "r", {"PakVersion": (v, v)}, script2, rd, hooks=hooks, rounds=4, content=f.content, end=f.end, assume=I.assume, dead=True):
                    rep.fns |= {x for x in I.seen | J.seen if x.startswith(PAK)}
                    if J.dead():
                        rep.bad("index", "Index::read refuses %s" % vn, "an index of %d entries, version %s, is refused%s" % (n, vn, misread(f.missed[0] if f.missed else None)))
                        continue
                    g = J.deepval(good(r2))
                    cnt += 1
                    es = J.deref(g.alts[0].get("entries", TOP))
                    es = [] if isinstance(es, Li) and es.items is None and es.e is None else es.items if isinstance(es, Li) else None
                    pairs = [(J.deref(t.alts[0]["0"]), J.deref(t.alts[0]["1"])) for t in map(J.deref, es)] if es is not None else None
                    if pairs != ents:
                        rep.bad("index", "entries in %s" % vn, "version %s: %d entries read back as %s%s" % (vn, n, show(pairs), misread(f.missed[0] if f.missed else None)))
                    elif J.deref(g.alts[0].get("mount_point", TOP)) != Sy(("mount_point",)):
                        rep.bad("index", "mount point in %s" % vn, "version %s: reads back as %s" % (vn, show(g.alts[0].get("mount_point"))))
                    else:
                        rep.ok("index", 1)
                if kept_["at"] != f.end:
                    rep.bad("index", "footer place in %s" % vn, "version %s: something follows the footer" % vn)
    rep.floor("index", cnt, 30, "indexes read back")


def W09(P, rep):
    from wirecheck import run as wire
    W = World(P)
    import lint
    wire(P, rep, ["pak"], W)
    lint.check(P, rep, ["unreal_pak::"])
    try:
        p = Pak(W)
        footer(p, W, rep)
        index(p, W, rep)
        table(p, W, rep)
    except Unmodelled as e:
        rep.unsure("pak", "pak", "not modelled: %s" % e)
    except TooMany:
        rep.unsure("pak", "pak", "too many paths")


def table(p, W, rep):
    """names and numbers of compression methods: what is stored for a method is read as that method"""
    P = p.P
    C_ = lambda f: f.self_ty is not None and tyname(f.self_ty) == "Compression"
    num = only(P, lambda f: C_(f) and len(f.ins) == 3 and tyname(f.ins[0]) == "Compression" and "u32" in f.out.s, "Compression -> number")
    back = only(P, lambda f: C_(f) and len(f.ins) == 3 and f.ins[0].h == "u32", "number -> Compression")
    pads = find(P, lambda f: len(f.ins) == 1 and f.ins[0].s.endswith("[u8]") and f.out.s == "[u8; 32]")

    def h_pad(I, a, fr, fn):
        v = I.deref(a[0])
        if not (isinstance(v, C) and isinstance(v.v, str)):
            raise Unmodelled("padding of %s" % v)
        b = v.v.encode()
        return Li(None, (), [C(x) for x in b[:32]] + [C(0)] * (32 - len(b)))
    hooks = {f.key: h_pad for f in pads}

    def one(side, script, root, cfg=(), **kw):
        out = []
        for I, r in sessions(W, side, dict(cfg), script, root, hooks=hooks, rounds=6, dead=True, **kw):
            rep.fns |= {x for x in I.seen if x.startswith(PAK)}
            if I.unknown:
                raise Unmodelled("methods: %s" % sorted(I.unknown)[:3])
            out.append(I.deepval(good(r)) if not I.dead() else None)
        return out

    for name, m in (("None", p.none()), ("Zlib", p.zlib())):
        b = one("w", lambda I, fr: call(I, fr, p.tobytes, Rf(I.cell(m))), p.tobytes)
        if len(b) != 1 or not isinstance(b[0], Li) or b[0].items is None:
            raise Unmodelled("stored name of %s: %s" % (name, show(b)))
        got = one("r", lambda I, fr: call(I, fr, p.frombytes, Ar("main")), p.frombytes, content=lambda I, label, pos, nb: (b[0], nb), end=Ln(32, {}))
        if got != [m]:
            rep.bad("methods", "stored name of %s" % name, "the stored name of %s is read as %s" % (name, show(got)))
        else:
            rep.ok("methods", 1)
    names = [x["n"] for x in P.adts[adt(P, "PakVersion")]["v"]]
    for v, vn in enumerate(names):
        if vn == "Invalid":
            continue
        for at in range(5):
            t = Ad(p.methods, {0: {"0": Li(None, (), [p.zlib() if i == at else p.none() for i in range(5)])}})
            for name, m in (("None", p.none()), ("Zlib", p.zlib())):
                k = one("w", lambda I, fr: call(I, fr, num, Rf(I.cell(m)), Ve("PakVersion"), Rf(I.cell(t))), num, {"PakVersion": (v, v)})
                if len(k) != 1 or not isinstance(k[0], C):
                    if k == [None]:
                        rep.bad("methods", "number of %s in %s" % (name, vn), "version %s: %s, number %d of the table, has no number" % (vn, name, at))
                        continue
                    raise Unmodelled("number of %s: %s" % (name, show(k)))
                got = one("r", lambda I, fr: call(I, fr, back, k[0], Ve("PakVersion"), Rf(I.cell(t))), back, {"PakVersion": (v, v)})
                if got != [m]:
                    rep.bad("methods", "number of %s in %s" % (name, vn), "version %s, %s being number %d of the table: written as %s, which is read as %s" % (vn, name, at, k[0].v, show(got)))
                else:
                    rep.ok("methods", 1)


def refusals(p, W, rep):
    """an entry cannot be written twice; a name that is not there is not found"""
    P = p.P
    put = method(P, "PakWriter", "write_entry")
    a = [(Sy(("name0",)), Sy(("data0",))), (Sy(("name0",)), Sy(("data1",)))]
    script, root = p.write_writer(8, p.zlib(), a, (False, False))
    n = 0
    for I, r in sessions(W, "w", {"PakVersion": (8, 8)}, script, root, hooks=p.hooks, rounds=1, dead=True):
        n += 1
        if not I.dead() and good(r) is not None:
            rep.bad("refusal", "PakWriter twice", "PakWriter::write_entry accepts the same name twice")
        else:
            rep.ok("refusal", 1)
    rep.floor("refusal", n, 1, "paths")
