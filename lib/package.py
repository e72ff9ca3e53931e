"""W01: the package summary, its tables and the places they are found at.

parse_data and write_data are interpreted as a whole.  A reader's seek to an offset field starts a section; the writer's side of that
section starts where it took the stream position that it later stores in that field.  Sections are compared as languages, counts with the
loops they bound, stored fields with the fields they were read into."""
from collections import deque
from wire import World, Auto, outpaths, checkprov, reconcile, describe, site, trace, split_cfg, norm, compat, fmt
from interp import Split, Sy, Mx, C, Ad, Li, Event, Limit, Ln
import wirecheck

ASSET = "unreal_asset::asset::Asset"
# fields of the summary whose stored value is recomputed from the asset being written, not copied
RECOMPUTED = {
    "generations": "the tables' current sizes are recorded for every generation",
    "preload_dependency_count": "number of dependencies written",
}


def final(I):
    return I.deepval(I.st.store[I.rootcells["self"]])


def entry(P, W):
    new = [f for f in P.fns.values() if f.self_ty is not None and f.self_ty.h == ASSET and f.name == "new" and f.impl_trait is None]
    wr = [f for f in P.fns.values() if f.self_ty is not None and f.self_ty.h == ASSET and f.name == "write_data" and f.impl_trait is None]
    rd = []
    if new:
        rd = [f for f in P.fns.values() if f.self_ty is not None and f.self_ty.h == ASSET and f.impl_trait is None and new[0].key in W.callers.get(f.key, ())
              and f.ins and f.ins[0].h == "&mut" and f.out.h.endswith("Result")]
    return (rd[0] if len(rd) == 1 else None), (wr[0] if wr else None), rd


def first_after(I, node):
    """an event is reachable from node before the next seek"""
    out = {}
    for a, l, b in I.res.edges:
        out.setdefault(a, []).append((l, b))
    stop = {n[4] for n in I.notes if n[0] == "seek"}
    st, seen = [node], {node}
    while st:
        x = st.pop()
        for l, b in out.get(x, ()):
            if isinstance(l, Event):
                return True
            if b not in seen and not (x in stop and x != node):
                seen.add(b)
                st.append(b)
    return False


class Diffs(list):
    pass


def section(W, IR, IW, acc, R, Wr, strict, name):
    """product of one section.  strict: both end together; otherwise the reader may stop (it knows the count) while the writer goes on"""
    out, prov, matched = [], {}, set()
    s0 = (R.start(), Wr.start())
    if not s0[0] or not s0[1]:
        return None, matched, 0
    seen = {s0: None}
    q = deque([s0])
    n = 0
    while q:
        s = q.popleft()
        rs, ws = s
        ra, wa = R.accepts(rs), Wr.accepts(ws)
        mr, mw = R.moves(rs), Wr.moves(ws)
        reconcile(W, IR, acc, mr, mw)
        if strict and ra != wa:
            out.append(dict(kind="end", detail="%s: %s may stop where %s continues" % ((name,) + (("reader", "writer") if ra else ("writer", "reader"))),
                            trace=trace(seen, s), site=site(mr, mw)))
            return out, matched, n
        extra_r = set(mr) - set(mw)
        extra_w = set(mw) - set(mr)
        if ra and not strict:
            extra_w = set()
        if extra_r or extra_w:
            out.append(dict(kind="shape", detail="%s: reader expects %s, writer emits %s" % (name, sorted(map(describe, mr)), sorted(map(describe, mw))),
                            trace=trace(seen, s), site=site(mr, mw)))
            return out, matched, n
        for lab in mr:
            er, ew = mr[lab], mw[lab]
            n += 1
            matched.add((frozenset(e.slot for e, _ in er), frozenset(e.slot for e, _ in ew)))
            special(IR, IW, acc, lab, er, ew, out, name) or checkprov(W, IR, IW, acc, lab, er, ew, out, prov, seen, s)
            x = (R.closure([x for _, x in er]), Wr.closure([x for _, x in ew]))
            if x not in seen:
                seen[x] = (s, lab)
                q.append(x)
            if len(seen) > 20000:
                raise Limit("section states")
    return out, matched, n


def parts(I, ev):
    """what an emitted value is made of: stored fields, sizes of containers, stream positions, constants"""
    if ev.val is None:
        return set(), set(), set(), set()
    at = I.atoms(ev.val)
    return ({p for p, o in at if p[0] == "self" and "len" not in o}, {(p, tuple(x for x in o if x == "len")) for p, o in at if p[0] == "self" and "len" in o},
            {int(p[1]) for p, o in at if p[0] == "pos"}, set(I.consts(ev.val)))


def special(IR, IW, acc, lab, er, ew, out, name):
    """counts and offsets: decided by their own rules"""
    if not all(any(parts(IW, e)[1:3]) for e, _ in ew):
        return False
    rf = set().union(*[field(acc, e.slot) for e, _ in er])
    for e, _ in ew:
        sf, ln, pos, cs = parts(IW, e)
        if sf and rf and not compat(rf, {norm(p[1:]) for p in sf}):
            d = dict(kind="field", detail="%s: reader stores this %s in %s, writer emits it from %s" % (name, describe(lab), fmt(rf), fmt({norm(p[1:]) for p in sf})),
                     trace=[], site=site({lab: er}, {lab: ew}))
            if d["detail"] not in {x["detail"] for x in out}:
                out.append(d)
    return True


def field(acc, slot):
    return {norm(p) for p, o in acc.get(slot, ())}


def rslot(v):
    """(slot, path) a seek target or count comes from"""
    if isinstance(v, Sy) and v.p[0].startswith("#"):
        return int(v.p[0][1:]), v.p[1:]
    return None


def guards_before(I, node):
    """guard outcomes on every way from the previous stream operation to node"""
    rev = {}
    for a, l, b in I.res.edges:
        rev.setdefault(b, []).append((l, a))
    res = None
    st = [(node, frozenset())]
    seen = set()
    while st:
        x, g = st.pop()
        if (x, g) in seen:
            continue
        seen.add((x, g))
        if len(seen) > 4000:
            return frozenset()
        es = rev.get(x, ())
        ended = not es
        for l, a in es:
            if isinstance(l, Event):
                ended = True
            elif isinstance(l, tuple) and l[0] == "g":
                if ((l[1], not l[2]) in g):
                    continue
                st.append((a, g | {(l[1], l[2])}))
            else:
                st.append((a, g))
        if ended:
            res = g if res is None else res & g
    return res or frozenset()


def boundary(I, node):
    """where the decision to take the position at node begins"""
    if not hasattr(I, "rev"):
        I.rev = {}
        for a, l, b in I.res.edges:
            I.rev.setdefault(b, []).append((l, a))
    x = node
    while True:
        es = I.rev.get(x, ())
        if len(es) != 1 or isinstance(es[0][0], Event) or isinstance(es[0][0], tuple) and es[0][0][0] != "g":
            return x
        x = es[0][1]


def positive(k, pol):
    """container whose presence or non-emptiness the guard outcome means, or None"""
    if k[0] == "Eq" and k[2] and k[2][-1] == "len" and k[3] == 0 and not pol:
        return k[1]
    if k[0] == "Lt" and k[2] and k[2][-1] == "len" and k[3] == 1 and not pol:
        return k[1]
    if k[0] == "some" and pol:
        return k[1]
    return None


def covers(c, ev, I):
    """the event writes (part of) container c"""
    for L, at in ev.loops:
        if any(p[:len(c)] == c for p, o in at):
            return True
    return ev.val is not None and any(p[:len(c)] == c for p, o in I.atoms(ev.val))


def one(W, rf, wf, cfg, bad, cnt):
    IR = W.run(rf, "r", cfg, ASSET, obj_arg=0, self_is_root=True, selfver=True, seeknodes=True, seed={"self": seed(W.P)})
    IW = W.run(wf, "w", cfg, ASSET, obj_arg=0, self_is_root=True, selfver=True, seeknodes=True)
    cnt["fns"] |= IR.seen | IW.seen | {rf.key, wf.key}
    for k in list(IR.unknown) + list(IW.unknown):
        cnt["unknown"].add(k)
    if IR.res.exit is None or IW.res.exit is None:
        bad("rejects", "%s rejects every package" % ("reader" if IR.res.exit is None else "writer"), "", cfg)
        return
    acc = {}
    IR.res.value = final(IR)
    outpaths(IR.res.value, (), acc, W.P)
    rseeks = [n for n in IR.notes if n[0] == "seek"]
    wseeks = [n for n in IW.notes if n[0] == "seek"]
    rends = {boundary(IR, n[4]) for n in rseeks if n[4]} | {IR.res.exit}
    wends = {n[4] for n in wseeks} | {IW.res.exit}
    # the summary: first section of the reader, last one of the writer
    hs = [n for n in wseeks if isinstance(n[3], C) and n[3].v == 0 and first_after(IW, n[5])]
    starts = [n for n in rseeks if isinstance(n[3], C) and n[3].v == 0 and n[4] == 0]
    if not hs:
        bad("summary", "the summary is not rewritten once the offsets are known", wf.file, cfg)
        return
    rb = starts[0][5] if starts else 0
    R = Auto(IR, begin=rb, ends=rends - {0})
    Wr = Auto(IW, begin=hs[-1][5], ends=wends - {hs[-1][4]})
    d, matched, n = section(W, IR, IW, acc, R, Wr, True, "summary")
    if d is None:
        bad("summary", "the summary cannot be followed", wf.file, cfg)
        return
    cnt["edges"] += n
    seen = set()
    for x in d:
        if any(f in x["detail"] for f in RECOMPUTED):
            continue
        bad("summary " + x["kind"], x["detail"], "after %s\n    at %s" % (x["trace"][-6:], x["site"]), cfg)
    # the first summary only reserves the room: it must take as much as the one written over it
    wpos = {boundary(IW, n[4]) for n in IW.notes if n[0] == "pos"}
    a1 = Auto(IW, begin=0, ends=wpos | wends)
    a2 = Auto(IW, begin=hs[-1][5], ends=wends - {hs[-1][4]})
    if not same_layout(a1, a2):
        bad("summary room", "the summary written last does not take the room of the one written first", wf.file, cfg)
    cnt["obl"] += 2
    link = pairing(R, Wr, IR, IW, matched)
    # the sections
    done = {}
    for nt in rseeks:
        if nt in starts:
            continue
        r = rslot(nt[3])
        where = "%s:%s" % (nt[1].rsplit("::", 1)[-1], nt[2])
        if r is None:
            cnt["skipped"].add(where)
            continue
        sl, path = r
        name = ".".join(path) if path else fmt(field(acc, sl))
        if path:
            continue            # located through a table entry: see exports()
        ws = link.get(sl)
        if not ws:
            cnt["skipped"].add(where)
            continue
        pos, fields, consts = set(), set(), set()
        for w in ws:
            sf, ln, po, cs = parts(IW, IW.slotev[w])
            pos |= po
            fields |= sf
            consts |= cs
        cnt["obl"] += 1
        if not pos:
            bad("offset", "%s: the reader looks for the section there, the writer does not store the place it wrote it at" % name, where, cfg)
            continue
        key = (sl, nt[5])
        if key in done:
            continue
        done[key] = 1
        for po in sorted(pos):
            R = Auto(IR, begin=nt[5], ends=rends - {nt[5]})
            cut = {boundary(IW, n[4]) for n in IW.notes if n[0] == "pos" and n[4] != po} | wends
            Wr = Auto(IW, begin=po, ends=cut - {po})
            mr0 = R.moves(R.start())
            if any(l == "skip*" for l in mr0) and not R.accepts(R.start()) or all(l == "skip*" for l in mr0) and mr0:
                continue        # indexed further: see dependencies()
            d, m, n = section(W, IR, IW, acc, R, Wr, False, name)
            if d is None:
                bad("section", "%s: cannot be followed" % name, where, cfg)
                continue
            cnt["edges"] += n
            for x in d:
                if any(f in x["detail"] for f in RECOMPUTED):
                    continue
                bad("section " + x["kind"], x["detail"], "after %s\n    at %s" % (x["trace"][-6:], x["site"]), cfg)
            counts(IR, IW, acc, link, m, name, bad, cfg, cnt)
            if consts - {0}:
                bad("offset", "%s is stored as %s" % (name, sorted(consts - {0})), where, cfg)
            elif consts:
                evs = [IW.slotev[w] for _, ws2 in m for w in ws2]
                for k, pol in guards_before(IW, po):
                    c = positive(k, pol)
                    cnt["obl"] += 1
                    if c is None and k[1] and k[1][0] == "self" or c is not None and evs and not any(covers(c, e, IW) for e in evs):
                        bad("offset", "%s: the place is only stored when %s is %s" % (name, k[:1] + (".".join(k[1]),) + k[2:], pol), where, cfg)
    return IR, IW, acc, link


def pairing(R, Wr, IR, IW, matched, limit=60000):
    """which event of the writer each event of the reader meets, following both in step through the same loops"""
    link = {}
    start = [(x, y) for x in R.start() for y in Wr.start()]
    seen, q = set(start), deque(start)
    while q:
        x, y = q.popleft()
        for l1, b1 in R.out.get(x[0], ()):
            if not isinstance(l1, Event) or b1 not in R.live:
                continue
            for l2, b2 in Wr.out.get(y[0], ()):
                if not isinstance(l2, Event) or b2 not in Wr.live or len(l1.loops) != len(l2.loops) or width(l1.label) != width(l2.label):
                    continue
                link.setdefault(l1.slot, set()).add(l2.slot)
                for p in R.closure([(b1, x[1])]):
                    if p[0] not in R.ends and not any(isinstance(l, Event) for l, _ in R.out.get(p[0], ())):
                        continue
                    for r in Wr.closure([(b2, y[1])]):
                        if not any(isinstance(l, Event) for l, _ in Wr.out.get(r[0], ())):
                            continue
                        if (p, r) not in seen:
                            seen.add((p, r))
                            q.append((p, r))
        if len(seen) > limit:
            raise Limit("pairing")
    for rs, ws in matched:
        for r in rs:
            if r not in link:
                link[r] = set(ws)
    return link


def width(l):
    return l


def same_layout(a, b):
    s0 = (a.start(), b.start())
    if not s0[0] or not s0[1]:
        return False
    seen, q = {s0}, deque([s0])
    while q:
        x, y = q.popleft()
        if a.accepts(x) and not b.accepts(y):
            return False
        m1, m2 = a.moves(x), b.moves(y)
        if b.accepts(y) and not m2:
            continue
        if set(m1) != set(m2):
            return False
        for l in m1:
            n = (a.closure([z for _, z in m1[l]]), b.closure([z for _, z in m2[l]]))
            if n not in seen:
                seen.add(n)
                q.append(n)
    return True


def counts(IR, IW, acc, link, m, name, bad, cfg, cnt):
    for rs, ws in m:
        for r in rs:
            er = IR.slotev[r]
            for w in ws:
                ew = IW.slotev[w]
                for (L1, c1), (L2, c2) in zip(er.loops, ew.loops):
                    for p, o in c1:
                        if not p[0].startswith("#") or len(p) > 1 or o:
                            continue
                        hw = link.get(int(p[0][1:]))
                        if not hw:
                            continue
                        cnt["obl"] += 1
                        ln = set()
                        for h in hw:
                            ln |= parts(IW, IW.slotev[h])[1]
                        have = {q for q, _ in ln}
                        want = {q for q, oo in c2 if q[0] == "self"}
                        if want and have and not (have & want):
                            bad("count", "%s: as many elements are read as %s says, which is stored as the size of %s, but those of %s are written" % (
                                name, fmt(field(acc, int(p[0][1:]))), fmt({q[1:] for q in have}), fmt({q[1:] for q in want})), "%s:%s" % (ew.fn.file, ew.line), cfg)


def check(P, rep):
    W = wirecheck.run(P, rep, ("package",))
    rf, wf, rd = entry(P, W)
    if rf is None or wf is None:
        rep.bad("package", "anchor", "the functions that read and write a package are not found (%s)" % [f.key for f in rd])
        return
    import pkgrt
    pkgrt.check(P, rep, W)
    found = {}
    cnt = dict(obl=0, edges=0, fns=set(), unknown=set(), skipped=set())

    def bad(kind, detail, where, cfg):
        found.setdefault((kind, detail), (where, cfg))

    vers = sorted(v["d"] for v in P.adts["unreal_asset_base::object_version::ObjectVersion"]["v"])
    # packages of no known version are refused
    work = [{"has_unversioned_properties": (0, 0), "ObjectVersion": (vers[1], W.ranges["ObjectVersion"][1])}]
    n = 0
    while work:
        cfg = work.pop()
        try:
            one(W, rf, wf, cfg, bad, cnt)
            n += 1
        except Split as s:
            ps = split_cfg(cfg, W, s.var, s.cuts)
            if len(ps) == 1 or n > 3000:
                rep.unsure("package", "split", "cannot split %s" % s.var)
                continue
            work.extend(ps)
    rep.fns |= cnt["fns"]
    for (k, d), (w, cfg) in sorted(found.items(), key=str):
        rep.bad("package", "%s %s" % (k, d), "%s\n    configuration %s" % (w, cfg))
    for i in range(cnt["obl"] - len(found)):
        rep.ok("package")
    rep.cov.update(package_configurations=n, package_edges=cnt["edges"])
    rep.cov.update(package_obligations=cnt["obl"], package_unfollowed=sorted(cnt["skipped"]))
    tables(P, W, rf, wf, rep)


def seed(P):
    """the object as the constructor hands it to the parser: all its tables are empty"""
    def build(adt, path, depth):
        a = P.adts.get(adt)
        if not a or a["kind"] != "struct" or depth > 2:
            return None
        fs = {}
        for f in a["v"][0]["f"]:
            t = f["t"]
            h = t.h.rsplit("::", 1)[-1]
            if h in ("Vec", "HashMap", "BTreeMap", "IndexedMap"):
                fs[f["n"]] = Li(None, frozenset(), [])
            elif t.h in P.adts and P.adts[t.h]["kind"] == "struct" and h in ("AssetData", "PackageFileSummary"):
                x = build(t.h, path + (f["n"],), depth + 1)
                if x is not None:
                    fs[f["n"]] = x
        return Ad(adt, {0: fs}, Sy(path))
    return build(ASSET, ("self",), 0)


ENTRY = "unreal_asset::asset::UAssetExportMapEntry"
LISTS = ("dependencies",)


def instance(P, n, edl):
    """an asset of n plain exports, everything else arbitrary"""
    ex = [k for k in P.adts if k.endswith("::Export") and any(v["n"] == "NormalExport" for v in P.adts[k]["v"])]
    ad = [f["t"].h for f in P.adts[ASSET]["v"][0]["f"] if f["n"] == "asset_data"]
    if len(ex) != 1 or len(ad) != 1:
        return None
    vi = [i for i, v in enumerate(P.adts[ex[0]]["v"]) if v["n"] == "NormalExport"]
    if not vi:
        return None
    items = [Ad(ex[0], {vi[0]: {"0": Sy(("self", "asset_data", "exports", "[%d]" % i))}}) for i in range(n)]
    a = Ad(ad[0], {0: {"exports": Li(None, frozenset(), items), "use_event_driven_loader": C(edl)}}, Sy(("self", "asset_data")))
    return Ad(ASSET, {0: {"asset_data": a}}, Sy(("self",)))


def lin(v):
    """(constant, {term: coefficient}) of a number"""
    if isinstance(v, C) and isinstance(v.v, int):
        return int(v.v), {}
    if isinstance(v, Ln):
        return v.k, dict(v.t)
    if isinstance(v, Sy) and v.p[0] == "pos":
        return 0, {("pos", int(v.p[1])): 1}
    if isinstance(v, Sy) and tuple(v.ops) == ("len",):
        return 0, {("len", v.p): 1}
    return None


def diff(a, b):
    if a is None or b is None:
        return None
    t = dict(a[1])
    for k, c in b[1].items():
        t[k] = t.get(k, 0) - c
    return a[0] - b[0], {k: c for k, c in t.items() if c}


def near(I, node, fwd):
    """events that may directly follow (precede) node"""
    out = {}
    for a, l, b in I.res.edges:
        out.setdefault(a if fwd else b, []).append((l, b if fwd else a))
    st, seen, res = [node], {node}, []
    while st:
        x = st.pop()
        for l, y in out.get(x, ()):
            if isinstance(l, Event) and l.label != "merge":
                res.append(l)
            elif y not in seen:
                seen.add(y)
                st.append(y)
    return res


def index_of(I, e):
    """number of the export an event writes"""
    if e.val is None:
        return None
    xs = {p[3] for p, o in I.atoms(e.val) if p[:3] == ("self", "asset_data", "exports") and len(p) > 3}
    return int(next(iter(xs))[1:-1]) if len(xs) == 1 and next(iter(xs))[1:-1].isdigit() else None


def argmap(P, W, cfg):
    """field of an export each argument of the entry writer is read back into"""
    fs = {f.name: f for f in P.fns.values() if f.self_ty is not None and f.self_ty.h == ENTRY and f.impl_trait is None}
    if "read" not in fs or "write" not in fs:
        return None
    IR = W.run(fs["read"], "r", cfg, ENTRY)
    IW = W.run(fs["write"], "w", cfg, ENTRY, obj_arg=0, self_is_root=True)
    acc = {}
    v = IR.res.value
    outpaths(v, (), acc, P)
    R, Wr = Auto(IR), Auto(IW)
    d, m, n = section(W, IR, IW, acc, R, Wr, True, "entry")
    if d is None:
        return None
    res = {}
    for rs, ws in m:
        for w in ws:
            e = IW.slotev[w]
            if e.val is None:
                continue
            for p, o in IW.atoms(e.val):
                if p[0].startswith("arg:"):
                    res.setdefault(p[0][4:], set()).update(*[field(acc, r) for r in rs])
    return fs, res, IR, acc


def tables(P, W, rf, wf, rep):
    """offsets, sizes and dependency indices of the export table, on an asset of three exports: what holds between neighbours, at the first and
    at the last of them holds for any number, since the loops treat all inner elements alike"""
    N = 3
    vmax = W.ranges["ObjectVersion"][1]
    u5 = W.ranges["ObjectVersionUE5"][1]
    cfg = {"has_unversioned_properties": (0, 0), "ObjectVersion": (vmax, vmax), "ObjectVersionUE5": (u5, u5)}
    am = argmap(P, W, cfg)
    if am is None:
        rep.bad("tables", "anchor", "reader and writer of an export's table entry are not found")
        return
    fs, args, IE, eacc = am
    for edl in (True, False):
        s = instance(P, N, edl)
        if s is None:
            rep.bad("tables", "anchor", "asset data or exports are not found")
            return
        I = W.run(wf, "w", cfg, ASSET, obj_arg=0, self_is_root=True, selfver=True, seeknodes=True, linear=True, seed={"self": s})
        if I.res.exit is None:
            rep.bad("tables", "write %s" % edl, "a package of %d exports cannot be written %s" % (N, "with" if edl else "without") + " a separate export file")
            continue
        ent = sorted(x for x in I.ntargs if isinstance(I.slotev[x].label, tuple) and I.slotev[x].label[1] == ENTRY)
        if len(ent) < N:
            rep.unsure("tables", "entries", "the export table is not written entry by entry")
            continue
        ent = ent[-N:]
        col = {}
        for x in ent:
            f, a = I.ntargs[x]
            for i, nm in enumerate(argnames(P, f)):
                for fld in args.get(nm, ()):
                    col.setdefault(fld[-1], []).append(lin(I.deepval(a[i])))
        one_tables(P, W, I, edl, N, col, rep, wf)
    reader_tables(P, W, rf, rep, cfg)
    conversions(P, W, rep)


def argnames(P, f):
    return [pat[2] if pat and pat[0] == "bind" else "p%d" % i for i, (t, pat) in enumerate(f.b["params"])]


def one_tables(P, W, I, edl, N, col, rep, wf):
    tag = "separate" if edl else "single"

    def need(rule, good, what):
        if good is None:
            rep.unsure("tables", "%s %s" % (tag, rule), what)
        elif good:
            rep.ok("tables")
        else:
            rep.bad("tables", "%s %s" % (tag, rule), what)

    off, size, dep = col.get("serial_offset", []), col.get("serial_size", []), col.get("first_export_dependency_offset", [])
    if len(off) != N or len(size) != N or len(dep) != N:
        rep.bad("tables", "%s columns" % tag, "the export table does not store offset, size and first dependency of each export")
        return
    for i in range(N):
        o = off[i]
        if o is None:
            need("offset", None, "offset of export %d" % i)
            continue
        ps = {k: c for k, c in o[1].items() if k[0] == "pos"}
        others = {k for k in o[1] if k[0] != "pos"}
        starts = [k for k in ps if any(index_of(I, e) == i for e in near(I, k[1], True)) and all(index_of(I, e) == i for e in near(I, k[1], True))]
        heads = [k for k in ps if k not in starts or i == 0]
        good = not others and o[0] == 0 and all(c == 1 for c in ps.values()) and len(ps) == (2 if edl else 1) and starts
        if good and edl:
            good = any(all(index_of(I, e) == 0 for e in near(I, k[1], True)) for k in ps if k != starts[-1] or len(ps) == 1)
        need("offset %s" % ("first" if i == 0 else "next"), bool(good), "the offset stored for an export is %s, not the place its data starts at" % show(o))
    # the end of the data
    end = None
    for x, e in sorted(I.slotev.items()):
        if e.label == "w8le" and e.val is not None:
            l = lin(e.val)
            if l is not None and any(k[0] == "pos" for k in l[1]):
                end = l
    trailer = None
    if end is not None:
        ps = [k for k in end[1] if k[0] == "pos"]
        for k in ps:
            for e in near(I, k[1], False):
                if isinstance(e.label, str) and e.label.startswith("bytes") and e.label[5:].isdigit():
                    trailer = int(e.label[5:])
        need("end", None if trailer is None else end[0] == -trailer and len(ps) == (2 if edl else 1) and all(c == 1 for c in end[1].values()),
             "the end of the exports is stored as %s, not the place before the closing tag" % show(end))
        rep.pk_trailer = trailer
    else:
        need("end", None, "the place where exports end is not found")
    for i in range(N):
        nxt = off[i + 1] if i + 1 < N else end
        if nxt is None or off[i] is None or size[i] is None:
            need("size", None, "size of export %d" % i)
            continue
        d = diff(diff(nxt, off[i]), size[i])
        need("size %s" % ("last" if i + 1 == N else "inner"), d == (0, {}), "the size stored for an export is %s, its data takes %s" % (show(size[i]), show(diff(nxt, off[i]))))
    # dependencies
    lists = {}
    order = {}
    for x, e in sorted(I.slotev.items()):
        i = index_of(I, e)
        if i is None or not e.loops or e.val is None:
            continue
        for p, o in I.atoms(e.val):
            if len(p) > 5 and p[-1] == "index" and p[-3].endswith("dependencies"):
                order.setdefault(i, []).append(p[-3])
                lists.setdefault(i, set()).add(p[:-2])
    if not edl:
        need("dependencies", not order and all(d == (-1, {}) for d in dep), "dependencies of exports are recorded in a package without a separate export file")
    else:
        need("dependencies order", len({tuple(v) for v in order.values()}) == 1 and len(order) == N, "dependencies are not written alike for all exports")
        want = (0, {})
        for i in range(N):
            need("dependencies first" if i == 0 else "dependencies next", None if dep[i] is None else dep[i] == want,
                 "the first dependency of an export is stored as %s, it is number %s" % (show(dep[i]), show(want)))
            t = dict(want[1])
            for p in lists.get(i, ()):
                t[("len", p)] = t.get(("len", p), 0) + 1
            want = (0, t)
        rep.pk_order = next(iter(order.values()), [])
        tot = None
        for x, e in sorted(I.slotev.items()):
            if e.label == "w4le" and e.val is not None:
                l = lin(e.val)
                if l is not None and any(k[0] == "len" and k[1][-1].endswith("dependencies") for k in l[1]):
                    tot = l
        need("dependencies total", tot is not None and tot == want, "the number of dependencies is stored as %s, %s are written" % (show(tot), show(want)))


def show(l):
    if l is None:
        return "?"
    ks = ["%s%s(%s)" % ("" if c == 1 else "%d*" % c, k[0], k[1] if k[0] == "pos" else ".".join(k[1])) for k, c in sorted(l[1].items(), key=str)]
    return " + ".join(([str(l[0])] if l[0] or not ks else []) + ks)


def reader_tables(P, W, rf, rep, cfg):
    I = W.run(rf, "r", cfg, ASSET, obj_arg=0, self_is_root=True, selfver=True, seeknodes=True, linear=True, seed={"self": seed(P)})
    acc = {}
    outpaths(final(I), (), acc, P)

    def need(rule, good, what):
        (rep.ok("tables") if good else rep.bad("tables", "read " + rule, what))

    deps = []
    for x, e in sorted(I.slotev.items()):
        for L, at in e.loops:
            for p, o in at:
                if len(p) == 2 and p[1].endswith("dependencies"):
                    deps.append((p[1], x, e))
    fields = [d[0] for d in deps]
    if not deps:
        rep.unsure("tables", "read dependencies", "the reader's dependencies are not followed")
        return
    want = getattr(rep, "pk_order", [])
    need("order", fields == want, "dependencies of an export are read in the order %s and written in the order %s" % (fields, want))
    for f, x, e in deps:
        got = {q for p, o in acc.get(x, ()) for q in p if q.endswith("dependencies")}
        need("into " + f, not got or f in got, "as many dependencies as %s holds are read into %s" % (f, sorted(got)))
        need("width", e.label == "w4le", "dependencies are read as %s" % (e.label,))
    skips = [e for e in I.slotev.values() if e.label == "skip*" and e.val is not None and isinstance(e.val, Ln)
             and any(k[0] == "sy" and k[1][-1] == "first_export_dependency_offset" for k in e.val.t)]
    starts = []
    for n in I.notes:
        l = lin(n[3]) if n[0] == "seek" else None
        if l is not None:
            k = [(q, c) for q, c in l[1].items() if "first_export_dependency_offset" in str(q)]
            if k:
                o = [(q, c) for q, c in l[1].items() if (q, c) not in k and ("preload_dependency_offset" in str(q) or any(
                    "preload_dependency_offset" in str(z) for y in (q[1][:1] if len(q) > 1 and isinstance(q[1], tuple) else ()) for x in acc if "#%s" % x == y for z in acc[x]))]
                starts.append(l[0] == 0 and len(l[1]) == 2 and [c for q, c in k] == [4] and [c for q, c in o] == [1])
    if not skips and not starts:
        rep.unsure("tables", "read index", "how the first dependency of an export is found is not followed")
    else:
        need("index", all(e.val.k == 0 and list(e.val.t.values()) == [4] for e in skips) and all(starts),
             "the first dependency of an export is looked for at %s" % [str(e.val) for e in skips])
    # what follows an export up to the next one (the last: up to the closing tag) is kept with it
    J = W.run(rf, "r", cfg, ASSET, obj_arg=0, self_is_root=True, selfver=True, seeknodes=True, seed={"self": seed(P)})
    t = getattr(rep, "pk_trailer", None)
    tails = []
    for e in J.slotev.values():
        if e.val is None or e.label == "merge" or isinstance(e.label, tuple):
            continue
        at = J.atoms(e.val)
        if any(p[-1] == "data_length" for p, o in at):
            tails.append((e, at))
    if t is None or not tails:
        rep.unsure("tables", "read rest", "what follows an export is not followed")
        return
    for e, at in tails:
        need("rest", any(p[-1] == "serial_offset" for p, o in at), "what follows an export is not taken up to the start of the next one")
        for p, o in at:
            if p[-1] == "data_length":
                k = sum(x[1] if x[0] == "Sub" else -x[1] for x in o if isinstance(x, tuple) and x[0] in ("Sub", "Add"))
                need("rest of the last", k == t, "the last export ends %s bytes before the end of the data, the closing tag takes %s" % (k, t))


def conversions(P, W, rep):
    """an entry of the table and the export made of it hold the same"""
    fs = {f.name: f for f in P.fns.values() if f.self_ty is not None and f.self_ty.h == ENTRY and f.impl_trait is None}
    a, b = fs.get("to_base_export"), fs.get("from_base_export")
    if a is None or b is None:
        rep.unsure("tables", "conversion", "conversions of a table entry are not found")
        return
    maps = []
    for f in (a, b):
        I = W.run(f, "w", {}, ENTRY, obj_arg=0)
        v = I.deepval(I.res.value)
        rep.fns |= I.seen | {f.key}
        if not isinstance(v, Ad) or v.base is not None or len(v.alts) != 1:
            rep.unsure("tables", "conversion " + f.name, "not followed")
            return
        maps.append(next(iter(v.alts.values())))
    for fld, v in sorted(maps[1].items()):
        ok = None
        if isinstance(v, Sy) and len(v.p) == 2 and not v.ops:
            w = maps[0].get(v.p[1])
            if isinstance(w, Sy) and len(w.p) == 2 and not w.ops:
                ok = w.p[1] == fld
        if ok is None:
            rep.unsure("tables", "conversion " + fld, "not followed")
        elif ok:
            rep.ok("tables")
        else:
            rep.bad("tables", "conversion " + fld, "%s of an export comes from %s of the table entry and is written to %s" % (v.p[1], w.p[1], fld))
