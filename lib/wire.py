"""Wire-format symmetry: for a (reader, writer) pair, over the whole partition of the
version space, the language of stream events of the reader equals that of the writer
and matched events carry the same part of the object."""
from collections import deque
from interp import *
from pairs import discover

VERTYPES = {
    "unreal_asset_base::object_version::ObjectVersion": "ObjectVersion",
    "unreal_asset_base::object_version::ObjectVersionUE5": "ObjectVersionUE5",
    "unreal_asset_base::engine_version::EngineVersion": "EngineVersion",
    "unreal_pak::pakversion::PakVersion": "PakVersion",
    "unreal_asset_base::custom_version::FAssetRegistryVersionType": "AssetRegistryVersion",
    "unreal_asset_base::unversioned::EUsmapVersion": "UsmapVersion",
}


# types whose header-less inner reader is the same wire form as the outer one without header
SAME_ROLE = {"StructProperty", "ArrayProperty"}
# entry points that have no counterpart of their own (see DESIGN.md)
EXCLUDE = ("Usmap",)      # UsmapWriter::write_name is unimplemented upstream: nothing is ever written
SKIP = {("Header", "read_encoded")}


def enum_range(P, k):
    a = P.adts.get(k)
    if not a:
        return None
    ds = [v["d"] for v in a["v"]]
    return (min(ds), max(ds))


class World:
    def __init__(self, P):
        self.P = P
        self.readers, self.writers, self.rs, self.ws, self.callers = discover(P)
        self.containers = {k for k in P.adts if k.rsplit("::", 1)[-1] in ("IndexedMap", "SharedResource", "Chain", "NameMap")}
        self.ranges = {}
        for k, n in VERTYPES.items():
            r = enum_range(P, k)
            if r:
                self.ranges[n] = r
        for k, a in P.adts.items():
            if "custom_version" in k and a["kind"] == "enum":
                r = enum_range(P, k)
                if r:
                    self.ranges["custom:" + k.rsplit("::", 1)[-1]] = (r[0] - 1, r[1] + 1)
        self.payloads = set()
        for k, a in P.adts.items():
            if k.endswith("::Property") and a["kind"] == "enum":
                self.payloads |= {k2 for k2 in P.adts if k2.rsplit("::", 1)[-1] in {v["n"] for v in a["v"]}}
        self.nts = {}
        self.pairs = []
        for t in sorted(self.readers):
            if t in self.writers:
                self.entry_points(t)

    def outside(self, f, cand):
        cs = set(self.callers.get(f.key, ()))
        if f.impl_trait:
            cs |= {c for c in self.callers.get(("tm", f.impl_trait, f.name), ())}
        return bool(cs - cand) or not (cs & cand)

    def layer(self, f, cand):
        """number of further entry points of the same type below f"""
        below = {k for k in cand if k != f.key and f.key in self.callers.get(k, ())}
        return 1 if below else 0

    def entry_points(self, t):
        """chooses the reader/writer entry points of a type and pairs them"""
        tail = t.rsplit("::", 1)[-1]
        if tail.startswith(EXCLUDE):
            return
        rall = {f.key for f in self.readers[t]}
        wall = {f.key for f, _ in self.writers[t]}
        rs = [f for f in self.readers[t] if self.outside(f, rall) and (tail, f.name) not in SKIP]
        ws = [(f, i) for f, i in self.writers[t] if self.outside(f, wall) and (tail, f.name) not in SKIP]
        if not rs or not ws:
            return
        rl = {f.key: self.layer(f, rall) for f in rs}
        wl = {f.key: self.layer(f, wall) for f, _ in ws}
        layered = len(set(rl.values())) > 1 and len(set(wl.values())) > 1
        if not layered:
            top = max(wl.values())
            for f, i in ws:
                if wl[f.key] != top:
                    wl.pop(f.key)
            ws = [(f, i) for f, i in ws if f.key in wl]
        hdr = all(any(x.h == "bool" for x in f.ins) for f, _ in ws) and any(any(x.h == "bool" for x in f.ins) for f in rs)
        same = tail in SAME_ROLE
        for f in rs:
            role = rl[f.key] if layered and not same else None
            h = None
            if hdr:
                h = "first" if any(x.h == "bool" for x in f.ins) and not (same and layered and rl[f.key] == 0) else False
            self.nts[f.key] = (t, "r", None, role, h)
        for f, i in ws:
            role = wl[f.key] if layered and not same else None
            self.nts[f.key] = (t, "w", i, role, "first" if hdr else None)
        for f in rs:
            for g, i in ws:
                if layered and rl[f.key] != wl[g.key]:
                    continue
                fixed = {}
                if hdr and self.nts[f.key][4] is False:
                    fixed["mode0"] = (0, 0)
                self.pairs.append((t, f, g, i, fixed))

    def opts(self, **kw):
        o = {"vertypes": VERTYPES, "containers": self.containers}
        o.update(kw)
        return o

    def bind_root(self, I, fn, fr):
        nb = 0
        args = []
        for i, (t, (ti, pat)) in enumerate(zip(fn.ins, fn.b["params"])):
            nm = pat[2] if pat and pat[0] == "bind" else "p%d" % i
            if self.P.is_arc(t, fn) and not (i == 0 and I.opts.get("self_is_root") and nm == "self"):
                args.append(Ar("main"))
            elif t.h == "bool":
                args.append(Ve("mode%d" % nb))
                nb += 1
            elif t.peel().h in VERTYPES:
                args.append(Ve(VERTYPES[t.peel().h]))
            else:
                root = "self" if (i == I.opts.get("obj_arg") or nm == "self") else "arg:" + nm
                v = I.opts.get("seed", {}).get(root) or Sy((root,))
                if t.h in ("&", "&mut"):
                    c = I.cell(v)
                    I.rootcells[root] = c
                    args.append(Rf(c))
                else:
                    args.append(v)
        for (ti, p), a in zip(fn.b["params"], args):
            if p is not None:
                r = I.match(p, a, fr)
                I.bindall(r[1], fr)

    def run(self, fn, side, cfg, T, obj_arg=None, **kw):
        full = dict(self.ranges)
        full.update(cfg)
        I = Interp(self.P, full, side, kw.pop("nts", self.nts), self.opts(root=fn.key, self_type=T, obj_arg=obj_arg, **kw))
        I.rootcells = {}
        fr = Frame(fn, fn.ctx, {}, None)
        self.bind_root(I, fn, fr)
        I.stack.append(fn.key)
        I.framestack.append(fr)
        v = I.ev(fn.b["body"], fr)
        v = I.finish(fr, v)
        I.res.exit = I.st.node
        I.res.value = I.deepval(v) if not I.dead() else None
        return I


# ------------------------------------------------------------------ automaton
class Auto:
    def __init__(self, I, prune=(), begin=0, ends=None):
        """begin, ends: the part of the behaviour from one node up to any of some others (default: all of it)"""
        self.I = I
        self.prune = prune
        self.begin = begin
        self.ends = frozenset(ends) if ends is not None else frozenset([I.res.exit] if I.res.exit is not None else [])
        self.out = {}
        multi = {}
        for a, l, b in I.res.edges:
            if ends is None or a not in self.ends:
                self.out.setdefault(a, []).append((l, b))
        for k in I.guards_used:
            multi[k] = multi.get(k, 0) + 1
        self.multi = {k for k, n in multi.items() if n >= 1}
        # only keys guarding more than one decision point matter
        pts = {}
        for a, l, b in I.res.edges:
            if isinstance(l, tuple) and l[0] == "g":
                pts.setdefault(l[1], set()).add(a)
        self.multi = {k for k, s in pts.items() if len(s) > 1}
        tied = {k[:3] for k in self.multi if k[0] == "is" and I.slotev.get(slotno(k[1])) is not None and I.slotev[slotno(k[1])].label == "merge"}
        self.multi |= {k for k in pts if k[:3] in tied}
        self.exit = I.res.exit
        # nodes that can reach the exit
        rev = {}
        for a, l, b in I.res.edges:
            rev.setdefault(b, []).append(a)
        self.live = set()
        if self.ends:
            st = list(self.ends)
            self.live |= self.ends
            while st:
                x = st.pop()
                for y in rev.get(x, ()):
                    if y not in self.live:
                        self.live.add(y)
                        st.append(y)

    def owner_loops(self, key):
        """loops inside which the datum of a guard key is produced"""
        r = set()
        for s in str_steps(key):
            if s.startswith("#"):
                try:
                    ev = self.I.slotev.get(int(s[1:]))
                except ValueError:
                    ev = None
                if ev is not None:
                    r |= {L for L, _ in ev.loops}
        return r

    def closure(self, items):
        """items: iterable of (node, assign)"""
        seen = set(items)
        st = list(seen)
        while st:
            n, asg = st.pop()
            for l, b in self.out.get(n, ()):
                if b not in self.live:
                    continue
                if l is None:
                    x = (b, asg)
                elif isinstance(l, tuple):
                    if l[0] == "kill":
                        x = (b, frozenset((k, p) for k, p in asg if l[1] not in self.owner_loops(k) and not has_elem(k)))
                    else:
                        _, k, p = l
                        if p and self.prune and k[0] == "Eq" and k[3] in self.prune and k[1] and k[1][0].startswith("#"):
                            continue
                        d = dict(asg)
                        if k in d and d[k] != p:
                            continue
                        if conflict(d, k, p):
                            continue
                        t = self.evalkey(d, k)
                        if t is not None and t != p:
                            continue
                        x = (b, asg | {(k, p)}) if k in self.multi else (b, asg)
                else:
                    continue
                if x not in seen:
                    seen.add(x)
                    st.append(x)
        return frozenset(seen)

    def evalkey(self, d, k):
        """truth of a guard under the known values of data"""
        if k[0] not in ("Eq", "Lt", "t", "is"):
            return None
        v = d.get(("val", k[1]))
        if v is None:
            return None
        v = applyops(v, k[2])
        if v is None:
            return None
        if k[0] == "t":
            return bool(v) if isinstance(v, int) else None
        if k[0] == "is":
            a = self.I.P.adts.get(self.I.isadt.get(k))
            if not a or not isinstance(v, int) or any(x.get("f") for x in a["v"]):
                return None
            return any(x["n"] == k[3] and x["d"] == v for x in a["v"])
        if isinstance(v, str) != isinstance(k[3], str):
            return None
        if k[0] == "Eq":
            return v == k[3]
        return v < k[3] if isinstance(v, int) else None

    def data(self):
        """data decided upon by some guard -> constants it is compared with"""
        if not hasattr(self, "_data"):
            m = {}
            for a, l, b in self.I.res.edges:
                if isinstance(l, tuple) and l[0] == "g" and l[1][0] in ("Eq", "Lt", "t", "is"):
                    k = l[1]
                    s = m.setdefault(k[1], set())
                    if k[0] == "t":
                        s |= {0, 1}
                    elif k[0] == "is":
                        ad = self.I.P.adts.get(self.I.isadt.get(k))
                        if ad and not any(x.get("f") for x in ad["v"]):
                            s |= {x["d"] for x in ad["v"]}
                    elif isinstance(k[3], str):
                        s.add(k[3])
                    else:
                        c = unapply(k[3], k[2])
                        s |= {c - 1, c, c + 1} if c is not None else set()
            self._data = m
        return self._data

    def start(self):
        if self.begin not in self.live:
            return frozenset()
        return self.closure([(self.begin, frozenset())])

    def moves(self, S):
        """label -> [(event, (node, asg))]"""
        m = {}
        for n, asg in S:
            for l, b in self.out.get(n, ()):
                if isinstance(l, Event) and b in self.live:
                    m.setdefault(l.label, []).append((l, (b, asg)))
        return m

    def accepts(self, S):
        return any(n in self.ends for n, _ in S)


def applyops(v, ops):
    for o in ops:
        if not isinstance(o, tuple) or not isinstance(v, int):
            return None
        if o[0] == "trunc":
            v &= (1 << 8 * o[1]) - 1
            if o[2] and v >> (8 * o[1] - 1):
                v -= 1 << 8 * o[1]
            continue
        try:
            v = {"Add": lambda a: v + a, "Sub": lambda a: v - a, "Mul": lambda a: v * a, "BitAnd": lambda a: v & a,
                 "BitOr": lambda a: v | a, "Shl": lambda a: v << a, "Shr": lambda a: v >> a}[o[0]](o[1])
        except KeyError:
            return None
    return v


def unapply(v, ops):
    """a value that the operations map near v"""
    for o in reversed(ops):
        if not isinstance(o, tuple):
            return None
        if o[0] == "Add":
            v -= o[1]
        elif o[0] == "Sub":
            v += o[1]
        elif o[0] in ("BitAnd", "BitOr"):
            pass
        else:
            return None
    return v


def slotno(p):
    return int(p[0][1:]) if p and p[0].startswith("#") and p[0][1:].isdigit() else None


def str_steps(x):
    if isinstance(x, str):
        yield x
    elif isinstance(x, tuple):
        for y in x:
            yield from str_steps(y)


def has_elem(k):
    return any(s == "[]" for s in str_steps(k))


def conflict(d, k, p):
    """mutually exclusive keys: two variants / two constants of the same datum"""
    if p and k[0] in ("is", "Eq"):
        for k2, p2 in d.items():
            if p2 and k2[0] == k[0] and k2[1:3] == k[1:3] and k2 != k:
                return True
    return False


# ------------------------------------------------------------------ provenance
def simple(v, p, o):
    """a truth value decided by one comparison of one datum"""
    return v.key is not None and v.key[0] in ("Eq", "Lt", "t") and v.key[1] == p and len(v.at) == 1


def outpaths(v, prefix, acc, P, depth=0):
    """slot id -> set of (output path, ops)"""
    if depth > 14 or v is None:
        return

    def put(p, ops, pre):
        if p and p[0].startswith("#"):
            acc.setdefault(int(p[0][1:]), set()).add((pre + tuple(p[1:]), ops))
        elif p and p[0].startswith("arg:"):
            acc.setdefault(p[0], set()).add((pre, ops))

    if isinstance(v, Sy):
        put(v.p, v.ops, prefix)
    elif isinstance(v, Mx):
        for p, o in v.a:
            put(p, o + ("join",), prefix)
    elif isinstance(v, Cond):
        for p, o in v.at:
            put(p, ("dec",) + v.key[:1] + (v.key[2], v.key[3] if len(v.key) > 3 else None, v.neg) if simple(v, p, o) else o + ("cond",), prefix)
    elif isinstance(v, Ad):
        for i, fs in v.alts.items():
            pre = prefix
            if v.k not in (OPT, RES, TUP, "?"):
                a = P.adts.get(v.k)
                if a and a["kind"] == "enum":
                    pre = prefix + ("@" + a["v"][i]["n"],)
            for n, x in fs.items():
                outpaths(x, pre if v.k in (OPT, RES) else pre + (n,), acc, P, depth + 1)
        if v.base is not None:
            outpaths(v.base, prefix, acc, P, depth + 1)
    elif isinstance(v, Li):
        for p, o in v.ln:
            put(p, o + ("len",), prefix)
        if v.items is not None:
            for i, x in enumerate(v.items):
                outpaths(x, prefix + ("[]",), acc, P, depth + 1)
        elif v.e is not None:
            outpaths(v.e, prefix + ("[]",), acc, P, depth + 1)
    elif isinstance(v, Ln):
        for t in v.t:
            if t[0] == "sy":
                put(t[1], t[2] + ("lin",), prefix)


def shapes(v, prefix, acc, P, depth=0, payload=False):
    """(kind, path) -> variants possible there"""
    if depth > 14:
        return
    if isinstance(v, Ve):
        k = ("v", prefix)
        acc[k] = v.n if acc.get(k, v.n) == v.n else None
        return
    if isinstance(v, Ad):
        if v.k == OPT:
            k = ("o", prefix)
            if v.base is None:
                if acc.get(k, 0) is not None:
                    acc[k] = set(v.alts) | acc.get(k, set())
            else:
                acc[k] = None
            for i, fs in v.alts.items():
                for x in fs.values():
                    shapes(x, prefix, acc, P, depth + 1, True)
            return
        a = P.adts.get(v.k)
        if a and a["kind"] == "enum":
            k = ("e", prefix)
            if v.base is None:
                if acc.get(k, 0) is not None:
                    acc[k] = set(v.alts) | acc.get(k, set())
            else:
                acc[k] = None
            for i, fs in v.alts.items():
                for n, x in fs.items():
                    shapes(x, prefix + ("@" + a["v"][i]["n"], n), acc, P, depth + 1)
            return
        for i, fs in v.alts.items():
            for n, x in fs.items():
                shapes(x, prefix if v.k == RES else prefix + (n,), acc, P, depth + 1)
    elif isinstance(v, Li):
        k = ("n", prefix)
        n = len(v.items) if v.items is not None else None
        acc[k] = n if acc.get(k, n) == n else None
        es = v.items if v.items is not None else ([v.e] if v.e is not None else [])
        for x in es:
            shapes(x, prefix + ("[]",), acc, P, depth + 1)
    elif isinstance(v, (Sy, Mx, Top)):
        for kind in ("o", "e", "v", "n"):
            if (kind, prefix) in acc and not (payload and kind == "o"):
                acc[(kind, prefix)] = None


def norm(p):
    r = []
    for s in p:
        if s.startswith("[") and s.endswith("]"):
            s = "[]"
        r.append(s)
    return tuple(r)


def compat(rp, wp):
    for a in rp:
        for b in wp:
            n = min(len(a), len(b))
            if a[:n] == b[:n]:
                return True
    return False


def patch_map(I):
    """source node of an event -> values later written over it"""
    m = {}
    for n, ev in I.patches:
        m.setdefault(n, []).append(ev)
    src = {}
    for a, l, b in I.res.edges:
        if isinstance(l, Event):
            src[l.slot] = a
    return {s: m[a] for s, a in src.items() if a in m}


def writer_paths(I, ev):
    """access paths (below the object root) an event's value derives from; None = not object data"""
    val = ev.val
    at = I.atoms(val) if val is not None else frozenset()
    if not hasattr(I, "pmap"):
        I.pmap = patch_map(I)
    if ev.slot in I.pmap:
        at = frozenset().union(*[I.atoms(x.val) for x in I.pmap[ev.slot]])
        return {norm(p[1:]) for p, o in at if p[0] == "self"}, True
    r = set()
    other = False
    for p, o in at:
        if p[0] == "self":
            r.add(norm(p[1:]))
        else:
            other = True
    return r, other


class Diff(Exception):
    pass


def describe(label):
    if isinstance(label, tuple) and label[0] == "nt":
        return "%s%s" % (label[1].rsplit("::", 1)[-1], list(label[2]) if label[2] else "")
    return str(label)


def compare(W, IR, IW, T, rel="=", prune=(), reject="", discard=False):
    """returns list of differences: dict(kind, detail, trace)"""
    R, Wr = Auto(IR, prune), Auto(IW)
    out = []
    if R.exit is None and Wr.exit is None or "r" in reject and R.exit is None:
        return out, {"states": 0, "edges": 0}
    if R.exit is None or Wr.exit is None:
        # one side rejects this configuration altogether
        out.append(dict(kind="rejects", detail="%s rejects the configuration" % ("reader" if R.exit is None else "writer"), trace=[], site=None))
        return out, {"states": 0, "edges": 0}
    acc = {}
    outpaths(IR.res.value, (), acc, W.P)
    s0 = (R.start(), Wr.start())
    seen = {s0: None}
    q = deque([s0])
    pairs_checked = 0
    prov = {}
    while q:
        s = q.popleft()
        rs, ws = s
        ra, wa = R.accepts(rs), Wr.accepts(ws)
        mr, mw = R.moves(rs), Wr.moves(ws)
        if ra != wa and not (rel == "W<=R" and ra or rel == "R<=W" and wa):
            out.append(dict(kind="end", detail="%s may stop here, %s continues with %s" % (
                ("reader", "writer", sorted(map(describe, mw))) if ra else ("writer", "reader", sorted(map(describe, mr)))),
                trace=trace(seen, s), site=site(mr, mw)))
            return out, {"states": len(seen), "edges": pairs_checked}
        reconcile(W, IR, acc, mr, mw)
        if discard:
            for lab in [l for l in mr if l not in mw]:
                if all(not acc.get(e.slot) and not used_control(IR, e.slot) for e, _ in mr[lab]):
                    del mr[lab]
        if rel == "W<=R":
            mr = {k: v for k, v in mr.items() if k in mw}
        elif rel == "R<=W":
            mw = {k: v for k, v in mw.items() if k in mr}
        if set(mr) != set(mw):
            only_r = sorted(map(describe, set(mr) - set(mw)))
            only_w = sorted(map(describe, set(mw) - set(mr)))
            out.append(dict(kind="shape", detail="reader expects %s, writer emits %s" % (sorted(map(describe, mr)), sorted(map(describe, mw))),
                            only_r=only_r, only_w=only_w, trace=trace(seen, s), site=site({k: v for k, v in mr.items() if k not in mw}, {k: v for k, v in mw.items() if k not in mr})))
            return out, {"states": len(seen), "edges": pairs_checked}
        for lab in mr:
            er, ew = mr[lab], mw[lab]
            pairs_checked += 1
            checkprov(W, IR, IW, acc, lab, er, ew, out, prov, seen, s)
            n = (R.closure([x for _, x in er]), Wr.closure([x for _, x in ew]))
            if n not in seen:
                seen[n] = (s, lab)
                q.append(n)
            if len(seen) > 20000:
                out.append(dict(kind="limit", detail="state limit", trace=[], site=None))
                return out, {"states": len(seen), "edges": pairs_checked}
    return out, {"states": len(seen), "edges": pairs_checked}


def cases(R, Wr, e, w):
    """what a matched event tells about both sides: list of (slot value, facts of the writer), or None"""
    val = Wr.I.deref(w.val) if w.val is not None else None
    if w.slot in patch_slots(Wr.I):
        return None
    if isinstance(val, C) and isinstance(val.v, (int, str)):
        return [(int(val.v) if isinstance(val.v, bool) else val.v, frozenset())]
    if isinstance(val, Mx) and val.sel:
        r = []
        neg = [k for k, c in val.sel if k]
        for k, c in val.sel:
            r.append((c, frozenset([k]) if k else frozenset((a, not p) for a, p in neg)))
        return r
    if isinstance(val, Cond) and val.key is not None:
        return [(1, frozenset([(val.key, not val.neg)])), (0, frozenset([(val.key, val.neg)]))]
    if isinstance(val, Sy) and not val.ops and val.p[0] == "self":
        ks = R.data().get(("#%d" % e.slot,), set()) | Wr.data().get(val.p, set())
        if not ks:
            return None
        return [(c, frozenset([(("val", val.p), c)]) if val.p in Wr.data() else frozenset()) for c in sorted(ks, key=str)]
    return None


def patch_slots(I):
    if not hasattr(I, "pmap"):
        I.pmap = patch_map(I)
    return I.pmap


def refined(W, IR, IW, rel="=", prune=(), discard=False, limit=6000):
    """as compare, but the value of a matched event decides the guards of both sides that test it"""
    R, Wr = Auto(IR, prune), Auto(IW)
    out = []
    if R.exit is None or Wr.exit is None:
        return out, 0
    acc = {}
    outpaths(IR.res.value, (), acc, W.P)
    s0 = (R.start(), Wr.start())
    seen = {s0: None}
    q = deque([s0])
    n = 0
    while q:
        s = q.popleft()
        rs, ws = s
        ra, wa = R.accepts(rs), Wr.accepts(ws)
        mr, mw = R.moves(rs), Wr.moves(ws)
        reconcile(W, IR, acc, mr, mw)
        if discard:
            for lab in [l for l in mr if l not in mw]:
                if all(not acc.get(e.slot) and not used_control(IR, e.slot) for e, _ in mr[lab]):
                    del mr[lab]
        # everything the reader can meet in this case must be something the writer can put there
        if ra and not wa and rel != "W<=R" or rel == "W<=R" and wa and not ra:
            out.append(dict(kind="tag-end", detail="with these values %s may stop here, %s continues with %s" % (
                ("reader", "writer", sorted(map(describe, mw))) if ra else ("writer", "reader", sorted(map(describe, mr)))),
                trace=trace(seen, s), site=site(mr, mw)))
            return out, n
        bad = set(mr) - set(mw) if rel != "W<=R" else set(mw) - set(mr)
        if bad:
            out.append(dict(kind="tag-shape", detail="with these values reader expects %s, writer emits %s" % (sorted(map(describe, mr)), sorted(map(describe, mw))),
                            trace=trace(seen, s), site=site({k: v for k, v in mr.items() if k not in mw}, {k: v for k, v in mw.items() if k not in mr})))
            return out, n
        for lab in set(mr) & set(mw):
            er, ew = mr[lab], mw[lab]
            n += 1
            plain = []
            split = {}
            for w, (b, asg) in ew:
                cs = None
                if len({e.slot for e, _ in er}) == 1:
                    cs = cases(R, Wr, er[0][0], w)
                if cs is None:
                    plain.append((b, drop(asg, None)))
                    continue
                d = dict(asg)
                for c, facts in cs:
                    if any(k in d and d[k] != p for k, p in facts):
                        continue
                    split.setdefault(c, []).append((b, put(asg, facts)))
            nxt = []
            if not split:
                nxt.append(([forget(x, e) for e, x in er], plain, None))
            else:
                tested = ("#%d" % er[0][0].slot,) in R.data()
                if tested:
                    for c, wl in split.items():
                        nxt.append(([(b, put(asg, [(("val", ("#%d" % e.slot,)), c)])) for e, (b, asg) in er], wl + plain, c))
                else:
                    for c, wl in split.items():
                        nxt.append(([forget(x, e) for e, x in er], [y for l in split.values() for y in l] + plain, None))
                        break
            for rl, wl, c in nxt:
                rc, wc = R.closure(rl), Wr.closure(wl)
                if not rc or not wc:
                    continue
                t = (rc, wc)
                if t not in seen:
                    seen[t] = (s, lab if c is None else "%s=%r" % (describe(lab), c))
                    q.append(t)
                if len(seen) > limit:
                    return out, n
    return out, n


def drop(asg, k):
    return asg


def put(asg, facts):
    f = dict(facts)
    return frozenset((k, p) for k, p in asg if k not in f and not any(k[0] == "val" and k == a for a in f)) | frozenset(f.items())


def forget(x, e):
    b, asg = x
    t = "#%d" % e.slot
    return (b, frozenset((k, p) for k, p in asg if not (k[0] == "val" and k[1] == (t,))))


def is_body(W, lab):
    """a payload type of the property enum, read or written as the enum itself"""
    return isinstance(lab, tuple) and lab[0] == "nt" and lab[1].endswith("::Property") and len(lab[2]) == 2 and lab[2][1] == "body"


def reconcile(W, IR, acc, mr, mw):
    """labels that denote the same bytes"""
    # a name slot (two 32-bit words) skipped as one 64-bit word
    if "w8le" in mr and "w8le" not in mw and "fname" in mw and "fname" not in mr:
        if all(not acc.get(e.slot) and not used_control(IR, e.slot) for e, _ in mr["w8le"]):
            mr["fname"] = mr.pop("w8le")
    # a word skipped as raw bytes
    for lab in [l for l in mr if isinstance(l, str) and l in ("bytes2", "bytes4", "bytes8") and l not in mw]:
        w = "w%sle" % lab[5:]
        if w in mw and all(not acc.get(e.slot) and not used_control(IR, e.slot) for e, _ in mr[lab]):
            mr.setdefault(w, []).extend(mr.pop(lab))
    # the enum dispatches to its payload
    for a, b in ((mr, mw), (mw, mr)):
        for lab in [l for l in b if is_body(W, l)]:
            h = lab[2][0]
            for x in [l for l in a if l not in b and isinstance(l, tuple) and l[0] == "nt" and l[2][:1] == (h,) and l[1] in W.payloads]:
                a.setdefault(lab, []).extend(a.pop(x))


def site(mr, mw):
    r = []
    for side, m in (("reader", mr), ("writer", mw)):
        for lab, l in m.items():
            for ev, _ in l:
                r.append("%s %s at %s:%s" % (side, describe(lab), ev.fn.file, ev.line))
    return r[:4]


def trace(seen, s):
    r = []
    while seen.get(s) is not None:
        s, lab = seen[s]
        r.append(describe(lab))
    return list(reversed(r))


def checkprov(W, IR, IW, acc, lab, er, ew, out, done, seen, s):
    evr = {e.slot: e for e, _ in er}
    evw = {e.slot: e for e, _ in ew}
    key = (frozenset(evr), frozenset(evw))
    if key in done:
        return
    done[key] = True
    rinfo = {}
    for sl, e in evr.items():
        rinfo[sl] = {norm(p) for p, o in acc.get(sl, ())}
    winfo = {}
    for sl, e in evw.items():
        # a patched placeholder carries what is patched in later
        ps, other = writer_paths(IW, e)
        const = not ps and not other and len(IW.consts(e.val)) == 1 if e.val is not None else False
        winfo[sl] = (ps, other, const)
    for sl, e in evr.items():
        rp = rinfo[sl]
        if not rp:
            continue
        if not any((not winfo[w][0]) or compat(rp, winfo[w][0]) for w in evw):
            w = next(iter(evw.values()))
            out.append(dict(kind="field", detail="reader stores this %s in %s, writer emits it from %s" % (describe(lab), fmt(rp), fmt(set().union(*[winfo[x][0] for x in evw]))),
                            trace=trace(seen, s), site=["reader at %s:%s" % (e.fn.file, e.line), "writer at %s:%s" % (w.fn.file, w.line)]))
        elif all(winfo[w][2] for w in evw):
            w = next(iter(evw.values()))
            out.append(dict(kind="lost", detail="reader stores this %s in %s, writer emits a constant" % (describe(lab), fmt(rp)),
                            trace=trace(seen, s), site=["reader at %s:%s" % (e.fn.file, e.line), "writer at %s:%s" % (w.fn.file, w.line)]))
    if len(evr) == 1 and len(evw) == 1:
        e, w = next(iter(evr.values())), next(iter(evw.values()))
        why = codec(IR, IW, acc, e, w)
        if why:
            out.append(dict(kind="value", detail="%s: %s" % (describe(lab), why), trace=trace(seen, s),
                            site=["reader at %s:%s" % (e.fn.file, e.line), "writer at %s:%s" % (w.fn.file, w.line)]))
    for sl, e in evw.items():
        wp = winfo[sl][0]
        if not wp:
            continue
        if not any((not rinfo[r]) or compat(rinfo[r], wp) for r in evr):
            r = next(iter(evr.values()))
            out.append(dict(kind="field", detail="writer emits this %s from %s, reader stores it in %s" % (describe(lab), fmt(wp), fmt(set().union(*rinfo.values()))),
                            trace=trace(seen, s), site=["reader at %s:%s" % (r.fn.file, r.line), "writer at %s:%s" % (e.fn.file, e.line)]))
        elif all(o and o[-1] == "len" for _, o in IW.atoms(e.val)):
            continue        # an element count is redundant with the elements themselves
        elif all(not rinfo[r] for r in evr) and not any(used_control(IR, r) for r in evr):
            r = next(iter(evr.values()))
            out.append(dict(kind="dropped", detail="writer emits this %s from %s, reader discards it" % (describe(lab), fmt(wp)),
                            trace=trace(seen, s), site=["reader at %s:%s" % (r.fn.file, r.line), "writer at %s:%s" % (e.fn.file, e.line)]))


SAMPLE = (0, 1, 2, 3, 5, 7, 63, 127, 100)


def codec(IR, IW, acc, e, w):
    """the conversion applied when reading undoes the one applied when writing"""
    ro = {(norm(p), o) for p, o in acc.get(e.slot, ())}
    val = IW.deref(w.val) if w.val is not None else None
    if len(ro) != 1 or val is None or w.slot in patch_slots(IW):
        return None
    (rp, rops), = ro
    foreign = {norm(p[1:]) for p, o in IW.atoms(val) if p[0] == "self" and not compat({rp}, {norm(p[1:])})}
    if any(o in ("Add", "Sub", "Mul") for o in rops):
        foreign = ()        # relative to another field on both sides
    foreign = {p for p in foreign if "[]" not in p}     # what elements say about their container is redundant with it
    if foreign:
        return "read into %s, but what is written also depends on %s" % (".".join(rp), fmt(foreign))
    if rops and rops[0] == "dec":
        def dec(c):
            x = applyops(c, rops[2])
            if x is None:
                return None
            t = bool(x) if rops[1] == "t" else x == rops[3] if rops[1] == "Eq" else x < rops[3]
            return t != rops[4]
        enc = []
        if isinstance(val, Mx) and val.sel and len(val.sel) == 2:
            pol = [k[1] for k, _ in val.sel if k and k[0][0] == "t" and norm(k[0][1][1:]) == rp and not k[0][2]]
            if not pol:
                return None
            for k, c in val.sel:
                enc.append((k[1] if k else not pol[0], c))
        elif isinstance(val, Sy) and norm(val.p[1:]) == rp:
            enc = [(True, applyops(1, val.ops)), (False, applyops(0, val.ops))]
        for t, c in enc:
            if isinstance(c, bool):
                c = int(c)
            if isinstance(c, int) and dec(c) is not None and dec(c) != t:
                return "%s = %s is written as %s, which is read back as %s" % (".".join(rp), str(t).lower(), c, str(dec(c)).lower())
        return None
    if not isinstance(val, Sy) or val.p[0] != "self":
        return None
    rops = tuple(o for o in rops if o != "join")
    wops = val.ops
    if any(not isinstance(o, tuple) for o in rops + wops) or not (rops or wops):
        return None
    wp = norm(val.p[1:])
    n = min(len(rp), len(wp))
    if rp[:n] != wp[:n]:
        return None
    for v in SAMPLE:
        a = applyops(v, wops)
        b = applyops(a, rops) if a is not None else None
        if b is not None and b != v:
            return "%s = %d is written as %d, which is read back as %d" % (".".join(rp), v, a, b)
    for v in (200, 1000, 100000, 1 << 40):
        b = applyops(v, rops)
        a = applyops(b, wops) if b is not None else None
        if a is not None and a != v and any(o[0] == "trunc" for o in rops):
            return "%d is read as %s = %d, which is written back as %d" % (v, ".".join(rp), b, a)
    return None


def used_control(I, slot):
    """the slot decides a branch, a loop bound or a later read"""
    t = "#%d" % slot
    for k in I.guards_used:
        if any(s == t for s in str_steps(k)):
            return True
    for ev in I.slotev.values():
        for L, c in ev.loops:
            if any(p[0] == t for p, _ in c):
                return True
        if ev.val is not None and any(p[0] == t for p, _ in I.atoms(ev.val)):
            return True
    return False


def fmt(ps):
    return "{" + ", ".join(sorted(".".join(p) or "<whole>" for p in ps)) + "}"


# ------------------------------------------------------------------ driver
def split_cfg(cfg, W, var, cuts):
    lo, hi = cfg.get(var, W.ranges.get(var, (None, None)))
    if var.startswith("mode") or var in ("has_unversioned_properties", "use_event_driven_loader"):
        if lo is None:
            lo, hi = 0, 1
    pts = sorted(set(c for c in cuts if (lo is None or c > lo) and (hi is None or c <= hi)))
    r = []
    cur = lo
    for c in pts:
        r.append((cur, c - 1))
        cur = c
    r.append((cur, hi))
    out = []
    for iv in r:
        d = dict(cfg)
        d[var] = iv
        out.append(d)
    return out


def analyse(W, T, rf, wf, widx, fixed=None, maxcfg=4000, rel="=", prune=(), reject="", discard=False, **kw):
    """all configurations; returns (diffs, stats)"""
    work = [dict(fixed or {})]
    diffs, n, st = [], 0, {"configs": 0, "states": 0, "edges": 0, "events_r": 0, "events_w": 0, "fns": set(), "unknown": {}}
    while work:
        cfg = work.pop()
        n += 1
        if n > maxcfg:
            diffs.append(dict(kind="limit", detail="configuration limit", trace=[], site=None, cfg={}))
            break
        try:
            IR = W.run(rf, "r", cfg, T, **kw)
            sh = {}
            shapes(IR.res.value, (), sh, W.P)
            IW = W.run(wf, "w", cfg, T, obj_arg=widx, shape={k: v for k, v in sh.items() if v}, **kw)
        except Split as s:
            parts = split_cfg(cfg, W, s.var, s.cuts)
            if len(parts) == 1:
                diffs.append(dict(kind="limit", detail="cannot split %s" % s.var, trace=[], site=None, cfg=cfg))
                continue
            work.extend(parts)
            continue
        d, s = compare(W, IR, IW, T, rel, prune, reject, discard)
        if not d:
            d, n2 = refined(W, IR, IW, rel, prune, discard)
            s["edges"] += n2
        st["configs"] += 1
        st["states"] += s["states"]
        st["edges"] += s["edges"]
        st["events_r"] += sum(1 for _, l, _ in IR.res.edges if isinstance(l, Event))
        st["events_w"] += sum(1 for _, l, _ in IW.res.edges if isinstance(l, Event))
        st["fns"] |= IR.seen | IW.seen | {rf.key, wf.key}
        for k, v in list(IR.unknown.items()) + list(IW.unknown.items()):
            st["unknown"][k] = st["unknown"].get(k, 0) + v
        for x in d:
            x["cfg"] = cfg
            diffs.append(x)
    return diffs, st
