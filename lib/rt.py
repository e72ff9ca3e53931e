"""Read-write composition: what a reader took from the stream, the writer puts back.

Every path through a reader (bounded rounds of every loop, every version configuration) yields a symbolic object whose
leaves are the stream operations they came from.  Every path of the writer on that object that is consistent with the
conditions of the reader's path must emit the same operations with the same symbols."""
from interp import *
from wire import *
from pak import layout, lkey
import spec, json, os

LIMIT = 4000


class TooMany(Exception):
    pass


def paths(W, fn, side, cfg, T, limit, **kw):
    path, n = [], 0
    base = kw.pop("assume", {})
    while True:
        I = W.run(fn, side, cfg, T, path=path, assume=dict(base), exact=True, ra=True, boolint=True, **kw)
        n += 1
        if n > limit:
            raise TooMany()
        yield I
        path = list(I.path)[:len(I.pathlens)]
        while path and path[-1] + 1 >= I.pathlens[len(path) - 1]:
            path.pop()
        if not path:
            return
        path[-1] += 1


class Env:
    """what the runs of one analysis share"""

    def __init__(self, W):
        self.W, self.cache, self.hooks, self.thru = W, {}, {}, {}
        for k, f in W.P.fns.items():
            st = f.self_ty.peel().h.rsplit("::", 1)[-1] if f.self_ty is not None else ""
            if st == "NameMap" and f.name in ("add_fname", "add_fname_with_number"):
                self.hooks[k] = lambda I, a, fr, fn: I.deref(a[1])
            elif st == "Property" and [x.s for x in f.ins] == ["&str"] and f.out.h == "bool" and not f.trait:
                self.hooks[k] = self.h_custom
            elif st == "KismetExpression" and len(f.ins) == 2 and f.out.h == "bool" and f.ins[1].peel().h.endswith("EExprToken"):
                self.hooks[k] = self.h_token
            elif st == "FName" and f.name == "get_content" and len(f.ins) == 2:
                self.hooks[k] = lambda I, a, fr, fn: I.apply(a[1], [a[0]], fr)
            elif st == "FName" and f.name in ("from_slice", "new_dummy"):
                self.hooks[k] = lambda I, a, fr, fn: I.deref(a[0])
            elif f.name == "get_mappings":
                self.hooks[k] = lambda I, a, fr, fn: Ad(OPT, {0: {}})

    def h_custom(self, I, a, fr, fn):
        v = I.deref(a[0])
        if isinstance(v, Sy):
            return Cond(("t", v.p, v.ops + ("custom",)), False, [(v.p, v.ops)])
        return NotImplemented

    def h_token(self, I, a, fr, fn):
        v, t = I.deref(a[0]), I.deref(a[1])
        if isinstance(v, Sy) and isinstance(t, Ad) and len(t.alts) == 1:
            return Cond(("is", v.p, v.ops, I.P.variant_name(t.k, next(iter(t.alts)))), False, [(v.p, v.ops)])
        return NotImplemented

    def h_name(self, I, d, r, fn, targs, a, fr, line, e):
        if d["n"] == "get_name" and len(a) == 1:
            v = I.deref(a[0])
            for _ in range(2):
                if isinstance(v, Ad) and len(v.alts) == 1:
                    f = next(iter(v.alts.values()))
                    if "name" in f:
                        return I.deref(f["name"])
                    if set(f) == {"0"}:
                        v = I.deref(f["0"])
            return NotImplemented
        if d["n"] != "to_serialized_name" or len(a) != 1:
            return NotImplemented
        v = I.deref(a[0])
        if isinstance(v, Ad) and len(v.alts) == 1 and fn is not None and fn.b is not None:
            return I.inline(fn, a, targs, fr, line, e)
        if not isinstance(v, Sy):
            return NotImplemented
        return Sy(v.p, v.ops + ("type name",))

    def through(self, fn):
        """fields of the result of a reader that are its arguments: {field: position of the argument}"""
        if fn.key in self.thru:
            return self.thru[fn.key]
        self.thru[fn.key] = {}
        W, out, work = self.W, None, [{}]
        pos = {}
        for i, (ti, pat) in enumerate(fn.b["params"]):
            pos["arg:" + (pat[2] if pat and pat[0] == "bind" else "p%d" % i)] = i
        while work:
            cfg = work.pop()
            try:
                for I in paths(W, fn, "r", cfg, W.nts[fn.key][0], LIMIT, rounds=1, content=peeks(), feasible=self.feasible, hooks=self.hooks, hook=self.h_name):
                    O = okval(I)
                    if O is None or I.dead():
                        continue
                    fs = {}
                    if isinstance(O, Ad) and len(O.alts) == 1:
                        for f, v in next(iter(O.alts.values())).items():
                            v = I.deref(v) if isinstance(v, V) else v
                            if isinstance(v, Sy) and len(v.p) == 1 and not v.ops and v.p[0] in pos:
                                fs[f] = pos[v.p[0]]
                    out = fs if out is None else {f: i for f, i in out.items() if fs.get(f) == i}
            except Split as s:
                parts = split_cfg(cfg, W, s.var, s.cuts)
                if len(parts) == 1:
                    raise
                work.extend(parts)
        self.thru[fn.key] = out or {}
        return self.thru[fn.key]

    def feasible(self, I, fn, some):
        k = (fn.key, some, tuple(sorted(I.cfg.items(), key=str)))
        if k not in self.cache:
            J = Interp(self.W.P, I.cfg, "r", {a: b for a, b in self.W.nts.items() if a != fn.key}, self.W.opts(root=fn.key + "?", self_type=None, obj_arg=None))
            setattr(J, "some_only" if some else "none_only", (fn.key,))
            J.rootcells = {}
            fr = Frame(fn, fn.ctx, {}, None)
            self.W.bind_root(J, fn, fr)
            J.stack.append(fn.key)
            J.framestack.append(fr)
            v = J.ev(fn.b["body"], fr)
            J.finish(fr, v)
            self.cache[k] = not J.dead()
        return self.cache[k]


def peeks():
    """reading a place again gives what was there"""
    def content(I, label, pos, nb):
        seen = I.__dict__.setdefault("peeked", {})
        k = (lkey(pos), label)
        if k in seen:
            return seen[k]
        seen[k] = (Sy(("#%d" % I.nslot,)), nb if nb is not None else Ln(0, {("ev", I.nslot): 1}))
        return seen[k]
    return content


def okval(I):
    v = I.res.value
    for _ in range(4):
        if isinstance(v, Ad) and v.k == RES:
            v = v.alts[0].get("0") if set(v.alts) == {0} else None
        elif isinstance(v, Ad) and v.k == OPT:
            v = v.alts[1].get("0") if set(v.alts) == {1} else None
        else:
            break
    return v


def fixed_counts(I):
    """numbers of rounds that this path has chosen, by the value they were read from"""
    out = {}
    for k, v in I.assume.items():
        if isinstance(k, tuple) and k[0] == "iters" and len(k[1]) == 1:
            (p, o), = k[1]
            out[("sy", p, o)] = v
        elif isinstance(k, tuple) and k[0] == "Eq" and len(k) == 4 and v is True and isinstance(k[3], int) and not isinstance(k[3], bool):
            out[("sy", k[1], k[2])] = k[3]
    return out


def place(pos, known):
    k, t = pos.k, {}
    for x, c in pos.t.items():
        if x in known:
            k += c * known[x]
        else:
            t[x] = c
    return Ln(k, t)


def order(a, b):
    """-1, 0, 1 or None: the order of two positions for every size of what lies between them"""
    d = lin_add(a, b, -1)
    cs = list(d.t.values()) + [d.k]
    if all(c == 0 for c in cs):
        return 0
    if all(c >= 0 for c in cs):
        return 1
    if all(c <= 0 for c in cs):
        return -1
    return None


def stored(I):
    """[(label, value, event)] in stream order; what is overwritten or read again counts once"""
    known = fixed_counts(I)
    out = []            # (position, size, label, value, event) by position
    for pos, label, v, nb, ev in layout(I):
        pos = place(pos, known)
        nb = place(nb, known) if nb is not None else None
        at, patched = None, False
        for i, (p, n, l, w, e) in enumerate(out):
            o = order(pos, p)
            if o == 0:
                at = i
                if I.side == "w":
                    if label == "w4le" and l == "w8le" and w == C(0):
                        label = "w8le"
                    out[i] = (p, n, label, v, ev)
                    patched = True
                break
            if o == -1:
                at = i
                break
        if patched:
            continue
        if at is None:
            out.append((pos, nb, label, v, ev))
            continue
        # gone back: what was read from here on was only looked at, unless it lies behind what is read now
        end = lin_add(pos, nb) if nb is not None else None
        j = at
        while j < len(out) and (end is None or order(out[j][0], end) in (-1, None)):
            j += 1
        out[at:j] = [(pos, nb, label, v, ev)]
    if I.side == "r" and I.st.bytes is not None:
        end = place(I.st.bytes, known)
        for i, x in enumerate(out):
            if order(x[0], end) in (0, 1):
                del out[i:]
                break
    return [x[2:] for x in out]


def run_pair(E, T, rf, wf, wi, fixed, kw, limit=LIMIT, rounds=2):
    W = E.W
    common = dict(feasible=E.feasible, hooks=E.hooks, hook=E.h_name, tolerant=True)
    work = [dict(fixed or {})]
    nts = kw.get("nts", W.nts)
    if T.rsplit("::", 1)[-1] == "ClassExport":
        work[0].pop("ObjectVersion", None)      # positions are compared here, so reading out of order is no obstacle
    skip = SKIP.get(T.rsplit("::", 1)[-1])
    res = dict(cfgs=0, rpaths=0, pairs=0, diffs={}, unknown=set(), weak={})
    while work:
        cfg = work.pop()
        try:
            got = []
            for I in paths(W, rf, "r", cfg, T, limit, rounds=rounds, nts=nts, content=peeks(), **common):
                if I.dead():
                    continue
                O = okval(I)
                if O is None:
                    continue
                A = dict(I.assume)
                kinds(E, I, A)
                ws = list(paths(W, wf, "w", cfg, T, limit, obj_arg=wi, rounds=rounds, nts=nts, seed={"self": O}, assume=A, slot0=100000, **common))
                got.append((I, O, ws))
        except Split as s:
            parts = split_cfg(cfg, W, s.var, s.cuts)
            if len(parts) == 1:
                raise
            work.extend(parts)
            continue
        res["cfgs"] += 1
        for I, O, ws in got:
            res["rpaths"] += 1
            res["unknown"] |= set(I.unknown)
            a = stored(I)
            if any(("torn", n) in pos.t for pos, *_ in layout(I) for t in pos.t if t[0] == "torn" for n in t[1:]):
                res["diffs"].setdefault(("reads on where a failed attempt stopped", ""), (cfg, I, None))
            live = [J for J in ws if not J.dead()]
            if not live and not (skip is not None and skip(I, O, None)):
                res["diffs"].setdefault(("refused", ""), (cfg, I, None))
            for J in live:
                res["pairs"] += 1
                res["unknown"] |= set(J.unknown)
                if skip is not None and skip(I, O, J):
                    continue
                d = differ(E, I, J, O, a, stored(J), res["weak"])
                if d:
                    res["diffs"].setdefault(d, (cfg, I, J))
    return res


def kinds(E, I, A):
    """what the path says about the variants of the values that readers of other types returned"""
    W = E.W
    for n, (f, args) in I.ntargs.items():
        if f.self_ty is None:
            continue
        if any(isinstance(a, Ad) and a.k == OPT for a in args):
            for x, i in E.through(f).items():
                if isinstance(args[i], Ad) and args[i].k == OPT and len(args[i].alts) == 1:
                    A[("some", ("#%d" % n, x), ())] = set(args[i].alts) == {1}
        h = f.self_ty.peel().h
        p = ("#%d" % n,)
        if h not in W.P.adts or len(W.P.adts[h]["v"]) < 2:
            A[("is", p, (), h.rsplit("::", 1)[-1])] = True
            continue
        names = [W.P.variant_name(h, i) for i in range(len(W.P.adts[h]["v"]))]
        ev = I.slotev.get(n)
        if ev is not None and isinstance(ev.label, tuple) and "tagged" in ev.label[2]:
            # a tagged property has the type name of a property, never that of a bare struct
            A[("is", p, (), "FloatRangeProperty")] = False
            A[("Eq", p, ("get_name",), "TypeName")] = False      # reserved for the type of an evaluation template
            continue
        for a in args:
            a = unopt(I.deref(a)) if isinstance(a, V) else a
            if isinstance(a, Sy):
                for k, v in list(A.items()):
                    if isinstance(k, tuple) and len(k) == 4 and k[0] == "Eq" and k[1:3] == (a.p, a.ops) and isinstance(k[3], str):
                        A[("Eq", p, ("type name",), k[3])] = v
                    if v is True and isinstance(k, tuple) and len(k) == 4 and k[0] == "Eq" and k[1:3] == (a.p, a.ops) and isinstance(k[3], str) and k[3] + "Property" in names:
                        A[("is", p, (), k[3] + "Property")] = True
                        break


def leaves(v, acc):
    """slots that a value holds"""
    if isinstance(v, Sy):
        if v.p and v.p[0].startswith("#"):
            acc.add(v.p[0])
    elif isinstance(v, Ad):
        for fs in v.alts.values():
            for x in fs.values():
                if isinstance(x, (list, tuple)):
                    for y in x:
                        leaves(y, acc)
                else:
                    leaves(x, acc)
        if v.base is not None:
            leaves(v.base, acc)
    elif isinstance(v, Li):
        for x in v.items or ():
            leaves(x, acc)
        if v.e is not None:
            leaves(v.e, acc)
    elif isinstance(v, Mx):
        for p, o in v.a:
            if p and p[0].startswith("#"):
                acc.add(p[0])
    elif isinstance(v, Cond):
        for a in v.at:
            p = a[0] if isinstance(a[0], tuple) else a
            if p and isinstance(p[0], str) and p[0].startswith("#"):
                acc.add(p[0])
    return acc


def keys_of(A, slot):
    for k, v in A.items():
        if isinstance(k, tuple) and len(k) > 1 and k[0] != "iters" and isinstance(k[1], tuple) and k[1][:1] == (slot,):
            yield k, v


def allows(A, slot, c):
    """does a path condition on the slot speak against the constant? None: there is no condition on it"""
    seen = None
    n = A.get(("iters", frozenset([((slot,), ())])))
    if n is not None:
        return c == n
    for k, pol in keys_of(A, slot):
        if len(k[1]) > 1 and k[1][1:] != ("0",):
            continue
        r = holds(k, c)
        if r is None:
            continue
        seen = True
        if r != pol:
            return False
    return seen


def num(c):
    return int(c) if isinstance(c, bool) else c


def holds(k, c):
    x = num(c)
    for op in k[2] if len(k) > 2 and isinstance(k[2], tuple) else ():
        if isinstance(op, tuple) and len(op) >= 2 and isinstance(x, int):
            if op[0] == "BitAnd":
                x &= op[1]
            elif op[0] == "Shr":
                x >>= op[1]
            elif op[0] == "trunc":
                x &= (1 << (8 * op[1])) - 1
            else:
                return None
        else:
            return None
    if k[0] == "t":
        return bool(x)
    if k[0] in ("Eq", "Lt", "Le", "Gt", "Ge", "Ne") and len(k) == 4:
        y = num(k[3])
        if type(x) is not type(y):
            return None
        return {"Eq": x == y, "Ne": x != y, "Lt": x < y if k[0] == "Lt" else None, "Le": x <= y if k[0] == "Le" else None,
                "Gt": x > y if k[0] == "Gt" else None, "Ge": x >= y if k[0] == "Ge" else None}[k[0]]
    if k[0] == "is" and len(k) == 4:
        return None
    return None


def prim(label):
    return isinstance(label, str)


def same_label(a, b):
    if a == b:
        return True
    wa, wb = label_width(a), label_width(b)
    return {a, b} & {"fname"} and wa == wb == 8 and {a, b} <= {"fname", "w8le"} and "weak"


def differ(E, I, J, O, a, b, weak):
    held = leaves(O, set())
    for i in range(max(len(a), len(b))):
        if i >= len(a):
            return ("extra", short(b[i][0]), "")
        if i >= len(b):
            return ("missing", short(a[i][0]), "")
        s = "#%d" % a[i][2].slot
        if isinstance(a[i][0], str) and isinstance(a[i][1], Sy) and len(a[i][1].p) == 1 and not a[i][1].ops and a[i][1].p[0][:1] == "#":
            s = a[i][1].p[0]            # read before
        l = same_label(a[i][0], b[i][0]) or same_kind(J, a[i][0], b[i][0], b[i][1])
        if not l or l == "weak" and s in held:
            return ("label", short(a[i][0]), short(b[i][0]))
        w = equal(E, I, J, s, a[i], b[i], s in held)
        if w is False:
            return ("value", short(a[i][0]), str(J.deref(b[i][1]))[:80])
        if w is not True:
            weak[w] = weak.get(w, 0) + 1
    return None


def same_kind(J, a, b, v):
    """a value read by the reader of its own type and written as a member of an enum of kinds"""
    v = J.deref(v) if v is not None else None
    if not (isinstance(a, tuple) and isinstance(b, tuple) and isinstance(v, Ad) and len(v.alts) == 1):
        return False
    i = next(iter(v.alts))
    return J.P.variant_name(v.k, i) == a[1].rsplit("::", 1)[-1] and b[1] == v.k and [x for x in a[2]] == [x for x in b[2] if x not in ("body", "tagged")]


def unopt(v):
    return v.alts[1].get("0") if isinstance(v, Ad) and v.k == OPT and set(v.alts) == {1} else v


def short(l):
    return l[1].rsplit("::", 1)[-1] + str(list(l[2])) if isinstance(l, tuple) else l


def equal(E, I, J, s, x, y, held):
    v = J.deref(y[1]) if y[1] is not None else None
    if v is None:
        return True
    if x[0] == "fstr" and isinstance(v, Ad) and v.k == OPT and set(v.alts) == {1}:
        v = J.deref(v.alts[1].get("0"))
    if isinstance(v, Ad) and isinstance(x[0], tuple) and len(v.alts) == 1 and isinstance(y[0], tuple) and y[0][1] == v.k and set(next(iter(v.alts.values()))) == {"0"}:
        v = J.deref(v.alts[next(iter(v.alts))]["0"])
    if isinstance(v, Sy) and v.p[0] == s and not v.ops and all(p == "0" for p in v.p[1:]):
        return True
    if isinstance(v, Sy) and v.p == (s,) and all(isinstance(o, tuple) and o[0] == "trunc" and o[1] >= (label_width(x[0]) or 99) for o in v.ops):
        return True
    if isinstance(v, Sy) and v.p == (s, "[]") and not v.ops and x[0] == "bytes*":
        return True
    if isinstance(v, Li) and v.items is not None and x[0].startswith("bytes") and [J.deref(i) for i in v.items] == [Sy((s, "[%d]" % i)) for i in range(len(v.items))]:
        return True
    if isinstance(v, Li) and v.items is None and v.e is not None and x[0] == "bytes*" and v.e == Sy((s, "[]")):
        return True
    if isinstance(v, Sy) and len(v.p) == 2 and not v.ops and v.p[0][:1] == "#" and int(v.p[0][1:]) in I.ntargs:
        f, args = I.ntargs[int(v.p[0][1:])]
        i = E.through(f).get(v.p[1])
        w = unopt(args[i]) if i is not None else None
        if w == Sy((s,)):
            return True
    if isinstance(v, Sy) and v.ops == ("type name",):
        # the name of the kind that was read by dispatching on this very name
        ev = I.slotev.get(int(v.p[0][1:])) if v.p[0].startswith("#") else None
        return ev is not None and isinstance(ev.val, Mx) and any(p[0] == s for p, o in ev.val.a)
    if isinstance(v, Ad) and len(v.alts) == 1 and J.assume.get(("is", (s,), (), J.P.variant_name(v.k, next(iter(v.alts))))) is True:
        return True
    if isinstance(v, Sy) and v.p == (s,) and v.ops == ("BitXor", "BitXor"):
        return True                     # toggled on reading and on writing
    if isinstance(v, Ad) and v.k == OPT and set(v.alts) == {0}:
        return J.assume.get(("some", (s,), ())) is False
    if x[0] == "fstr" and isinstance(v, C) and v.v == "" and J.assume.get(("some", (s,), ())) is False:
        return False
    if isinstance(v, Ln) and v.t and all(t[0] in ("mem", "nt") for t in v.t):
        return ("size", x[0])           # a count of what was written: decided by L01, L02
    if isinstance(v, Sy) and v.p[0].startswith("arg:"):
        return ("given", x[0], v.p[0])
    if isinstance(v, Ad) and v.k == "()" and any(J.deref(f) == Sy((s,)) for f in v.alts[0].values()):
        return ("entry", x[0])
    if isinstance(v, C):
        r = allows(J.assume, s, v.v)
        if r is not None:
            return r
        if not held:
            return ("constant", x[0], v.v)
        return False
    if not held:
        return ("computed", x[0])
    return False


def one(O):
    return next(iter(O.alts.values())) if isinstance(O, Ad) and len(O.alts) == 1 else {}


def empty(v):
    return isinstance(v, Li) and not v.items and v.e is None


def skip_array(I, O, J):
    # the tag of the elements ends early (a property named None), or carries a guid of its own, which no engine writes
    f = one(O)
    if f.get("name") == Sy(("default",)):
        return True
    held = leaves(O, set())
    return any(label == "bytes16" and "#%d" % ev.slot not in held for label, v, ev in stored(I))


def skip_script(I, O, J):
    # no expression at all although a size was stored
    b = unopt(one(O).get("script_bytecode"))
    return b is not None and empty(b)


def skip_text(I, O, J):
    # an empty culture invariant string, which the engine does not store
    f = unopt(one(O).get("culture_invariant_string"))
    if J is None or not isinstance(f, Sy):
        return False
    return J.assume.get(("some", f.p, f.ops)) is False or J.assume.get(("iters", frozenset([(f.p, f.ops + ("len",))]))) == 0


def skip_foreign(I, O, J):
    # an unknown version guid: nothing else was read
    return len(stored(I)) == 1


# paths on which the file does not come from the engine, or the value is rebuilt by a rule of its own
SKIP = {"ArrayProperty": skip_array, "StructExport": skip_script, "TextProperty": skip_text, "FAssetRegistryVersionType": skip_foreign}
# packed words and code units: decided by K01 and the wire comparison
NOT_HERE = {"SerializedNameHeader", "UnversionedHeaderFragment", "UnversionedHeader", "ColorProperty", "ExUnicodeStringConst"}
BASE = os.path.join(os.path.dirname(os.path.abspath(__file__)), "rtbase.json")
HARMLESS = ("core::fmt", "alloc::fmt", "std::io::stdio", "core::panicking", "unreal_asset_base::containers::name_map")


def wkey(w):
    return " ".join(str(x) if not isinstance(x, tuple) else short(x) for x in w)


def check(P, rep, W, jobs, rule="round trip"):
    base = json.load(open(BASE))
    E = Env(W)
    tot = dict(rpaths=0, pairs=0, cfgs=0)
    gaveup = 0
    for T, rf, wf, wi, fixed, kw in jobs:
        tail = T.rsplit("::", 1)[-1]
        if tail in NOT_HERE or group_of(T) == "pak":
            continue
        key = "%s %s/%s" % (tail, rf.name, wf.name)
        b = base.get(key, {"weak": [], "unknown": []})
        try:
            r = run_pair(E, T, rf, wf, wi, fixed, {k: v for k, v in kw.items() if k == "nts"})
        except (Limit, TooMany, Split, RecursionError, KeyError, AttributeError, TypeError, IndexError, ValueError, AssertionError) as ex:
            rep.unsure(rule, key, "analysis gave up: %r" % (ex,))
            gaveup += 1
            continue
        for k in tot:
            tot[k] += r[k]
        newunk = sorted(k for k in r["unknown"] if k not in b["unknown"] and not k.startswith(HARMLESS))
        weak = sorted({wkey(w) for w in r["weak"]} - set(b["weak"]))
        if not r["pairs"]:
            rep.unsure(rule, key, "no path reads and writes")
            gaveup += 1
            continue
        if not r["diffs"] and not weak:
            rep.ok(rule, r["pairs"])
            continue
        if newunk and not set(x.rsplit("::", 1)[-1] for x in newunk) & CHANGING:
            rep.unsure(rule, key, "unmodelled: %s; differs: %s %s" % (newunk, list(r["diffs"])[:1], weak[:1]))
            gaveup += 1
            continue
        for d, (cfg, I, J) in r["diffs"].items():
            at = [(short(l), str(v)[:40]) for l, v, e in stored(I)]
            out = [(short(l), str(v)[:60]) for l, v, e in stored(J)] if J is not None else "nothing: the writer refuses"
            rep.bad(rule, "%s %s" % (tail, " ".join(map(str, d[:2]))), "%s (%s) reads what %s (%s) does not write back: %s\n    read %s\n    written %s\n    on the path %s\n    configuration %s" % (
                rf.key, rf.file, wf.key, wf.file, d, at[:16], out[:16], {str(k): v for k, v in list((J or I).assume.items())[:12]}, cfg))
        for w in weak if not r["diffs"] else ():
            rep.bad(rule, "%s %s" % (tail, w), "%s (%s) puts a value in place of one that %s does not keep: %s" % (wf.key, wf.file, rf.key, w))
    rep.cov.update({"rt_reader_paths": tot["rpaths"], "rt_path_pairs": tot["pairs"], "rt_configurations": tot["cfgs"]})
    if gaveup > max(2, len(jobs) // 3):
        rep.bad(rule, "inconclusive", "%d of %d pairs could not be analysed" % (gaveup, len(jobs)))


# methods that change a value (no rewriting of the same computation brings them in)
CHANGING = {"min", "max", "clamp", "abs", "rev", "trim", "trim_end", "trim_start", "to_lowercase", "to_uppercase", "to_ascii_lowercase", "to_ascii_uppercase", "swap_bytes", "to_be",
            "reverse", "sort", "sort_by", "sort_by_key", "sort_unstable", "dedup", "dedup_by_key", "retain", "truncate", "rotate_left", "rotate_right", "pop", "round", "floor", "ceil", "trunc",
            "saturating_sub", "saturating_add", "saturating_mul", "wrapping_add", "wrapping_sub", "wrapping_neg", "signum", "remove", "swap_remove", "swap", "count_ones", "leading_zeros", "fract"}


def group_of(T):
    return spec.group(T)


if __name__ == "__main__":
    import sys, core
    from prog import Program

    def main():
        P = Program("/verif/.build/dump")
        W = World(P)
        E = Env(W)
        out = {}
        for T, rf, wf, wi, fixed, kw in spec.jobs(W):
            tail = T.rsplit("::", 1)[-1]
            if tail in NOT_HERE or group_of(T) == "pak":
                continue
            r = run_pair(E, T, rf, wf, wi, fixed, {k: v for k, v in kw.items() if k == "nts"})
            key = "%s %s/%s" % (tail, rf.name, wf.name)
            o = out.setdefault(key, {"weak": [], "unknown": []})
            o["weak"] = sorted(set(o["weak"]) | {wkey(w) for w in r["weak"]})
            o["unknown"] = sorted(set(o["unknown"]) | set(r["unknown"]))
            if r["diffs"]:
                print("DIFF", key, list(r["diffs"])[:3])
        json.dump({k: v for k, v in out.items() if v["weak"] or v["unknown"]}, open(BASE, "w"), indent=1, sort_keys=True)
    core.big_stack(main)
