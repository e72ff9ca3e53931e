"""I01: the views of an indexed map agree.

An indexed map keeps its elements in a slab and knows them by key, by insertion index and by position.  Each operation is interpreted on every
map of up to three elements in an arbitrary valid state (keys, values and slots are symbols, the indices are increasing symbols, so removals may have left gaps), then each pair of operations;
afterwards the map is observed through all of its views, by interpreting those as well.  The oracle is a list of (index, key, value)."""
from interp import *
from wire import *
from pak import call, sessions, show, Unmodelled
from lengths import TooMany
from linear import infeasible

NONE = Ad(OPT, {0: {}})
ROLES = {"Slab": "store", "HashMap": "keys", "BTreeMap": "indices", "Vec": "order"}


def some(x):
    return Ad(OPT, {1: {"0": x}})


def sym(*n):
    return Ln(0, {(n, ()): 1})


class Odd(Exception):
    pass


class Wrong(Exception):
    pass


class Map:
    def __init__(self, W):
        P = self.P = W.P
        self.W = W
        pre = [k for k in P.adts if k.startswith("unreal_asset_base::") and k.endswith("::IndexedMap")]
        if len(pre) != 1:
            raise Unmodelled("IndexedMap")
        self.k = pre[0]
        mod = self.k.rsplit("::", 1)[0]
        self.mod = mod
        fs = P.adts[self.k]["v"][0]["f"]
        self.roles = {}
        for f in fs:
            r = ROLES.get(f["t"].h.rsplit("::", 1)[-1])
            self.roles[f["n"]] = r
        if sorted(map(str, self.roles.values())) != ["indices", "keys", "order", "store"]:
            raise Unmodelled("fields of IndexedMap: %s" % self.roles)
        self.vk = self.k.rsplit("::", 1)[0] + "::IndexedValue"
        va = P.adts.get(self.vk)
        if va is None:
            raise Unmodelled("element of the slab")
        self.vf = {}
        ints = [f["n"] for f in va["v"][0]["f"] if f["t"].h == "usize"]
        for f in va["v"][0]["f"]:
            h = f["t"].h
            self.vf[f["n"]] = "value" if h.startswith("param:V") else "key" if h.rsplit("::", 1)[-1] == "KeyItem" or h.startswith("param:K") else \
                "position" if "iter" in f["n"] or "pos" in f["n"] else "index" if h == "usize" else None
        if sorted(map(str, self.vf.values())) != ["index", "key", "position", "value"]:
            raise Unmodelled("fields of an element: %s" % self.vf)
        self.kk = mod + "::KeyItem"
        self.f = {}
        self.hooks = {}
        for g in P.fns.values():
            if g.b is None or g.self_ty is None or not g.key.startswith(mod):
                continue
            t = g.self_ty.peel().h
            self.f.setdefault((t.rsplit("::", 1)[-1] if not g.self_ty.h.startswith("&") else "&" + t.rsplit("::", 1)[-1], g.name), g)
            if t.startswith(mod) and g.name not in ("fmt",) and not (g.name in ("clone", "borrow", "eq", "hash", "rc_clone") and t != self.k):
                self.hooks[g.key] = self.h_own
            elif t == self.kk:
                self.hooks[g.key] = lambda I, a, fr, fn: a[0]

    def h_own(self, I, a, fr, fn):
        if fn.name == "clone":
            return NotImplemented
        return I.inline(fn, a, [], fr, None, None)

    # ---------------------------------------------------------------- state
    def start(self, I, n, gap=0):
        self.slab, self.keys, self.idx, self.order, self.ns = {}, {}, [], [], n
        self.base = 1 << 20
        self.model = []
        self.absent = ([lin_add(sym("index", i), Ln(-1, {})) for i in range(n)] if gap else []) + [lin_add(sym("index", n - 1), Ln(7, {})) if n else Ln(9, {})]
        for i in range(n):
            x = sym("index", i)
            prev = sym("index", i - 1) if i else Ln(-1, {})
            self.fact(I, lin_add(lin_add(x, prev, -1), Ln(-1 - gap, {})))
            slot = Sy(("slot", str(i)))
            fields = {}
            for f, r in self.vf.items():
                fields[f] = Ad(self.kk, {0: {"0": Sy(("key", str(i)))}}) if r == "key" and self.kk in self.P.adts else {"value": Sy(("value", str(i))), "key": Sy(("key", str(i))), "index": x, "position": C(i)}[r]
            self.slab[slot.p] = I.cell(Ad(self.vk, {0: fields}))
            self.keys[("key", str(i))] = slot
            self.idx.append((x, slot))
            self.order.append(slot)
            self.model.append([x, ("key", str(i)), Sy(("value", str(i)))])
        return Rf(I.cell(Ad(self.k, {0: {f: Sy(("box", r)) for f, r in self.roles.items()}})))

    def fact(self, I, d):
        f, s = I.form(d)
        lo, hi, ne = I.facts.get(f, (None, None, frozenset()))
        k = -d.k * s
        if s > 0:
            lo = k if lo is None else max(lo, k)
        else:
            hi = k if hi is None else min(hi, k)
        I.facts = {**I.facts, f: (lo, hi, ne)}

    def implied(self, I, d):
        return infeasible(self.system(I) + [(d.k + 1, dict(d.t))])

    def feasible(self, I):
        return not infeasible(self.system(I))

    def system(self, I):
        cs = []
        for f, (lo, hi, ne) in I.facts.items():
            e = dict(f)
            if lo is not None:
                cs.append((lo, {k: -v for k, v in e.items()}))
            if hi is not None:
                cs.append((-hi, e))
        return cs

    def order_of(self, I, a, b):
        """-1, 0, 1 or None"""
        d = lin_add(a, b, -1)
        if not d.t:
            return (d.k > 0) - (d.k < 0)
        if self.implied(I, lin_add(d, Ln(-1, {}))):
            return 1
        if self.implied(I, lin_add(Ln(-1, {}), d, -1)):
            return -1
        return None

    # ---------------------------------------------------------------- what values mean
    def box(self, I, v):
        v = I.deepval(v)
        return v.p[1] if isinstance(v, Sy) and len(v.p) == 2 and v.p[0] == "box" and not v.ops else None

    def key(self, I, v):
        v = I.deepval(v)
        while isinstance(v, Ad) and len(v.alts) == 1 and len(next(iter(v.alts.values()))) == 1:
            v = I.deepval(next(iter(next(iter(v.alts.values())).values())))
        if isinstance(v, Sy) and v.p[:1] == ("key",) and not v.ops:
            return v.p
        raise Odd("a key that is %s" % show(v)[:60])

    def slot(self, I, v):
        v = I.deepval(v)
        if isinstance(v, Sy) and v.p[:1] == ("slot",) and not v.ops:
            return v
        if isinstance(v, (C, Ln)):
            raise Wrong("uses a number as a place of the slab")
        raise Odd("a slot that is %s" % show(v)[:60])

    def lin(self, I, v):
        x = I.aslin(I.deref(v))
        if x is None or any(k[0] == "sy" for k in x.t):
            raise Odd("a number that is %s" % show(I.deref(v))[:60])
        return x

    def num(self, I, v):
        x = self.lin(I, v)
        if x.t:
            for k in range(6):
                if self.order_of(I, x, Ln(k, {})) == 0:
                    return k
            raise Wrong("uses an index as a position")
        return x.k

    # ---------------------------------------------------------------- the containers underneath
    def std(self, I, d, args, fr, targs):
        n, k = d["n"], d["k"]
        if I.dead():
            return TOP
        b = self.box(I, args[0]) if args else None
        if b:
            return getattr(self, "b_" + b)(I, n, args, fr)
        if n == "new" and "rc" in k and len(args) == 1:
            return args[0]
        if n == "try_unwrap" and len(args) == 1:
            x = self.key(I, args[0])
            return Ad(RES, {1: {"0": args[0]}}) if x in self.keys else Ad(RES, {0: {"0": I.deepval(args[0])}})
        if n == "ok" and args:
            w = I.deref(args[0])
            if isinstance(w, Ad) and w.k == RES and len(w.alts) == 1:
                return some(w.alts[0]["0"]) if 0 in w.alts else NONE
        if n in ("unwrap_or_default", "unwrap_or") and args:
            w = I.deref(args[0])
            if isinstance(w, Ad) and w.k == OPT and len(w.alts) == 1:
                return w.alts[1]["0"] if 1 in w.alts else C(0) if n == "unwrap_or_default" else args[1]
        if n in ("next", "next_back", "len", "size_hint") and args and isinstance(args[0], Rf):
            r = args[0]
            while isinstance(I.load(r.c, r.p), Rf):
                r = I.load(r.c, r.p)
            v = I.load(r.c, r.p)
            if isinstance(v, Li) and v.items is not None:
                if n == "len":
                    return C(len(v.items))
                if n == "size_hint":
                    return NotImplemented
                if not v.items:
                    return NONE
                it = list(v.items)
                x = it.pop(0 if n == "next" else -1)
                I.assign(r.c, r.p, Li(None, (), it))
                return some(x)
        if n == "eq" and len(args) == 2:
            a, o = I.deref(args[0]), I.deref(args[1])
            if isinstance(a, Ad) and isinstance(o, Ad) and "Iterator" in a.k and "Iterator" in o.k:
                return self.iter_eq(I, fr, args)
        if n in ("as_ref", "as_mut", "borrow", "borrow_mut", "deref", "clone") and len(args) == 1 and n != "clone":
            return NotImplemented
        return NotImplemented

    def iter_eq(self, I, fr, args):
        raise Odd("comparison of iterators")

    def b_store(self, I, n, args, fr):
        if n in ("insert",):
            self.ns += 1
            s = Sy(("slot", "new %d" % self.ns))
            self.slab[s.p] = I.cell(I.deref(args[1]))
            return s
        if n in ("get", "get_mut", "index", "index_mut", "remove", "contains", "try_remove"):
            s = self.slot(I, args[1])
            c = self.slab.get(s.p)
            if n == "contains":
                return C(c is not None)
            if n in ("get", "get_mut"):
                return some(Rf(c)) if c is not None else NONE
            if n == "try_remove":
                if c is None:
                    return NONE
                del self.slab[s.p]
                return some(I.st.store[c])
            if c is None:
                raise Wrong("uses a place of the slab that is empty")
            if n == "remove":
                del self.slab[s.p]
                return I.st.store[c]
            return Rf(c)
        if n == "len":
            return C(len(self.slab))
        if n == "is_empty":
            return C(not self.slab)
        if n in ("as_ref", "as_mut", "borrow", "borrow_mut", "by_ref", "reserve"):
            return args[0]
        raise Odd("%s of the slab" % n)

    def b_keys(self, I, n, args, fr):
        if n in ("get", "get_mut", "contains_key", "remove", "index", "get_key_value"):
            k = self.key(I, args[1])
            s = self.keys.get(k)
            if n == "contains_key":
                return C(s is not None)
            if n == "index":
                if s is None:
                    raise Wrong("looks for a key that is not there")
                return Rf(I.cell(s))
            if n == "remove":
                self.keys.pop(k, None)
                return some(s) if s is not None else NONE
            return some(Rf(I.cell(s))) if s is not None else NONE
        if n == "insert":
            k, s = self.key(I, args[1]), self.slot(I, args[2])
            o = self.keys.get(k)
            self.keys[k] = s
            return some(o) if o is not None else NONE
        if n == "len":
            return C(len(self.keys))
        if n == "is_empty":
            return C(not self.keys)
        if n in ("iter", "into_iter"):
            return Li(None, (), [Ad("tuple", {0: {"0": Rf(I.cell(Sy(k))), "1": Rf(I.cell(s))}}) for k, s in self.keys.items()])
        if n in ("as_ref", "as_mut", "borrow", "borrow_mut", "reserve"):
            return args[0]
        raise Odd("%s of the key map" % n)

    def b_indices(self, I, n, args, fr):
        if n in ("get", "get_mut", "contains_key", "remove", "insert"):
            x = self.lin(I, args[1])
            at = None
            for i, (y, s) in enumerate(self.idx):
                o = self.order_of(I, x, y)
                if o is None:
                    if self.open:
                        continue
                    raise Odd("an index that may or may not be in use")
                if o == 0:
                    at = i
            if n == "contains_key":
                return C(at is not None)
            if n == "insert":
                s = self.slot(I, args[2])
                if at is not None:
                    o = self.idx[at][1]
                    self.idx[at] = (x, s)
                    return some(o)
                i = 0
                while i < len(self.idx) and self.order_of(I, self.idx[i][0], x) == -1:
                    i += 1
                self.idx.insert(i, (x, s))
                return NONE
            if at is None:
                return NONE
            s = self.idx[at][1]
            if n == "remove":
                self.idx.pop(at)
                return some(s)
            return some(Rf(I.cell(s)))
        if n in ("last_key_value", "first_key_value"):
            if not self.idx:
                return NONE
            x, s = self.idx[-1 if n[0] == "l" else 0]
            return some(Ad("tuple", {0: {"0": Rf(I.cell(x)), "1": Rf(I.cell(s))}}))
        if n == "len":
            return C(len(self.idx))
        if n == "is_empty":
            return C(not self.idx)
        if n in ("iter", "into_iter"):
            return Li(None, (), [Ad("tuple", {0: {"0": Rf(I.cell(x)), "1": Rf(I.cell(s))}}) for x, s in self.idx])
        if n == "keys":
            return Li(None, (), [Rf(I.cell(x)) for x, s in self.idx])
        if n in ("values", "into_values"):
            return Li(None, (), [Rf(I.cell(s)) for x, s in self.idx])
        if n in ("as_ref", "as_mut", "borrow", "borrow_mut"):
            return args[0]
        raise Odd("%s of the index map" % n)

    def b_order(self, I, n, args, fr):
        o = self.order
        if n == "push":
            o.append(self.slot(I, args[1]))
            return UNIT
        if n == "len":
            return C(len(o))
        if n == "is_empty":
            return C(not o)
        if n == "pop":
            return some(o.pop()) if o else NONE
        if n in ("remove", "swap_remove"):
            i = self.num(I, args[1])
            if not 0 <= i < len(o):
                raise Wrong("removes a position that is not there")
            x = o[i]
            if n == "remove":
                del o[i]
            else:
                o[i] = o[-1]
                o.pop()
            return x
        if n == "insert":
            o.insert(self.num(I, args[1]), self.slot(I, args[2]))
            return UNIT
        if n in ("index", "index_mut", "get", "get_mut"):
            r = I.deref(args[1])
            if isinstance(r, Ad) and len(r.alts) == 1:
                k = r.k.rsplit("::", 1)[-1]
                fs = next(iter(r.alts.values()))
                v = list(fs.values())
                lo, hi = 0, len(o)
                if k == "RangeFrom":
                    lo = self.num(I, v[0])
                elif k == "RangeTo":
                    hi = self.num(I, v[0])
                elif k == "Range":
                    lo, hi = self.num(I, fs.get("start", v[0])), self.num(I, fs.get("end", v[-1]))
                elif k != "RangeFull":
                    raise Odd("a range of positions")
                if not 0 <= lo <= hi <= len(o):
                    raise Wrong("takes a range of positions that is not there")
                x = Li(None, (), [Rf(I.cell(s)) for s in o[lo:hi]])
                return x if n.startswith("index") else some(x)
            i = self.num(I, args[1])
            if n.startswith("index"):
                if not 0 <= i < len(o):
                    raise Wrong("takes a position that is not there")
                return Rf(I.cell(o[i]))
            return some(Rf(I.cell(o[i]))) if 0 <= i < len(o) else NONE
        if n in ("iter", "into_iter"):
            owned = not isinstance(args[0], Rf) and not isinstance(I.deref(args[0]), Rf) and n == "into_iter" and self.byval
            return Li(None, (), [s if owned else Rf(I.cell(s)) for s in o])
        if n in ("as_ref", "as_mut", "borrow", "borrow_mut", "reserve", "deref", "deref_mut", "as_slice"):
            return args[0]
        if n == "retain":
            keep = []
            for s in list(o):
                r = I.deref(I.apply(args[1], [Rf(I.cell(s))], fr))
                if not isinstance(r, C):
                    raise Odd("retain")
                if r.v:
                    keep.append(s)
            o[:] = keep
            return UNIT
        raise Odd("%s of the list of positions" % n)


def value_of(I, v):
    v = I.deepval(v)
    return v


def tup(I, v):
    v = I.deref(v)
    if isinstance(v, Ad) and len(v.alts) == 1:
        fs = next(iter(v.alts.values()))
        return [fs[k] for k in sorted(fs)]
    raise Odd("a result that is %s" % show(v)[:60])


def opt(I, v):
    v = I.deref(v)
    if isinstance(v, Ad) and v.k == OPT and len(v.alts) == 1:
        return None if 0 in v.alts else v.alts[1]["0"]
    raise Odd("a result that is %s" % show(v)[:60])


def truth(I, v):
    v = I.deref(v)
    if isinstance(v, C):
        return bool(v.v)
    raise Odd("a result that is %s" % show(v)[:60])


# -------------------------------------------------------------------- operations on the map, with their meaning on the list
def fresh(c, tag):
    return Sy(("key", tag)), Sy(("value", tag))


def append(c, I, key, val):
    """the model of an insertion of a new key: its index is learned from the map"""
    c.model.append([None, key.p, val])


def op_insert(c, I, fr, m, tag, at):
    k, v = fresh(c, tag)
    if at is not None:
        k = Sy(c.model[at][1])
    call(I, fr, c.f[("IndexedMap", "insert")], m, k, v)
    if at is None:
        append(c, I, k, v)
    else:
        c.model[at][2] = v


def op_remove_key(c, I, fr, m, tag, at):
    k = Sy(c.model[at][1]) if at is not None else fresh(c, tag)[0]
    removed(c, I, call(I, fr, c.f[("IndexedMap", "remove_by_key")], m, Rf(I.cell(k))), at)


def op_remove_index(c, I, fr, m, tag, at):
    x = c.model[at][0] if at is not None else c.absent[0]
    removed(c, I, call(I, fr, c.f[("IndexedMap", "remove_by_index")], m, x), at)


def removed(c, I, r, at):
    r = opt(I, r)
    if at is None:
        if r is not None:
            raise Wrong("removing what is not there gives something")
        return
    if r is None:
        raise Wrong("removing an element that is there gives nothing")
    triple(c, I, r, c.model[at], "removing an element gives another one")
    del c.model[at]


def triple(c, I, r, want, what):
    x, k, v = tup(I, r)
    if c.order_of(I, c.lin(I, x), want[0]) != 0 or c.key(I, k) != want[1] or value_of(I, v) != want[2]:
        raise Wrong(what)


def op_entry(c, I, fr, m, tag, at):
    k, v = fresh(c, tag)
    if at is not None:
        k = Sy(c.model[at][1])
    e = call(I, fr, c.f[("IndexedMap", "entry")], m, k)
    r = call(I, fr, c.f[("Entry", "or_insert")], e, v)
    if at is None:
        append(c, I, k, v)
    elif value_of(I, r) != c.model[at][2]:
        raise Wrong("an entry that is there gives another value")


def op_entry_with(c, I, fr, m, tag, at):
    return op_entry(c, I, fr, m, tag, at)


def op_entry_remove(c, I, fr, m, tag, at):
    if at is None:
        return
    e = I.deref(call(I, fr, c.f[("IndexedMap", "entry")], m, Sy(c.model[at][1])))
    fs = next(iter(e.alts.values())) if isinstance(e, Ad) and len(e.alts) == 1 else {}
    occ = next(iter(fs.values()), None)
    if occ is None or not isinstance(I.deref(occ), Ad) or "Occupied" not in I.deref(occ).k:
        raise Wrong("the entry of a key that is there is not an occupied one")
    r = call(I, fr, c.f[("OccupiedEntry", "remove_entry")], occ)
    triple(c, I, r, c.model[at], "removing an entry gives another one")
    del c.model[at]


def op_change(c, I, fr, m, tag, at):
    """a value changed through one of the mutable views"""
    if at is None:
        return
    v = Sy(("value", tag))
    r = opt(I, call(I, fr, c.f[("IndexedMap", "get_by_key_mut")], m, Rf(I.cell(Sy(c.model[at][1])))))
    if not isinstance(r, Rf):
        raise Odd("a mutable view that is no reference")
    I.assign(r.c, r.p, v)
    c.model[at][2] = v


def op_change_index(c, I, fr, m, tag, at):
    if at is None:
        return
    v = Sy(("value", tag))
    r = opt(I, call(I, fr, c.f[("IndexedMap", "get_by_index_mut")], m, c.model[at][0]))
    if not isinstance(r, Rf):
        raise Odd("a mutable view that is no reference")
    I.assign(r.c, r.p, v)
    c.model[at][2] = v


OPS = [("insert", op_insert), ("remove_by_key", op_remove_key), ("remove_by_index", op_remove_index), ("entry().or_insert", op_entry),
       ("entry().remove", op_entry_remove), ("get_by_key_mut", op_change), ("get_by_index_mut", op_change_index)]


def observe(c, I, fr, m, full):
    """all views against the list"""
    n = len(c.model)
    # the position view first: it tells the index of an element that was added
    it = Rf(I.cell(call(I, fr, c.f[("IndexedMap", "iter")], m)))
    got = []
    while True:
        r = opt(I, call(I, fr, c.f[("IndexedMapIndexIterator", "next")], it))
        if r is None:
            break
        got.append(tup(I, r))
        if len(got) > n + 1:
            break
    if len(got) != n:
        raise Wrong("the iteration has another number of elements")
    for g, w in zip(got, c.model):
        if w[0] is None:
            w[0] = c.lin(I, g[0])
            for o in c.model:
                if o is not w and o[0] is not None:
                    e = c.order_of(I, o[0], w[0])
                    if e == 0:
                        raise Wrong("an element that is added takes the index of another one")
                    if e is None:
                        raise Wrong("an element that is added can take the index of another one")
        triple(c, I, Ad("tuple", {0: {"0": g[0], "1": g[1], "2": g[2]}}), w, "the iteration gives another element, or in another order")
    for x, k, v in c.model:
        r = opt(I, call(I, fr, c.f[("IndexedMap", "get_by_key")], m, Rf(I.cell(Sy(k)))))
        if r is None or value_of(I, r) != v:
            raise Wrong("looking for a key gives another value")
        r = opt(I, call(I, fr, c.f[("IndexedMap", "get_by_index")], m, x))
        if r is None or value_of(I, r) != v:
            raise Wrong("looking for an index gives another value")
    if c.num(I, call(I, fr, c.f[("IndexedMap", "len")], m)) != n:
        raise Wrong("the number of elements is another one")
    gone = Sy(("key", "never"))
    if opt(I, call(I, fr, c.f[("IndexedMap", "get_by_key")], m, Rf(I.cell(gone)))) is not None:
        raise Wrong("a key that is not there is found")
    for k in c.gone:
        if all(w[1] != k for w in c.model) and opt(I, call(I, fr, c.f[("IndexedMap", "get_by_key")], m, Rf(I.cell(Sy(k))))) is not None:
            raise Wrong("a key that was removed is found")
    for x in c.gonex:
        if all(c.order_of(I, w[0], x) != 0 for w in c.model) and opt(I, call(I, fr, c.f[("IndexedMap", "get_by_index")], m, x)) is not None:
            raise Wrong("an index that was removed is found")
    if not full:
        return
    if truth(I, call(I, fr, c.f[("IndexedMap", "is_empty")], m)) != (n == 0):
        raise Wrong("is_empty is wrong")
    for x, k, v in c.model:
        if not truth(I, call(I, fr, c.f[("IndexedMap", "contains_key")], m, Rf(I.cell(Sy(k))))) or not truth(I, call(I, fr, c.f[("IndexedMap", "contains_index")], m, x)):
            raise Wrong("an element that is there is said not to be")
    if truth(I, call(I, fr, c.f[("IndexedMap", "contains_key")], m, Rf(I.cell(gone)))):
        raise Wrong("an element that is not there is said to be")
    for x in c.absent:
        if all(c.order_of(I, w[0], x) not in (0, None) for w in c.model):
            if truth(I, call(I, fr, c.f[("IndexedMap", "contains_index")], m, x)):
                raise Wrong("an index that is not there is said to be")
            if opt(I, call(I, fr, c.f[("IndexedMap", "get_by_index")], m, x)) is not None:
                raise Wrong("an index that is not there is found")
    ways = [("iter", "IndexedMapIndexIterator", None, True), ("iter_mut", "IndexedMapIndexIteratorMut", None, True), ("values", "Values", 2, True),
            ("values_mut", "ValuesMut", 2, True), ("keys", "Keys", 1, True), ("iter_key", "IndexedMapKeyIterator", "set", False), ("iter_key_mut", "IndexedMapKeyIteratorMut", "set", False)]
    for make, typ, part, back in ways:
        if ("IndexedMap", make) not in c.f:
            continue
        for step in ("next", "next_back") if back else ("next",):
            if (typ, step) not in c.f:
                continue
            it = Rf(I.cell(call(I, fr, c.f[("IndexedMap", make)], m)))
            got = []
            while len(got) <= n:
                r = opt(I, call(I, fr, c.f[(typ, step)], it))
                if r is None:
                    break
                got.append(r)
            want = list(c.model) if step == "next" else c.model[::-1]
            if len(got) != n:
                raise Wrong("%s (%s) has another number of elements" % (make, step))
            if part == "set":
                ks = [c.key(I, tup(I, g)[1]) for g in got]
                if len(set(ks)) != len(ks):
                    raise Wrong("%s gives an element twice" % make)
                want = [next((w for w in c.model if w[1] == k), None) for k in ks]
                if None in want:
                    raise Wrong("%s gives another element" % make)
            for g, w in zip(got, want):
                if part is None or part == "set":
                    triple(c, I, g, w, "%s (%s) gives another element" % (make, step))
                elif part == 1 and c.key(I, g) != w[1] or part == 2 and value_of(I, g) != w[2]:
                    raise Wrong("%s (%s) gives another element" % (make, step))
    own = [g for (t, nme), g in c.f.items() if nme == "into_iter" and t == "IndexedMap" and not g.self_ty.h.startswith("&")]
    for g in own:
        for step in ("next", "next_back"):
            if ("IndexedMapIndexIteratorOwned", step) not in c.f:
                continue
            keep = dict(c.slab), dict(c.keys), list(c.order)
            it = Rf(I.cell(call(I, fr, g, I.deref(m))))
            c.keys = {}
            want = list(c.model) if step == "next" else c.model[::-1]
            for w in want:
                r = opt(I, call(I, fr, c.f[("IndexedMapIndexIteratorOwned", step)], it))
                if r is None:
                    raise Wrong("taking the map apart (%s) loses an element" % step)
                triple(c, I, r, w, "taking the map apart (%s) gives another element" % step)
            c.slab, c.keys, c.order = keep


def equality(c, rep):
    """maps are equal only if what they hold was compared"""
    f = c.f.get(("IndexedMap", "eq"))
    if f is None:
        raise Unmodelled("comparison of maps")
    seen, n = [], 0

    def which(I, v):
        v = I.deepval(v)
        if isinstance(v, Sy) and v.p[:1] in (("one",), ("two",)):
            return v.p
        return None

    def std(I, d, args, fr, targs):
        ps = [which(I, a) for a in args]
        if d["n"] in ("eq", "ne") and len(ps) == 2 and all(ps) and ps[0][0] != ps[1][0]:
            r = not I.choose(2)
            seen.append((ps[0][1:], ps[1][1:], r))
            return C(r == (d["n"] == "eq"))
        if ps and ps[0] and d["n"] in ("len", "is_empty"):
            return Sy(ps[0] + (d["n"],))
        if ps and ps[0] and d["n"] in ("iter", "into_iter", "values", "keys"):
            return Sy(ps[0] + (d["n"],))
        return NotImplemented

    def hook(I, a, fr, fn):
        p = which(I, a[0])
        if fn.name in ("iter", "values", "keys", "iter_key", "into_iter", "len", "is_empty") and a:
            v = I.deref(a[0])
            if isinstance(v, Ad) and v.k == c.k:
                w = which(I, next(iter(next(iter(v.alts.values())).values())))
                if w:
                    return Sy((w[0], fn.name))
        return NotImplemented
    hooks = {g.key: hook for (t, m), g in c.f.items() if t in ("IndexedMap", "&IndexedMap") and m != "eq"}

    def script(I, fr):
        seen.clear()
        a, b = (Rf(I.cell(Ad(c.k, {0: {x: Sy((w, r)) for x, r in c.roles.items()}}))) for w in ("one", "two"))
        return call(I, fr, f, a, b)
    for I, r in sessions(c.W, "w", {}, script, f, dead=True, errs=True, stdfx=std, hooks=hooks, vertypes={}):
        r = I.deref(r)
        n += 1
        if not isinstance(r, C):
            rep.unsure("equality", "result", "the result of a comparison of maps is %s" % show(r)[:60])
        elif r.v and not any(ok and a == b and (a[0] in ("iter", "into_iter", "store") or a[:2] in (("values",),)) for a, b, ok in seen):
            if any(ok and a == b and a[0] in ("values", "iter_key") for a, b, ok in seen):
                rep.unsure("equality", "order", "maps are compared in a way that is not modelled")
            else:
                rep.bad("equality", "values not compared", "maps can be called equal although only %s of them agree" % ", ".join(sorted({".".join(a) for a, b, ok in seen if ok}) or ["nothing"]))
        elif not r.v and seen and all(ok for a, b, ok in seen):
            rep.ok("equality")
        else:
            rep.ok("equality")
    rep.floor("equality", n, 2, "paths of the comparison of maps")


def check(P, rep):
    W = World(P)
    try:
        return run(P, rep, W)
    except (Unmodelled, TooMany, StopIteration) as e:
        rep.unsure("views", "map", "not modelled: %r" % (e,))
    except (Limit, RecursionError, KeyError, AttributeError, TypeError, IndexError, ValueError, AssertionError) as ex:
        rep.unsure("views", "map", "analysis gave up: %r" % (ex,))


def run(P, rep, W):
    c = Map(W)
    c.open, c.byval = True, True
    for need in ("insert", "get_by_key", "get_by_index", "iter", "len", "remove_by_key", "remove_by_index", "entry"):
        if ("IndexedMap", need) not in c.f:
            raise Unmodelled("IndexedMap::" + need)
    root = c.f[("IndexedMap", "insert")]
    cases = 0
    for n, gap in [(n, gap) for n in range(4) for gap in ((0, 1) if n else (0,))]:
        hist = [()]
        for name, op in OPS:
            for at in [None] + list(range(n)):
                hist.append(((name, op, at),))
        two = []
        for h in hist[1:]:
            for name, op in OPS:
                for at in [None] + list(range(n + 1)):
                    two.append(h + ((name, op, at),))
        for h in hist + (two if not gap else []):
            state, total = {}, {}

            def script(I, fr):
                m = c.start(I, n, gap)
                state.clear()
                state["r"] = None
                c.gone, c.gonex = set(), []
                try:
                    for j, (name, op, at) in enumerate(h):
                        if at is not None and at >= len(c.model):
                            state["skip"] = True
                            return
                        if j and any(w[0] is None for w in c.model):
                            observe(c, I, fr, m, False)
                        before = [list(w) for w in c.model]
                        op(c, I, fr, m, "new %d" % j, at)
                        for w in before:
                            if all(w[1] != o[1] for o in c.model):
                                c.gone.add(w[1])
                                c.gonex.append(w[0])
                    observe(c, I, fr, m, len(h) < 2)
                    if I.dead():
                        raise Odd("no result on this path")
                except Odd as e:
                    state["odd"] = str(e)
                except Wrong as e:
                    state["bad"] = str(e)
            for I, r in sessions(W, "w", {}, script, root, dead=True, errs=True, facts=True, symlin=True, stdfx=c.std, hooks=c.hooks, vertypes={}, statics={}, rounds=3):
                rep.fns |= {x for x in I.seen if x.startswith("unreal_asset")}
                if not c.feasible(I):
                    continue
                for k in ("odd", "bad", "skip"):
                    if k in state:
                        total.setdefault(k, state[k])
            state = total
            if state.get("skip"):
                continue
            cases += 1
            text = ", ".join("%s(%s)" % (name, "a new key" if at is None else "element %d" % at) for name, op, at in h) or "nothing"
            if "odd" in state:
                rep.unsure("views", "%s: %s" % (h[-1][0] if h else "views", state["odd"]), "not modelled after %s on %d elements: %s" % (text, n, state["odd"]))
            elif "bad" in state:
                rep.bad("views", "%s: %s" % (h[0][0] if h else "views", state["bad"]), "after %s on a map of %d elements: %s" % (text, n, state["bad"]))
            else:
                rep.ok("views")
    rep.cov["cases"] = cases
    equality(c, rep)
    rep.floor("views", cases, 600, "cases of operations")
