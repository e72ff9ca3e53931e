"""I02: an index of the name map always means the text it was given out for.

Each operation of the name map is interpreted path by path on an arbitrary map: the list of names is a symbol of arbitrary length, the lookup by hash finds nothing or
any valid index (so also that of another text with the same hash), and comparisons of texts go either way.  What is checked holds for one operation on any
map, hence for every history."""
from interp import *
from wire import *
from pak import call, sessions, show, Unmodelled
from lengths import TooMany
from linear import infeasible

N = Ln(0, {(("length",), ()): 1})
NONE = Ad(OPT, {0: {}})


def sym(n):
    return Ln(0, {((n,), ()): 1})


def some(x):
    return Ad(OPT, {1: {"0": x}})


class Names:
    def __init__(self, W):
        self.W = W
        P = self.P = W.P
        ks = [k for k in P.adts if k.startswith("unreal_asset_base::") and k.endswith("::NameMap")]
        fs = [k for k in P.adts if k.startswith("unreal_asset_base::") and k.endswith("::FName")]
        if len(ks) != 1 or len(fs) != 1:
            raise Unmodelled("NameMap or FName")
        self.k, self.fk = ks[0], fs[0]
        self.f = {g.name: g for g in P.fns.values() if g.b is not None and g.self_ty is not None and g.self_ty.h == self.k}
        self.hooks = {}
        self.roles = {}
        for x in P.adts[self.k]["v"][0]["f"]:
            h = x["t"].h.rsplit("::", 1)[-1]
            self.roles[x["n"]] = "list" if h == "Vec" else "lookup" if h in ("IndexedMap", "HashMap", "BTreeMap") else x["n"]
        if sorted(v for v in self.roles.values() if v in ("list", "lookup")) != ["list", "lookup"]:
            raise Unmodelled("fields of NameMap")
        for g in P.fns.values():
            if g.b is None or g.self_ty is None:
                continue
            t = g.self_ty.h.rsplit("::", 1)[-1]
            if g.self_ty.h in (self.k, self.fk):
                self.hooks[g.key] = self.h_own
            elif t == "IndexedMap":
                self.hooks[g.key] = self.h_map
            elif t in ("SharedResource", "SharedResourceWeakRef"):
                self.hooks[g.key] = self.h_shared

    # ---------------------------------------------------------------- one path
    def start(self, I, length=N):
        self.len, self.pushed, self.inserted, self.eqs, self.found, self.odd, self.bad, self.hashed = length, [], [], [], [], None, None, []
        self.len0 = length
        if length.t:
            self.fact(I, length)
        return Rf(I.cell(Ad(self.k, {0: {n: Sy((r,)) for n, r in self.roles.items()}})))

    def fact(self, I, d):
        if not d.t:
            return
        f, s = I.form(d)
        lo, hi, ne = I.facts.get(f, (None, None, frozenset()))
        k = -d.k * s
        if s > 0:
            lo = k if lo is None else max(lo, k)
        else:
            hi = k if hi is None else min(hi, k)
        I.facts = {**I.facts, f: (lo, hi, ne)}

    def system(self, I):
        cs = []
        for f, (lo, hi, ne) in I.facts.items():
            d = dict(f)
            if lo is not None:
                cs.append((lo, {k: -v for k, v in d.items()}))
            if hi is not None:
                cs.append((-hi, d))
        return cs

    def implied(self, I, d):
        return infeasible(self.system(I) + [(d.k + 1, dict(d.t))])

    def same(self, I, a, b):
        if a is None or b is None:
            return False
        d = lin_add(a, b, -1)
        return d.k == 0 if not d.t else self.implied(I, d) and self.implied(I, Ln(-d.k, {k: -v for k, v in d.t.items()}))

    def lin(self, I, v):
        return I.aslin(I.deref(v))

    def text(self, I, v):
        """what a text is: a name given, or the entry at an index"""
        v = I.deepval(v)
        if isinstance(v, Sy) and v.p and v.p[0] in ("name", "entry", "value") and not v.ops:
            return v.p
        if isinstance(v, C):
            return ("const", v.v)
        return None

    def at(self, I, i):
        """the text at an index"""
        for k, (n, t) in enumerate(self.pushed):
            if self.same(I, i, n):
                return t
        return ("entry", tuple(sorted(i.t.items(), key=str)), i.k)

    # ---------------------------------------------------------------- calls
    def h_own(self, I, a, fr, fn):
        if fn.name in ("fmt", "clone"):
            return NotImplemented
        if fn.self_ty.h == self.k and fn.name == "new":
            return self.fresh
        return I.inline(fn, a, [], fr, None, None)

    def h_shared(self, I, a, fr, fn):
        if fn.name in ("get_ref", "get_mut", "clone", "deref", "new"):
            return a[0]
        if fn.name == "upgrade":
            return some(Sy(("map", "itself")))
        return NotImplemented

    def h_map(self, I, a, fr, fn):
        return self.lookup(I, fn.name, a)

    def lookup(self, I, n, a):
        if n in ("get_by_key", "get", "contains_key", "get_by_key_mut", "get_mut"):
            h = I.deepval(a[1])
            if not (isinstance(h, Sy) and h.p[:1] == ("hash",)):
                self.odd = "lookup by %s" % show(h)[:40]
                return NONE
            known = [v for k, v in self.inserted if k == h.p]
            if known:
                v = known[-1]
            elif I.choose(2):
                v = sym("found %d" % len(self.found))
                self.fact(I, v)
                self.fact(I, lin_add(lin_add(self.len0, v, -1), Ln(-1, {})))
                self.found.append((h.p, v))
            else:
                self.found.append((h.p, None))
                v = None
            if n == "contains_key":
                return C(v is not None)
            return some(Rf(I.cell(v))) if v is not None else NONE
        if n == "insert":
            h, v = I.deepval(a[1]), self.lin(I, a[2])
            if not (isinstance(h, Sy) and h.p[:1] == ("hash",)) or v is None:
                self.odd = "lookup filled by %s" % show(h)[:40]
            else:
                self.inserted.append((h.p, v))
            return UNIT
        if n in ("new", "with_capacity", "default"):
            return Sy(("lookup",))
        if n == "len":
            return sym("lookup length")
        if n == "eq":
            return self.equal(I, ("lookup", "both"))
        self.odd = "%s of the lookup" % n
        return TOP

    def equal(self, I, what):
        r = not I.choose(2)
        self.eqs.append((what, r))
        return C(r)

    def role(self, I, v):
        v = I.deepval(v)
        if isinstance(v, Sy) and v.p in (("list",), ("lookup",), ("other list",), ("other lookup",)):
            return v.p[0]
        return None

    def std(self, I, d, args, fr, targs):
        n = d["n"]
        ro = self.role(I, args[0]) if args else None
        if n == "hash" and len(args) == 2:
            t = self.text(I, args[0])
            self.hashed.append(t)
            if isinstance(args[1], Rf):
                old = I.deepval(args[1])
                h = old.p if isinstance(old, Sy) and old.p[:1] == ("hash",) else ("hash",)
                v = I.deepval(args[0])
                I.assign(args[1].c, args[1].p, Sy(h + (t or repr(v),)))
            return UNIT
        if n == "finish" and len(args) == 1:
            h = I.deepval(args[0])
            return h if isinstance(h, Sy) and h.p[:1] == ("hash",) else Sy(("hash",))
        if n in ("eq", "ne") and len(args) == 2:
            a, b = self.role(I, args[0]), self.role(I, args[1])
            if a and b:
                r = self.equal(I, (a.split(" ")[-1], "both"))
                return r if n == "eq" else C(not r.v)
            a, b = self.text(I, args[0]), self.text(I, args[1])
            if a and b:
                if a == b:
                    return C(n == "eq")
                r = self.equal(I, frozenset((a, b)))
                return r if n == "eq" else C(not r.v)
            return NotImplemented
        if n == "len" and len(args) == 1 and self.text(I, args[0]):
            return Ln(0, {(("text length", repr(self.text(I, args[0]))), ()): 1})
        if ro == "lookup":
            return self.lookup(I, n, args)
        if ro == "list":
            if n == "push":
                self.pushed.append((self.len, self.text(I, args[1])))
                self.len = lin_add(self.len, Ln(1, {}))
                return UNIT
            if n == "len":
                return self.len
            if n == "is_empty":
                return C(I.decide("Eq", self.len)) if self.len.t else C(self.len.k == 0)
            if n in ("index", "index_mut", "get", "get_mut"):
                i = self.lin(I, args[1])
                if i is None:
                    self.odd = "a place in the list that is not linear"
                    return TOP
                if n.startswith("index"):
                    if not self.implied(I, i) or not self.implied(I, lin_add(lin_add(self.len, i, -1), Ln(-1, {}))):
                        self.bad = self.bad or "takes a name from the list by an index that may lie outside of it"
                    return Rf(I.cell(Sy(self.at(I, i))))
                if I.decide("Ge", i) and I.decide("Gt", lin_add(self.len, i, -1)):
                    return some(Rf(I.cell(Sy(self.at(I, i)))))
                return NONE
            if n in ("as_slice", "deref", "as_ref", "as_mut", "deref_mut", "borrow"):
                return args[0]
            if n in ("reserve", "shrink_to_fit"):
                return UNIT
            self.odd = "%s of the list of names" % n
            return TOP
        if n in ("with_capacity",) and "alloc::vec" in d["k"]:
            return Sy(("list",))
        if n in ("upgrade",):
            return some(Sy(("map", "itself")))
        return NotImplemented

    def paths(self, script, root):
        for I, r in sessions(self.W, "w", {}, script, root, dead=True, errs=True, facts=True, symlin=True, stdfx=self.std, hooks=self.hooks, vertypes={}, statics={}, rounds=2):
            if not infeasible(self.system(I)):
                yield I, r


NAME = Sy(("name", "x"))


def check(P, rep):
    W = World(P)
    try:
        c = Names(W)
    except (Unmodelled, KeyError, IndexError) as e:
        rep.unsure("names", "name map", "not modelled: %r" % (e,))
        rep.floor("names", 0, 10, "operations of the name map")
        return
    n = 0
    for fn in (search, add, get, create, batch, plain, equality, fname):
        try:
            fn(c, rep)
            n += 1
        except (Unmodelled, TooMany, StopIteration) as e:
            rep.unsure("names", fn.__name__, "not modelled: %r" % (e,))
        except (Limit, RecursionError, KeyError, AttributeError, TypeError, IndexError, ValueError, AssertionError) as ex:
            rep.unsure("names", fn.__name__, "analysis gave up: %r" % (ex,))
    rep.cov["operations"] = n


def judge(c, rep, what, I, problems):
    """one path: problems is a list of texts"""
    rep.fns |= {x for x in I.seen if x.startswith("unreal_asset")}
    if c.odd:
        rep.unsure("names", "%s: %s" % (what, c.odd), "not modelled: %s" % c.odd)
        return
    for p in ([c.bad] if c.bad else []) + problems:
        rep.bad("names", "%s: %s" % (what, p), "%s: %s (%s)" % (what, p, "; ".join("%s %s" % (e, v) for e, v in c.eqs)[:200]))
    if not c.bad and not problems:
        rep.ok("names")


def option(I, r):
    """(known, value)"""
    r = I.deref(r)
    if isinstance(r, Ad) and r.k == OPT and len(r.alts) == 1:
        return (True, None) if 0 in r.alts else (True, I.deref(r.alts[1]["0"]))
    return False, None


def is_at(c, I, i, text):
    """on this path the list holds the text at i"""
    t = c.at(I, i)
    if t == text:
        return True
    for e, r in c.eqs:
        if r and isinstance(e, frozenset) and text in e:
            o = next(iter(e - {text}), None)
            if o == t or o and o[0] == "entry" and c.same(I, i, Ln(o[2], dict(o[1]))):
                return True
    return False


def search(c, rep):
    f = c.f["search_name_reference"]
    n = 0
    for I, r in c.paths(lambda I, fr: call(I, fr, f, c.start(I), NAME), f):
        n += 1
        ok, v = option(I, r)
        if not ok:
            c.odd = c.odd or "result %s" % show(r)[:40]
            judge(c, rep, "search", I, [])
            continue
        bad = []
        if any(h != ("hash", NAME.p) for h, j in c.found):
            bad.append("looks for something other than the hash of the name")
        if v is not None:
            i = c.lin(I, v)
            if not is_at(c, I, i, NAME.p):
                bad.append("an index is returned at which another name can stand")
        else:
            hit = [j for h, j in c.found if j is not None]
            if hit and any(is_at(c, I, j, NAME.p) for j in hit):
                bad.append("a name that is there is not found")
            elif not c.found and not c.eqs:
                bad.append("a name that is there is not looked for")
            elif hit and not any(not r for e, r in c.eqs):
                bad.append("a name that is there is not found")
        if c.pushed or c.inserted:
            bad.append("changes the map")
        judge(c, rep, "search", I, bad)
    rep.floor("names", n, 3, "paths of the search")


def added(c, I, r, force, name, before):
    """problems of one addition"""
    bad = []
    i = c.lin(I, r)
    if i is None:
        c.odd = c.odd or "result %s" % show(r)[:40]
        return bad
    if not is_at(c, I, i, name):
        bad.append("the index returned is not that of the name")
    new = c.pushed[before:]
    if len(new) > 1 or any(t != name for n, t in new):
        bad.append("something other than the name is added")
    if force and len(new) != 1:
        bad.append("a name that has to be added again is not")
    if not force and new and not c.found and not c.eqs:
        bad.append("a name is added without looking whether it is there")
    if not force and new and any(r for e, r in c.eqs):
        bad.append("a name that is there is added again")
    if new:
        h = [v for k, v in c.inserted if k == ("hash", name)]
        if any(k != ("hash", name) for k, v in c.inserted):
            bad.append("the lookup is filled under another hash")
        elif not h and not any(j is not None and is_at(c, I, j, name) for k, j in c.found):
            bad.append("the name cannot be found again")
        elif h and not is_at(c, I, h[-1], name):
            bad.append("the lookup leads to another name")
    elif any(not is_at(c, I, v, name) for k, v in c.inserted):
        bad.append("the lookup leads to another name")
    return bad


def add(c, rep):
    f = c.f["add_name_reference"]
    for force in (True, False):
        n = 0
        for I, r in c.paths(lambda I, fr: call(I, fr, f, c.start(I), NAME, C(force)), f):
            n += 1
            judge(c, rep, "add", I, added(c, I, r, force, NAME.p, 0) if not I.dead() else ["fails"])
        rep.floor("names", n, 1 if force else 3, "paths of an addition")


def get(c, rep):
    for m in ("get_name_reference", "get_owned_name", "get_name_reference_mut"):
        f = c.f.get(m)
        if f is None:
            continue
        i, n, hit = sym("index"), 0, 0

        def script(I, fr):
            o = c.start(I)
            if m.endswith("_mut"):
                c.fact(I, i)
                c.fact(I, lin_add(lin_add(N, i, -1), Ln(-1, {})))
            return call(I, fr, f, o, i)
        for I, r in c.paths(script, f):
            n += 1
            bad = []
            inside = c.implied(I, i) and c.implied(I, lin_add(lin_add(N, i, -1), Ln(-1, {})))
            if I.dead():
                bad.append("fails for an index")
            else:
                t = c.text(I, r)
                if t is None:
                    c.odd = c.odd or "result %s" % show(I.deepval(r))[:40]
                elif inside:
                    hit += 1
                    if not (t[0] == "entry" and c.same(I, Ln(t[2], dict(t[1])), i)):
                        bad.append("gives another name than the one at the index")
                elif t[0] == "entry" and not c.implied(I, lin_add(Ln(-1, {}), i, -1)) and not c.implied(I, lin_add(i, N, -1)):
                    pass
                elif t[0] == "const" and not c.implied(I, lin_add(Ln(-1, {}), i, -1)) and not c.implied(I, lin_add(i, N, -1)):
                    bad.append("does not give the name of a valid index")
            judge(c, rep, m, I, bad)
        rep.floor("names", hit, 1, "paths of %s that find a name" % m)


def backed(c, I, r):
    r = I.deref(r)
    if isinstance(r, Ad) and r.k == c.fk and len(r.alts) == 1:
        fs = next(iter(r.alts.values()))
        if "index" in fs:
            return c.lin(I, fs["index"]), c.lin(I, fs["number"]), I.deepval(fs["name_map"])
    return None


def create(c, rep):
    me = Sy(("map", "itself"))
    num = sym("number")
    for m, args, force in (("create_fname", (sym("index"), num), None), ("add_fname_with_number", (NAME, num), False), ("add_fname", (NAME,), False)):
        f = c.f.get(m)
        if f is None:
            continue
        n = 0
        for I, r in c.paths(lambda I, fr: call(I, fr, f, c.start(I), *args), f):
            n += 1
            b = backed(c, I, r)
            bad = []
            if b is None:
                c.odd = c.odd or "result %s" % show(I.deepval(r))[:40]
            else:
                i, k, mp = b
                if m == "create_fname":
                    if not c.same(I, i, args[0]):
                        bad.append("the name has another index")
                else:
                    bad += added(c, I, i, False, NAME.p, 0)
                if not c.same(I, k, num if len(args) == 2 else Ln(0, {})):
                    bad.append("the name has another number")
                if mp != me:
                    bad.append("the name belongs to another map")
            judge(c, rep, m, I, bad)
        rep.floor("names", n, 1, "paths of " + m)


def batch(c, rep):
    f = c.f.get("from_name_batch")
    if f is None:
        return
    xs = [Sy(("name", i)) for i in ("0", "1", "0", "2")]
    n = 0

    def script(I, fr):
        c.fresh = c.start(I, Ln(0, {}))
        return call(I, fr, f, Li(None, (), list(xs)))
    for I, r in c.paths(script, f):
        n += 1
        bad = []
        if [t for k, t in c.pushed] != [x.p for x in xs]:
            bad.append("the names of the batch do not keep their places")
        for x in xs:
            h = [v for k, v in c.inserted if k == ("hash", x.p)]
            if not h and [t for k, t in c.pushed].count(x.p):
                bad.append("a name of the batch cannot be found")
            elif h and not is_at(c, I, h[-1], x.p):
                bad.append("the lookup leads to another name")
        judge(c, rep, "from_name_batch", I, bad)
    rep.floor("names", n, 1, "paths of from_name_batch")


def plain(c, rep):
    f = c.f.get("is_empty")
    if f is not None:
        for I, r in c.paths(lambda I, fr: call(I, fr, f, c.start(I)), f):
            r = I.deref(r)
            if not isinstance(r, C):
                c.odd = c.odd or "result %s" % show(r)[:40]
                judge(c, rep, "is_empty", I, [])
                continue
            bad = []
            if r.v and not c.same(I, N, Ln(0, {})):
                bad.append("a map that holds names is called empty")
            if not r.v and not c.implied(I, lin_add(N, Ln(-1, {}))):
                bad.append("an empty map is not called empty")
            judge(c, rep, "is_empty", I, bad)
    f = c.f.get("get_name_map_index_list")
    if f is not None:
        for I, r in c.paths(lambda I, fr: call(I, fr, f, c.start(I)), f):
            v = I.deepval(r)
            if c.role(I, r) == "list":
                judge(c, rep, "get_name_map_index_list", I, [])
            else:
                c.odd = c.odd or "result %s" % show(v)[:40]
                judge(c, rep, "get_name_map_index_list", I, [])


def equality(c, rep):
    f = c.f.get("eq")
    if f is None:
        return
    n = 0

    def script(I, fr):
        a = c.start(I)
        b = Rf(I.cell(Ad(c.k, {0: {k: Sy(("other " + r,)) if r in ("list", "lookup") else Sy((k,)) for k, r in c.roles.items()}})))
        return call(I, fr, f, a, b)
    for I, r in c.paths(script, f):
        r = I.deref(r)
        if not isinstance(r, C):
            c.odd = c.odd or "result %s" % show(r)[:40]
            judge(c, rep, "equality", I, [])
            continue
        n += 1
        bad = []
        if r.v and not any(e == ("list", "both") and v for e, v in c.eqs):
            bad.append("maps that hold different names are called equal")
        if not r.v and all(v for e, v in c.eqs):
            bad.append("equal maps are called different")
        judge(c, rep, "equality", I, bad)
    rep.floor("names", n, 2, "paths of the comparison of name maps")


def fname(c, rep):
    """names: the text is that of the own map at the own index; equality and hash look at the same parts"""
    P = c.P
    own = [g for g in P.fns.values() if g.b is not None and g.self_ty is not None and g.self_ty.h == c.fk]
    vs = P.adts[c.fk]["v"]
    bi = next(i for i, v in enumerate(vs) if any(x["n"] == "index" for x in v["f"]))
    di = next(i for i, v in enumerate(vs) if any(x["n"] == "value" for x in v["f"]))

    def mk(I, kind, tag, m=None):
        if kind == "backed":
            fs = {x["n"]: Sy((x["n"], tag)) for x in vs[bi]["f"]}
            fs["index"], fs["number"] = Ln(0, {(("index", tag), ()): 1}), Ln(0, {(("number", tag), ()): 1})
            fs["name_map"] = m if m is not None else Sy(("map", tag))
            return Rf(I.cell(Ad(c.fk, {bi: fs})))
        return Rf(I.cell(Ad(c.fk, {di: {"value": Sy(("value", tag)), "number": Ln(0, {(("number", tag), ()): 1})}})))
    # the text
    for g in own:
        if g.name in ("get_owned_content", "get_number"):
            for kind in ("backed", "dummy"):
                def script(I, fr):
                    m = c.start(I)
                    i = Ln(0, {(("index", "a"), ()): 1})
                    c.fact(I, i)
                    c.fact(I, lin_add(lin_add(N, i, -1), Ln(-1, {})))
                    return call(I, fr, g, mk(I, kind, "a", m))
                for I, r in c.paths(script, g):
                    bad = []
                    if g.name == "get_number":
                        if not c.same(I, c.lin(I, r), Ln(0, {(("number", "a"), ()): 1})):
                            bad.append("another number")
                    else:
                        t = c.text(I, r)
                        if t is None:
                            c.odd = c.odd or "result %s" % show(I.deepval(r))[:40]
                        elif kind == "dummy" and t != ("value", "a") or kind == "backed" and not (
                                t[0] == "entry" and c.same(I, Ln(t[2], dict(t[1])), Ln(0, {(("index", "a"), ()): 1}))):
                            bad.append("another text than its own")
                    judge(c, rep, "FName::" + g.name, I, bad)
    idx, num = Ln(0, {(("index", "a"), ()): 1}), Ln(0, {(("number", "a"), ()): 1})
    for g in own:
        if g.name in ("new", "new_with_type", "new_dummy") and g.out.h == c.fk:
            ints = iter((idx, num) if g.name != "new_dummy" else (num,))
            args = [next(ints) if t.h == "i32" else Sy(("map", "a")) if t.h.endswith("SharedResource") else Sy(("value", "a")) for t in g.ins]

            def script(I, fr):
                c.start(I)
                return call(I, fr, g, *args)
            for I, r in c.paths(script, g):
                r = I.deref(r)
                fs = next(iter(r.alts.values())) if isinstance(r, Ad) and len(r.alts) == 1 else {}
                bad = []
                if "index" in fs and not (c.same(I, c.lin(I, fs["index"]), idx) and I.deepval(fs["name_map"]) == Sy(("map", "a"))) or \
                        "value" in fs and c.text(I, fs["value"]) != ("value", "a"):
                    bad.append("the name is not of the text it is made for")
                elif not c.same(I, c.lin(I, fs["number"]), num):
                    bad.append("the name has another number")
                judge(c, rep, "FName::" + g.name, I, bad)
    # equality and hash
    eqf = [g for g in own if g.name == "eq" and (g.ins[1].peel().h == c.fk)]
    hf = [g for g in own if g.name == "hash"]
    if len(eqf) != 1 or len(hf) != 1:
        raise Unmodelled("equality and hash of FName")
    used = {}
    for kind in ("backed", "dummy"):
        part = "index" if kind == "backed" else "value"

        def script(I, fr):
            c.start(I)
            return call(I, fr, eqf[0], mk(I, kind, "a"), mk(I, kind, "b"))
        n = 0
        for I, r in c.paths(script, eqf[0]):
            r = I.deref(r)
            if not isinstance(r, C):
                c.odd = c.odd or "result %s" % show(r)[:40]
                judge(c, rep, "FName equality", I, [])
                continue
            n += 1
            lin = lambda p: lin_add(Ln(0, {((p, "a"), ()): 1}), Ln(0, {((p, "b"), ()): 1}), -1)
            num = c.same(I, lin("number"), Ln(0, {}))
            txt = c.same(I, lin("index"), Ln(0, {})) if kind == "backed" else any(v and e == frozenset((("value", "a"), ("value", "b"))) for e, v in c.eqs)
            bad = []
            if r.v and not (num and txt):
                bad.append("names of different %s are called equal" % ("number" if not num else "text"))
            if not r.v and num and txt:
                bad.append("equal names are called different")
            judge(c, rep, "FName equality (%s)" % kind, I, bad)
        rep.floor("names", n, 2, "paths of the comparison of names")
        # what is hashed has to be what is compared
        parts = {}

        def hscript(I, fr):
            c.start(I)
            return call(I, fr, hf[0], mk(I, kind, "a"), Rf(I.cell(Sy(("hash",)))))
        seen = []
        old = c.std

        def std(I, d, args, fr, targs):
            if d["n"] in ("hash", "write_i32", "write_u32", "write_str", "hash_slice") and args:
                seen.append(repr(c.lin(I, args[0])) + repr(c.text(I, args[0])))
                for a in args[1:]:
                    seen.append(repr(c.lin(I, a)) + repr(c.text(I, a)))
                return UNIT
            return old(I, d, args, fr, targs)
        c.std = std
        try:
            for I, r in c.paths(hscript, hf[0]):
                t = " ".join(seen)
                bad = [] if not ("'ty'" in t or "'map'" in t) else ["hashes more than is compared"]
                judge(c, rep, "FName hash (%s)" % kind, I, bad)
                seen.clear()
        finally:
            del c.std


I02 = check
