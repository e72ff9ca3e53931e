"""M01: mod metadata.

The crate reads json documents through derived and hand-written serde code; the derived code is part of the type-checked program, so all of it is interpreted: what a
serializer is handed under which key, what a visitor builds from which keys, what the conversion of an old document makes of each part.  The json library itself is trusted."""
import json, os
from interp import *
from wire import *
from pak import call, sessions, show, Unmodelled
from lengths import TooMany
from linear import infeasible

CR = "unreal_mod_metadata::"
NONE = Ad(OPT, {0: {}})
OK = lambda x: Ad(RES, {0: {"0": x}})
ERR = lambda: Ad(RES, {1: {"0": TOP}})
TABLE = json.load(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "metadata.json")))
PANICS = ("unwrap", "expect", "unwrap_err", "expect_err", "panic", "panic_fmt", "panic_display", "unreachable_display", "panic_explicit", "panic_str_2015", "unwrap_unchecked",
          "panic_bounds_check", "unreachable", "todo", "unimplemented")


def some(x):
    return Ad(OPT, {1: {"0": x}})


class Odd(Exception):
    pass


class Meta:
    def __init__(self, W):
        self.W, self.P = W, W.P
        self.fns = {k: f for k, f in W.P.fns.items() if k.startswith(CR) and f.b is not None}
        self.hooks = {}
        self.types = {}
        for k in W.P.adts:
            if not k.startswith(CR) or "_" in k.split("::") or "deserialize" in k or "serialize" in k:
                continue
            self.types[k] = {}
        for k, f in self.fns.items():
            t = f.self_ty.peel().h if f.self_ty is not None else None
            if t in self.types:
                if f.name == "serialize" and "__" not in t:
                    self.types[t]["serialize"] = f
                elif f.name == "deserialize":
                    self.types[t]["deserialize"] = f
                elif f.name in ("eq", "hash", "to_v2"):
                    self.types[t].setdefault(f.name, f)
                    self.types[t].setdefault(f.name + " all", []).append(f)
            if f.name in ("fmt", "clone", "default", "expecting"):
                continue
            self.hooks[k] = self.h_own
        self.maps = {}

    def h_own(self, I, a, fr, fn):
        return I.inline(fn, a, [], fr, None, None)

    def start(self):
        self.log, self.eqs, self.keys, self.nk, self.maps, self.odd, self.docs, self.hashed = [], [], [], 0, {}, None, [], []
        self.cmp = {}
        self.have, self.sv, self.parsed = set(), {}, []

    def inner(self, I, v):
        """the one symbol a value is made of"""
        out = set()

        def walk(x, d):
            x = I.deepval(x)
            if d > 6:
                return
            if isinstance(x, Sy):
                out.add(x)
            elif isinstance(x, Ad):
                for fs in x.alts.values():
                    for y in fs.values():
                        walk(y, d + 1)
        walk(v, 0)
        out = {x for x in out}
        return next(iter(out)) if len(out) == 1 else None

    def mapof(self, I, v):
        v = I.deepval(v)
        return v.p[1] if isinstance(v, Sy) and v.p[:1] == ("map",) else None

    def std(self, I, d, args, fr, targs):
        n, k = d["n"], d["k"]
        a0 = I.deepval(args[0]) if args else None
        if isinstance(a0, Sy) and a0.p == ("serializer",):
            if n == "serialize_struct":
                return OK(Sy(("fields",)))
            if n == "serialize_unit_variant":
                self.log.append(("variant", I.deepval(args[3])))
                return OK(UNIT)
            if n in ("serialize_str", "collect_str"):
                self.log.append(("text", I.deepval(args[1])))
                return OK(UNIT)
            if n.startswith("serialize_"):
                raise Odd(n)
        if isinstance(a0, Sy) and a0.p == ("fields",):
            if n == "serialize_field":
                self.log.append((self.text(I, args[1]), args[2]))
                return OK(UNIT)
            if n == "skip_field":
                self.log.append((self.text(I, args[1]), None))
                return OK(UNIT)
            if n == "end":
                return OK(UNIT)
        if n == "serialize" and len(args) == 2 and isinstance(I.deepval(args[1]), Sy) and I.deepval(args[1]).p == ("serializer",):
            self.log.append(("text", a0))
            return OK(UNIT)
        if isinstance(a0, Sy) and a0.p == ("access",):
            if n in ("next_key", "next_key_seed"):
                if self.nk < len(self.keys):
                    self.nk += 1
                    return OK(some(self.keys[self.nk - 1][0]))
                return OK(NONE)
            if n in ("next_value", "next_value_seed"):
                v = self.keys[self.nk - 1][1]
                w = [t for t in targs if getattr(t, "h", "").startswith(CR) and "__DeserializeWith" in t.h]
                if w:
                    f = {x["n"]: TOP for x in self.P.adts[w[0].h]["v"][0]["f"]}
                    f["value"] = v
                    v = Ad(w[0].h, {0: f})
                return OK(v)
            if n == "variant":
                return OK(Ad("tuple", {0: {"0": self.keys[0][0], "1": Sy(("variant",))}}))
        if isinstance(a0, Sy) and a0.p == ("variant",) and n == "unit_variant":
            return OK(UNIT)
        if n == "deserialize" and isinstance(a0, Sy) and a0.p == ("deserializer",):
            if I.choose(2):
                return ERR()
            if any(getattr(t, "h", "").endswith("HashMap") for t in targs):
                w = [a for t in targs if t.h.endswith("HashMap") for a in t.a if a.h.startswith(CR)]
                wrap = (lambda v: Ad(w[0].h, {0: {x["n"]: v for x in self.P.adts[w[0].h]["v"][0]["f"]}})) if w else (lambda v: v)
                return OK(Li(None, (), [Ad("tuple", {0: {"0": Sy(("mod", str(i))), "1": wrap(Sy(("dependency", str(i))))}}) for i in range(3)]))
            return OK(Sy(("string",)))
        if n == "parse" and "semver" in k and len(args) == 1:
            self.parsed.append(a0)
            self.failed = bool(I.choose(2))
            return ERR() if self.failed else OK(Sy(("requirement",)))
        if n in ("unwrap_or_default", "unwrap_or", "unwrap_or_else") and isinstance(I.deref(args[0]), Ad) and I.deref(args[0]).k == RES and len(I.deref(args[0]).alts) == 1:
            w = I.deref(args[0])
            return w.alts[0]["0"] if 0 in w.alts else Sy(("made up",))
        if n == "to_string" and isinstance(a0, Sy) and a0.p == ("requirement",):
            return Sy(("requirement", "text"))
        if n in ("as_str", "as_ref", "deref", "borrow") and isinstance(a0, Sy) and a0.p[:1] in (("requirement",), ("string",)):
            return a0
        if n == "missing_field":
            t = targs[-2] if len(targs) > 1 else None
            opt = any(getattr(x, "h", "") == OPT for x in targs)
            self.log.append(("missing", self.text(I, args[0]), opt))
            return OK(NONE) if opt else ERR()
        if n in ("duplicate_field", "unknown_variant", "unknown_field", "invalid_length", "custom", "invalid_value"):
            return TOP
        if n == "from_slice" and k.startswith("serde_json"):
            t = [x.h for x in targs if getattr(x, "h", "").startswith(CR)]
            if len(t) != 1:
                raise Odd("document of an unknown type")
            self.docs.append((t[0], a0))
            if I.choose(2):
                return ERR()
            return OK(self.document(I, t[0]))
        if k.startswith("serde_json") and n in ("from_str", "from_reader", "from_value"):
            raise Odd(n)
        if n in ("eq", "ne") and len(args) == 2:
            b0 = I.deepval(args[1])
            x, y = self.named(a0), self.named(b0)
            if x and y:
                if frozenset((x, y)) in self.cmp:
                    r = self.cmp[frozenset((x, y))]
                else:
                    r = not I.choose(2)
                    self.cmp[frozenset((x, y))] = r
                self.eqs.append((x, y, r))
                return C(r if n == "eq" else not r)
            if (x or y) and not (isinstance(a0, (C, Ln)) or isinstance(b0, (C, Ln))):
                raise Odd("comparison of %s" % show(a0)[:30])
        if n in ("new", "default", "with_capacity") and "hash" in k and "map" in k and "HashMap" in repr(d.get("p", d.get("k"))) + k:
            i = len(self.maps)
            self.maps[i] = []
            return Sy(("map", i))
        m = self.mapof(I, args[0]) if args else None
        if m is not None:
            if n == "insert":
                self.maps[m].append((self.text(I, args[1]) or I.deepval(args[1]), I.deepval(args[2])))
                return NONE
            if n in ("as_ref", "as_mut", "borrow", "borrow_mut"):
                return args[0]
            if n == "extend" and len(args) == 2:
                raise Odd("extend of a map")
        if n == "hash" and len(args) == 2:
            self.hashed.append(a0)
            return UNIT
        if n in ("map_err",) and isinstance(I.deref(args[0]), Ad) and I.deref(args[0]).k == RES and len(I.deref(args[0]).alts) == 1:
            w = I.deref(args[0])
            return w if 0 in w.alts else ERR()
        if n in ("unwrap_or", "unwrap_or_default") and isinstance(I.deref(args[0]), Ad) and I.deref(args[0]).k == OPT and len(I.deref(args[0]).alts) == 1:
            w = I.deref(args[0])
            return w.alts[1]["0"] if 1 in w.alts else (args[1] if n == "unwrap_or" else C(0))
        if n == "len" and isinstance(a0, Sy) and a0.p[:1] in (("a",), ("b",)):
            return Ln(0, {((a0.p, "len"), ()): 1})
        return NotImplemented

    def named(self, v):
        return v.p if isinstance(v, Sy) and v.p[:1] in (("a",), ("b",)) and not v.ops else None

    def text(self, I, v):
        v = I.deepval(v)
        if isinstance(v, C) and isinstance(v.v, str):
            return v.v
        return None

    def document(self, I, t):
        fs = {}
        short = t[len(CR):]
        for f in self.P.adts[t]["v"][0]["f"]:
            if f["t"].h == OPT and (f["n"] in ("schema_version",) or short == "v1::Metadata" and f["n"] in TABLE["moved"]):
                there = bool(I.choose(2))
                fs[f["n"]] = some(Ln(0, {((short, f["n"]), ()): 1}) if f["n"] == "schema_version" else Sy((short, f["n"]))) if there else NONE
                if f["n"] == "schema_version":
                    self.sv[short] = there
                elif there:
                    self.have.add(f["n"])
            else:
                fs[f["n"]] = Sy((short, f["n"]))
        return Ad(t, {0: fs})

    def object(self, I, t, root):
        fs = {}
        for f in self.P.adts[t]["v"][0]["f"]:
            p = (root, f["n"])
            fs[f["n"]] = Ln(0, {(p, ()): 1}) if f["t"].h in ("usize", "u64", "u32", "i32", "u8", "i64") else Sy(p)
        return Rf(I.cell(Ad(t, {0: fs})))

    def paths(self, script, root, rounds=2):
        for I, r in sessions(self.W, "w", {}, script, root, dead=True, errs=True, facts=True, symlin=True, stdfx=self.std, hooks=self.hooks, vertypes={}, statics={}, rounds=rounds):
            cs = []
            for f, (lo, hi, ne) in I.facts.items():
                e = dict(f)
                if lo is not None:
                    cs.append((lo, {k: -v for k, v in e.items()}))
                if hi is not None:
                    cs.append((-hi, e))
            if not infeasible(cs):
                self.cs = cs
                yield I, r


def result(I, r):
    """(is it an error, value) of a result"""
    r = I.deref(r)
    if isinstance(r, Ad) and r.k == RES and len(r.alts) == 1:
        return (False, I.deref(r.alts[0]["0"])) if 0 in r.alts else (True, None)
    raise Odd("result %s" % show(r)[:50])


def short(t):
    return t[len(CR):]


def check(P, rep):
    W = World(P)
    c = Meta(W)
    need = {CR + t for t in TABLE["keys"]}
    gone = need - set(c.types)
    for t in sorted(gone):
        rep.bad("keys", short(t), "%s is no longer part of the metadata" % short(t))
    jobs = []
    for t in sorted(need - gone):
        jobs.append(("keys", short(t), lambda t=t: keys(c, rep, t)))
    jobs.append(("conversion", "v1", lambda: conversion(c, rep)))
    jobs.append(("dispatch", "from_slice", lambda: dispatch(c, rep)))
    for t in sorted(c.types):
        for f in c.types[t].get("eq all", []):
            if t.endswith("Metadata"):
                jobs.append(("equality", short(t), lambda t=t, f=f: equality(c, rep, t, f)))
    jobs.append(("dependency", "text", lambda: dependency(c, rep)))
    jobs.append(("dependency", "map", lambda: depmap(c, rep)))
    jobs.append(("dependency", "version", lambda: versions(c, rep)))
    for rule, name, job in jobs:
        try:
            job()
        except Odd as e:
            rep.unsure(rule, name, "not modelled: %s" % e)
        except (Unmodelled, TooMany, StopIteration) as e:
            rep.unsure(rule, name, "not modelled: %r" % (e,))
        except (Limit, RecursionError, KeyError, AttributeError, TypeError, IndexError, ValueError, AssertionError) as ex:
            rep.unsure(rule, name, "analysis gave up: %r" % (ex,))
    hashing(c, rep)
    panics(c, rep)


# ------------------------------------------------------------------ keys of a document
def written(c, t, f, variants):
    """{field: key} of a struct, {variant: text} of an enum"""
    out = {}
    for i in (range(len(variants)) if len(variants) > 1 or not variants[0]["f"] else [None]):
        def script(I, fr, i=i):
            c.start()
            o = c.object(I, t, "a") if i is None else Rf(I.cell(Ad(t, {i: {}})))
            return call(I, fr, f, o, Sy(("serializer",)))
        for I, r in c.paths(script, f):
            if I.dead():
                continue
            if result(I, r)[0]:
                raise Odd("writing fails")
            if i is not None:
                x = [v for k, v in c.log if k in ("variant", "text")]
                if len(x) != 1 or not isinstance(x[0], C):
                    raise Odd("variant written as %s" % (x,))
                out.setdefault(variants[i]["n"], set()).add(x[0].v)
                continue
            names = [k for k, v in c.log]
            for x in variants[0]["f"]:
                hit = [k for k, v in c.log if v is not None and c.inner(I, v) == Sy(("a", x["n"])) or isinstance(v, V) and isinstance(I.deref(v), Ln) and I.deref(v).t == {(("a", x["n"]), ()): 1}]
                out.setdefault(x["n"], set()).add(tuple(hit))
    return out


def visitor(c, t, name):
    """(field visitor's visit_str, visitor's visit_map or visit_enum) of a derived Deserialize"""
    d = c.types[t].get("deserialize")
    if d is None:
        raise Odd("no Deserialize of %s" % short(t))
    fs, vs = None, None
    for k, f in c.fns.items():
        if k.startswith(d.key + "::") and f.self_ty is not None:
            h = f.self_ty.peel().h.rsplit("::", 1)[-1]
            if h == "__FieldVisitor" and f.name == "visit_str":
                fs = f
            if h == "__Visitor" and f.name == name:
                vs = f
    if fs is None or vs is None:
        raise Odd("Deserialize of %s is not derived" % short(t))
    return fs, vs


def field_of(c, fs, key):
    got = []

    def script(I, fr):
        c.start()
        return call(I, fr, fs, TOP, C(key))
    for I, r in c.paths(script, fs):
        if I.dead():
            continue
        e, v = result(I, r)
        got.append(None if e else v)
    if len(got) != 1:
        raise Odd("key %s: %d results" % (key, len(got)))
    return got[0]


def keys(c, rep, t):
    name, want = short(t), TABLE["keys"][short(t)]
    variants = c.P.adts[t]["v"]
    isenum = len(variants) > 1 or not variants[0]["f"]
    ser = c.types[t].get("serialize")
    if ser is not None:
        w = written(c, t, ser, variants)
        for f, k in sorted(want.items()):
            k = k.split("?")[0]
            if f not in w:
                rep.bad("keys", "%s.%s" % (name, f), "%s of %s is no longer there" % (f, name))
            elif isenum and w[f] != {k} or not isenum and any(x != (k,) for x in w[f]):
                if not isenum and () in w[f] and w[f] <= {(), (k,)}:
                    rep.unsure("keys", "%s.%s" % (name, f), "is left out on some paths of the writer") if len(w[f]) > 1 else \
                        rep.bad("keys", "%s.%s written" % (name, f), "%s.%s is not written to a document" % (name, f))
                else:
                    rep.bad("keys", "%s.%s written" % (name, f), "%s.%s is written as %s, documents have %r" % (name, f, sorted(map(str, w[f])), k))
            else:
                rep.ok("keys")
        for f in set(w) - set(want):
            # an addition: has to come back by its own key
            want = dict(want)
            x = next(iter(w[f]))
            want[f] = (x if isenum else x[0] if x else "") + "?new"
    fs, vs = visitor(c, t, "visit_enum" if isenum else "visit_map")
    fields = {f: field_of(c, fs, k.split("?")[0]) for f, k in want.items()}
    if isenum:
        for f, k in sorted(want.items()):
            def script(I, fr, f=f):
                c.start()
                c.keys = [(fields[f], None)]
                return call(I, fr, vs, TOP, Sy(("access",)))
            got = []
            if fields[f] is None:
                got.append("an error")
            else:
                for I, r in c.paths(script, vs):
                    if not I.dead():
                        e, v = result(I, r)
                        got.append("an error" if e else c.P.adts[t]["v"][next(iter(v.alts))]["n"])
            if got == [f]:
                rep.ok("keys")
            else:
                rep.bad("keys", "%s.%s read" % (name, f), "%r is read as %s, it stands for %s of %s" % (k, got, f, name))
        return
    order = sorted(want)
    unknown = [f for f in order if fields[f] is None or not isinstance(fields[f], Ad)]
    for left in [None] + order:
        def script(I, fr):
            c.start()
            c.keys = [(fields[f], Sy(("value", f))) for f in order if f != left and fields[f] is not None]
            return call(I, fr, vs, TOP, Sy(("access",)))
        n = 0
        for I, r in c.paths(script, vs, rounds=len(order) + 2):
            if I.dead():
                continue
            n += 1
            e, v = result(I, r)
            required = left is not None and want[left].endswith("?required")
            if e:
                if left is None or not required and not want[left].endswith("?new"):
                    rep.bad("keys", "%s.%s absent" % (name, left), "a document of %s without %s is refused" % (name, left) if left else "a complete document of %s is refused" % name)
                else:
                    rep.ok("keys")
                continue
            if required:
                rep.bad("keys", "%s.%s absent" % (name, left), "a document of %s without %s is accepted" % (name, left))
                continue
            for f in order:
                x = v.alts[0].get(f)
                if f == left:
                    x = I.deref(x)
                    if isinstance(x, Sy) and x.p[:1] == ("value",):
                        rep.bad("keys", "%s.%s read" % (name, f), "%s of %s is taken from %s" % (f, name, x.p[1]))
                    else:
                        rep.ok("keys")
                elif c.inner(I, x) == Sy(("value", f)):
                    rep.ok("keys")
                elif isinstance(I.deepval(x), Top):
                    rep.unsure("keys", "%s.%s read" % (name, f), "value of %s not followed" % f)
                else:
                    rep.bad("keys", "%s.%s read" % (name, f), "%s of %s does not hold what the document has under %r" % (f, name, want[f].split("?")[0]))
        if not n:
            raise Odd("no path through the visitor of %s" % name)


# ------------------------------------------------------------------ old documents
def conversion(c, rep):
    f = c.types.get(CR + "v1::Metadata", {}).get("to_v2")
    if f is None:
        raise Odd("the conversion of old documents")
    old = {x["n"] for x in c.P.adts[CR + "v1::Metadata"]["v"][0]["f"]}
    doc = Sy(("slice",))

    def script(I, fr):
        c.start()
        return call(I, fr, f, doc)
    n = 0
    for I, r in c.paths(script, f):
        if I.dead():
            rep.bad("conversion", "fails", "the conversion of an old document can panic")
            continue
        e, v = result(I, r)
        rep.fns |= {x for x in I.seen if x.startswith(CR)}
        if not c.docs or c.docs[0][1] != doc:
            raise Odd("what is parsed")
        if e:
            rep.ok("conversion")
            continue
        converted(c, rep, I, v, old)
        n += 1
    rep.floor("conversion", n, 8, "paths of the conversion")


def converted(c, rep, I, v, old):
    fs = v.alts[0]
    for f, x in fs.items():
        x = I.deref(x)
        if f == "schema_version":
            good = isinstance(x, C) and x.v == 2 or isinstance(x, Ln) and not x.t and x.k == 2
            rep.ok("conversion") if good else rep.bad("conversion", f, "a converted document does not say it is of version 2")
        elif f == "integrator":
            m = c.mapof(I, x)
            if m is None:
                raise Odd("integrator is %s" % show(I.deepval(x))[:40])
            got = {}
            for k, val in c.maps[m]:
                got[k] = val
            want = {k: Sy(("v1::Metadata", k)) for k in TABLE["moved"] if k in c.have}
            if any(not isinstance(k, str) for k in got):
                raise Odd("key of the integrator")
            for k in sorted(set(want) | set(got)):
                if k not in got:
                    rep.bad("conversion", "integrator." + k, "%s of an old document is lost" % k)
                elif k not in want:
                    rep.bad("conversion", "integrator." + k, "%s appears though the document does not have it" % k)
                elif got[k] != want[k]:
                    rep.bad("conversion", "integrator." + k, "%s holds something else of the old document: %s" % (k, show(got[k])[:50]))
                else:
                    rep.ok("conversion")
        elif f in old:
            if I.deepval(x) == Sy(("v1::Metadata", f)):
                rep.ok("conversion")
            elif isinstance(I.deepval(x), Top):
                raise Odd("%s not followed" % f)
            else:
                rep.bad("conversion", f, "%s of an old document is not kept: %s" % (f, show(I.deepval(x))[:50]))
        else:
            rep.ok("conversion")


# ------------------------------------------------------------------ choice of the schema
def dispatch(c, rep):
    f = c.fns.get(CR + "from_slice")
    if f is None:
        rep.bad("dispatch", "from_slice", "from_slice is gone")
        return
    doc = Sy(("slice",))
    old = {x["n"] for x in c.P.adts[CR + "v1::Metadata"]["v"][0]["f"]}
    seen = set()

    def script(I, fr):
        c.start()
        return call(I, fr, f, doc)
    for I, r in c.paths(script, f):
        if I.dead():
            rep.bad("dispatch", "fails", "from_slice can panic")
            continue
        e, v = result(I, r)
        if any(d != doc for t, d in c.docs):
            raise Odd("what is parsed")
        kinds = [short(t) for t, d in c.docs]
        probe = next((t for t in kinds if not t.endswith("::Metadata")), None)
        sv = Ln(0, {((probe, "schema_version"), ()): 1}) if probe else None
        which = None
        if probe is None:
            raise Odd("the schema version is not looked at")
        has = c.sv.get(probe)
        if has is False:
            which = 1
        elif has is True:
            eq = [k for k in range(0, 5) if not infeasible(c.cs + [(-k, dict(sv.t)), (k, {a: -b for a, b in sv.t.items()})])]
            ne = {k for k in range(0, 5) if excluded(I, sv, k)}
            eq = [k for k in eq if k not in ne]
            which = eq[0] if len(eq) == 1 else None if set(eq) & {1, 2} else 3
            if which is None and not e and len(eq) < 5 and set(eq) - {1, 2}:
                which = 3
            if which is None and not e:
                raise Odd("schema versions %s on one path" % eq)
        if e:
            if which in (1, 2) and len(kinds) > 1 or which not in (1, 2):
                rep.ok("dispatch")
            elif has is None:
                rep.ok("dispatch")
            else:
                rep.bad("dispatch", "version %s refused" % which, "a document of schema version %s is refused" % which)
            continue
        if which not in (1, 2):
            rep.bad("dispatch", "other versions", "a document of an unknown schema version is accepted")
            continue
        want = "v1::Metadata" if which == 1 else "v2::Metadata"
        if kinds[-1] != want:
            rep.bad("dispatch", "version %d" % which, "a document of schema version %d is read as %s" % (which, kinds[-1]))
            continue
        seen.add((which, has))
        if which == 1:
            converted(c, rep, I, v, old)
        else:
            for fl, x in v.alts[0].items():
                if I.deepval(x) == Sy(("v2::Metadata", fl)) or fl == "schema_version":
                    rep.ok("dispatch")
                else:
                    rep.bad("dispatch", fl, "%s of a version 2 document is changed: %s" % (fl, show(I.deepval(x))[:50]))
    for w in ((1, False), (1, True), (2, True)):
        if w not in seen:
            rep.bad("dispatch", "version %d%s" % (w[0], "" if w[1] else " by default"), "a document of schema version %d%s is not read" % (w[0], "" if w[1] else " that does not say so"))
        else:
            rep.ok("dispatch")


def excluded(I, sv, k):
    f, s = I.form(sv)
    x = I.facts.get(f)
    return x is not None and k * s in x[2]


# ------------------------------------------------------------------ equality
def equality(c, rep, t, f):
    name = short(t)
    fields = [x["n"] for x in c.P.adts[t]["v"][0]["f"]]
    ints = {x["n"] for x in c.P.adts[t]["v"][0]["f"] if x["t"].h in ("usize", "u64", "u32", "i32", "u8", "i64")}

    def script(I, fr):
        c.start()
        return call(I, fr, f, c.object(I, t, "a"), c.object(I, t, "b"))
    n = 0
    for I, r in c.paths(script, f):
        if I.dead():
            rep.bad("equality", name + " fails", "comparing two values of %s can panic" % name)
            continue
        r = I.deref(r)
        if not (isinstance(r, C) and isinstance(r.v, bool)):
            raise Odd("result %s" % show(r)[:40])
        n += 1
        same, differ = set(), set()
        for x, y, v in c.eqs:
            if len(x) == 2 and len(y) == 2 and x[1] == y[1] and x[0] != y[0]:
                (same if v else differ).add(x[1])
            elif x != y:
                rep.bad("equality", "%s mixed" % name, "%s of one value is compared with %s of the other" % (x[-1], y[-1]))
        for i in ints:
            d = lin_add(Ln(0, {(("a", i), ()): 1}), Ln(0, {(("b", i), ()): 1}), -1)
            lo = infeasible(c.cs + [(d.k + 1, dict(d.t))])
            hi = infeasible(c.cs + [(-d.k + 1, {k: -v for k, v in d.t.items()})])
            if lo and hi:
                same.add(i)
            elif excluded(I, d, 0) or infeasible(c.cs + [(d.k, dict(d.t)), (-d.k, {k: -v for k, v in d.t.items()})]):
                differ.add(i)
        if r.v:
            for x in fields:
                if x in same:
                    rep.ok("equality")
                else:
                    rep.bad("equality", "%s.%s" % (name, x), "two values of %s that differ in %s can compare equal" % (name, x))
        elif differ:
            rep.ok("equality")
        else:
            rep.bad("equality", name + " unequal", "two values of %s can compare unequal though no part of them differs" % name)
    rep.floor("equality", n, 2, "paths of the comparison of %s" % name)


# ------------------------------------------------------------------ a dependency given as a text
def dependency(c, rep):
    t = CR + "Dependency"
    fs = [f for f in c.fns.values() if f.name == "from_str" and f.self_ty is not None and f.self_ty.peel().h == t]
    if len(fs) != 1:
        raise Odd("Dependency::from_str")

    def script(I, fr):
        c.start()
        return call(I, fr, fs[0], Sy(("slice",)))
    for I, r in c.paths(script, fs[0]):
        if I.dead():
            rep.bad("dependency", "fails", "a version requirement can make the reader panic")
            continue
        r = I.deref(r)
        if isinstance(r, Ad) and r.k == RES and 0 in r.alts:
            v = I.deref(r.alts[0]["0"])
            d = I.deref(v.alts[0]["download"]) if isinstance(v, Ad) and 0 in v.alts else None
            if d is not None:
                w = I.deepval(v.alts[0]["version"])
                if w == Sy(("requirement",)) and c.parsed[-1:] == [Sy(("slice",))]:
                    rep.ok("dependency")
                elif isinstance(w, Sy) and w.p[:1] == ("requirement",) or not c.parsed:
                    raise Odd("version of a dependency")
                else:
                    rep.bad("dependency", "text", "a dependency given as a text does not have the requirement the text says")
                    continue
            if isinstance(d, Ad) and set(d.alts) == {0}:
                rep.ok("dependency")
            elif d is None:
                raise Odd("result %s" % show(r)[:40])
            else:
                rep.bad("dependency", "download", "a dependency given by its version alone has a download")
        else:
            rep.ok("dependency")


def depmap(c, rep):
    """every dependency of a document is kept under its own name"""
    fs = [f for k, f in c.fns.items() if f.self_ty is None and f.out.h == RES and f.out.a[0].h.endswith("HashMap") and any(a.h == CR + "Dependency" for a in f.out.a[0].a)]
    if len(fs) != 1:
        raise Odd("the reader of dependencies")

    def script(I, fr):
        c.start()
        return call(I, fr, fs[0], Sy(("deserializer",)))
    n = 0
    for I, r in c.paths(script, fs[0]):
        if I.dead():
            rep.bad("dependency", "map fails", "reading dependencies can panic")
            continue
        e, v = result(I, r)
        if e:
            rep.ok("dependency")
            continue
        n += 1
        m = c.mapof(I, v)
        if m is not None:
            got = [(k, x) for k, x in c.maps[m]]
        elif isinstance(v, Li) and v.items is not None:
            got = []
            for x in v.items:
                x = I.deref(x)
                if not (isinstance(x, Ad) and set(x.alts) == {0}):
                    raise Odd("a dependency that is %s" % show(x)[:40])
                got.append((I.deepval(x.alts[0]["0"]), I.deepval(x.alts[0]["1"])))
        else:
            raise Odd("dependencies %s" % show(v)[:60])
        if got == [(Sy(("mod", str(i))), Sy(("dependency", str(i)))) for i in range(3)]:
            rep.ok("dependency")
        elif any(isinstance(y, Top) or isinstance(x, Top) for x, y in got):
            raise Odd("dependencies not followed")
        else:
            rep.bad("dependency", "map", "not every dependency of a document is kept under its own name")
    rep.floor("dependency", n, 1, "paths of the reader of dependencies")


def versions(c, rep):
    """a requirement is written as its text and parsed from the text"""
    out = [f for f in c.fns.values() if f.self_ty is None and f.ins and f.ins[0].peel().h.endswith("VersionReq")]
    inn = [f for f in c.fns.values() if f.self_ty is None and f.out.h == RES and f.out.a and f.out.a[0].h.endswith("VersionReq")]
    if len(out) != 1 or len(inn) != 1:
        raise Odd("the functions of version requirements")

    def w(I, fr):
        c.start()
        return call(I, fr, out[0], Rf(I.cell(Sy(("requirement",)))), Sy(("serializer",)))
    for I, r in c.paths(w, out[0]):
        x = [v for k, v in c.log if k == "text"]
        if len(x) == 1 and x[0] in (Sy(("requirement", "text")), Sy(("requirement",))):
            rep.ok("dependency")
        elif len(x) == 1 and isinstance(x[0], Top):
            raise Odd("text of a requirement")
        else:
            rep.bad("dependency", "version written", "a version requirement is not written as its text")

    def rd(I, fr):
        c.start()
        return call(I, fr, inn[0], Sy(("deserializer",)))
    n = 0
    for I, r in c.paths(rd, inn[0]):
        if I.dead():
            rep.bad("dependency", "version fails", "reading a version requirement can panic")
            continue
        e, v = result(I, r)
        if e:
            rep.ok("dependency")
        elif I.deepval(v) == Sy(("requirement",)) and c.parsed and c.parsed[-1] == Sy(("string",)):
            n += 1
            rep.ok("dependency")
        else:
            rep.bad("dependency", "version read", "a version requirement is not what its text says")
    rep.floor("dependency", n, 1, "version requirements read")


# ------------------------------------------------------------------ local rules
def walk(b):
    """every node of a body"""
    st = [b]
    while st:
        x = st.pop()
        if isinstance(x, dict):
            st.extend(x.values())
        elif isinstance(x, (list, tuple)):
            if x and isinstance(x[0], str):
                yield x
            st.extend(x)


def callee(f, x):
    if x[0] == "call" and isinstance(x[3], list) and x[3] and isinstance(x[3][0], int):
        return f.ctx.defs[x[3][0]]
    return None


def root(x):
    """the variable an expression is a place of"""
    while isinstance(x, list) and x and x[0] in ("ref", "deref", "field", "index"):
        x = x[3]
    return x[3] if isinstance(x, list) and x and x[0] == "var" else None


def binds(x):
    return {y[1] for y in walk(x) if y[0] == "bind" and len(y) > 2}


def unordered(t):
    return t.h.startswith("std::collections::hash") or any(unordered(a) for a in t.a) if t.h.startswith(("std::collections::hash", "core::iter")) else False


def hashing(c, rep):
    """equal maps are walked in different orders: what is fed to one hasher must not come from such a walk"""
    n = 0
    for k, f in sorted(c.fns.items()):
        t = short(f.self_ty.peel().h) if f.self_ty is not None and f.self_ty.peel().h.startswith(CR) else k[len(CR):]
        for x in walk(f.b["body"]):
            body = None
            if x[0] == "match" and len(x) > 5 and x[3] == "for" and unordered(f.ctx.tys[x[4][1]]):
                body = x[5]
            d = callee(f, x)
            if d is not None and d["n"] in ("for_each", "try_for_each", "fold") and x[4] and unordered(f.ctx.tys[x[4][0][1]]):
                body = x[4][1:]
            if d is not None and d["n"] == "hash":
                n += 1
            if body is None:
                continue
            own = binds(body)
            for y in walk(body):
                e = callee(f, y)
                if e is not None and e["n"] == "hash" and len(y[4]) == 2 and root(y[4][1]) is not None and root(y[4][1]) not in own:
                    rep.bad("hashing", "%s::%s" % (t, f.name), "%s::%s feeds the elements of a hash map to a hasher in the order of the walk: equal maps give different results" % (t, f.name))
                    break
            else:
                rep.ok("hashing")
    rep.floor("hashing", n, 1, "values that are hashed")


def panics(c, rep):
    """a document or value never makes the crate panic"""
    n = 0
    for k, f in sorted(c.fns.items()):
        if f.name in ("fmt", "expecting"):
            continue
        t = short(f.self_ty.peel().h) + "::" + f.name if f.self_ty is not None and f.self_ty.peel().h.startswith(CR) else k[len(CR):]
        bad = None
        for x in walk(f.b["body"]):
            d = callee(f, x)
            if d is None:
                continue
            n += 1
            if d["k"].startswith(("core::panicking", "std::rt::panic", "std::panicking")) or d["n"] in PANICS and d["k"].startswith(("core::", "std::", "alloc::")):
                if d["n"] in ("unwrap", "expect", "unwrap_err", "expect_err") and x[4] and f.ctx.tys[x[4][0][1]].h != RES:
                    rep.unsure("no panic", t, "%s of an option" % d["n"])
                else:
                    bad = d["n"]
        if bad:
            rep.bad("no panic", t, "%s can panic (%s) instead of reporting a document as invalid" % (t, bad))
        else:
            rep.ok("no panic")
    rep.floor("no panic", n, 100, "calls of the crate")
