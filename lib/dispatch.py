"""D01: the name a kind of value is written under selects the same kind when it is read (and every name that selects a kind is written back).

The dispatchers are evaluated by the abstract interpreter on each concrete name: the content of the type name is bound to the literal, everything
else stays symbolic, and the set of enum variants the result may take is compared with the variant the name was produced by."""
import json, os
from interp import *
import wire

TAB = os.path.join(os.path.dirname(os.path.abspath(__file__)), "dispatch.json")
PROPERTY = "unreal_asset_properties::Property"
FPROPERTY = "unreal_asset_exports::properties::fproperty::FProperty"
UPROPERTY = "unreal_asset_exports::properties::uproperty::UProperty"
EXPORT = "unreal_asset_exports::Export"
SENTINEL = "NoSuchTypeName"
TY = ("tyname",)


def ev(W, fn, args, hook=None, side="n"):
    I = Interp(W.P, dict(W.ranges), side, W.nts, W.opts(root=fn.key, self_type=None, hook=hook))
    I.rootcells = {}
    fr = Frame(fn, fn.ctx, {}, None)
    for (ti, p), a in zip(fn.b["params"], args):
        if p is not None:
            r = I.match(p, a, fr)
            I.bindall(r[1], fr)
    I.stack.append(fn.key)
    I.framestack.append(fr)
    v = I.ev(fn.b["body"], fr)
    v = I.finish(fr, v)
    return I, (I.deepval(v) if not I.dead() else None)


def cells(W, fn, args, hook, side):
    """over every version cell the evaluation distinguishes"""
    work = [dict(W.ranges)]
    out = []
    while work:
        cfg = work.pop()
        keep = W.ranges
        try:
            W.ranges = cfg
            I, v = ev(W, fn, args(), hook(), side)
            out.append((cfg, I, v))
        except Split as s:
            for k in s.cuts[:1]:
                lo, hi = cfg.get(s.var, (None, None))
                a, b = dict(cfg), dict(cfg)
                a[s.var] = (lo, k - 1)
                b[s.var] = (k, hi)
                work += [a, b]
            if len(out) + len(work) > 200:
                return None
        finally:
            W.ranges = keep
    return out


def is_ty(I, v):
    v = I.deref(v)
    return isinstance(v, Sy) and v.p == TY


def name_hook(s, ty_fn=None, first_read=False):
    st = {"n": 0}

    def hook(I, d, r, fn, targs, args, fr, line, e):
        n = d["n"]
        if first_read and n == "read_fname" and st["n"] == 0:
            st["n"] = 1
            return I.okv(Sy(TY)) if hasattr(I, "okv") else Ad(RES, {0: {"0": Sy(TY)}})
        if ty_fn and n == ty_fn:
            return Ad(OPT, {1: {"0": Sy(TY)}})
        if args and is_ty(I, args[0]):
            if n == "get_content":
                return I.apply(args[1], [C(s)], fr)
            if n in ("get_owned_content", "as_str", "to_string", "to_owned"):
                return C(s)
            if n in ("ends_with", "starts_with", "contains", "eq_content") and len(args) == 2:
                x = I.deref(args[1])
                if isinstance(x, C) and isinstance(x.v, str):
                    return C({"ends_with": s.endswith(x.v), "starts_with": s.startswith(x.v), "contains": x.v in s}.get(n, s == x.v))
        if n in ("ends_with", "starts_with", "contains") and len(args) == 2:
            a, x = I.deref(args[0]), I.deref(args[1])
            if isinstance(a, C) and isinstance(a.v, str) and isinstance(x, C) and isinstance(x.v, str):
                return C({"ends_with": a.v.endswith(x.v), "starts_with": a.v.startswith(x.v), "contains": x.v in a.v}[n])
        return NotImplemented
    return hook


def variants(P, v, adt):
    """the variants of `adt` the Ok result may be"""
    if v is None:
        return set()
    out = set()

    def go(x, depth):
        if depth > 6:
            return False
        if isinstance(x, Ad) and x.k == adt:
            if x.base is not None:
                return False
            for i in x.alts:
                out.add(P.adts[adt]["v"][i]["n"])
            return True
        if isinstance(x, Ad) and x.k == RES:
            return all(go(f, depth + 1) for i, fs in x.alts.items() if i == 0 for f in fs.values())
        if isinstance(x, Ad):
            # a carrier (struct, tuple) holding the value
            r = [go(f, depth + 1) for fs in x.alts.values() for f in fs.values()]
            return any(r)
        return False
    return out if go(v, 0) else None


def literals(P, fn):
    out = []
    seen = set()

    def go(x):
        if isinstance(x, list):
            if x and x[0] == "const" and len(x) > 1 and isinstance(x[1], dict):
                t = strpat(x[1])
                if t is not None:
                    out.append(t)
            if len(x) == 2 and x[0] == "str" and isinstance(x[1], str):
                out.append(x[1])
            for y in x:
                go(y)
        elif isinstance(x, dict):
            for y in x.values():
                go(y)
    go(fn.b)
    for t in out:
        if t not in seen:
            seen.add(t)
    return [t for t in dict.fromkeys(out)]


def select(W, P, fn, s, adt, args, **kw):
    """variants selected for name s over all version cells, or None"""
    r = cells(W, fn, args, lambda: name_hook(s, **kw), "r")
    if r is None:
        return None, None
    out = set()
    vals = []
    for cfg, I, v in r:
        x = variants(P, v, adt)
        if x is None:
            return None, None
        out |= x
        vals.append((I, v))
    return out, vals


def find(P, name, self_adt=None, trait=None):
    r = []
    for k, f in P.fns.items():
        if f.name != name or f.b is None:
            continue
        if self_adt is not None and (f.self_ty is None or f.self_ty.peel().h != self_adt):
            continue
        r.append(f)
    return r


def std_args(P, fn, ty_index=None, false_at=()):
    def mk():
        out = []
        for i, t in enumerate(fn.ins):
            if P.is_arc(t, fn):
                out.append(Ar("main"))
            elif i == ty_index:
                out.append(Sy(TY))
            elif i in false_at:
                out.append(C(False))
            else:
                out.append(Sy(("arg:%d" % i,)))
        return out
    return mk


def written_names(W, P, rep, adt):
    fs = find(P, "to_serialized_name", adt)
    if len(fs) != 1:
        rep.bad("dispatch.anchor", adt + ":to_serialized_name", "no single to_serialized_name of %s found (%d)" % (adt, len(fs)))
        return {}
    out = {}
    for vi, v in enumerate(P.adts[adt]["v"]):
        try:
            I, val = ev(W, fs[0], [Ad(adt, {vi: {"0": Sy(("self",))}})])
        except Split:
            val = None
        out[v["n"]] = val
    rep.fns.add(fs[0].key)
    return out


def mentions(v, what, depth=0):
    if depth > 8 or v is None:
        return False
    return any(isinstance(a, tuple) and any(str(x) == what or (isinstance(x, str) and x.split(".")[-1] == what) for x in a) for a in atoms_of(v))


def atoms_of(v):
    if isinstance(v, Sy):
        return [v.p]
    if isinstance(v, Mx):
        return list(v.a) if hasattr(v, "a") else []
    return []


def inverse(W, P, rep, adt, fn, args, generic, label, floor, **kw):
    """names written by variants select them; names that select variants are written by them; unknown names fall to `generic`"""
    names = written_names(W, P, rep, adt)
    rep.fns.add(fn.key)
    n = 0
    written = {}
    for var, val in sorted(names.items()):
        if isinstance(val, C) and isinstance(val.v, str):
            written[var] = val.v
            sel, _ = select(W, P, fn, val.v, adt, args, **kw)
            n += 1
            if sel is None:
                rep.unsure("dispatch.inverse", "%s::%s" % (label, var), "the result of the dispatcher is not a set of variants")
            elif sel != {var}:
                rep.bad("dispatch.inverse", "%s::%s" % (label, var), "a %s is written under the name %r, which is read as %s" % (var, val.v, sorted(sel)))
            else:
                rep.ok("dispatch.inverse")
        elif var in generic:
            rep.ok("dispatch.stored")
        else:
            rep.unsure("dispatch.inverse", "%s::%s" % (label, var), "the name it is written under is not a constant: %s" % str(val)[:80])
    for lit in literals(P, fn):
        sel, _ = select(W, P, fn, lit, adt, args, **kw)
        n += 1
        if sel is None:
            rep.unsure("dispatch.back", "%s:%s" % (label, lit), "the result of the dispatcher is not a set of variants")
            continue
        bad = [v for v in sel if v not in generic and written.get(v) not in (lit, None)]
        if bad:
            rep.bad("dispatch.back", "%s:%s" % (label, lit), "a value read under the name %r becomes %s, which is written under the name %r" % (
                lit, bad[0], written.get(bad[0])))
        else:
            rep.ok("dispatch.back")
    sel, vals = select(W, P, fn, SENTINEL, adt, args, **kw)
    if sel is None:
        rep.unsure("dispatch.unknown", label, "the result of the dispatcher is not a set of variants")
    elif len(sel) != 1 or not sel <= set(generic):
        rep.bad("dispatch.unknown", label, "a name nothing is known about is read as %s, expected %s" % (sorted(sel), sorted(generic)))
    else:
        rep.ok("dispatch.unknown")
    rep.floor("dispatch.floor", n, floor, "names of " + label)
    return written


def table(W, P, rep, label, fn, adt, args, frozen, extra=(), **kw):
    """each name selects the kind confirmed by hand; the names are the ones frozen in dispatch.json"""
    rep.fns.add(fn.key)
    for s, want in sorted(frozen.items()):
        sel, _ = select(W, P, fn, s, adt, args, **kw)
        if sel is None:
            rep.unsure("dispatch.table", "%s:%s" % (label, s), "the result of the dispatcher is not a set of variants")
        elif sel != set(want):
            rep.bad("dispatch.table", "%s:%s" % (label, s), "the name %r selects %s, expected %s" % (s, sorted(sel), sorted(want)))
        else:
            rep.ok("dispatch.table")


def holds_ty(I, v, depth=0):
    v = I.deref(v)
    if isinstance(v, Sy):
        return v.p == TY
    if isinstance(v, Ad) and depth < 3 and len(v.alts) == 1:
        return any(holds_ty(I, f, depth + 1) for fs in v.alts.values() for f in fs.values())
    return False


def stored(W, P, rep, adt, var, fn, args, label, **kw):
    """the kind used for unknown names keeps the name and is written under it: build it, then ask for its name"""
    key = "%s::%s" % (label, var)
    h0 = name_hook(SENTINEL, **kw)
    calls = []

    def hook(I, d, r, f, targs, a, fr, line, e):
        x = h0(I, d, r, f, targs, a, fr, line, e)
        if x is NotImplemented and f is not None and f.b is not None and any(holds_ty(I, y) for y in a) and f.self_ty is not None \
                and f.name not in ("clone", "get_content", "get_owned_content"):
            calls.append((f, [holds_ty(I, y) and (2 if isinstance(I.deref(y), Ad) else 1) for y in a]))
        return x
    try:
        I, v = ev(W, fn, args(), hook, "r")
    except Split as s:
        rep.unsure("dispatch.stored", key, "depends on version " + str(s.var))
        return
    vi = [i for i, x in enumerate(P.adts[adt]["v"]) if x["n"] == var][0]
    st = P.adts[adt]["v"][vi]["f"][0]
    calls = [(f, a) for f, a in calls if f.self_ty.peel().h.split("::")[-1] == var]
    tsn = find(P, "to_serialized_name", adt)
    if not calls or len(tsn) != 1:
        rep.unsure("dispatch.stored", key, "no constructor given the type name was found")
        return
    f, has = calls[0]
    mk = lambda: [Ar("main") if P.is_arc(t, f) else (Sy(TY) if h == 1 else Ad(OPT, {1: {"0": Sy(TY)}}) if h == 2 else Sy(("arg:%d" % i,)))
                  for i, (t, h) in enumerate(zip(f.ins, has))]
    rs = cells(W, f, mk, lambda: None, "r")
    if not rs:
        rep.unsure("dispatch.stored", key, "constructor not evaluated")
        return
    for cfg, I, v in rs:
        x = v
        if isinstance(x, Ad) and x.k == RES:
            x = x.alts.get(0, {}).get("0")
        if not isinstance(x, Ad):
            rep.unsure("dispatch.stored", key, "constructor result not a structure")
            return
        I2, n = ev(W, tsn[0], [Ad(adt, {vi: {"0": x}})], name_hook(SENTINEL))
        if isinstance(n, C) and n.v == SENTINEL:
            continue
        if n is None or isinstance(n, C):
            rep.bad("dispatch.stored", key, "a value of an unknown type is written under the name %r, not under the name it was read with" % (n.v if n else None))
            return
        rep.bad("dispatch.stored", key, "a value of an unknown type is written under a name that is not the one it was read with: %s" % str(n)[:100])
        return
    rep.ok("dispatch.stored")


KEXPR = "unreal_asset_kismet::KismetExpression"


def kismet(W, P, rep):
    new = find(P, "new", KEXPR)
    if len(new) != 1 or KEXPR not in P.adts:
        rep.bad("dispatch.anchor", "KismetExpression::new", "not found")
        return
    new = new[0]
    tok = [k for k in P.adts if k.split("::")[-1] == "EExprToken"]
    if len(tok) != 1:
        rep.bad("dispatch.anchor", "EExprToken", "not found")
        return
    tok = tok[0]
    rep.fns.add(new.key)
    n = 0
    reached = set()
    for ti, tv in enumerate(P.adts[tok]["v"]):
        def hook(I, d, r, f, targs, a, fr, line, e, ti=ti):
            if d["n"] in ("try_from", "try_into", "from", "into", "from_u8") and fr.fn.key == new.key or d["n"] in ("try_from", "try_into") and \
                    any(t.peel().h == tok for t in targs):
                if any(t.peel().h == tok for t in targs) or (f is not None and f.self_ty is not None and f.self_ty.peel().h == tok):
                    return Ad(RES, {0: {"0": Ad(tok, {ti: {}})}})
            return NotImplemented
        r = cells(W, new, std_args(P, new), lambda: hook, "r")
        sel = set()
        for cfg, I, v in r or ():
            x = variants(P, v, KEXPR)
            sel = None if x is None or sel is None else sel | x
        if not r or sel is None:
            rep.unsure("dispatch.token", tv["n"], "the result of the dispatcher is not a set of variants")
            continue
        n += 1
        if not sel:
            rep.ok("dispatch.token")        # an opcode that is refused
            continue
        if len(sel) != 1:
            rep.unsure("dispatch.token", tv["n"], "more than one kind: %s" % sorted(sel)[:4])
            continue
        var = next(iter(sel))
        reached.add(var)
        st = [k for k in P.adts if k.startswith("unreal_asset_kismet::") and k.split("::")[-1] == var and k != KEXPR]
        ctor = [f for f in find(P, "new") if f.self_ty is not None and st and f.self_ty.peel().h == st[0]]
        gt = [f for f in find(P, "get_token") if f.self_ty is not None and st and f.self_ty.peel().h == st[0]]
        if len(ctor) != 1 or len(gt) != 1:
            rep.unsure("dispatch.token", tv["n"], "constructor of %s not found" % var)
            continue
        rs = cells(W, ctor[0], std_args(P, ctor[0]), lambda: None, "r")
        got = set()
        for cfg, I, v in rs or ():
            x = v.alts.get(0, {}).get("0") if isinstance(v, Ad) and v.k == RES else None
            if x is None:
                continue
            I2, t = ev(W, gt[0], [x])
            got |= {P.adts[tok]["v"][i]["n"] for i in t.alts} if isinstance(t, Ad) and t.k == tok and t.base is None else {None}
        if None in got or not got:
            rep.unsure("dispatch.token", tv["n"], "token of %s not evaluated" % var)
        elif got != {tv["n"]}:
            rep.bad("dispatch.token", tv["n"], "opcode %s is read as %s, which is written with opcode %s" % (tv["n"], var, sorted(got)))
        else:
            rep.ok("dispatch.token")
    for v in P.adts[KEXPR]["v"]:
        if v["n"] in reached:
            rep.ok("dispatch.reach")
        else:
            rep.bad("dispatch.reach", v["n"], "no opcode is read as %s, which can be written" % v["n"])
    rep.floor("dispatch.floor", n, 80, "opcodes")


def strings_in(P, x, ctx, depth=0):
    """string literals in an expression, following named constants"""
    out = set()

    def go(y):
        if isinstance(y, list):
            if len(y) == 4 and y[0] == "lit" and isinstance(y[3], str):
                out.add(y[3])
            if y and y[0] == "const" and len(y) > 3 and isinstance(y[3], int) and depth < 4:
                try:
                    k = ctx.defs[y[3]]["k"]
                except (IndexError, KeyError, TypeError):
                    k = None
                if k in P.consts and P.consts[k][0].get("b"):
                    out.update(strings_in(P, P.consts[k][0]["b"]["body"], P.consts[k][1], depth + 1))
            for z in y:
                go(z)
        elif isinstance(y, dict):
            for z in y.values():
                go(z)
    go(x)
    return out


def contains_hook(P):
    def hook(I, d, r, f, targs, a, fr, line, e):
        if d["n"] == "contains" and len(a) == 2:
            x = I.deref(a[1])
            if isinstance(x, C) and isinstance(x.v, str):
                s = strings_in(P, e, fr.ctx)
                if s:
                    return C(x.v in s)
        return NotImplemented
    return hook


def check(P, rep):
    W = wire.World(P)
    tab = json.load(open(TAB))

    def part(name, f):
        try:
            f()
        except (Split, Limit, KeyError, IndexError, AttributeError, TypeError, ValueError, RecursionError) as ex:
            rep.unsure("dispatch.part", name, "%s: %s" % (type(ex).__name__, ex))

    def anchor(fs, what):
        if len(fs) != 1:
            rep.bad("dispatch.anchor", what, "%d functions found, one expected" % len(fs))
            return None
        return fs[0]

    def property_():
        g = anchor(find(P, "from_type", PROPERTY), "Property::from_type")
        if g is None:
            return
        ti = [i for i, t in enumerate(g.ins) if t.peel().h.endswith("::FName") and t.h == "&"]
        zi = [i for i, t in enumerate(g.ins) if t.h == "bool"]
        if len(ti) != 1 or len(zi) != 2:
            rep.unsure("dispatch.anchor", "Property::from_type", "signature not recognised")
            return
        a = std_args(P, g, ti[0], (zi[1],))
        w = inverse(W, P, rep, PROPERTY, g, a, ["UnknownProperty", "EmptyProperty"], "Property", 150)
        stored(W, P, rep, PROPERTY, "UnknownProperty", g, a, "Property")

        def za():
            x = std_args(P, g, ti[0])()
            x[zi[1]] = C(True)
            return x
        stored(W, P, rep, PROPERTY, "EmptyProperty", g, za, "Property")
        h = anchor([f for f in P.fns.values() if f.name == "has_custom_serialization" and f.b], "has_custom_serialization")
        if h is None:
            return
        rep.fns.add(h.key)
        for s in tab["custom"]:
            I, v = ev(W, h, [C(s)], contains_hook(P))
            if not isinstance(v, C):
                rep.unsure("dispatch.native", s, "membership not evaluated")
            elif v.v is not True:
                rep.bad("dispatch.native", s, "structures of type %r are stored natively but are read as a list of tagged properties" % s)
            elif s in tab["custom_unknown"]:
                rep.ok("dispatch.native")
            else:
                sel, _ = select(W, P, g, s, PROPERTY, a)
                if sel == {"UnknownProperty"}:
                    rep.bad("dispatch.native", s, "structures of type %r are stored natively but have no reader" % s)
                else:
                    rep.ok("dispatch.native")
        rep.floor("dispatch.floor", len(tab["custom"]), 50, "natively stored structures")

    def fproperty():
        g = anchor(find(P, "new", FPROPERTY), "FProperty::new")
        if g is None:
            return
        inverse(W, P, rep, FPROPERTY, g, std_args(P, g), ["FGenericProperty"], "FProperty", 32, first_read=True)
        stored(W, P, rep, FPROPERTY, "FGenericProperty", g, std_args(P, g), "FProperty", first_read=True)

    def uproperty():
        g = anchor(find(P, "new", UPROPERTY), "UProperty::new")
        if g is None:
            return
        ti = [i for i, t in enumerate(g.ins) if t.peel().h.endswith("::FName")]
        a = std_args(P, g, ti[0])
        table(W, P, rep, "UProperty", g, UPROPERTY, a, tab["uproperty"])
        reach = set()
        for s in set(tab["uproperty"]) | set(literals(P, g)):
            sel, _ = select(W, P, g, s, UPROPERTY, a)
            if sel is None:
                rep.unsure("dispatch.reach", "UProperty", "the result of the dispatcher is not a set of variants")
                return
            reach |= sel
        for v in P.adts[UPROPERTY]["v"]:
            if v["n"] in reach:
                rep.ok("dispatch.reach")
            else:
                rep.bad("dispatch.reach", v["n"], "no type name is read as %s" % v["n"])

    def export():
        g = anchor([f for f in P.fns.values() if f.name == "read_export_no_raw" and f.b], "read_export_no_raw")
        if g is None:
            return
        rep.fns.add(g.key)
        for s, want in sorted(tab["export"].items()):
            sel, _ = select(W, P, g, s, EXPORT, std_args(P, g), ty_fn="get_export_class_type")
            if sel is None:
                rep.unsure("dispatch.table", "Export:" + s, "the result of the dispatcher is not a set of variants")
                continue
            sel.discard("RawExport")
            if sel != {want}:
                rep.bad("dispatch.table", "Export:" + s, "objects of class %r are read as %s, expected %s" % (s, sorted(sel), want))
            else:
                rep.ok("dispatch.table")
    part("Property", property_)
    part("FProperty", fproperty)
    part("UProperty", uproperty)
    part("Export", export)
    part("Kismet", lambda: kismet(W, P, rep))
