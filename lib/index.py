"""X01: package indices.  Each conversion and lookup is reduced to a tree of integer tests whose leaves are table entries or refusals; the tests
on the way to a leaf have to imply what the leaf claims, and the other way round."""
import terms as T
from linear import paths, infeasible
from terms import unlin, arith

IDX = ("f", ("p", 1), "index")


def find(P, ty, name):
    return [f for f in P.fns.values() if f.self_ty is not None and f.self_ty.h.split("::")[-1] == ty and f.name == name and f.b is not None and f.parent is None
            ] or [f for f in P.fns.values() if f.self_ty is not None and f.self_ty.h.split("::")[-1] == ty and f.name == name and f.b is not None]


OPAQUE = {"eq_content", "get_content", "get_owned_content"}


def form(P, f, args=None):
    N = T.Norm(P, stop=lambda t, d: t.name in OPAQUE, deep=8)
    N.loops = True
    return N.fn(f, args)


def some(t):
    return t[0] == "adt" and t[1] in ("Option", "Result") and t[2] == (1 if t[1] == "Option" else 0)


def refuse(t):
    return t[0] == "adt" and t[1] in ("Option", "Result") and not some(t)


def val(t):
    return dict(t[3]).get("0")


def le(t):
    return unlin(t)


def neg1(t):
    """constraint t <= 0 negated"""
    return unlin(arith("Sub", ("lit", 1), t))


def lookup(P, f, rep, slot, table, proj=None):
    """f(self, index) is the entry of table at position slot(index) when there is one, and nothing otherwise"""
    name = "%s %s" % (f.self_ty.h.split("::")[-1], f.name)
    rep.fns.add(f.key)
    try:
        t = form(P, f)
    except T.Unk as e:
        rep.unsure("lookup", name, str(e))
        return
    n = ("call", "len", (table,))
    base = [unlin(arith("Mul", n, ("lit", -1)))]            # -n <= 0
    lo = arith("Mul", slot, ("lit", -1))                    # -slot <= 0
    hi = arith("Add", arith("Sub", slot, n), ("lit", 1))    # slot - n + 1 <= 0
    for cs, ops, leaf in paths(t):
        if refuse(leaf):
            # no valid position may be refused
            if ops:
                rep.bad("lookup", name, "an entry may be refused because of %s" % short(ops))
            elif infeasible(base + cs + [le(lo), le(hi)]):
                rep.ok("lookup")
            else:
                rep.bad("lookup", name, "an entry of the table may be refused")
        elif some(leaf):
            v = val(leaf)
            if proj is not None:
                if v[0] == "f" and v[2] == proj:
                    v = v[1]
                else:
                    rep.bad("lookup", name, "gives %s of the entry, not %s" % (short(v), proj))
                    continue
            if v[0] != "index":
                rep.unsure("lookup", name, "gives %s" % short(v))
            elif v[1] != table or unlin(v[2]) != unlin(slot):
                rep.bad("lookup", name, "gives %s, not the entry %s of %s" % (short(v), short(slot), short(table)))
            elif not infeasible(base + cs + [neg1(lo)]) or not infeasible(base + cs + [neg1(hi)]):
                rep.bad("lookup", name, "may look outside of the table")
            else:
                rep.ok("lookup")
        else:
            rep.unsure("lookup", name, short(leaf))


def short(t):
    return str(t)[:160]


def convert(P, f, rep, want):
    """Ok(PackageIndex(want)) for every argument >= 0, an error for the others"""
    name = f.name
    rep.fns.add(f.key)
    try:
        t = form(P, f)
    except T.Unk as e:
        rep.unsure("convert", name, str(e))
        return
    a = ("p", 0)
    for cs, ops, leaf in paths(t):
        if some(leaf):
            v = val(leaf)
            got = dict(v[3]).get("index") if v[0] == "adt" else None
            if got is None:
                rep.unsure("convert", name, short(v))
            elif unlin(got) != unlin(want):
                rep.bad("convert", name, "makes index %s of table position %s" % (short(got), short(a)))
            elif not infeasible(cs + [le(arith("Add", a, ("lit", 1)))]):
                rep.bad("convert", name, "accepts negative table positions")
            else:
                rep.ok("convert")
        elif refuse(leaf):
            if ops or not infeasible(cs + [le(arith("Mul", a, ("lit", -1)))]):
                rep.bad("convert", name, "refuses a table position")
            else:
                rep.ok("convert")
        else:
            rep.unsure("convert", name, short(leaf))


def kind(P, f, rep, want):
    """boolean test on the index"""
    rep.fns.add(f.key)
    try:
        t = form(P, f)
    except T.Unk as e:
        rep.unsure("kind", f.name, str(e))
        return
    w = arith("Add", ("f", ("p", 0), "index"), ("lit", 1)) if want < 0 else arith("Sub", ("lit", 1), ("f", ("p", 0), "index"))
    for cs, ops, leaf in paths(("if", t, ("lit", True), ("lit", False))):
        if ops:
            rep.unsure("kind", f.name, short(ops))
        elif leaf == ("lit", True) and infeasible(cs + [neg1(w)]) or leaf == ("lit", False) and infeasible(cs + [le(w)]):
            rep.ok("kind")
        else:
            rep.bad("kind", f.name, "does not tell %s indices apart" % ("negative" if want < 0 else "positive"))


def search(P, f, rep, table, fields):
    """the index of the first import whose fields equal the arguments"""
    name = f.name
    rep.fns.add(f.key)
    try:
        t = form(P, f)
    except T.Unk as e:
        rep.unsure("search", name, str(e))
        return
    if t[0] != "search":
        rep.unsure("search", name, short(t))
        return
    _, dom, n, body, rest = t
    i = ("i", n)
    (rep.ok("search") if refuse(rest) else rep.bad("search", name, "gives %s when there is none" % short(rest)))
    (rep.ok("search") if dom == table else rep.bad("search", name, "looks through %s" % short(dom)))
    hit = 0
    el = ("index", table, i)
    for cs, ops, leaf in paths(body):
        eqs = {}
        for x, v in ops:
            fl = pair(x, el)
            if fl is not None:
                eqs[fl[0]] = (fl[1], v)
        if leaf == T.CONT:
            if any(not v for _, v in eqs.values()):
                rep.ok("search")
            elif cs:
                rep.unsure("search", name, "passes over an element because of %s" % short(cs))
            else:
                rep.bad("search", name, "passes over an import that matches")
            continue
        hit += 1
        if not some(leaf):
            rep.unsure("search", name, short(leaf))
            continue
        v = val(leaf)
        v = dict(v[3]).get("index", v) if v[0] == "adt" else v
        want = arith("Sub", ("lit", -1), i)
        if unlin(v) != unlin(want):
            rep.bad("search", name, "gives %s for the import at position %s" % (short(v), short(i)))
        else:
            rep.ok("search")
        for fld, p in fields:
            if eqs.get(fld, (None, False)) == (p, True):
                rep.ok("search")
            else:
                rep.bad("search", name + " " + fld, "%s of the import need not be what was asked for" % fld)
    if not hit:
        rep.bad("search", name, "never finds anything")


def pair(x, el):
    """(field, argument) an equality test compares"""
    a = b = None
    if x[0] == "call" and x[1] == "eq_content" and len(x[2]) == 2:
        a, b = x[2]
    elif x[0] == "cmp" and x[1] == "Eq":
        a, b = x[2], x[3]
    elif x[0] == "eq0":
        c, d = unlin(x[1])
        ks = sorted(d.items(), key=lambda z: z[1])
        if c == 0 and len(ks) == 2 and [z[1] for z in ks] == [-1, 1]:
            a, b = ks[0][0], ks[1][0]
    if a is None:
        return None
    for p, q in ((a, b), (b, a)):
        while p[0] == "f" and p[1] != el and q[0] == "f" and q[2] == p[2]:
            p, q = p[1], q[1]
        if p[0] == "f" and p[1] == el:
            return p[2], q
    return None


def adder(P, f, rep, table):
    rep.fns.add(f.key)
    try:
        t = form(P, f)
    except T.Unk as e:
        rep.unsure("add", f.name, str(e))
        return
    n = ("call", "len", (table,))
    pushed = 0
    while t[0] == "seq":
        c = t[1]
        if c[0] == "call" and c[1] == "push" and c[2][0] == table:
            pushed += 1
            if c[2][1] != ("p", 1):
                rep.bad("add", f.name, "adds %s" % short(c[2][1]))
        elif c[0] == "call" and c[1] in ("insert", "extend", "clear", "remove", "swap") and c[2] and c[2][0] == table:
            rep.unsure("add", f.name, short(c))
            return
        t = t[2]
    if t[0] == "adt":
        t = dict(t[3]).get("index", t)
    late = order(f)
    want = arith("Sub", ("lit", -1), n) if not late else arith("Mul", n, ("lit", -1))
    if pushed != 1:
        rep.bad("add", f.name, "the import is added %d times" % pushed)
    elif unlin(t) != unlin(want):
        rep.bad("add", f.name, "gives index %s for the import added" % short(t))
    else:
        rep.ok("add")


def order(f):
    """True when the size of the table is taken after the import was added"""
    seen = []

    def go(e):
        if isinstance(e, list):
            if e and e[0] == "call":
                for x in e:
                    go(x)
                spec = e[3]
                if isinstance(spec, list) and spec and isinstance(spec[0], int):
                    seen.append(f.ctx.defs[spec[0]]["n"])
                return
            for x in e:
                go(x)
    go(f.b["body"])
    seen = [x for x in seen if x in ("push", "len")]
    return seen[:2] == ["push", "len"]


def check(P, rep):
    pi = "PackageIndex"
    got = {}
    need = [(pi, "from_import"), (pi, "from_export"), (pi, "is_import"), (pi, "is_export"), ("Asset", "add_import"), ("Asset", "find_import"),
            ("Asset", "find_import_no_index"), ("Asset", "get_import"), ("Asset", "get_export"), ("Asset", "get_export_mut"), ("AssetArchiveWriter", "get_import"),
            ("AssetData", "get_export"), ("AssetData", "get_export_mut"), ("Asset", "get_object_name"), ("AssetArchiveWriter", "get_object_name"),
            ("Asset", "get_object_name_packageindex"), ("AssetArchiveWriter", "get_object_name_packageindex")]
    for ty, nm in need:
        fs = find(P, ty, nm)
        if len(fs) != 1:
            rep.bad("anchor", "%s::%s" % (ty, nm), "not found" if not fs else "ambiguous")
            continue
        got[ty, nm] = fs[0]
    imp = ("f", ("p", 0), "imports")
    s_imp = arith("Sub", ("lit", -1), IDX)
    s_exp = arith("Sub", IDX, ("lit", 1))
    a = ("p", 0)
    for (ty, nm), f in got.items():
        if nm == "from_import":
            convert(P, f, rep, arith("Sub", ("lit", -1), a))
        elif nm == "from_export":
            convert(P, f, rep, arith("Add", a, ("lit", 1)))
        elif nm == "is_import":
            kind(P, f, rep, -1)
        elif nm == "is_export":
            kind(P, f, rep, 1)
        elif nm == "get_import":
            lookup(P, f, rep, s_imp, imp)
        elif nm.startswith("get_object_name"):
            lookup(P, f, rep, s_imp, imp, "object_name")
        elif nm.startswith("get_export"):
            lookup(P, f, rep, s_exp, ("f", ("p", 0), "exports") if ty == "AssetData" else ("f", ("f", ("p", 0), "asset_data"), "exports"))
        elif nm == "add_import":
            adder(P, f, rep, imp)
        elif nm.startswith("find_import"):
            fl = [("class_package", ("p", 1)), ("class_name", ("p", 2))]
            fl += [("outer_index", ("p", 3)), ("object_name", ("p", 4))] if nm == "find_import" else [("object_name", ("p", 3))]
            search(P, f, rep, imp, fl)
    rep.floor("lookup", rep.rules.get("lookup", [0])[0], 18, "ways through the lookups")
