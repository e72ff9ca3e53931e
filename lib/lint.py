"""Local facts that hold at every call site: values keep their width, reads and writes are complete, containers are walked whole."""
from interp import PRIM_W
from prog import walk

INT = {k: v for k, v in PRIM_W.items() if k[0] in "iu" or k == "char"}
MASKS = {"BitAnd", "Shr", "Rem"}
# parts of a container only
PARTIAL = {"take", "skip", "step_by", "truncate"}
# a text that is not the one given
ALTER = {"from_utf8_lossy", "from_utf16_lossy", "from_utf16le_lossy", "from_utf16be_lossy", "to_string_lossy", "trim", "trim_end", "trim_start", "trim_matches",
         "trim_end_matches", "trim_start_matches", "to_lowercase", "to_uppercase", "to_ascii_lowercase", "to_ascii_uppercase",
         "make_ascii_lowercase", "make_ascii_uppercase"}
SHORT = {("Read", "read"), ("Write", "write"), ("Read", "read_vectored"), ("Write", "write_vectored"), }


def peel(e):
    while isinstance(e, list) and e and e[0] in ("paren", "ref", "deref", "use", "block1", "addr") and len(e) > 3:
        e = e[-1]
    return e


def ty(f, e):
    return f.ctx.tys[e[1]].h


def masked(e):
    return any(n[0] == "bin" and any(m in map(str, n[3:5]) for m in MASKS) for n in walk(e))


def inits(f):
    """immutable locals and what they are bound to"""
    out = {}
    for n in walk(f.b["body"]):
        if n[0] == "let" and len(n) > 2 and isinstance(n[1], list) and n[1] and n[1][0] == "bind" and n[2] is not None:
            out[n[1][1]] = n[2]
    for n in walk(f.b["body"]):
        if n[0] in ("assign", "assignop") and isinstance(n[3], list) and n[3][0] == "var":
            out.pop(n[3][3], None)
        elif n[0] == "assignop" and isinstance(n[4], list) and n[4][0] == "var":
            out.pop(n[4][3], None)
    return out


def source(e, lets, n=4):
    e = peel(e)
    while n and isinstance(e, list) and e[0] == "var" and e[3] in lets:
        e = peel(lets[e[3]])
        n -= 1
    return e


def casts(f):
    """[(source type, middle, target)] of a value that is narrowed and widened again"""
    lets = inits(f)
    for n in walk(f.b["body"]):
        if n[0] == "cast":
            inner, t2 = source(n[3], lets), ty(f, n)
        elif n[0] == "call" and n[3][0] is not None and f.ctx.defs[n[3][0]]["n"] in ("from", "into") and len(n[4]) == 1:
            inner, t2 = source(n[4][0], lets), ty(f, n)
        else:
            continue
        if not isinstance(inner, list) or inner[0] != "cast":
            continue
        src, t1 = ty(f, inner[3]), ty(f, inner)
        if src in INT and t1 in INT and t2 in INT:
            if INT[t1] < min(INT[src], INT[t2]) and not masked(inner[3]):
                yield "narrowed", src, t1, t2
            elif INT[t1] == INT[src] and INT[t2] > INT[t1] and src[0] == "u" and t1[0] == "i" and src not in ("usize",):
                yield "sign", src, t1, t2


def linear(e, f):
    """{term: coefficient} over the calls of position(), variables and constants; None: not linear"""
    e = peel(e)
    if e[0] == "lit":
        v = e[3]
        v = v[1] if isinstance(v, list) and len(v) > 1 else v
        try:
            return {"": int(str(v).split("_")[0])}
        except ValueError:
            return None
    if e[0] == "cast":
        return linear(e[3], f)
    if e[0] == "bin" and e[3] in ("Add", "Sub"):
        a, b = linear(e[4], f), linear(e[5], f)
        if a is None or b is None:
            return None
        s = 1 if e[3] == "Add" else -1
        return {k: a.get(k, 0) + s * b.get(k, 0) for k in set(a) | set(b)}
    if e[0] == "call" and e[3][0] is not None and f.ctx.defs[e[3][0]]["n"] in ("position", "stream_position"):
        return {"pos": 1}
    return {str(e): 1}


def bounded(f):
    """loops that go on while the stream has not come to an offset: (constant, operator)"""
    for n in walk(f.b["body"]):
        if n[0] != "loop":
            continue
        b = n[3]
        last = b[3][1] if b[0] == "block" else None
        c = last[3] if isinstance(last, list) and last and last[0] == "if" else None
        if not (isinstance(c, list) and c[0] == "bin" and c[3] in ("Lt", "Le", "Gt", "Ge")):
            continue
        x, y = (c[4], c[5]) if c[3] in ("Lt", "Le") else (c[5], c[4])
        x, y = linear(x, f), linear(y, f)
        if x is None or y is None:
            continue
        d = {k: x.get(k, 0) - y.get(k, 0) for k in set(x) | set(y)}
        if d.get("pos") == 1:
            yield d.get("", 0) - (1 if c[3] in ("Le", "Ge") else 0), n[2]


def fixed_arg(e):
    return not any(n[0] in ("var", "call", "field", "upvar", "index", "deref", "match", "block", "if") for n in walk(e))


def partial(f):
    for n in walk(f.b["body"]):
        if n[0] == "call" and n[3][0] is not None:
            d = f.ctx.defs[n[3][0]]
            k = d["k"]
            if d["n"] in PARTIAL and k.startswith(("core::iter", "alloc::", "core::slice")) and len(n[4]) == 2 and fixed_arg(peel(n[4][1])):
                yield "part", d["n"], k
            if d["n"] in ALTER and k.startswith(("core::str", "alloc::str", "core::char", "alloc::string", "std::path", "std::ffi", "core::slice", "core::num")):
                yield "alter", d["n"], k
            tr = (d.get("tr") or "").rsplit("::", 1)[-1]
            if (tr, d["n"]) in SHORT and (d.get("tr") or "").startswith(("std::", "core::", "alloc::")):
                yield "short", d["n"], k


def allowed(f, kind, x):
    # an archive that passes the call of its own read or write on
    return kind == "short" and f.impl_trait and f.impl_trait.rsplit("::", 1)[-1] in ("Read", "Write")


KNOWN = {("narrowed", "u16", "u8", "char")}       # case folding of code units below 256


def check(P, rep, prefixes, rule="local"):
    n = 0
    for k, f in sorted(P.fns.items()):
        if f.b is None or not k.startswith(tuple(prefixes)):
            continue
        n += 1
        where = "%s (%s)" % (k, f.file)
        for x in casts(f):
            if x not in KNOWN:
                rep.bad(rule, "%s %s" % (k, " ".join(x)), "%s: a value of type %s passes through %s on its way to %s: what does not fit is lost" % (where, x[1], x[2], x[3]))
        for x in partial(f):
            if x[0] == "short" and not allowed(f, *x[:2]):
                rep.bad(rule, "%s %s" % (k, x[1]), "%s: %s may transfer only a part of the bytes, and nothing continues it" % (where, x[2]))
            elif x[0] == "alter" and any(P.is_arc(i, f) for i in f.ins):
                rep.bad(rule, "%s %s" % (k, x[1]), "%s: %s on the way between a value and the stream: other texts come out than went in" % (where, x[2]))
            elif x[0] == "part":
                rep.bad(rule, "%s %s" % (k, x[1]), "%s: %s with a fixed bound handles only a part of a container" % (where, x[2]))
        for c, line in bounded(f):
            if c != 0:
                rep.bad(rule, "%s bound" % k, "%s: the loop at line %d stops %d byte(s) off the stored end" % (where, line, c))
    rep.ok(rule, n)
    rep.cov["functions_linted"] = n


if __name__ == "__main__":
    from prog import Program
    P = Program("/verif/.build/dump")
    for k, f in sorted(P.fns.items()):
        if f.b is None:
            continue
        for x in list(casts(f)) + list(partial(f)) + list(bounded(f)):
            print(k, f.file, x)
