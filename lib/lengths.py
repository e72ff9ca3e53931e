"""L01, L02: the lengths that writers report and store are the lengths of what they wrote.

Every path through a writer (over every engine-version configuration the writer distinguishes) is walked with a
linear byte counter: constants for fixed-width operations, one symbol per nested value, per string and per slice.
A loop is walked zero times and once; since both sides are affine in the number of rounds with the same per-round
term on every round, agreement there is agreement for every number of rounds.  The result of the writer (or the
value patched into a length field) must be the same linear expression as the byte counter."""
from interp import *
from wire import *
from spec import jobs

LIMIT = 60000
ROUNDS = 2

# values a reader can produce only with one length (read_exact into a fixed buffer)
FIXED_LEN = {("unreal_asset_properties::material_input_property::MaterialExpression", ("self", "extras")): 20}
# a bool has no payload: its value is part of the tag (and outside a tag its size is never asked for)
NO_PAYLOAD = {"unreal_asset_properties::int_property::BoolProperty"}
KISMET_POINTER = "unreal_asset_kismet::KismetPropertyPointer"


class TooMany(Exception):
    pass


def walks(W, fn, T, wi, fixed, limit=LIMIT, **kw):
    """(cfg, finished interpretation) for every configuration and path"""
    work = [dict(fixed or {})]
    n = 0
    while work:
        cfg = work.pop()
        got, path = [], []
        try:
            while True:
                I = W.run(fn, "w", cfg, T, obj_arg=wi, path=path, rounds=ROUNDS, **kw)
                n += 1
                if n > limit:
                    raise TooMany()
                got.append(I)
                path = list(I.path)[:len(I.pathlens)]
                while path and path[-1] + 1 >= I.pathlens[len(path) - 1]:
                    path.pop()
                if not path:
                    break
                path[-1] += 1
        except Split as s:
            parts = split_cfg(cfg, W, s.var, s.cuts)
            if len(parts) == 1:
                raise
            work.extend(parts)
            continue
        for I in got:
            if not I.dead():
                yield cfg, I


def okval(I):
    v = I.res.value
    if isinstance(v, Ad):
        if v.k.endswith("Result") or v.k.endswith("Result"):
            if 0 not in v.alts:
                return None
            v = v.alts[0].get("0")
    return v


def isok(I):
    v = I.res.value
    return not (isinstance(v, Ad) and v.k.rsplit("::", 1)[-1] == "Result" and 0 not in v.alts)


def rounds(I):
    it = {}
    for k, n in I.assume.items():
        if isinstance(k, tuple) and k and k[0] == "iters":
            for a in k[1]:
                it[a[0] if isinstance(a, tuple) and len(a) == 2 and isinstance(a[0], tuple) else a] = n
    return it


def known_lengths(I, l, T):
    it = rounds(I)
    k, t = l.k, {}
    for a, c in l.t.items():
        if a[0] == "len" and a[1] in it:
            k += c * it[a[1]]
        elif a[0] == "len" and (T, a[1]) in FIXED_LEN:
            k += c * FIXED_LEN[(T, a[1])]
        else:
            t[a] = t.get(a, 0) + c
    return Ln(k, t)


def txt(l):
    if l is None:
        return "?"
    s = [str(l.k)] if l.k or not l.t else []
    for a, c in sorted(l.t.items(), key=str):
        s.append(("%d*" % c if c != 1 else "") + "%s" % (".".join(map(str, a[1])) + ".len" if a[0] == "len" else "%s#%s" % (a[0], a[1] if len(a) > 1 else "")))
    return " + ".join(s)


def opaque_terms(l):
    return [a for a in l.t if a[0] in ("sy", "ev", "tag")]


def conditions(I):
    r = []
    for k, v in sorted(I.assume.items(), key=str)[:6]:
        r.append("%s=%s" % (str(k)[:70], v))
    return "; ".join(r)


def shorty(T):
    return T.rsplit("::", 1)[-1]


def expected_kismet(I, T):
    """size of the written expression in memory"""
    if T == KISMET_POINTER:
        return Ln(8, {})
    n = Ln(0, {})
    for ev, at, nb, patch in I.trace:
        if patch is not None:
            continue
        if isinstance(ev.label, tuple) and ev.label[0] == "nt":
            n = lin_add(n, Ln(0, {("mem", ev.slot): 1}))
        elif ev.label == "fname":
            n = lin_add(n, Ln(12, {}))
        elif isinstance(ev.val, Sy) and ev.val.p and ev.val.p[-1] == "index" and nb is not None and nb == Ln(4, {}):
            n = lin_add(n, Ln(8, {}))
        elif nb is not None:
            n = lin_add(n, nb)
        else:
            n = lin_add(n, Ln(0, {("ev", ev.slot): 1}))
    return n


def check_writer(W, rep, rule, T, wf, wi, fixed, kismet):
    name = shorty(T)
    seen = set()
    paths = 0
    try:
        for cfg, I in walks(W, wf, T, wi, fixed):
            rep.fns |= I.seen | {wf.key}
            if not isok(I):
                continue
            paths += 1
            if I.st.patch is not None:
                seen.add(("bad", "%s: leaves the stream at a patched field instead of its end" % name, conditions(I)))
                continue
            v = okval(I)
            got = I.aslin(v) if v is not None else None
            if kismet:
                want = expected_kismet(I, T)
            else:
                want = lin_add(I.st.bytes, I.hdrat or Ln(0, {}), -1)
                if T in NO_PAYLOAD:
                    want = Ln(0, {})
            want = known_lengths(I, want, T)
            got = known_lengths(I, got, T) if got is not None else None
            if got is not None and got == want:
                rep.ok(rule)
                continue
            if got is None or opaque_terms(want) or [a for a in opaque_terms(got) if a[0] != "tag"]:
                seen.add(("unsure", "%s: result %s against %s not comparable" % (name, txt(got) if got is not None else str(v)[:60], txt(want)), conditions(I)))
                continue
            seen.add(("bad", "%s: reports %s, wrote %s" % (name, txt(got), txt(want)), conditions(I)))
    except (TooMany, Split) as ex:
        rep.unsure(rule, "%s paths" % name, "too many paths (%s)" % type(ex).__name__)
        return paths
    for kind, a, b in sorted(seen):
        if kind == "bad":
            rep.bad(rule, "%s %s" % (wf.key, a), "%s [%s]" % (a, b))
        else:
            rep.unsure(rule, "%s %s" % (wf.key, a), b)
    return paths


def usize_writers(W, crate):
    seen = set()
    for T, rf, wf, wi, fixed, kw in jobs(W):
        o = wf.out
        if wf.key in seen or not T.startswith(crate + "::"):
            continue
        if o.h.endswith("Result") and o.a[0].h == "usize":
            seen.add(wf.key)
            yield T, wf, wi, fixed


def patch_rule(W, rep, rule, T, fn, wi, fixed, want):
    """every patched length field holds exactly the bytes of the nested values that follow it; want(I, k) gives the
    expected linear value of the k-th patch"""
    n = 0
    seen = set()
    for cfg, I in walks(W, fn, T, wi, fixed):
        rep.fns |= I.seen | {fn.key}
        if not isok(I):
            continue
        if I.st.patch is not None:
            seen.add("leaves the stream at a patched field instead of its end")
        k = 0
        for ev, at, nb, patch in I.trace:
            if patch is None:
                continue
            n += 1
            pos = lin_add(patch[1], Ln(0, {("start",): 1}), -1)
            hole = [e for e, a, b, p in I.trace if p is None and a == pos]
            val = ev.val
            got = I.aslin(val) if val is not None else None
            w = want(I, k)
            k += 1
            if not hole or not isinstance(hole[0].val, C) or hole[0].val.v != 0:
                seen.add("patch at %s does not hit a reserved field" % txt(pos))
            elif got is None:
                rep.unsure(rule, "%s patch" % fn.key, "value %s" % str(val)[:80])
            elif known_lengths(I, got, T) != known_lengths(I, w, T):
                seen.add("length field holds %s, the data takes %s" % (txt(got), txt(w)))
            else:
                rep.ok(rule)
    for s in sorted(seen):
        rep.bad(rule, "%s %s" % (fn.key, s), "%s: %s" % (shorty(T), s))
    return n


def nested(I, kind="nt"):
    return Ln(0, {(kind, ev.slot): 1 for ev, at, nb, p in I.trace if p is None and isinstance(ev.label, tuple) and ev.label[0] == "nt"})


def strings(W, rep, rule, name, prefix):
    """string writers: the size reported is the size written, and the length prefix counts exactly what follows it"""
    n = 0
    for key, f in sorted(W.P.fns.items()):
        if f.name != name or f.b is None:
            continue
        for cfg, I in walks(W, f, None, None, {}, raw_level=True):
            if not isok(I) or not I.trace:
                continue             # hands the string on
            rep.fns.add(key)
            n += 1
            got = I.aslin(okval(I)) if okval(I) is not None else None
            counted = {("len", next(iter(k[1]))[0]): v for k, v in I.assume.items() if k[0] == "iters" and len(k[1]) == 1}
            got, want = known(got, counted), known(I.st.bytes, counted)
            if got is None or opaque_terms(want) or opaque_terms(got):
                rep.unsure(rule, key, "size %s against %s" % (txt(got), txt(want)))
            elif got != want:
                rep.bad(rule, "%s reports %s, writes %s" % (key, txt(got), txt(want)), "the string takes %s bytes, %s are reported" % (txt(want), txt(got)))
            else:
                rep.ok(rule)
            if not prefix:
                continue
            ev, at, nb, p = I.trace[0]
            l = known(I.aslin(ev.val) if ev.val is not None else None, counted)
            rest = lin_add(want, nb, -1) if nb is not None else None
            if ev.label != "w4le" or l is None or rest is None or opaque_terms(rest):
                rep.unsure(rule, key + " prefix", "prefix %s" % str(ev.val)[:60])
                continue
            two = Ln(-2 * l.k, {a: -2 * c for a, c in l.t.items()})
            wide = any("utf16" in a[1] for a in rest.t if a[0] == "len") or any("utf16" in a[1] for a in counted)
            zeros = 0
            for e, a, b, q in reversed(I.trace):
                if not isinstance(e.val, C) or e.val.v != 0 or b is None or b.t:
                    break
                zeros += b.k
            if rest != (two if wide else l):
                rep.bad(rule, "%s prefix %s for %s bytes" % (key, txt(l), txt(rest)), "length prefix %s, but %s bytes of %s follow" % (txt(l), txt(rest), "UTF-16" if wide else "text"))
            elif rest != Ln(0, {}) and zeros < (2 if wide else 1):
                rep.bad(rule, "%s terminator" % key, "the string does not end in a zero terminator")
            else:
                rep.ok(rule)
    return n


def known(x, counted):
    """a linear term with the numbers of rounds the path has taken"""
    if x is None or not any(a in counted for a in x.t):
        return x
    return Ln(x.k + sum(c * counted[a] for a, c in x.t.items() if a in counted), {a: c for a, c in x.t.items() if a not in counted})


def L01(P, rep):
    W = World(P)
    k = strings(W, rep, "string", "write_fstring", True)
    rep.floor("string", k, 3, "paths of write_fstring")
    n = np = 0
    tag = None
    for T, wf, wi, fixed in usize_writers(W, "unreal_asset_properties"):
        if shorty(T) == "Property" and wf.name == "write" and wf.ins and not P.is_arc(wf.ins[0], wf) and wf.impl_trait is None:
            tag = (T, wf, wi, fixed)
            continue
        n += 1
        np += check_writer(W, rep, "length", T, wf, wi, fixed, False)
    rep.floor("length", n, 85, "property writers that report a length")
    rep.cov["writers"] = n
    rep.cov["paths"] = np
    if tag is None:
        rep.bad("tag", "anchor Property::write", "no writer of property tags found")
        return
    k = patch_rule(W, rep, "tag", *tag, lambda I, k: nested(I))
    rep.floor("tag", k, 1, "length fields patched by the tag writer")
    for T, wf, wi, fixed in usize_writers(W, "unreal_asset_properties"):
        if shorty(T) == "ArrayProperty":
            k = patch_rule(W, rep, "inner tag", T, wf, wi, fixed, lambda I, k: nested(I))
            rep.floor("inner tag", k, 1, "length fields patched by %s" % wf.key)


def L02(P, rep):
    W = World(P)
    names = {f.name for f in P.fns.values() if f.key.startswith("unreal_asset_kismet::") and f.b is not None and f.impl_trait is None and f.self_ty is None
             and f.out.h.endswith("Result") and f.out.a[0].h == "usize" and [t.peel().h for t in f.ins].count("str") == 1}
    for x in sorted(names):
        strings(W, rep, "string", x, False)
    n = np = 0
    for T, wf, wi, fixed in usize_writers(W, "unreal_asset_kismet"):
        n += 1
        np += check_writer(W, rep, "size", T, wf, wi, fixed, True)
    rep.floor("size", n, 60, "expression writers that report a size")
    rep.cov["writers"] = n
    rep.cov["paths"] = np
    for T, rf, wf, wi, fixed, kw in jobs(W):
        if shorty(T) == "StructExport":
            def want(I, k):
                ks = [ev.slot for ev, at, nb, p in I.trace if p is None and isinstance(ev.label, tuple) and ev.label[0] == "nt" and "kismet" in ev.label[1]]
                return Ln(0, {("mem" if k == 0 else "nt", s): 1 for s in ks})
            k = patch_rule(W, rep, "bytecode", T, wf, wi, fixed, want)
            rep.floor("bytecode", k, 2, "size fields patched by %s" % wf.key)
