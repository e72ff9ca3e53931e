"""D02: version tables and number codes.  D03: the constants of the file formats.

Both work on values the compiler evaluated (discriminants, constants) and on constant tables in the type-checked bodies."""
import json, os, re
from interp import *
import wire
import dispatch as D

TAB = os.path.join(os.path.dirname(os.path.abspath(__file__)), "consts.json")
ENGINE = "unreal_asset_base::engine_version::EngineVersion"
OBJ = "unreal_asset_base::object_version::ObjectVersion"
OBJ5 = "unreal_asset_base::object_version::ObjectVersionUE5"
PAKV = "unreal_pak::pakversion::PakVersion"


def cv(P, ctx, x, depth=0):
    """the value of a constant expression, None when it is not one this evaluator knows"""
    if not isinstance(x, list) or depth > 40:
        return None
    k = x[0]
    if k in ("ref", "deref", "cast", "use", "scope", "coerce", "neverany", "unsize"):
        for y in x[3:]:
            if isinstance(y, list):
                return cv(P, ctx, y, depth + 1)
        return None
    if k in ("array", "tuple"):
        return tuple(cv(P, ctx, y, depth + 1) for y in x[3])
    if k == "adt":
        a = P.adts.get(x[3])
        if a is None:
            return None
        if a["kind"] == "enum" and not x[5]:
            return a["v"][x[4]]["d"]
        return (x[3].split("::")[-1],) + tuple(cv(P, ctx, v, depth + 1) for n, v in x[5])
    if k == "const":
        if x[4] is not None:
            return x[4]
        try:
            key = ctx.defs[x[3]]["k"]
        except (IndexError, KeyError, TypeError):
            return None
        if len(x) > 5 and x[5] and ctx.defs[x[3]].get("tr"):
            got = trait_const(P, ctx.defs[x[3]]["tr"], ctx.defs[x[3]]["n"]).get(ctx.tys[x[5][0]].h)
            if got is not None and got[0].get("b"):
                return cv(P, got[1], got[0]["b"]["body"], depth + 1)
        if key in P.consts and P.consts[key][0].get("b"):
            return cv(P, P.consts[key][1], P.consts[key][0]["b"]["body"], depth + 1)
        return None
    if k == "lit":
        return x[3]
    if k == "un":
        v = cv(P, ctx, x[4], depth + 1)
        return -v if x[3] == "Neg" and isinstance(v, int) else None
    if k == "bin":
        a, b = cv(P, ctx, x[4], depth + 1), cv(P, ctx, x[5], depth + 1)
        if isinstance(a, int) and isinstance(b, int):
            f = {"Add": a + b, "Sub": a - b, "Mul": a * b, "BitOr": a | b, "Shl": a << b if 0 <= b < 64 else None}
            return f.get(x[3])
        return None
    if k == "block":
        return cv(P, ctx, x[3][1], depth + 1) if x[3] and x[3][1] else None
    if k == "call":
        return tuple(cv(P, ctx, y, depth + 1) for y in x[4])
    return None


def bodies(P, crate):
    for k, f in P.fns.items():
        if k.startswith(crate + "::") and f.b:
            yield k, f.ctx, f.b["body"]
    for k, (c, ctx) in P.consts.items():
        if k.startswith(crate + "::") and c.get("b"):
            yield k, ctx, c["b"]["body"]


def tables(P, crate, pick):
    """constant arrays of tuples whose first elements satisfy pick(types)"""
    out = []

    def go(key, ctx, x):
        if isinstance(x, list):
            if x and x[0] == "array" and len(x) > 3 and isinstance(x[3], list) and x[3] and isinstance(x[3][0], list) and x[3][0][0] == "tuple":
                t = ctx.tys[x[3][0][1]]
                if pick([a.h for a in t.a]):
                    out.append((key, ctx, x))
            for y in x:
                go(key, ctx, y)
        elif isinstance(x, dict):
            for y in x.values():
                go(key, ctx, y)
    for key, ctx, b in bodies(P, crate):
        go(key, ctx, b)
    return out


def guid(v):
    """the four words of a guid however it was built"""
    while isinstance(v, tuple) and len(v) == 1:
        v = v[0]
    if isinstance(v, tuple) and v and isinstance(v[0], str):
        v = v[1:]
    if isinstance(v, tuple) and len(v) == 1:
        return guid(v[0])
    if isinstance(v, tuple) and len(v) == 4 and all(isinstance(x, int) for x in v):
        return tuple(x & 0xffffffff for x in v)
    return None


def trait_const(P, trait, name):
    """impl self type -> (const record, ctx) for an associated constant"""
    out = {}
    for i in (P.impls.values() if isinstance(P.impls, dict) else P.impls):
        if i["trait"] == trait:
            for n, k in i["items"]:
                if n == name and k in P.consts:
                    out[i["self"].h] = P.consts[k]
    return out


def custom_maps(P, rep):
    tr = [t for t in P.traits if t.split("::")[-1] == "CustomVersionTrait"]
    if len(tr) != 1:
        rep.bad("version.anchor", "CustomVersionTrait", "not found")
        return {}
    maps = {}
    for h, (c, ctx) in trait_const(P, tr[0], "VERSION_MAPPINGS").items():
        v = cv(P, ctx, c["b"]["body"]) if c.get("b") else None
        while isinstance(v, tuple) and len(v) == 1 and isinstance(v[0], tuple) and v[0] and isinstance(v[0][0], tuple):
            v = v[0]
        if not isinstance(v, tuple) or not all(isinstance(e, tuple) and len(e) == 2 and all(isinstance(z, int) for z in e) for e in v):
            rep.unsure("version.map", h, "mapping is not a constant table")
            continue
        maps[h.split("::")[-1]] = (h, v)
    return maps


def lookup(m, e):
    """what get_version_number_from_engine_version answers: the first entry not newer than e"""
    for ev, n in m:
        if ev <= e:
            return n
    return None


def d02(P, rep):
    tab = json.load(open(TAB))
    en = {v["d"]: v["n"] for v in P.adts[ENGINE]["v"]} if ENGINE in P.adts else {}
    real = sorted(d for d, n in en.items() if re.fullmatch(r"VER_UE\d_\d+", n))
    rep.floor("version.floor", len(real), 31, "engine versions")
    maps = custom_maps(P, rep)
    n = 0
    for name, (h, m) in sorted(maps.items()):
        last = None
        for e in real:
            got = lookup(m, e)
            best = max((x for x in m if x[0] <= e), key=lambda x: x[0], default=(None, None))[1]
            n += 1
            key = "%s@%s" % (name, en[e])
            want = tab["custom"].get(name, {}).get(en[e])
            if got != best:
                rep.bad("version.order", key, "the lookup finds %s but the newest entry not newer than %s is %s: the table is out of order" % (got, en[e], best))
            elif last is not None and got is not None and got < last:
                rep.bad("version.monotone", key, "version %s at %s is lower than %s at the engine version before" % (got, en[e], last))
            elif want is not None and got != want:
                rep.bad("version.value", key, "engine version %s has version %s, known to be %s" % (en[e], got, want))
            else:
                rep.ok("version.map")
            last = got if got is not None else last
    rep.floor("version.floor", n, 31 * 7, "entries of custom version tables")
    lookup_fn(P, rep)
    # engine version <-> object version
    for adt, label, least in ((OBJ, "object", 31), (OBJ5, "object5", 3)):
        ts = tables(P, "unreal_asset_base", lambda hs: len(hs) == 2 and hs == [adt, ENGINE])
        if not ts:
            rep.unsure("version.object", label, "no constant table of %s found" % adt)
            continue
        on = {v["d"]: v["n"] for v in P.adts[adt]["v"]}
        for key, ctx, x in ts:
            v = cv(P, ctx, x)
            if not v or any(not isinstance(z, tuple) or None in z for z in v):
                rep.unsure("version.object", label, "the table is not constant")
                continue
            rep.floor("version.floor", len(v), least, "entries of the %s version table" % label)
            seen = {}
            last = None
            for o, e in sorted(v, key=lambda z: z[1]):
                k2 = "%s@%s" % (label, en.get(e, e))
                want = tab[label].get(en.get(e))
                if e in seen and seen[e] != o:
                    rep.bad("version.object", k2, "two object versions for one engine version")
                elif last is not None and o < last:
                    rep.bad("version.object", k2, "object version %s is lower than that of the engine version before" % on.get(o, o))
                elif want is not None and o != want:
                    rep.bad("version.object", k2, "object version %s (%s), known to be %s" % (on.get(o), o, want))
                else:
                    rep.ok("version.object")
                seen[e] = o
                last = o
            for e, want in tab[label].items():
                if not any(en.get(z[1]) == e for z in v):
                    rep.bad("version.object", "%s@%s" % (label, e), "engine version without object version")
    # every custom version that is tested for can be derived from an engine version
    ts = tables(P, "unreal_asset_base", lambda hs: len(hs) == 2 and hs[0].endswith("::Guid"))
    guids = {}
    tr = [t for t in P.traits if t.split("::")[-1] == "CustomVersionTrait"]
    for h, (c, ctx) in trait_const(P, tr[0], "GUID").items() if tr else ():
        guids[h.split("::")[-1]] = guid(cv(P, ctx, c["b"]["body"])) if c.get("b") else None
    if len(ts) == 1:
        key, ctx, x = ts[0]
        rows = []
        for row in x[3]:
            g = guid(cv(P, ctx, row[3][0]))
            rows.append((g, mapped(P, ctx, row[3][1])))
        if any(g is None for g, _ in rows):
            rep.unsure("version.known", "table", "a guid is not constant")
        else:
            by = {}
            for g, m in rows:
                if g in by:
                    rep.bad("version.known", "guid %08X-%08X-%08X-%08X" % g, "two entries with this guid: one of them is lost")
                by[g] = m
            for name, g in sorted(guids.items()):
                if name not in maps:
                    continue
                if g is None:
                    rep.unsure("version.known", name, "guid is not constant")
                elif g not in by:
                    rep.bad("version.known", name, "is tested for but its guid is not in the table of known custom versions")
                elif by[g] is None:
                    rep.unsure("version.known", name, "entry is not recognised")
                elif by[g] is False:
                    rep.bad("version.known", name, "has version mappings, but the table of known custom versions has none for its guid: setting an engine version leaves it unset")
                elif name not in by[g]:
                    rep.bad("version.known", name, "its guid is registered with the mappings of %s" % sorted(by[g]))
                else:
                    rep.ok("version.known")
    else:
        rep.unsure("version.known", "table", "%d tables of known custom versions found" % len(ts))
    pak(P, rep)


def mapped(P, ctx, x):
    """which type's VERSION_MAPPINGS a row refers to; False when it has none, None when unclear"""
    out = set()
    none = [False]

    def go(y):
        if isinstance(y, list):
            if y and y[0] == "const" and len(y) > 3 and isinstance(y[3], int):
                d = ctx.defs[y[3]]
                if d["n"] == "VERSION_MAPPINGS":
                    for t in (y[5] if len(y) > 5 and y[5] else []):
                        out.add(ctx.tys[t].h.split("::")[-1])
                    if not out:
                        for i in (P.impls.values() if isinstance(P.impls, dict) else P.impls):
                            if any(k == d["k"] for _, k in i["items"]):
                                out.add(i["self"].h.split("::")[-1])
            if y and y[0] == "adt" and y[3] == OPT and y[4] == 0:
                none[0] = True
            for z in y:
                go(z)
        elif isinstance(y, dict):
            for z in y.values():
                go(z)
    go(x)
    if out:
        return out
    return False if none[0] else None


def lookup_fn(P, rep):
    """the lookup takes the first entry whose engine version is not newer: the comparison the tables are ordered for"""
    f = [f for f in P.fns.values() if f.name == "get_version_number_from_engine_version" and f.b]
    if len(f) != 1:
        rep.unsure("version.lookup", "get_version_number_from_engine_version", "not found")
        return
    f = f[0]
    rep.fns.add(f.key)
    cmps, finds = [], []

    def go(y):
        if isinstance(y, list):
            if y and y[0] == "call" and isinstance(y[3], list) and isinstance(y[3][0], int):
                n = f.ctx.defs[y[3][0]]["n"]
                if n in ("le", "lt", "ge", "gt", "eq", "ne"):
                    cmps.append((n, y))
                if n in ("find", "rfind", "find_map", "filter", "last", "max_by_key", "rev", "position", "max", "min"):
                    finds.append(n)
            for z in y:
                go(z)
        elif isinstance(y, dict):
            for z in y.values():
                go(z)
    go(f.b)
    if finds != ["find"] or len(cmps) != 1:
        rep.unsure("version.lookup", f.name, "not a search with one comparison")
        return
    op = cmps[0][0]
    if op not in ("le", "ge"):
        rep.bad("version.lookup", f.name, "the entry of exactly the engine version asked for is not found by '%s'" % op)
    else:
        rep.ok("version.lookup")


def pak(P, rep):
    W = wire.World(P)
    fr = D.find(P, "from_num", PAKV)
    to = D.find(P, "to_num", PAKV)
    sub = D.find(P, "set_subversion", PAKV)
    if len(fr) != 1 or len(to) != 1:
        rep.bad("version.anchor", "PakVersion", "from_num / to_num not found")
        return
    rep.fns.update((fr[0].key, to[0].key))
    vs = P.adts[PAKV]["v"]
    back = {}
    nums = {}
    n = 0
    for vi, v in enumerate(vs):
        I, x = D.ev(W, to[0], [Ad(PAKV, {vi: {}})])
        if x is None:
            rep.ok("version.pak")          # refused
            continue
        if not isinstance(x, C):
            rep.unsure("version.pak", v["n"], "number is not constant")
            continue
        I, y = D.ev(W, fr[0], [C(x.v)])
        if not (isinstance(y, Ad) and len(y.alts) == 1):
            rep.unsure("version.pak", v["n"], "version of number %s is not constant" % x.v)
            continue
        n += 1
        nums.setdefault(x.v, []).append(v["n"])
        got = vs[next(iter(y.alts))]["n"]
        if got == v["n"]:
            rep.ok("version.pak")
        elif v["n"] == "FnameBasedCompressionMethodInitial" and got == "FnameBasedCompressionMethod":
            rep.ok("version.pak")          # told apart by the length of the footer
        else:
            rep.bad("version.pak", v["n"], "is written as %s, which is read as %s" % (x.v, got))
    for k, names in sorted(nums.items()):
        if len(names) > 1 and set(names) != {"FnameBasedCompressionMethodInitial", "FnameBasedCompressionMethod"}:
            rep.bad("version.pak", "number %s" % k, "stands for several versions: %s" % names)
    for x in (0, 12, 13, 255, 4294967295):
        I, y = D.ev(W, fr[0], [C(x)])
        if isinstance(y, Ad) and len(y.alts) == 1:
            got = vs[next(iter(y.alts))]["n"]
            if got != "Invalid" and x not in nums:
                rep.bad("version.pak", "number %s" % x, "is accepted as %s, which is never written so" % got)
            else:
                rep.ok("version.pak")
    rep.floor("version.floor", n, 12, "pak versions")


# ---------------------------------------------------------------------------------------------------------------- D03

def enums(P):
    out = {}
    tri = {h for (t, h) in P.impl_by if t.split("::")[-1] in ("TryFromPrimitive", "FromPrimitive", "CustomVersionTrait")}
    for k, a in P.adts.items():
        if a["kind"] == "enum" and a["v"] and all(not v["f"] for v in a["v"]) and not k.split("::")[-1].startswith("__"):
            if k in tri or k == PAKV:
                out[k] = {v["n"]: v["d"] for v in a["v"]}
    return out


def flags(P):
    """bitflags type -> name -> bits"""
    out = {}
    own = {}
    for i in (P.impls.values() if isinstance(P.impls, dict) else P.impls):
        for n, k in i["items"]:
            own[k] = i["self"]
    for k, (c, ctx) in P.consts.items():
        if k in own and c.get("b") and "__bitflags" not in k and "num_enum" not in k:
            t = own[k]
            if t is None or not t.h.startswith("unreal_") or c["file"] is None:
                continue
            tt = ctx.tys[c["t"]]
            v = c["v"]
            if tt.h == t.h and v is None:
                v = cv(P, ctx, c["b"]["body"])
                while isinstance(v, tuple) and v:
                    v = v[-1]
            if isinstance(v, int) and tt.h == t.h:
                out.setdefault(t.h, {})[k.split("::")[-1]] = v
    return out


def magics(P):
    out = {}
    for k, (c, ctx) in P.consts.items():
        if not k.startswith("unreal_") or "::{impl" in k or "__" in k or not c.get("b") or k.endswith("::_"):
            continue
        v = c["v"] if c["v"] is not None else cv(P, ctx, c["b"]["body"])
        if flat(v):
            out[k] = v
    return out


def flat(v):
    if isinstance(v, (int, str)):
        return True
    return isinstance(v, tuple) and len(v) > 0 and all(flat(x) for x in v)


def crc_table(P, rep):
    """the table of the string hash is the CRC-32 table of its polynomial"""
    out = []

    def go(x, ctx):
        if isinstance(x, list):
            if x and x[0] == "array" and len(x) > 3 and isinstance(x[3], list) and len(x[3]) == 256:
                v = cv(P, ctx, x)
                if v and all(isinstance(y, int) for y in v):
                    out.append(v)
            for y in x:
                go(y, ctx)
        elif isinstance(x, dict):
            for y in x.values():
                go(y, ctx)
    for key, ctx, b in bodies(P, "unreal_asset_base"):
        if "::crc" in key:
            go(b, ctx)
    return out


def snapshot(P):
    g = {}
    tr = [t for t in P.traits if t.split("::")[-1] == "CustomVersionTrait"]
    for h, (c, ctx) in trait_const(P, tr[0], "GUID").items() if tr else ():
        g[h.split("::")[-1]] = guid(cv(P, ctx, c["b"]["body"])) if c.get("b") else None
    return dict(enums={k.split("::")[-1]: v for k, v in enums(P).items()}, flags={k.split("::")[-1]: v for k, v in flags(P).items()},
                magic={"::".join(k.split("::")[-1:]): v for k, v in magics(P).items()}, guids=g)


def plain(v):
    return [plain(x) for x in v] if isinstance(v, (tuple, list)) else v


def d03(P, rep):
    tab = json.load(open(TAB))
    now = snapshot(P)
    n = 0
    for part in ("enums", "flags"):
        for adt, vals in sorted(tab[part].items()):
            cur = now[part].get(adt)
            if cur is None:
                rep.unsure("constant." + part, adt, "type not found")
                continue
            for name, want in sorted(vals.items()):
                n += 1
                if name not in cur:
                    # renamed: the value must still be there under some name
                    if want in cur.values():
                        rep.ok("constant." + part)
                    else:
                        rep.bad("constant." + part, "%s::%s" % (adt, name), "the value %s the format uses is gone" % want)
                elif cur[name] != want:
                    rep.bad("constant." + part, "%s::%s" % (adt, name), "is %s, but stands for %s in the file format" % (cur[name], want))
                else:
                    rep.ok("constant." + part)
    for name, want in sorted(tab["guids"].items()):
        n += 1
        cur = now["guids"].get(name)
        if cur is None:
            rep.unsure("constant.guid", name, "not found")
        elif list(cur) != want:
            rep.bad("constant.guid", name, "guid is %s" % "-".join("%08X" % x for x in cur))
        else:
            rep.ok("constant.guid")
    for name, want in sorted(tab["magic"].items()):
        n += 1
        cur = now["magic"].get(name)
        if cur is None:
            rep.unsure("constant.magic", name, "not found")
        elif plain(cur) != want:
            rep.bad("constant.magic", name, "is %s, known to be %s" % (str(plain(cur))[:80], str(want)[:80]))
        else:
            rep.ok("constant.magic")
    rep.floor("constant.floor", n, 1200, "constants")
    tables_of_hash(P, rep)


def tables_of_hash(P, rep):
    """the lookup tables of the name hashes follow from the CRC-32 polynomial"""
    def ref(i):
        for _ in range(8):
            i = (i >> 1) ^ (0xEDB88320 if i & 1 else 0)
        return i

    def msb(i):
        c = i << 24
        for _ in range(8):
            c = ((c << 1) ^ (0x04C11DB7 if c & 0x80000000 else 0)) & 0xffffffff
        return c
    sb = [[ref(i) for i in range(256)]]
    for _ in range(7):
        sb.append([(x >> 8) ^ sb[0][x & 255] for x in sb[-1]])
    want = sb + [[msb(i) for i in range(256)]]
    ts = [list(t) for t in crc_table(P, rep)]
    if not ts:
        rep.unsure("constant.crc", "tables", "no constant tables of 256 words in the hash module")
        return
    for t in ts:
        if t in want:
            rep.ok("constant.crc")
        else:
            w = max(want, key=lambda x: sum(a == b for a, b in zip(x, t)))
            i = next(i for i in range(256) if w[i] != t[i])
            rep.bad("constant.crc", "entry %d" % i, "the table entry is %08x, the polynomial gives %08x" % (t[i], w[i]))
