"""D02, by interpretation: what is derived from an engine version.

The functions that derive versions are interpreted on every engine version with the constant tables they consult (no code is run): the object versions and the
custom versions must be the ones of the table of engine releases, and a custom version is looked up by its identity."""
import json

import consts
from interp import *
from wire import *
from pak import call, sessions, show, Unmodelled
from lengths import TooMany

CV = "unreal_asset_base::custom_version::CustomVersion"


def lazies(P):
    """statics that are initialised on first use: their value is the value of the initialiser"""
    out = {}
    for k, f in P.fns.items():
        i = P.fns.get(k + "::__static_ref_initialize")
        if i is not None and i.b is not None:
            out[k] = lambda I, a, fr, fn, i=i: call(I, fr, i)
    return out


def run(W, f, hooks, script, several=False):
    out = []
    for I, r in sessions(W, "r", {}, script, f, hooks=hooks, rounds=70, dead=True, innerar=True, errs=True, facts=True, vertypes={}, statics={}, limit=64):
        out.append((I, r))
        if len(out) > (8 if several else 1):
            return None
    if several:
        return None if any(i.unknown for i, _ in out) else [x for x in out if not x[0].dead()] or None
    return out[0] if out and not out[0][0].dead() else None


def holder(P, t, depth=0):
    """path of fields to the list of custom versions in a record"""
    a = P.adts.get(t)
    if a is None or a["kind"] != "struct" or depth > 3:
        return None
    for f in a["v"][0]["f"]:
        ft = f["t"]
        if ft.h.endswith("::Vec") and ft.a and ft.a[0].h == CV:
            return [(t, f["n"])]
    for f in a["v"][0]["f"]:
        r = holder(P, f["t"].h, depth + 1)
        if r is not None and f["n"] not in ("reader", "writer", "parent_reader", "parent_writer"):
            return [(t, f["n"])] + r
    return None


def build(path, v, tag="self"):
    for t, n in reversed(path):
        v = Ad(t, {0: {n: v}}, Sy((tag,)))
    return v


def check(P, rep):
    W = World(P)
    try:
        return go(P, rep, W)
    except (Unmodelled, TooMany, StopIteration) as e:
        rep.unsure("derive", "derive", "not modelled: %r" % (e,))
    except (Limit, RecursionError, KeyError, AttributeError, TypeError, IndexError, ValueError, AssertionError, Split) as ex:
        rep.unsure("derive", "derive", "analysis gave up: %r" % (ex,))


def go(P, rep, W):
    tab = json.load(open(consts.TAB))
    hooks = lazies(P)
    E = consts.ENGINE
    vs = P.adts[E]["v"]
    real = [i for i, v in enumerate(vs) if v["n"] in tab["object"]]
    rep.floor("derive", len(real), 31, "engine versions")
    tr = next(t for t in P.traits if t.split("::")[-1] == "CustomVersionTrait")
    guids = consts.trait_const(P, tr, "GUID")
    frn = consts.trait_const(P, tr, "FRIENDLY_NAME")

    def const(I, c):
        return I.deepval(I.ev(c[0]["b"]["body"], Frame(root, c[1], {}, None)))

    def disc(v):
        a = P.adts.get(v.k) if isinstance(v, Ad) else None
        return a["v"][next(iter(v.alts))]["d"] if a and len(v.alts) == 1 else None

    def pick(name, ok=lambda f: True):
        fs = [f for f in P.fns.values() if f.name == name and f.b is not None and f.key.startswith("unreal_asset") and ok(f)]
        if not fs:
            rep.unsure("derive", name, "not found")
        return fs

    root = None
    # the record of a custom version read from a file is the one of its type
    for f in pick("new", lambda f: f.self_ty is not None and f.self_ty.h == CV):
        root = f
        rep.fns.add(f.key)
        for h, c in sorted(guids.items()):
            got = run(W, f, hooks, lambda I, fr: call(I, fr, f, const(I, c), C(7)))
            n = h.split("::")[-1]
            if got is None:
                rep.unsure("derive", "CustomVersion::new %s" % n, "not a single path")
                continue
            I, r = got
            r = I.deepval(r)
            want = const(I, frn[h])
            if r.alts[0].get("guid") == const(I, c) and r.alts[0].get("version") == C(7) and r.alts[0].get("friendly_name") == Ad(OPT, {1: {"0": want}}):
                rep.ok("derive")
            else:
                rep.bad("derive", "record of %s" % n, "a custom version with the guid of %s gets name %s, version %s" % (
                    n, show(r.alts[0].get("friendly_name"))[:60], show(r.alts[0].get("version"))[:30]))
    if root is None:
        return
    # object versions of an engine version
    for f in pick("get_object_versions"):
        rep.fns.add(f.key)
        for i in real:
            got = run(W, f, hooks, lambda I, fr: call(I, fr, f, Ad(E, {i: {}})))
            if got is None:
                rep.unsure("derive", "get_object_versions", "not a single path")
                break
            r = got[0].deepval(got[1])
            n = vs[i]["n"]
            d = tuple(disc(r.alts[0].get(x)) for x in ("0", "1"))
            want = (tab["object"][n], tab["object5"].get(n, 0))
            if d[0] == want[0] and (d[1] == want[1] or n not in tab["object5"] and not d[1]):
                rep.ok("derive")
            else:
                rep.bad("derive", "object versions of %s" % n, "are %s, the release has %s" % (d, want))
    def after(I, n, i):
        me = I.deepval(Rf(I.mine))
        x = me
        found = {}

        def scan(v):
            if isinstance(v, Ad):
                for fs in v.alts.values():
                    for fn_, y in fs.items():
                        if isinstance(y, Ad) and y.k in (E, consts.OBJ, consts.OBJ5):
                            found[y.k] = disc(y)
                        elif isinstance(y, Li) and y.items is not None and all(isinstance(z, Ad) and z.k == CV for z in y.items):
                            found[CV] = y.items
                        else:
                            scan(y)
        scan(me)
        want = {E: vs[i]["d"], consts.OBJ: tab["object"][n], consts.OBJ5: tab["object5"].get(n, 0)}
        for k, w in want.items():
            g = found.get(k)
            if g == w:
                rep.ok("derive")
            else:
                rep.bad("derive", "%s set for %s" % (k.split("::")[-1], n), "after the engine version is set to %s the %s is %s, it should be %s" % (n, k.split("::")[-1], g, w))
        have = {}
        for z in found.get(CV, ()):
            for h, c in guids.items():
                if z.alts[0].get("guid") == const(I, c):
                    v = z.alts[0].get("version")
                    have[h.split("::")[-1]] = v.v if isinstance(v, C) else None
        for h in guids:
            t = h.split("::")[-1]
            w = tab["custom"].get(t, {}).get(n)
            if have.get(t, None if w is None else "missing") == w:
                rep.ok("derive")
            elif have.get(t) is None and t in have:
                rep.unsure("derive", "%s@%s" % (t, n), "version not constant")
            else:
                rep.bad("derive", "%s set for %s" % (t, n), "after the engine version is set to %s the version of %s is %s, the release has %s" % (n, t, have.get(t), w))

    # setting an engine version sets all of them
    setters = pick("set_engine_version", lambda f: f.self_ty is not None and holder(P, f.self_ty.h) is not None and any(t.h == E for t in f.ins))
    for f in setters:
        rep.fns.add(f.key)
        path = holder(P, f.self_ty.h)
        for i in real:
            def script(I, fr):
                I.mine = I.cell(build(path, Li(None, (), [])))
                return call(I, fr, f, Rf(I.mine), Ad(E, {i: {}}))

            got = run(W, f, hooks, script, True)
            n = vs[i]["n"]
            if got is None:
                rep.unsure("derive", "%s %s" % (f.self_ty.h.split("::")[-1], f.name), "not followed")
                break
            for I, _ in got:
                after(I, n, i)
    # a custom version is found by its identity
    finders = pick("get_custom_version", lambda f: f.self_ty is not None and holder(P, f.self_ty.h) is not None and len(f.gens) >= 1)
    m = 0
    for f in finders:
        path = holder(P, f.self_ty.h)
        rep.fns.add(f.key)
        who = f.self_ty.h.split("::")[-1]
        for h in sorted(guids):
            t = next((i["self"] for i in P.impls if i["trait"] == tr and i["self"].h == h), None)
            for case in ("listed", "absent", "alike"):
                def script(I, fr):
                    g, n = const(I, guids[h]), const(I, frn[h])
                    other = next(x for x in sorted(guids) if x != h)

                    def rec(g, n, v):
                        return Ad(CV, {0: {"guid": g, "friendly_name": Ad(OPT, {1: {"0": n}}) if n is not None else Ad(OPT, {0: {}}), "version": v, "version_mappings": Li(None, (), [])}})
                    g0 = Ad(g.k, {0: {"0": Li(None, (), [C(i) for i in range(16)])}})
                    g1 = Ad(g.k, {0: {"0": Li(None, (), list(g.alts[0]["0"].items[:8]) + [C(255 - x.v) for x in g.alts[0]["0"].items[8:]])}})
                    items = [rec(g0, None, Sy(("v", "unnamed"))), rec(const(I, guids[other]), const(I, frn[other]), Sy(("v", "other")))]
                    if case == "alike":
                        items += [rec(g1, C(n.v + "2"), Sy(("v", "longer"))), rec(g1, C(n.v[:-1]), Sy(("v", "shorter"))), rec(g1, C(n.v.lower()), Sy(("v", "lower case")))]
                    if case != "absent":
                        items += [rec(g, n, Sy(("v", "own")))]
                    sub = [t] * len(f.gens)
                    return I.inline(f, [Rf(I.cell(build(path, Li(None, (), items))))], sub, fr, None, None)
                got = run(W, f, hooks, script)
                key = "%s::get_custom_version %s %s" % (who, h.split("::")[-1], case)
                if got is None:
                    rep.unsure("derive", key, "not a single path")
                    continue
                I, r = got
                r = I.deepval(r)
                v = r.alts[0].get("version") if isinstance(r, Ad) and 0 in r.alts else None
                want = C(0) if case == "absent" else Sy(("v", "own"))
                m += 1
                if v == want:
                    rep.ok("derive")
                elif isinstance(v, (Sy, C)):
                    rep.bad("derive", key, "the version found is %s" % show(v))
                else:
                    rep.unsure("derive", key, "result not understood: %s" % show(r)[:80])
    rep.floor("derive", len(setters), 1, "functions that set an engine version")
    rep.floor("derive", m, 7 * 2 * 3, "lookups of custom versions")
