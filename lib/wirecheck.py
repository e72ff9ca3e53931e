"""Runs the wire comparison for one group of types and reports."""
import json, os
from wire import World, analyse
from interp import Limit
import spec

BASE = os.path.join(os.path.dirname(os.path.abspath(__file__)), "baseline.json")
# formatting of messages and name-table bookkeeping never decide what is put on the stream
HARMLESS = ("core::fmt", "alloc::fmt", "std::io::stdio", "core::panicking", "unreal_asset_base::containers::name_map")


def baseline():
    try:
        return json.load(open(BASE))
    except FileNotFoundError:
        return {}


def run(P, rep, groups, W=None, jobs=None, rule="wire"):
    W = W or World(P)
    base = baseline()
    floors = base.get("floor", {})
    types, evs, cfgs, states, edges = set(), 0, 0, 0, 0
    js = jobs if jobs is not None else [j for j in spec.jobs(W) if spec.group(j[0]) in groups]
    for T, rf, wf, wi, fixed, kw in js:
        tail = T.rsplit("::", 1)[-1]
        key = "%s %s/%s" % (tail, rf.name, wf.name)
        types.add(T)
        try:
            d, st = analyse(W, T, rf, wf, wi, fixed, **kw)
        except (Limit, RecursionError, KeyError, AttributeError, TypeError, IndexError, ValueError, AssertionError) as ex:
            rep.unsure(rule, key, "analysis gave up: %r" % (ex,))
            continue
        rep.fns |= st["fns"]
        evs += st["events_r"] + st["events_w"]
        cfgs += st["configs"]
        states += st["states"]
        edges += st["edges"]
        newunk = sorted(k for k in st["unknown"] if k not in base.get("unknown", {}).get(tail, ()) and not k.startswith(HARMLESS))
        if not d:
            rep.ok(rule)
            if len(rep.samples) < 6:
                rep.samples.append("%s: %d configurations, %d product edges agree" % (key, st["configs"], st["edges"]))
            continue
        if newunk or any(x["kind"] == "limit" for x in d):
            rep.unsure(rule, key, "unmodelled: %s; differs: %s" % (newunk, d[0]["detail"]))
            continue
        seen = set()
        for x in d:
            k = "%s %s %s" % (tail, x["kind"], x["detail"])
            if k in seen:
                continue
            seen.add(k)
            cfg = {a: b for a, b in x["cfg"].items()}
            rep.bad(rule, k, "%s (%s) vs %s (%s)\n    after %s\n    at %s\n    configuration %s" % (
                rf.key, rf.file, wf.key, wf.file, x["trace"][-8:], x.get("site"), cfg))
    rep.cov.update(types=len(types), pairs=len(js), configurations=cfgs, stream_events=evs, product_states=states, product_edges=edges)
    for g in groups:
        n = len({T for T in types if spec.group(T) == g})
        rep.floor(rule + "-floor", n, floors.get(g, 0), "types with both a reader and a writer in group %s" % g)
    if jobs is None and set(groups) != {"pak"}:
        import rt, lint
        rt.check(P, rep, W, js)
        lint.check(P, rep, [p for p, g in spec.GROUPS if g in groups])
        if "base" in groups:
            import unv
            unv.check(P, rep, W)
        if "base" in groups or "kismet" in groups:
            import strings
            strings.check(P, rep, W)
        if "registry" in groups:
            import registry
            registry.check(P, rep, W)
    if len(rep.inconclusive) > max(2, len(js) // 3):
        rep.bad(rule, "inconclusive", "%d of %d pairs could not be analysed: %s" % (len(rep.inconclusive), len(js), rep.inconclusive[:3]))
    return W


if __name__ == "__main__":
    import sys, core
    from prog import Program

    def main():
        P = Program("/verif/.build/dump")
        W = World(P)
        unk, fl = {}, {}
        for T, rf, wf, wi, fixed, kw in spec.jobs(W):
            d, st = analyse(W, T, rf, wf, wi, fixed, **kw)
            tail = T.rsplit("::", 1)[-1]
            s = set(unk.get(tail, ())) | set(st["unknown"])
            if s:
                unk[tail] = sorted(s)
            fl.setdefault(spec.group(T), set()).add(T)
        json.dump({"unknown": unk, "floor": {k: len(v) for k, v in fl.items()}}, open(BASE, "w"), indent=1, sort_keys=True)
        print({k: len(v) for k, v in fl.items()})
    core.big_stack(main)
