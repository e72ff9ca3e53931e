"""Discovers the serialisation entry points: for every type, functions that build it
from a stream and functions that put it on a stream."""
from prog import calls, walk

READ_PRIM = {"ReadBytesExt", "Read", "ArchiveReader"}
WRITE_PRIM = {"WriteBytesExt", "Write", "ArchiveWriter"}


def io_sets(P):
    """functions that (transitively) read / write a stream"""
    direct_r, direct_w, callers = set(), set(), {}
    for f in P.fns.values():
        for d, r, e in calls(f):
            tr = (d["tr"] or "").rsplit("::", 1)[-1]
            if tr in READ_PRIM and d["n"] not in ("by_ref",):
                direct_r.add(f.key)
            if tr in WRITE_PRIM and d["n"] not in ("flush", "by_ref", "write_fmt", "write_str"):
                direct_w.add(f.key)
            for x in (d, r):
                if x:
                    callers.setdefault(x["k"], set()).add(f.key)
            # trait dispatch: every impl of the method may be meant
            if d["tr"] and d["k"] in P.fns or (d["tr"] and not r):
                callers.setdefault(("tm", d["tr"], d["n"]), set()).add(f.key)

    def close(s):
        work = list(s)
        while work:
            k = work.pop()
            f = P.fns.get(k)
            cs = set(callers.get(k, ()))
            if f is not None and f.impl_trait:
                cs |= callers.get(("tm", f.impl_trait, f.name), set())
            for c in cs:
                if c not in s:
                    s.add(c)
                    work.append(c)
        return s

    return close(direct_r), close(direct_w), callers


def inner_types(t, depth=0):
    """ADT heads a value of this return type carries (through Result/Option/Box/tuple/Vec)"""
    if depth > 4:
        return
    if t.h in ("core::result::Result",):
        yield from inner_types(t.a[0], depth + 1)
    elif t.h in ("core::option::Option", "alloc::boxed::Box"):
        yield from inner_types(t.a[0], depth + 1)
    elif t.h == "()":
        for x in t.a:
            yield from inner_types(x, depth + 1)
    else:
        yield t.h


def discover(P):
    rs, ws, callers = io_sets(P)
    readers, writers = {}, {}
    for f in P.fns.values():
        if f.b is None or "{closure" in f.key:
            continue
        own = f.self_ty.peel().h if f.self_ty is not None else None
        if own is None or own not in P.adts or own in P.arc_adts:
            continue
        has_arc = any(P.is_arc(t, f) for t in f.ins)
        if not has_arc:
            continue
        if f.key in rs and f.key not in ws:
            if own in set(inner_types(f.out)):
                readers.setdefault(own, []).append(f)
        if f.key in ws and f.key not in rs:
            idx = [i for i, t in enumerate(f.ins) if t.peel().h == own]
            if idx:
                writers.setdefault(own, []).append((f, idx[0]))
    return readers, writers, rs, ws, callers


if __name__ == "__main__":
    from prog import Program
    P = Program("/verif/.build/dump")
    r, w, rs, ws, callers = discover(P)
    for t in sorted(set(r) | set(w)):
        print(t, "R:", [f.name for f in r.get(t, [])], "W:", [f.name for f, _ in w.get(t, [])])
    print(len(rs), len(ws), len(rs & ws))
    used = set(f.key for l in r.values() for f in l) | set(f.key for l in w.values() for f, _ in l)
    print("--- other io fns")
    for k in sorted(rs | ws):
        if k not in used and P.fns[k].b: print(k, "R" if k in rs else "", "W" if k in ws else "")
