"""N01: every name held by an object is reached by its FNameContainer implementation.

For each implementation of FNameContainer::traverse_fnames the body is abstractly interpreted with `self` symbolic; a call of
traverse_fnames on (or of the callback with) a place is an event.  For every field whose type can contain an FName (transitive
closure over the type definitions) each path through the body must visit the field, or be guarded by a test of that field."""
from wire import World
from prog import calls as prog_calls
from interp import Limit, UNIT, Event, Sy, Rf

FNAME = "FName"
TRAIT = "FNameContainer"
METHOD = "traverse_fnames"


def last(k):
    return (k or "").rsplit("::", 1)[-1]


class Holds:
    """least fixpoint: which types can own an FName; per type also which parameters it stores"""

    def __init__(self, P):
        self.P = P
        self.adt = {k: False for k in P.adts}
        self.par = {k: set() for k in P.adts}
        ch = True
        while ch:
            ch = False
            for k, a in P.adts.items():
                for v in a["v"]:
                    for f in v["f"]:
                        h, ps = self.of(f["t"])
                        if h and not self.adt[k]:
                            self.adt[k] = ch = True
                        for p in ps:
                            if p in a["gens"] and a["gens"].index(p) not in self.par[k]:
                                self.par[k].add(a["gens"].index(p))
                                ch = True

    def of(self, t):
        """(owns an FName, type parameters whose values it owns)"""
        if t.h.startswith("param:"):
            return False, {t.h[6:]}
        if t.h in ("&", "&mut", "*", "fn", "str") or last(t.h) == "PhantomData" or t.h.startswith("closure"):
            return False, set()
        if last(t.h) == FNAME and t.h in self.P.adts:
            return True, set()
        if t.h in self.P.adts:
            r, ps = self.adt[t.h], set()
            for i in self.par[t.h]:
                if i < len(t.a):
                    h, q = self.of(t.a[i])
                    r |= h
                    ps |= q
            return r, ps
        r, ps = False, set()
        for x in t.a:
            h, q = self.of(x)
            r |= h
            ps |= q
        return r, ps


def hook(I, d, r, fn, targs, args, fr, line, e):
    n = d["n"]
    if n == METHOD and last(d.get("tr")) == TRAIT:
        for a in (args[0],):
            I.emit(("visit", frozenset(p for p, o in I.atoms(I.deepval(a)))), None, line, fr)
        return UNIT
    if n in ("call_mut", "call", "call_once") and args:
        fa = [p for p, o in I.atoms(I.deepval(args[0]))]
        if any(p and p[0].startswith("arg:") for p in fa):
            I.emit(("visit", frozenset(p for a in args[1:] for p, o in I.atoms(I.deepval(a)))), None, line, fr)
            return UNIT
    return NotImplemented


def norm(p):
    return tuple(p)


def under(p, q):
    """path p lies at or below q, or q at or below p"""
    k = min(len(p), len(q))
    return p[:k] == q[:k]


def keypaths(key):
    """object paths a guard talks about"""
    out = set()

    def go(x):
        if isinstance(x, tuple):
            if x and isinstance(x[0], str) and x[0] == "self":
                out.add(tuple(y for y in x))
            for y in x:
                go(y)
        elif isinstance(x, frozenset):
            for y in x:
                go(y)
    go(key)
    return out


def run(P, rep):
    W = World(P)
    H = Holds(P)
    nimpl = nfields = nvis = 0
    for im in P.impls:
        if last(im["trait"]) != TRAIT:
            continue
        key = next((k for n, k in im["items"] if n == METHOD), None)
        fn = P.fns.get(key)
        if fn is None or fn.b is None:
            continue
        st = im["self"]
        tail = st.s
        bound = {t.h[6:] for t, tr in fn.preds if last(tr) == TRAIT and t.h.startswith("param:")}
        # places that must be visited
        need = []
        if last(st.h) == FNAME:
            need.append((None, ("self",), st))
        elif st.h in P.adts and st.h.split("::")[0].startswith("unreal"):
            a = P.adts[st.h]
            sub = {g: x for g, x in zip(a["gens"], st.a)}
            for vi, v in enumerate(a["v"]):
                for f in v["f"]:
                    h, ps = H.of(f["t"])
                    for p in ps:
                        x = sub.get(p)
                        if x is None:
                            continue
                        h2, q = H.of(x)
                        h |= h2 or bool(q & bound)
                    if h:
                        need.append((vi if a["kind"] == "enum" else None, v["n"], f["n"]))
            if last(st.h) in ("IndexedMap", "SharedResource"):
                # containers with their own iteration: the elements are the places
                need = [(None, "*", None)] if any(H.of(x)[0] or H.of(x)[1] & bound for x in st.a) else []
                if last(st.h) == "IndexedMap":
                    need = [(None, "[]", str(i)) for i, x in enumerate(st.a) if H.of(x)[0] or H.of(x)[1] & bound]
        else:
            if any(H.of(x)[0] or H.of(x)[1] & bound for x in st.a):
                need = [(None, "*", None)]
                if st.h == "tuple" or st.s.startswith("("):
                    need = [(None, "", str(i)) for i in range(len(st.a))]
        nimpl += 1
        if not need:
            rep.ok("names")
            continue
        try:
            I = W.run(fn, "n", {}, st.h, obj_arg=0, self_is_root=True, hook=hook, nts={})
        except (Limit, RecursionError, KeyError, AttributeError, TypeError, IndexError, ValueError, AssertionError) as ex:
            rep.unsure("names", tail, "analysis gave up: %r" % (ex,))
            continue
        rep.fns.add(fn.key)
        out = {}
        for x, l, y in I.res.edges:
            out.setdefault(x, []).append((l, y))
        for nd in need:
            nfields += 1
            if len(nd) == 3 and nd[1] == "*" or nd[1] == ("self",):
                want = lambda p: p[:1] == ("self",)
                name = "its elements"
            else:
                vi, vn, fnm = nd

                def want(p, vn=vn, fnm=fnm, vi=vi):
                    if p[:1] != ("self",):
                        return False
                    p = p[1:]
                    if vi is not None:
                        return len(p) >= 2 and p[0] == "@" + vn and p[1] == fnm
                    if vn == "[]":
                        return p[:2] == ("[]", fnm)
                    return (len(p) >= 1 and p[0] == fnm)
                name = (vn + "." if vi is not None else "") + fnm
            bad = escape(I, out, want, nd)
            if bad is None:
                rep.ok("names")
                nvis += 1
            else:
                unk = [k for k in I.unknown if not k.startswith(("core::fmt", "alloc::fmt"))]
                if unk and bad != "never":
                    rep.unsure("names", "%s %s" % (tail, name), "unmodelled: %s" % unk)
                else:
                    rep.bad("names", "%s %s" % (tail, name),
                            "%s (%s:%d): a path through the traversal of %s does not visit %s, which can hold names" % (
                                fn.key, fn.file, fn.line, tail, name))
    rep.cov.update(implementations=nimpl, fields_holding_names=nfields, visited=nvis)
    rep.floor("names-floor", nimpl, 290, "FNameContainer implementations")
    rep.floor("names-floor", nfields, 250, "fields that can hold names")


def escape(I, out, want, nd):
    """None if every path visits; otherwise why not"""
    vi = nd[0]
    any_visit = any(isinstance(l, Event) and isinstance(l.label, tuple) and l.label[0] == "visit" and any(want(p) for p in l.label[1])
                    for x, l, y in I.res.edges)
    if not any_visit:
        return "never"
    seen = {0}
    work = [0]
    while work:
        n = work.pop()
        if n == I.res.exit:
            return "a path avoids it"
        for l, y in out.get(n, ()):
            if isinstance(l, Event) and isinstance(l.label, tuple) and l.label[0] == "visit" and any(want(p) for p in l.label[1]):
                continue
            if isinstance(l, tuple) and l[0] == "g":
                ks = keypaths(l[1])
                if any(want(p) or p == ("self",) for p in ks):
                    if l[1][0] == "is" and ("self",) in ks:
                        # variant test of self: only the branch of our variant matters
                        if vi is not None and (l[1][-1] == nd[1]) != l[2]:
                            continue
                    else:
                        continue
            if (n, y) in I.loopexit:
                # leaving a loop over the very place whose every round visits an element
                if loop_visits(I, out, n, want) and any(want(p + ("[]", nd[2] or "")) or want(p) for p, o in I.loopexit[(n, y)][1]):
                    continue
            if y not in seen:
                seen.add(y)
                work.append(y)
    return None


def visits(l, want):
    return isinstance(l, Event) and isinstance(l.label, tuple) and l.label[0] == "visit" and any(want(p) for p in l.label[1])


def loop_visits(I, out, head, want):
    """every round of the loop visits a wanted place (or tests it first)"""
    ex = {y for (h, y) in I.loopexit if h == head}
    seen, work = set(), [y for l, y in out.get(head, ()) if y not in ex and not visits(l, want) and not tests(l, want)]
    while work:
        n = work.pop()
        if n in seen:
            continue
        seen.add(n)
        if n == head:
            return False
        work.extend(y for l, y in out.get(n, ()) if not visits(l, want) and not tests(l, want))
    return True


def tests(l, want):
    return isinstance(l, tuple) and l[0] == "g" and any(want(p) for p in keypaths(l[1]))


def rebuild(P, rep):
    """rebuild_name_map: a name of a foreign table gets both a new index and the new table"""
    W = World(P)
    fns = [f for f in P.fns.values() if f.name == "rebuild_name_map" and f.b is not None]
    rep.floor("rebuild-floor", len(fns), 1, "functions rebuilding the name map")
    for fn in fns:
        log = []
        got = {}

        def hook(I, d, r, f, targs, args, fr, line, e):
            if d["n"] == METHOD:
                got["root"] = I.deepval(args[0])
                I.apply(args[1], [Rf(I.cell(Sy(("name",))))], fr)
                return UNIT
            if d["n"] in ("get_owned_content", "get_content") and (d.get("k") or "").startswith("unreal") and \
                    [p for p, o in I.atoms(I.deepval(args[0]))] == [("name",)]:
                c = Sy(("name", "content"))
                return I.apply(args[1], [Rf(I.cell(c))], fr) if d["n"] == "get_content" else c
            if args and d["n"].startswith(("trim", "strip_", "to_ascii_", "make_ascii_", "to_lower", "to_upper", "replace", "split", "chars", "get")) and \
                    not (d.get("k") or "").startswith("unreal") and I.deepval(args[0]) == Sy(("name", "content")):
                return Sy(("name", "content"), (d["n"],))
            if d["n"] == "add_name_reference":
                c = I.deepval(args[1])
                if ("name", "content") in {p for p, o in I.atoms(c)} and not (isinstance(c, Sy) and c == Sy(("name", "content"))):
                    got["content"] = False
                got["add"] = (I.deepval(args[0]), I.deepval(args[1]), I.st.node)
                return I.emit("add", args[1], line, fr)
            return NotImplemented
        I = W.run(fn, "n", {}, "", obj_arg=0, self_is_root=True, hook=hook, nts={}, log_assign=log)
        if "root" not in got:
            rep.bad("rebuild", fn.name + " traversal", "%s does not traverse the names of the asset" % fn.key)
            continue
        if ("self",) not in {p for p, o in I.atoms(got["root"])}:
            rep.bad("rebuild", fn.name + " root", "%s traverses %r, not the whole asset" % (fn.key, got["root"]))
        if "add" not in got:
            rep.bad("rebuild", fn.name + " add", "%s never interns a name in the asset's own table" % fn.key)
            continue
        slots = {e.slot for e in I.slotev.values() if e.label == "add"}
        tgt = {}
        for old, new, node in log:
            for p, o in I.atoms(old):
                if p[:1] == ("name",):
                    tgt.setdefault(p[-1], []).append(new)
        for field, okay in (("index", lambda v: any(p and p[0] == "#%d" % s for p, o in I.atoms(v) for s in slots)),
                            ("name_map", lambda v: ("self", "name_map") in {p for p, o in I.atoms(v)})):
            vs = tgt.get(field, [])
            if vs and all(okay(v) for v in vs):
                rep.ok("rebuild")
            else:
                rep.bad("rebuild", "%s %s" % (fn.name, field), "%s (%s:%d): the %s of a foreign name is set to %r" % (fn.key, fn.file, fn.line, field, vs))
        # no foreign name is skipped: a path that does not intern is guarded by the name being unbacked or of this very table
        out = {}
        for x, l, y in I.res.edges:
            if isinstance(l, Event) and l.label == "add":
                continue
            if isinstance(l, tuple) and l[0] == "g":
                k = l[1]
                if k[0] == "is" and k[1] == ("name",) and (k[-1] == "Backed") != l[2]:
                    continue
                t = repr(k)
                if "name_map" in t and "self" in t and "'name'" in t:
                    if not (k[0] == "eq2" and not l[2]):
                        continue
            out.setdefault(x, []).append(y)
        seen, work = {0}, [0]
        while work:
            for y in out.get(work.pop(), ()):
                if y not in seen:
                    seen.add(y)
                    work.append(y)
        if I.res.exit in seen and not I.unknown.keys() - {k for k in I.unknown if "name_map" in k or "fmt" in k}:
            rep.bad("rebuild", fn.name + " skip", "%s (%s:%d): a backed name of another table can be left as it is" % (fn.key, fn.file, fn.line))
        else:
            rep.ok("rebuild")
        tbl, content, _ = got["add"]
        if [p for p, o in I.atoms(content)] and got.get("content") is not False:
            rep.ok("rebuild")
        else:
            rep.bad("rebuild", fn.name + " content", "%s (%s:%d) interns %r, which is not the content of the name" % (fn.key, fn.file, fn.line, content))
        if ("self", "name_map") in {p for p, o in I.atoms(tbl)}:
            rep.ok("rebuild")
        else:
            rep.bad("rebuild", fn.name + " table", "%s interns in %r" % (fn.key, tbl))


PARTIAL = {"skip", "take", "step_by", "nth", "nth_back", "skip_while", "take_while", "last", "last_mut", "first", "first_mut", "split_first_mut",
           "split_last_mut", "chunks_exact_mut", "get_mut", "map_while"}


def whole(P, rep):
    """the traversal of a container takes all of its elements, and the elements that are visited are those that stay in it"""
    W = World(P)
    for im in P.impls:
        if last(im["trait"]) != TRAIT:
            continue
        key = next((k for n, k in im["items"] if n == METHOD), None)
        fn = P.fns.get(key)
        if fn is None or fn.b is None:
            continue
        tail = im["self"].s
        bodies = [fn] + [g for k, g in P.fns.items() if k.startswith(fn.key + "::{closure")]
        part = sorted({d["n"] for g in bodies for d, r, e in prog_calls(g) if d["n"] in PARTIAL and not (d.get("k") or "").startswith("unreal")})
        if part and im["self"].a and im["self"].h not in ("tuple",):
            rep.bad("whole", "%s %s" % (tail, ",".join(part)), "%s (%s:%d): the traversal of %s takes only a part of the elements (%s)" % (
                fn.key, fn.file, fn.line, tail, ", ".join(part)))
        else:
            rep.ok("whole")
        if last(im["self"].h) != "IndexedMap":
            continue
        log, seen = [], {}

        def hook(I, d, r, f, targs, args, fr, line, e):
            if d["n"] == METHOD and last(d.get("tr")) == TRAIT:
                v = args[0]
                ps = [p for p, o in I.atoms(I.deepval(v))]
                while isinstance(v, Rf) and isinstance(I.st.store.get(v.c), Rf):
                    v = I.st.store[v.c]
                if isinstance(v, Rf) and not getattr(v, "p", ()) and len(ps) == 1:
                    if ps[0][:1] != ("visited",):
                        I.st.store[v.c] = Sy(("visited",) + ps[0])
                    seen[ps[0][-1]] = 1
                else:
                    seen["?"] = 1
                return UNIT
            if d["n"] == "clone" and len(args) == 1:
                return I.deepval(args[0])
            return NotImplemented
        try:
            I = W.run(fn, "n", {}, im["self"].h, obj_arg=0, self_is_root=True, hook=hook, nts={}, log_assign=log)
        except Exception as ex:
            rep.unsure("whole", tail + " kept", "analysis gave up: %r" % (ex,))
            continue
        new = [n for o, n, nd in log if [p for p, q in I.atoms(o)] == [("self",)]]
        if "?" in seen or I.unknown or not seen:
            rep.unsure("whole", tail + " kept", "the traversal is not of the modelled kind")
            continue
        for part in seen:
            kept = [any(p[:1] == ("visited",) and p[-1] == part for p, o in I.atoms(I.deepval(n))) for n in new]
            if kept and all(kept):
                rep.ok("whole")
            else:
                rep.bad("whole", "%s kept %s" % (tail, part), "%s (%s:%d): part %s of the elements is visited, but what stays in the map is not what was visited" % (
                    fn.key, fn.file, fn.line, part))


def check(P, rep):
    run(P, rep)
    whole(P, rep)
    rebuild(P, rep)
