"""C01: what the command line tool does to the file system, and what it reports.

Every command is interpreted path by path: the library, the file system and the directory walk are symbols whose operations succeed or fail; the names of the entries
of a pak are of any kind (plain, with a parent component, absolute).  No path writes outside the output folder, no failure ends in success, and a path without
failures does everything the command is for."""
from interp import *
from wire import *
from pak import call, sessions, show, Unmodelled
from lengths import TooMany

PATH = "cli:path"
COMPONENT = "std::path::Component"
KINDS = {"plain": [4], "dot": [2, 4], "parent": [4, 3, 3, 4], "root": [1, 4], "prefix": [0, 1, 4]}
SAFE = ("plain", "dot")
READS = {"read", "open", "metadata", "symlink_metadata", "read_dir", "canonicalize", "exists", "try_exists", "read_to_string", "read_link"}


def ok(v):
    return Ad(RES, {0: {"0": v}})


def err():
    return Ad(RES, {1: {"0": Sy(("error",))}})


def some(v):
    return Ad(OPT, {1: {"0": v}})


class Cli:
    def __init__(self, W):
        self.W, self.P = W, W.P
        P = W.P
        self.main = P.fns.get("unreal_pak_cli::main")
        self.args = P.adts.get("unreal_pak_cli::Args")
        self.cmds = P.adts.get("unreal_pak_cli::Commands")
        if self.main is None or self.args is None or self.cmds is None:
            raise Unmodelled("main, Args, Commands")
        self.hooks = {}
        for k, f in P.fns.items():
            if k.startswith("unreal_pak::") and f.self_ty is not None and f.self_ty.h.split("::")[-1] in ("PakReader", "PakWriter", "PakMemory") and f.b is not None:
                self.hooks[k] = self.lib
        self.count = 0

    # -- the library
    def lib(self, I, a, fr, fn):
        n = fn.name
        if n == "new":
            return Sy((fn.self_ty.h.split("::")[-1],))
        if n == "iter":
            if not self.loaded(I):
                return Li(None, (), [])
            self.fx(I, "iter", [], True)
            out = []
            for i in range(self.entries):
                out.append(Ad(TUP, {0: {"0": Sy(("name", str(i))), "1": self.entry(I, i)}}))
            return Li(None, (), out)
        if n == "read_entry":
            i = next((x.p[1] for x in map(I.deref, a[1:]) if isinstance(x, Sy) and x.p[0] == "name"), None)
            if i is None:
                raise Unmodelled("read_entry of something else than a name")
            return self.entry(I, int(i))
        if n == "get_entry_names":
            return Li(None, (), [Sy(("name", str(i))) for i in range(self.entries)])
        if n == "contains_entry":
            return C(True)
        if fn.out.h.endswith("Result"):
            return self.may(I, n, [I.deref(x) for x in a[1:]], UNIT)
        return Sy((n,))

    def entry(self, I, i):
        return self.may(I, "entry", [Sy(("name", str(i)))], Sy(("data", str(i))))

    def loaded(self, I):
        return any(x[0] == "load_index" and x[2] for x in self.fxs(I))

    def fxs(self, I):
        if not hasattr(I, "fx"):
            I.fx = []
            I.ended = None
        return I.fx

    def fx(self, I, op, args, good):
        self.fxs(I).append((op, args, good))

    def may(self, I, op, args, v):
        """an operation that can fail; one failure per path is enough"""
        if I.dead():
            return TOP
        failed = any(not g for _, _, g in self.fxs(I))
        if not failed and I.choose(2):
            self.fx(I, op, args, False)
            return err()
        self.fx(I, op, args, True)
        return ok(v)

    # -- everything else
    def std(self, I, d, a, fr, targs):
        k, n = d["k"], d["n"]
        if I.dead():
            return TOP
        v = I.deref(a[0]) if a else None
        if k.startswith("std::process::exit"):
            self.fxs(I)
            I.ended = ("exit", v.v if isinstance(v, C) else None)
            I.kill()
            return TOP
        if k == "clap_builder::derive::Parser::parse":
            return Ad("unreal_pak_cli::Args", {0: {self.args["v"][0]["f"][0]["n"]: self.cmd}})
        if n in ("unwrap", "expect") and isinstance(v, Ad) and (v.k == RES and set(v.alts) == {1} or v.k == OPT and set(v.alts) == {0}):
            I.kill()
            return TOP
        if n in ("_print", "_eprint", "format", "must_use") or k.startswith("core::fmt::"):
            return UNIT if n in ("_print", "_eprint") else Sy(("text",))
        if n == "unwrap_or_else" and len(a) == 2 and isinstance(v, Ad) and v.k in (RES, OPT) and len(v.alts) == 1:
            (i, fs), = v.alts.items()
            if i == (0 if v.k == RES else 1):
                return fs.get("0", TOP)
            return I.apply(a[1], [fs.get("0", TOP)] if v.k == RES else [], fr)
        if n in ("all", "any") and len(a) == 2:
            it = I.mkiter(a[0])
            if it.items is not None and not it.st:
                for x in it.items:
                    t = I.truth(I.apply(a[1], [x], fr))
                    if I.dead():
                        return TOP
                    if not isinstance(t, C):
                        return NotImplemented
                    if bool(t.v) == (n == "any"):
                        return C(n == "any")
                return C(n == "all")
        if k.startswith("std::time::") or k.startswith("core::time::"):
            return ok(Sy(("time",))) if n == "elapsed" else Sy(("time",))
        if k.startswith("std::path::") or k.startswith("path_absolutize::") or k.startswith("std::ffi::"):
            r = self.path(I, n, v, a, k)
            if r is not NotImplemented:
                return r
        if isinstance(v, Sy) and v.p[:1] == ("name",) and n in ("starts_with", "contains", "is_absolute", "has_root", "split", "ends_with") and not v.ops:
            kind = self.kind[int(v.p[1])]
            q = I.deref(a[1]) if len(a) > 1 else None
            if n in ("is_absolute", "has_root"):
                return C(kind in ("root", "prefix"))
            if n == "contains" and isinstance(q, C) and q.v == "..":
                return C(kind == "parent")
            if n == "starts_with" and isinstance(q, C) and q.v in ("/", "\\"):
                return C(kind == "root" and q.v == "/")
        if k.startswith("std::fs::"):
            return self.fs(I, n, v, a, k)
        if n in ("write_all", "write") and isinstance(v, Sy) and v.p[:1] == ("file",):
            return self.may(I, "write_all", [v, I.deref(a[1])], UNIT)
        if n in ("flush", "sync_all") and isinstance(v, Sy) and v.p[:1] == ("file",):
            return self.may(I, n, [v], UNIT)
        if k.startswith("alloc::io::buffered::") or k.startswith("std::io::buffered::"):
            return a[-1] if n in ("new", "with_capacity") else NotImplemented
        if k.startswith("walkdir::"):
            if n == "new":
                return Li(None, (), [self.may(I, "walk", [], Sy(("found", str(i)))) for i in range(self.entries)])
            if n in ("follow_links", "sort_by", "sort_by_file_name", "sort_by_key", "contents_first", "max_open", "same_file_system") and isinstance(v, Li):
                return a[0]
            if n == "path":
                return Ad(PATH, {0: {"0": v}})
            if n in ("file_type", "is_file", "is_dir"):
                return C(n != "is_dir") if n != "file_type" else v
            return NotImplemented
        if n in ("is_file",) and isinstance(v, Sy):
            return C(True)
        if n in ("replace", "to_owned", "to_string", "into_owned", "index", "trim_start_matches", "strip_prefix") and isinstance(v, Ad) and v.k == "cli:rel":
            return v if n != "strip_prefix" else some(v)
        if n in ("skip", "by_ref") and isinstance(v, Ad) and v.k == "cli:comps":
            return v
        if n in ("collect", "from_iter") and isinstance(v, Ad) and v.k == "cli:comps":
            return Ad("cli:rel", {0: dict(v.alts[0])})
        if n == "starts_with" and isinstance(v, Ad) and v.k == "cli:rel":
            return C(bool(I.choose(2)))
        return NotImplemented

    def path(self, I, n, v, a, k):
        if n in ("new", "from", "as_path", "to_path_buf", "deref", "as_ref", "into_os_string", "into", "as_os_str", "borrow", "to_owned", "into_boxed_path", "into_path_buf"):
            if n == "as_path" and isinstance(v, Ad) and v.k == "cli:comps":
                return Ad("cli:rel", {0: dict(v.alts[0])})
            return a[0]
        if n in ("absolutize", "canonicalize"):
            return ok(a[0])
        if n == "join" and len(a) == 2:
            return Ad(PATH, {0: {"0": v, "1": I.deref(a[1])}})
        if n == "push" and len(a) == 2:
            I.setref(a[0], Ad(PATH, {0: {"0": v, "+": I.deref(a[1])}}))
            return UNIT
        if n == "parent":
            if isinstance(v, Ad) and v.k == PATH and "1" in v.alts[0] and isinstance(v.alts[0]["1"], Sy):
                return some(Ad(PATH, {0: {"parent": v}}))
            return some(Ad(PATH, {0: {"parent": v}}))
        if n in ("file_stem", "file_name"):
            return some(Ad(PATH, {0: {n: v}}))
        if n in ("components", "iter"):
            if isinstance(v, Sy) and v.p[:1] == ("name",):
                return Li(None, (), [Ad(COMPONENT, {c: {"0": Sy(("part",))}}) for c in KINDS[self.kind[int(v.p[1])]]])
            return Ad("cli:comps", {0: {"0": v}})
        if n in ("next", "count") and isinstance(v, Ad) and v.k == "cli:comps":
            return C(2) if n == "count" else some(Sy(("component",)))
        if n == "strip_prefix" and isinstance(v, Ad) and v.k == PATH:
            return ok(Ad("cli:rel", {0: {"0": v}}))
        if n in ("to_string_lossy", "to_str", "display") and isinstance(v, Ad) and v.k in ("cli:rel", PATH):
            return v if n != "to_str" else some(v)
        return NotImplemented

    def fs(self, I, n, v, a, k):
        vals = [I.deref(x) for x in a]
        if n in ("truncate", "append", "create", "write", "read", "create_new") and isinstance(v, Ad) and v.k == "cli:opts":
            o = dict(v.alts[0])
            o[n] = vals[1]
            nv = Ad("cli:opts", {0: o})
            if isinstance(a[0], Rf):
                I.setref(a[0], nv)
            return nv
        if n == "new" and not a or n == "options":
            return Ad("cli:opts", {0: {}})
        if n == "open" and isinstance(v, Ad) and v.k == "cli:opts":
            o = {x for x, y in v.alts[0].items() if y == C(True)}
            w = bool(o & {"write", "append", "create", "truncate", "create_new"})
            self.count += 1
            return self.may(I, "open " + "+".join(sorted(o)) if w else "open", [vals[1]], Sy(("file", str(len(self.fxs(I))))))
        if n in ("is_file", "is_dir", "is_symlink", "file_type", "len") and len(a) == 1:
            return C(n == "is_file") if n != "file_type" else v
        if n == "read":
            return self.may(I, "read", vals, Ad("cli:content", {0: {"0": v}}))
        if n == "create" and len(a) == 1:
            return self.may(I, "create", vals, Sy(("file", str(len(self.fxs(I))))))
        if n in READS:
            return self.may(I, n, vals, Sy(("file", str(len(self.fxs(I))))))
        return self.may(I, n, vals, UNIT)


WRITERS = ("create", "create_dir", "create_dir_all", "write", "rename", "copy", "hard_link", "remove_file", "remove_dir", "remove_dir_all", "set_permissions")


def check(P, rep):
    W = World(P)
    try:
        flushed(P, rep, W)
        return run(P, rep, W)
    except (Unmodelled, TooMany, StopIteration) as e:
        rep.unsure("cli", "cli", "not modelled: %r" % (e,))
    except (Limit, RecursionError, KeyError, AttributeError, TypeError, IndexError, ValueError, AssertionError) as ex:
        rep.unsure("cli", "cli", "analysis gave up: %r" % (ex,))


def scripts(c):
    """(command, its value, entries, kinds of names, flags)"""
    vs = {v["n"]: (i, [f["n"] for f in v["f"]]) for i, v in enumerate(c.cmds["v"])}
    for n, (i, fs) in vs.items():
        base = {f: Sy((f,)) for f in fs}
        opts = [f for f in ("outdir", "pakfile") if f in fs and f != fs[0]]
        for given in (True, False) if opts else (True,):
            for flag in (True, False) if "no_compression" in fs else (None,):
                b = dict(base)
                for f in opts:
                    b[f] = some(Sy((f,))) if given else Ad(OPT, {0: {}})
                if flag is not None:
                    b["no_compression"] = C(flag)
                for kinds in (["plain", "plain"], ["dot"], ["parent"], ["root"], ["prefix"], ["plain", "parent"], []) if n == "Extract" else (["plain", "plain"], ["plain"], []):
                    yield n, Ad("unreal_pak_cli::Commands", {i: b}), kinds, given, flag


def within(v, kinds, given):
    """is a path in the output folder: True, False, None"""
    out = (lambda x: x == Sy(("outdir",))) if given else (lambda x: isinstance(x, Ad) and x.k == PATH and isinstance(x.alts[0].get("0"), Ad) and x.alts[0]["0"].alts[0].get("parent") == Sy(("pakfile",))
                                                          and isinstance(x.alts[0].get("1"), Ad) and x.alts[0]["1"].alts[0].get("file_stem") == Sy(("pakfile",)))
    if out(v):
        return True
    if isinstance(v, Ad) and v.k == PATH:
        f = v.alts[0]
        if "parent" in f and isinstance(f["parent"], Ad) and "1" in f["parent"].alts[0] and not out(f["parent"]):
            return within(f["parent"], kinds, given)
        if "1" in f and isinstance(f["1"], Sy) and f["1"].p[0] == "name":
            w = within(f["0"], kinds, given)
            return kinds[int(f["1"].p[1])] in SAFE if w else w
    return None


def pshow(v):
    if isinstance(v, Ad) and v.k == PATH:
        f = v.alts[0]
        if "1" in f:
            return "%s/%s" % (pshow(f["0"]), pshow(f["1"]))
        return "%s(%s)" % (next(iter(f)), pshow(next(iter(f.values()))))
    return ".".join(v.p) if isinstance(v, Sy) else show(v)[:40]


def run(P, rep, W):
    c = Cli(W)
    rep.fns |= {"unreal_pak_cli::main"}
    n, seen, fails, bad, unsure, success = 0, set(), set(), {}, {}, set()
    for name, cmd, kinds, given, flag in scripts(c):
        c.cmd, c.kind, c.entries = cmd, kinds, len(kinds)
        for I, r in sessions(W, "r", {}, lambda I, fr: (c.fxs(I), call(I, fr, c.main))[1], c.main, hooks=c.hooks, rounds=3, dead=True, innerar=True, errs=True, facts=True,
                             statics={}, stdfx=c.std, vertypes={}):
            n += 1
            rep.fns |= {x for x in I.seen if x.startswith("unreal_pak_cli")}
            seen.add(name)
            fx = c.fxs(I)
            good = not I.dead()
            code = 0 if good else I.ended[1] if I.ended else 101
            if I.unknown:
                unsure[(name, "calls that are not modelled: %s" % ", ".join(sorted(str(x) for x in I.unknown)[:4]))] = 1
            for op, args, g in fx:
                if not g:
                    fails.add((name, op))
                    if code is None:
                        unsure[(name, "exit code of a failing %s" % op)] = 1
                    elif code == 0:
                        bad[(name, "failing %s not reported" % op.split(" ")[0])] = "%s ends with success although %s%s failed" % (name, op, "".join(" " + pshow(x) for x in args[:1]))
                w = op in WRITERS or op.startswith("open ")
                if w and name == "Extract":
                    inside = within(args[0], kinds, given)
                    if inside is None:
                        unsure[(name, "%s of %s" % (op, pshow(args[0])))] = 1
                    elif not inside:
                        bad[(name, "%s outside of the output folder" % op.split(" ")[0])] = "an entry whose name has %s is written: %s %s" % (
                            {"parent": "a parent component", "root": "a root", "prefix": "a drive prefix"}.get(kinds[-1], "another place"), op, pshow(args[0]))
                elif w and name != "Create":
                    bad[(name, "%s changes the file system" % op)] = "a command that only checks does %s %s" % (op, pshow(args[0]))
            if not good or any(not g for _, _, g in fx):
                if not good and code == 0:
                    bad[(name, "stops early with success")] = "%s ends with exit code 0 before it is done" % name
                elif not good and all(g for _, _, g in fx) and all(k in SAFE for k in kinds):
                    bad[(name, "gives up without a failure")] = "%s stops with code %s although nothing failed (%d entries)" % (name, code, len(kinds))
                continue
            success.add(name)
            done(name, fx, kinds, given, flag, bad, unsure)
    for (a, b), t in sorted(bad.items()):
        rep.bad("cli", "%s: %s" % (a, b), t)
    for (a, b) in sorted(unsure):
        rep.unsure("cli", "%s: %s" % (a, b), "not modelled")
    rep.cov["paths"] = n
    rep.cov["failures followed"] = sorted("%s %s" % x for x in fails)
    rep.floor("cli", len(success), 4, "commands with a path that succeeds")
    rep.floor("cli", len(fails), 10, "operations whose failure is followed")
    rep.ok("cli", n)


def done(name, fx, kinds, given, flag, bad, unsure):
    """a path without failures has done its work"""
    ops = [x[0] for x in fx]
    if name != "Create" and "load_index" not in ops:
        bad[(name, "index not read")] = "%s succeeds without reading the index" % name
    if name in ("Check", "Extract"):
        got = {x[1][0].p[1] for x in fx if x[0] == "entry"}
        if len(got) != len(kinds):
            bad[(name, "entries left out")] = "%s succeeds after %d of %d entries" % (name, len(got), len(kinds))
    if name == "Extract":
        files = {}
        for op, args, g in fx:
            if op == "create" or op.startswith("open ") and "create" in op and ("truncate" in op or "create_new" in op):
                files[fx.index((op, args, g))] = args[0]
        for i in range(len(kinds)):
            if kinds[i] not in SAFE:
                continue
            hit = False
            for j, p in files.items():
                if isinstance(p, Ad) and p.k == PATH and p.alts[0].get("1") == Sy(("name", str(i))):
                    for op, args, g in fx[j:]:
                        if op == "write_all" and args[1] == Sy(("data", str(i))) and args[0] == Sy(("file", str(j))):
                            hit = True
            for op, args, g in fx:
                if op == "write" and isinstance(args[0], Ad) and args[0].alts[0].get("1") == Sy(("name", str(i))) and args[1] == Sy(("data", str(i))):
                    hit = True
            if not hit:
                bad[(name, "entry not written")] = "Extract succeeds but an entry is not written with its own data to its own name"
    if name == "Create":
        w = [(k, x) for k, x in enumerate(fx) if x[0] == "write_entry"]
        if len(w) != len(kinds):
            bad[(name, "files left out")] = "Create succeeds after writing %d of %d files" % (len(w), len(kinds))
        fin = [k for k, x in enumerate(fx) if x[0] == "finish_write"]
        if len(fin) != 1 or w and fin[0] < w[-1][0]:
            bad[(name, "pak not finished")] = "Create succeeds without finishing the pak after its last entry"
        if not any(o.startswith("open ") and "truncate" in o or o == "create" for o in ops):
            bad[(name, "old contents kept")] = "Create does not empty the file it writes to"
        for i, (k, x) in enumerate(w):
            a = x[1]
            src = a[1].alts[0]["0"] if isinstance(a[1], Ad) and a[1].k == "cli:content" else None
            who = None
            y = src
            while isinstance(y, Ad) and y.k in (PATH, "cli:rel", "cli:comps"):
                y = y.alts[0].get("0")
            nm = a[0]
            while isinstance(nm, Ad) and nm.k in (PATH, "cli:rel", "cli:comps"):
                nm = nm.alts[0].get("0")
            if not isinstance(y, Sy) or not isinstance(nm, Sy):
                unsure[(name, "name or data of an entry")] = 1
            elif y != nm or y != Sy(("found", str(i))):
                bad[(name, "name and data of different files")] = "an entry is written with the data of %s under the name of %s" % (pshow(y), pshow(nm))
            if isinstance(a[2], C) and a[2].v != (not flag):
                bad[(name, "compression")] = "no_compression=%s writes entries with compression=%s" % (flag, a[2].v)


def flushed(P, rep, W):
    """a pak that is finished is flushed, and a failing flush is reported"""
    fs = [f for k, f in P.fns.items() if k.startswith("unreal_pak::") and f.name == "finish_write" and f.b is not None]
    if len(fs) != 1:
        rep.unsure("flush", "finish_write", "%d found" % len(fs))
        return
    f = fs[0]
    rep.fns.add(f.key)
    log = []

    def wr(I, a, fr, fn):
        if I.dead():
            return TOP
        g = not I.choose(2)
        log.append(("write", g))
        return ok(UNIT) if g else err()

    def std(I, d, a, fr, targs):
        if d["n"] in ("flush", "sync_all", "sync_data") and not I.dead():
            g = not I.choose(2)
            log.append(("flush", g))
            return ok(UNIT) if g else err()
        if d["n"] in ("write_all",) and not I.dead():
            g = not I.choose(2)
            log.append(("write", g))
            return ok(UNIT) if g else err()
        return NotImplemented

    hooks = {k: wr for k, g in P.fns.items() if k.startswith("unreal_pak::") and g is not f and g.b is not None and g.out.h.endswith("Result") and any(P.is_arc(t, g) for t in g.ins)}
    n = 0
    flushes = False

    def script(I, fr):
        del log[:]
        return call(I, fr, f, Sy(("self",)))

    for I, r in sessions(W, "w", {}, script, f, hooks=hooks, rounds=2, dead=True, innerar=True, errs=True, facts=True, stdfx=std, vertypes={}):
        n += 1
        r = I.deref(r) if not I.dead() else None
        good = isinstance(r, Ad) and r.k == RES and set(r.alts) == {0}
        failed = [x for x, g in log if not g]
        flushes = flushes or any(x == "flush" for x, _ in log)
        if good and failed:
            rep.bad("flush", "finish_write: failing %s" % failed[0], "finish_write succeeds although a %s failed" % failed[0])
        elif good and (not log or log[-1][0] != "flush"):
            rep.bad("flush", "finish_write: not flushed", "finish_write succeeds without flushing what it wrote: an error of a buffered writer is lost when it is dropped")
        elif not good and not failed and r is not None:
            rep.unsure("flush", "finish_write", "result not understood: %s" % show(r)[:60])
        else:
            rep.ok("flush")
    rep.floor("flush", n, 2, "paths of finish_write")
