"""Loads the THIR dump of the workspace."""
import glob, json, os


class Ty:
    __slots__ = ("h", "a", "s")

    def __init__(self, h, a, s):
        self.h, self.a, self.s = h, a, s

    def peel(self):
        t = self
        while t.h in ("&", "&mut", "*") or t.h in ("alloc::boxed::Box", "alloc::rc::Rc", "alloc::sync::Arc"):
            t = t.a[0]
        return t

    def __repr__(self):
        return self.s


class Fn:
    __slots__ = ("key", "name", "path", "ctx", "ins", "out", "file", "line", "preds", "gens", "parent", "pub", "b",
                 "trait", "self_ty", "impl_trait", "exp", "arcparams", "sz")

    def __repr__(self):
        return "Fn(%s)" % self.key


class Ctx:
    """a crate: type and definition tables its bodies index into"""

    def __init__(self, d):
        self.crate = d["crate"]
        self.bin = d["bin"]
        raw = d["tys"]
        self.tys = [Ty(t["h"], t["a"], t["s"]) for t in raw]
        for t in self.tys:
            t.a = [self.tys[i] for i in t.a]
        self.defs = d["defs"]


ARC_LAST = {"ArchiveTrait", "ArchiveReader", "ArchiveWriter", "Read", "Write", "Seek", "BufRead", "ReadBytesExt", "WriteBytesExt"}
ARC_TRAITS_OLD = {
    "unreal_asset_base::reader::archive_trait::ArchiveTrait", "unreal_asset_base::reader::archive_reader::ArchiveReader",
    "unreal_asset_base::reader::archive_writer::ArchiveWriter", "std::io::Read", "std::io::Write", "std::io::Seek",
    "byteorder::io::ReadBytesExt", "byteorder::io::WriteBytesExt", "std::io::BufRead",
    "core::io::Read", "core::io::Write", "core::io::Seek",
}


class Program:
    def __init__(self, dump):
        self.ctx = {}
        self.fns = {}
        self.adts = {}
        self.impls = []
        self.traits = {}
        self.consts = {}
        files = sorted(glob.glob(os.path.join(dump, "*.json")))
        for f in files:
            if "build_script" in f:
                continue
            d = json.load(open(f))
            c = Ctx(d)
            self.ctx[c.crate + ("-bin" if c.bin else "")] = c
            for a in d["adts"]:
                for v in a["v"]:
                    for fl in v["f"]:
                        fl["t"] = c.tys[fl["t"]]
                a["ctx"] = c
                self.adts[a["k"]] = a
            for i in d["impls"]:
                i["self"] = c.tys[i["self"]]
                i["targs"] = [c.tys[x] for x in i["targs"]]
                i["ctx"] = c
                self.impls.append(i)
            for t in d["traits"]:
                self.traits[t["k"]] = t
            for x in d["fns"]:
                df = c.defs[x["def"]]
                fn = Fn()
                fn.key, fn.name, fn.path, fn.ctx = df["k"], df["n"], df["p"], c
                fn.ins = [c.tys[i] for i in x["in"]]
                fn.out = c.tys[x["out"]]
                fn.file, fn.line = rel(x["file"]), x["line"]
                fn.preds = [(c.tys[a], b) for a, b in x["preds"]]
                fn.gens, fn.parent, fn.pub, fn.b = x["gens"], x["parent"], x["pub"], x["b"]
                fn.trait, fn.impl_trait, fn.exp = df["tr"], df["it"], x["exp"]
                fn.self_ty = c.tys[df["st"]] if df["st"] is not None else None
                self.fns[fn.key] = fn
            for x in d["consts"]:
                df = c.defs[x["def"]]
                self.consts[df["k"]] = (x, c)
        self.impl_by = {}
        for i in self.impls:
            if i["trait"]:
                self.impl_by.setdefault((i["trait"], i["self"].h), []).append(i)
        self.inherent = {}
        for i in self.impls:
            if not i["trait"]:
                self.inherent.setdefault(i["self"].h, []).append(i)
        # ADTs that are streams
        self.arc_adts = {"std::io::cursor::Cursor", "core::io::cursor::Cursor", "std::fs::File",
                         "std::io::buffered::bufreader::BufReader", "std::io::buffered::bufwriter::BufWriter"}
        for i in self.impls:
            if (i["trait"] or "").split("::")[-1] in ARC_LAST:
                if not i["self"].h.startswith("param:") and i["self"].h not in ("&mut", "&"):
                    self.arc_adts.add(i["self"].h)
        for f in self.fns.values():
            s = set()
            for t, tr in f.preds:
                if tr.split("::")[-1] in ARC_LAST:
                    if t.h.startswith("param:"):
                        s.add(t.h)
            if (f.trait or "").split("::")[-1] in ARC_LAST:
                s.add("param:Self")
            f.arcparams = s

    def is_arc(self, ty, fn=None):
        t = ty.peel()
        if t.h in self.arc_adts:
            return True
        if t.h.startswith("param:"):
            return fn is not None and t.h in fn.arcparams
        return False

    def variant_name(self, adt, i):
        a = self.adts.get(adt)
        if a:
            return a["v"][i]["n"]
        if adt == "core::option::Option":
            return ("None", "Some")[i]
        if adt == "core::result::Result":
            return ("Ok", "Err")[i]
        return str(i)

    def field_name(self, adt, v, i):
        a = self.adts.get(adt)
        if a:
            return a["v"][v]["f"][i]["n"]
        if adt in ("core::ops::range::Range",):
            return ("start", "end")[i]
        return str(i)


def rel(f):
    for m in ("/ws/", "/repo/"):
        if m in f:
            return f.split(m, 1)[1]
    return f


def walk(e):
    """all nested expression/pattern nodes"""
    if isinstance(e, list):
        if e and isinstance(e[0], str):
            yield e
        for x in e:
            if isinstance(x, (list, dict)):
                yield from walk(x)
    elif isinstance(e, dict):
        for x in e.values():
            if isinstance(x, (list, dict)):
                yield from walk(x)


def calls(fn):
    """(callee def record, resolved def record or None, expr) for every call/fnref in the body"""
    if not fn.b:
        return
    for e in walk(fn.b):
        if e[0] == "call" and isinstance(e[3], list) and e[3] and e[3][0] is not None:
            yield fn.ctx.defs[e[3][0]], (fn.ctx.defs[e[3][2]] if e[3][2] is not None else None), e
        elif e[0] == "fnref":
            yield fn.ctx.defs[e[3][0]], (fn.ctx.defs[e[3][2]] if e[3][2] is not None else None), e
