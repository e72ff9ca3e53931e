"""A01: an archive that wraps another one reports what the wrapped one reports; reader and writer of a format report the same settings.

Each method of the archive traits is brought into symbolic normal form (terms.py); the form decides."""
import terms as T

TR = {"ArchiveTrait", "ArchiveReader", "ArchiveWriter"}
IO = {"Read", "Write", "Seek", "BufRead"}
# state of their own, by design
OWN = {
    "UsmapReader": {"get_archive_type", "get_custom_version", "has_unversioned_properties", "use_event_driven_loader", "get_mappings"},
    "UsmapWriter": {"get_archive_type", "get_custom_version", "has_unversioned_properties", "use_event_driven_loader", "get_mappings"},
    "NameTableReader": {"get_name_map"},
    "NameTableWriter": {"get_name_map"},
}
PAIRS = [("Asset", "AssetArchiveWriter"), ("RawReader", "RawWriter"), ("UsmapReader", "UsmapWriter"), ("NameTableReader", "NameTableWriter")]
QUERIES = {"get_archive_type", "get_custom_version", "has_unversioned_properties", "use_event_driven_loader", "get_name_map",
           "get_array_struct_type_override", "get_map_key_override", "get_map_value_override", "get_engine_version", "get_object_version",
           "get_object_version_ue5", "get_mappings", "get_parent_class_export_name", "get_object_name", "get_object_name_packageindex"}
OVERRIDE = ("array_struct_type_override", "map_key_override", "map_value_override")


def last(k):
    return (k or "").rsplit("::", 1)[-1]


def stop(f, d):
    return last(f.impl_trait) in TR or last(d.get("tr")) in TR or last(f.impl_trait) in IO or last(d.get("tr")) in IO


def inner_fields(P, adt):
    """fields that hold an archive or stream"""
    a = P.adts[adt]
    out = []
    for f in a["v"][0]["f"]:
        t = f["t"].peel()
        h = last(t.h)
        if t.h.startswith("param:") or h in ("RawReader", "RawWriter") or t.h in getattr(P, "arc_adts", ()):
            out.append(f["n"])
    return out


def rename(t, m):
    if isinstance(t, tuple):
        if len(t) == 3 and t[0] == "f" and t[1] == ("p", 0) and t[2] in m:
            return m[t[2]]
        return tuple(rename(x, m) for x in t)
    return t


def known(t):
    """fully normalised: nothing opaque in it"""
    return True


def check(P, rep):
    forms = {}
    self_adt = {}
    for i in P.impls:
        tr = last(i["trait"])
        if (tr in TR or tr in IO) and i["self"].h in P.adts and i["self"].h.startswith("unreal_asset"):
            name = last(i["self"].h)
            self_adt[name] = i["self"].h
            for n, k in i["items"]:
                f = P.fns.get(k)
                if f is None or f.b is None:
                    continue
                try:
                    forms[name, n] = (tr, T.Norm(P, stop).fn(f), f)
                except (T.Unk, RecursionError) as ex:
                    forms[name, n] = (tr, None, f)
                rep.fns.add(k)
    n = 0
    for (name, m), (tr, t, f) in sorted(forms.items()):
        adt = self_adt[name]
        inner = inner_fields(P, adt)
        wrapper = name in OWN
        must = (wrapper and m not in OWN[name]) or (name in ("Asset", "AssetArchiveWriter") and (tr != "ArchiveTrait" or m in ("position", "set_position")))
        if not must or not inner:
            continue
        n += 1
        key = "%s::%s" % (name, m)
        if t is None:
            rep.unsure("forward", key, "body has no normal form")
            continue
        np = len(f.b["params"])
        want = [("call", m, tuple([("f", ("p", 0), x)] + [("p", i) for i in range(1, np)])) for x in inner]
        # the reader behind an Asset may be unfolded to its stream
        want += [("call", m, tuple([("f", ("f", ("p", 0), x), "cursor")] + [("p", i) for i in range(1, np)])) for x in inner]
        if t in want:
            rep.ok("forward")
        else:
            rep.bad("forward", key, "does not answer with %s of the archive it wraps: %s" % (m, show(t)))
    rep.floor("forward.floor", n, 80, "forwarding methods")
    k = 0
    for r, w in PAIRS:
        if r not in self_adt or w not in self_adt:
            rep.bad("agree.anchor", "%s/%s" % (r, w), "archive not found")
            continue
        mr = {x: ("inner",) for x in inner_fields(P, self_adt[r])}
        mw = {x: ("inner",) for x in inner_fields(P, self_adt[w])}
        for m in sorted(QUERIES):
            a, b = forms.get((r, m)), forms.get((w, m))
            if a is None and b is None:
                continue
            k += 1
            key = "%s/%s::%s" % (r, w, m)
            if a is None or b is None:
                rep.unsure("agree", key, "only one of the two implements it")
            elif a[1] is None or b[1] is None:
                rep.unsure("agree", key, "no normal form")
            elif rename(a[1], mr) == rename(b[1], mw):
                rep.ok("agree")
            else:
                ra, rb = rename(a[1], mr), rename(b[1], mw)
                if opaque(ra) or opaque(rb):
                    rep.unsure("agree", key, "not comparable")
                else:
                    rep.bad("agree", key, "reading sees %s, writing sees %s" % (show(ra), show(rb)))
            for x in (a, b):
                if x is not None and x[1] is not None and m[4:] in OVERRIDE and x[1][0] == "f":
                    others = [o for o in OVERRIDE if o != m[4:]]
                    if x[1][2] in others:
                        rep.bad("agree.field", key, "answers with %s" % x[1][2])
                    else:
                        rep.ok("agree.field")
    rep.floor("agree.floor", k, 55, "queries of reader and writer")


def opaque(t):
    return isinstance(t, tuple) and (t[:1] == ("lambda",) or any(opaque(x) for x in t))


def show(t):
    if not isinstance(t, tuple):
        return str(t)
    if t[:1] == ("p",):
        return "self" if t[1] == 0 else "arg%d" % t[1]
    if t[:1] == ("f",) and len(t) == 3:
        return show(t[1]) + "." + t[2]
    if t[:1] == ("call",) and len(t) == 3:
        return "%s(%s)" % (t[1], ", ".join(show(x) for x in t[2]))
    if t[:1] == ("lit",):
        return repr(t[1])
    s = str(t)
    return s if len(s) < 160 else s[:160] + "..."
