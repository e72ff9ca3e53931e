"""Repository-specific facts the wire comparison needs.  One line of reason per entry;
keyed by type so that renaming or restructuring the functions does not matter."""

# per type: restrictions of the compared configurations and of the compared relation
#   fixed   : configuration restricted to these intervals (names are resolved to numbers)
#   rel     : "=" (default)  languages equal
#             "W<=R"  everything the writer emits is accepted by the reader
#             "R<=W"  everything the reader accepts can be emitted by the writer
#   prune   : reader paths taken only when a name read from the stream is this constant
#   inline  : component types looked through instead of being compared by name
#   discard : optional data the reader skips without storing need not be emitted
#   reject  : "r": configurations the reader refuses as a whole are not compared
#   drop    : not compared here (reason says where it is)
SPEC = {
    "FAssetRegistryVersionType": dict(
        rel="W<=R", reason="a foreign GUID makes the reader stop after 16 bytes; the writer always emits the registry GUID"),
    "UnversionedHeader": dict(
        fixed={"has_unversioned_properties": (1, 1)}, rel="R<=W", reason="exists only in files with unversioned properties; what was read has at least one fragment"),
    "ClassExport": dict(
        fixed={"ObjectVersion": (("unreal_asset_base::object_version::ObjectVersion", "VER_UE4_UCLASS_SERIALIZE_INTERFACES_AFTER_LINKING"), None)},
        reason="older files are read out of order by seeking; the interface table position is not comparable as a sequence"),
    "ArrayProperty": dict(
        header={"mode1": (1, 1)}, prune=("None",), discard=True,
        reason="every caller of the form with a header asks for tagged structs; a nested tag named None is an empty placeholder that never follows from writing; the guid of the inner tag is always absent"),
    "MapProperty": dict(
        header={}, headerless="drop", reason="maps never occur without a header: the reader refuses"),
    "StructProperty": dict(
        header={}, reason="the form without header is compared through its own entry points"),
    "MovieSceneEvalTemplatePtrProperty": dict(
        inline=("StrProperty",), rel="R<=W", reason="the reader skips an empty type name"),
    "MovieSceneTrackImplementationPtrProperty": dict(
        inline=("StrProperty",), rel="R<=W", reason="the reader skips an empty type name"),
    "FontData": dict(
        reject="r", reason="old editor versions hold no value: the caller stores the absence"),
    # analysed by dedicated rules (see pak.py / registry.py)
    "AssetRegistryState": dict(drop=True, reason="out-of-line name table: see registry section"),
    "Footer": dict(drop=True, reason="placed relative to the end of file: see pak section"),
    "Index": dict(drop=True, reason="located through the footer: see pak section"),
    "PakMemory": dict(drop=True, reason="random access: see pak section"),
}

# compared for tagged properties only: without tags these are found through the schemas of a mappings file
TAGGED = {"NormalExport", "UserDefinedStructExport", "Property", "ArrayProperty", "MapProperty", "MovieSceneSegment", "NiagaraVariableProperty", "StructProperty"}

# which group (property) a compared type belongs to; first match wins
GROUPS = [
    ("unreal_asset_kismet::", "kismet"),
    ("unreal_asset_registry::", "registry"),
    ("unreal_pak::", "pak"),
    ("unreal_asset_exports::properties::", "reflection"),
    ("unreal_asset_exports::", "exports"),
    ("unreal_asset_properties::movies::", "movies"),
    ("unreal_asset_properties::", "props"),
    ("unreal_asset_base::", "base"),
    ("unreal_asset::", "package"),
]


def group(T):
    for p, g in GROUPS:
        if T.startswith(p):
            return g
    return "other"


def resolve(P, iv):
    lo, hi = iv
    if isinstance(lo, tuple):
        a = P.adts.get(lo[0])
        lo = next((v["d"] for v in a["v"] if v["n"] == lo[1]), None) if a else None
    return (lo, hi)


def jobs(W):
    """(T, rf, wf, widx, fixed, kw)"""
    out = []
    for T, rf, wf, wi, fx in W.pairs:
        s = SPEC.get(T.rsplit("::", 1)[-1], {})
        if s.get("drop"):
            continue
        fixed = {"has_unversioned_properties": (0, 0)} if T.rsplit("::", 1)[-1] in TAGGED else {}
        fixed.update(fx)
        for k, v in s.get("fixed", {}).items():
            lo, hi = resolve(W.P, v)
            r = W.ranges.get(k, (lo, hi))
            fixed[k] = (lo if lo is not None else r[0], hi if hi is not None else r[1])
        if "header" in s:
            if fx.get("mode0") == (0, 0):
                if s.get("headerless") == "drop":
                    continue
            else:
                fixed["mode0"] = (1, 1)
                fixed.update(s["header"])
        kw = dict(rel=s.get("rel", "="), prune=s.get("prune", ()), reject=s.get("reject", ""), discard=s.get("discard", False))
        if s.get("inline"):
            kw["nts"] = {k: v for k, v in W.nts.items() if v[0].rsplit("::", 1)[-1] not in s["inline"]}
        out.append((T, rf, wf, wi, fixed, kw))
    return out
