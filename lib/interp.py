"""Abstract interpreter over THIR.

Extracts, from a (de)serialising function, the language of stream operations it can
perform (an NFA whose edges are typed stream events) together with, for every event,
where its value comes from (writer: access paths rooted at the serialised object;
reader: a fresh slot per event whose flow into the produced object is tracked).

Nothing of the analysed program is executed: all values are abstract (constants,
access paths, slots, joins), data-dependent branches are explored on both sides and
joined, loops are iterated to a fixpoint.  Branches on *versions* (object version,
engine version, custom versions, flags ...) are decided by the configuration the
caller fixes; an undecided version comparison raises Split and the caller partitions
the version space."""
import re
import sys
from prog import walk

ARRAY_TY = re.compile(r"^(?:&(?:'\w+ )?(?:mut )?)*\[u8; (\d+)\]$")

sys.setrecursionlimit(200000)
OPT, RES = "core::option::Option", "core::result::Result"
CF = "core::ops::control_flow::ControlFlow"
TUP = "()"


class Split(Exception):
    def __init__(self, var, cuts):
        self.var, self.cuts = var, cuts


class Limit(Exception):
    pass


# ---------------------------------------------------------------- values
class V:
    __slots__ = ()


def lenop(o):
    return o if o and o[-1] in ("len", "capacity") else o + ("len",)


def elemof(p):
    """access path of the elements; nesting beyond what any type has is cut off"""
    return p if p[-3:] == ("[]", "[]", "[]") else p + ("[]",)


class Top(V):
    __slots__ = ()

    def __repr__(self):
        return "T"


TOP = Top()


class C(V):
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v

    def __eq__(self, o):
        return isinstance(o, C) and type(o.v) is type(self.v) and o.v == self.v

    def __hash__(self):
        return hash(("C", self.v if not isinstance(self.v, (dict, list)) else str(self.v)))

    def __repr__(self):
        return "C(%r)" % (self.v,)


UNIT = C("()")


class Sy(V):
    """one datum: access path (tuple of steps) plus the operations applied to it"""
    __slots__ = ("p", "ops")

    def __init__(self, p, ops=()):
        self.p, self.ops = p, ops

    def __eq__(self, o):
        return isinstance(o, Sy) and o.p == self.p and o.ops == self.ops

    def __hash__(self):
        return hash((self.p, self.ops))

    def __repr__(self):
        return "<%s%s>" % (".".join(self.p), "|" + ",".join(map(str, self.ops)) if self.ops else "")


class Mx(V):
    __slots__ = ("a", "c", "sel")

    def __init__(self, a, c=frozenset(), sel=None):
        self.a, self.c = frozenset(a), frozenset(c)
        self.sel = sel      # ((guard key, polarity) or None, constant) per alternative, when selected by guards

    def __eq__(self, o):
        return isinstance(o, Mx) and o.a == self.a and o.c == self.c

    def __hash__(self):
        return hash((self.a, self.c))

    def __repr__(self):
        return "Mx{%s;%s}" % (",".join(".".join(map(str, p)) for p, _ in sorted(self.a, key=str)), ",".join(map(str, self.c)))


class Ad(V):
    __slots__ = ("k", "alts", "base", "gk")

    def __init__(self, k, alts, base=None, gk=None):
        self.k, self.alts, self.base = k, alts, base
        self.gk = gk     # guard id tying the variant to the branch that produced it

    def __eq__(self, o):
        return isinstance(o, Ad) and o.k == self.k and o.alts == self.alts and o.base == self.base

    def __hash__(self):
        return hash((self.k, tuple(sorted(self.alts))))

    def __repr__(self):
        return "%s%s" % (self.k.split("::")[-1], self.alts)


class Rf(V):
    __slots__ = ("c", "p")

    def __init__(self, c, p=()):
        self.c, self.p = c, p

    def __eq__(self, o):
        return isinstance(o, Rf) and o.c == self.c and o.p == self.p

    def __hash__(self):
        return hash((self.c, self.p))

    def __repr__(self):
        return "&%s%s" % (self.c, list(self.p) if self.p else "")


class Li(V):
    """list / map: join of the elements, atoms determining the length, exact items if known"""
    __slots__ = ("e", "ln", "items")

    def __init__(self, e=None, ln=frozenset(), items=None):
        self.e, self.ln, self.items = e, frozenset(ln), items

    def __eq__(self, o):
        return isinstance(o, Li) and o.e == self.e and o.ln == self.ln and o.items == self.items

    def __hash__(self):
        return hash((self.ln, 7))

    def __repr__(self):
        return "Li[%s;%s%s]" % (self.e, ",".join(".".join(p) for p, _ in self.ln), ";exact" if self.items is not None else "")


class It(V):
    __slots__ = ("e", "ln", "items", "st", "src")

    def __init__(self, e, ln, items=None, st=(), src=None):
        self.e, self.ln, self.items, self.st, self.src = e, frozenset(ln), items, tuple(st), src

    def __eq__(self, o):
        return isinstance(o, It) and (o.e, o.ln, o.items, o.src) == (self.e, self.ln, self.items, self.src) and len(o.st) == len(self.st)

    def __hash__(self):
        return 3


class Cl(V):
    __slots__ = ("k", "b", "fr")

    def __init__(self, k, b, fr):
        self.k, self.b, self.fr = k, b, fr

    def __eq__(self, o):
        return isinstance(o, Cl) and o.k == self.k

    def __hash__(self):
        return hash(self.k)


class Fnr(V):
    __slots__ = ("spec", "fr")

    def __init__(self, spec, fr):
        self.spec, self.fr = spec, fr

    def __eq__(self, o):
        return isinstance(o, Fnr) and o.spec[0] == self.spec[0]

    def __hash__(self):
        return 5


class Ar(V):
    __slots__ = ("id",)

    def __init__(self, id):
        self.id = id

    def __eq__(self, o):
        return isinstance(o, Ar) and o.id == self.id

    def __hash__(self):
        return hash(self.id)

    def __repr__(self):
        return "Ar(%s)" % self.id


class Ve(V):
    """a configuration quantity (version number or flag)"""
    __slots__ = ("n",)

    def __init__(self, n):
        self.n = n

    def __eq__(self, o):
        return isinstance(o, Ve) and o.n == self.n

    def __hash__(self):
        return hash(self.n)

    def __repr__(self):
        return "Ve(%s)" % self.n


class Po(V):
    """stream position at an NFA node"""
    __slots__ = ("n",)

    def __init__(self, n):
        self.n = n

    def __eq__(self, o):
        return isinstance(o, Po) and o.n == self.n

    def __hash__(self):
        return hash(self.n)

    def __repr__(self):
        return "Po(%s)" % self.n


class Ln(V):
    """linear integer expression: const + sum(coef * term)"""
    __slots__ = ("k", "t")

    def __init__(self, k, t):
        self.k, self.t = k, {a: b for a, b in t.items() if b}

    def __eq__(self, o):
        return isinstance(o, Ln) and o.k == self.k and o.t == self.t

    def __hash__(self):
        return hash(self.k)

    def __repr__(self):
        return "Ln(%s)" % "+".join([str(self.k)] + ["%s*%s" % (b, a) for a, b in sorted(self.t.items(), key=str)])


def lin(v):
    if isinstance(v, Ln):
        return v
    if isinstance(v, C) and isinstance(v.v, int) and not isinstance(v.v, bool):
        return Ln(v.v, {})
    return None


def lin_add(a, b, s=1):
    t = dict(a.t)
    for k, v in b.t.items():
        t[k] = t.get(k, 0) + s * v
    return Ln(a.k + s * b.k, t)


class Cond(V):
    """a boolean whose truth is the truth of key (canonical) or unknown; atoms for provenance"""
    __slots__ = ("key", "neg", "at")

    def __init__(self, key, neg, at):
        self.key, self.neg, self.at = key, neg, frozenset(at)

    def __eq__(self, o):
        return isinstance(o, Cond) and o.key == self.key and o.neg == self.neg and o.at == self.at

    def __hash__(self):
        return hash((self.key, self.neg))

    def __repr__(self):
        return "Cond(%s%s)" % ("!" if self.neg else "", self.key)


TRUE, FALSE = C(True), C(False)


class Event:
    __slots__ = ("label", "val", "slot", "line", "fn", "ty", "patched", "loops", "width", "ar")

    def __init__(self, label, val, slot, line, fn, ty, loops, ar=None):
        self.label, self.val, self.slot, self.line, self.fn, self.ty, self.loops = label, val, slot, line, fn, ty, loops
        self.patched = None
        self.ar = ar

    def __repr__(self):
        return "%s%s" % (self.label, "" if self.slot is None else "#%s" % self.slot)


class State:
    __slots__ = ("store", "node", "patch", "bytes")

    def __init__(self, store, node, patch=None, bytes=None):
        self.store, self.node, self.patch, self.bytes = store, node, patch, bytes

    def copy(self):
        return State(dict(self.store), self.node, self.patch, self.bytes)


class Frame:
    __slots__ = ("fn", "ctx", "env", "subst", "rets", "loops", "parent", "label")

    def __init__(self, fn, ctx, subst, parent=None):
        self.fn, self.ctx, self.subst, self.env, self.rets, self.loops, self.parent = fn, ctx, subst, {}, [], [], parent
        self.label = None


class Result:
    """outcome of one exploration"""

    def __init__(self):
        self.edges = []      # (src, label, dst); label: None | ('g', key, pol) | ('kill', loop) | Event
        self.entry = 0
        self.exit = None
        self.value = None
        self.store = None
        self.roots = {}
        self.slots = 0
        self.paths = None


# transparent std functions: the value of the first argument passes through unchanged
TRANSPARENT = set("""clone cloned copied to_owned to_string into from try_into try_from as_ref as_mut as_deref as_deref_mut as_str
as_slice as_mut_slice borrow borrow_mut deref deref_mut unwrap expect unwrap_unchecked ok ok_or ok_or_else map_err to_vec into_boxed_slice
into_boxed_str into_string as_bytes into_bytes as_mut_str get_ref get_mut into_inner try_unwrap must_use upgrade into_vec from_utf8 from_utf16
by_ref fuse peekable box_assume_init_into_vec_unsafe identity from_vec as_raw_slice branch into_owned as_path to_str to_string_lossy from_str
leak into_raw transpose flatten downgrade unwrap_or_default as_deref_mut write_box_via_move assume_init drop_in_place into_iter_sorted
new_display with_exact""".split())
ITER_SRC = set("into_iter iter iter_mut drain values values_mut into_values keys into_keys chars bytes lines split chunks windows encode_utf16 encode_utf8 chunks_exact".split())
PRIM_W = {"u8": 1, "i8": 1, "u16": 2, "i16": 2, "u32": 4, "i32": 4, "u64": 8, "i64": 8, "f32": 4, "f64": 8, "u128": 16, "i128": 16,
          "bool": 1, "usize": 8, "isize": 8, "char": 4}


def label_width(l):
    if isinstance(l, str):
        if l == "fname":
            return 8
        m = re.fullmatch(r"[wf](\d+)(le|be)?|bytes(\d+)", l)
        if m:
            return int(m.group(1) or m.group(3))
    return None


def strpat(c):
    """the text of a string-literal pattern"""
    r = c.get("raw", "")
    if r.endswith("]): str") and r.startswith("Branch(["):
        return bytes(int(x) for x in re.findall(r"(\d+)_u8", r)).decode("utf8", "replace")
    return None


class Interp:
    def __init__(self, P, cfg, side, nts, opts=None):
        """nts: fn key -> (type name) treated as non-terminals; cfg: version var -> (lo, hi)"""
        self.P, self.cfg, self.side, self.nts = P, cfg, side, nts
        self.opts = opts or {}
        self.facts = {}
        self.path = self.opts.get("path")        # path mode: list of choices
        self.pathpos = 0
        self.pathlens = []
        self.others = {}                         # path mode: byte counts of the other archives
        self.trace = []                          # path mode: (event, byte count before, bytes, patch position)
        self.res = Result()
        self.nn = 1
        self.ncell = 0
        self.nslot = self.opts.get("slot0", 0)
        self.nloop = 0
        self.loopstack = []
        self.depth = 0
        self.stack = []
        self.seen = set()
        self.steps = 0
        self.unknown = {}
        self.isadt = {}         # guard key "is" -> the enum
        self.lastkey = None
        self.guards_used = []
        self.slotev = {}
        self.slotloops = {}
        self.patches = []
        self.st = State({}, 0, None, Ln(0, {}) if self.path is not None else None)
        self.notes = []
        self.ntargs = {}
        self.ntid = 0
        self.assume = self.opts.get("assume", {})
        self.maxsteps = self.opts.get("maxsteps", 3000000)
        self.dropped_err = []
        self.loopexit = {}
        self.condat = []

    # ------------------------------------------------------------ machinery
    def newnode(self):
        self.nn += 1
        return self.nn - 1

    def dead(self):
        return self.st.node is None

    def kill(self):
        s = self.st
        self.st = State(s.store, None, s.patch, s.bytes)

    def cell(self, v):
        self.ncell += 1
        self.st.store[self.ncell] = v
        return self.ncell

    def edge(self, a, l, b):
        self.res.edges.append((a, l, b))

    def emit(self, label, val, line, fr, ty=None, ar=None, nbytes=None):
        """one stream operation; returns the slot symbol"""
        if self.dead():
            return TOP
        self.nslot += 1
        sid = self.nslot
        if self.side == "w" and val is not None:
            val = self.deepval(val)      # what is written is fixed now; the places it comes from may go out of scope
        ev = Event(label, val, sid, line, fr.fn, ty, tuple(self.loopstack), ar)
        self.slotev[sid] = ev
        content = None
        if self.side == "r" and self.opts.get("content") is not None and self.curar in (None, "main"):
            # the file being read has known content: the value stored there, not just any
            content = self.opts["content"](self, label, self.st.bytes, nbytes)
            if content is not None:
                content, nbytes = content
                ev.val = content
        if self.path is not None:
            o = self.curar
            if o is not None and o != "main":
                # a buffer of its own: it has a position of its own
                ev.ar = o
                n0 = self.others.get(o, Ln(0, {}))
                self.trace.append((ev, n0, nbytes, None))
                self.others[o] = lin_add(n0, nbytes if nbytes is not None else Ln(0, {("ev", sid): 1}))
                n = self.newnode()
                self.edge(self.st.node, ev, n)
                self.st.node = n
                return Sy(("#%d" % sid,))
            ev.ar = "main"
            self.trace.append((ev, self.st.bytes, nbytes, self.st.patch))
        if self.st.patch is not None:
            self.patches.append((self.st.patch, ev))
            ev.patched = self.st.patch
            if self.path is not None and nbytes is not None:
                p = lin_add(self.st.patch[1], nbytes)
                self.st.patch = None if p == lin_add(self.st.bytes, Ln(0, {("start",): 1})) else ("ln", p)
            return Sy(("#%d" % sid,))
        n = self.newnode()
        self.edge(self.st.node, ev, n)
        self.st.node = n
        if self.st.bytes is not None and nbytes is not None:
            self.st.bytes = lin_add(self.st.bytes, nbytes)
        elif self.st.bytes is not None:
            self.st.bytes = lin_add(self.st.bytes, Ln(0, {("ev", sid): 1}))
        return content if content is not None else Sy(("#%d" % sid,))

    def choose(self, n):
        if self.pathpos < len(self.path):
            c = self.path[self.pathpos]
        else:
            c = 0
            self.path.append(0)
        self.pathlens[self.pathpos:] = [n]
        self.pathpos += 1
        return c

    curar = None        # path mode: the archive of the current operation
    hdrat = None        # path mode: the byte count at which the tag of the value being written ends

    def guard(self, key, pol):
        if key is None or self.dead():
            return
        self.guards_used.append(key)
        n = self.newnode()
        self.edge(self.st.node, ("g", key, pol), n)
        self.st.node = n

    def merge(self, outs):
        """outs: [(state, value)] of live branches"""
        outs = [o for o in outs if o[0].node is not None]
        if len(outs) > 1:
            # a branch that evaluates to an error fails the operation
            good = [o for o in outs if not self.iserr(o[1], o[0])]
            if good and len(good) < len(outs):
                outs = good
        if len(outs) > 1 and self.path is None:
            ds = [self.deref(v, s.store) for s, v in outs]
            if all(isinstance(d, Cond) and d.key is not None or isinstance(d, C) and isinstance(d.v, bool) for d in ds) \
                    and any(isinstance(d, Cond) for d in ds) and any(d != ds[0] for d in ds[1:]):
                exp = []
                keep = self.st
                for (s, v), d in zip(outs, ds):
                    if isinstance(d, C):
                        exp.append((s, d))
                        continue
                    for pol in (True, False):
                        self.st = s.copy()
                        self.guard(d.key, pol != d.neg)
                        exp.append((self.st, C(pol)))
                self.st = keep
                at = frozenset().union(*[d.at for d in ds if isinstance(d, Cond)])
                r = self.merge(exp)
                return Cond(r.key, r.neg, r.at | at) if isinstance(r, Cond) else r
        if not outs:
            self.st = State(self.st.store, None, self.st.patch, self.st.bytes)
            return TOP
        if len(outs) == 1:
            self.st = outs[0][0]
            return outs[0][1]
        base = outs[0][0]
        store = dict(base.store)
        v = outs[0][1]
        diff = set()
        for s, v2 in outs[1:]:
            for c, x in s.store.items():
                y = store.get(c)
                if y is None:
                    store[c] = x
                elif y is not x and y != x:
                    store[c] = self.join(y, x, base.store, s.store)
                    diff.add(c)
            v = self.join(v, v2, base.store, s.store)
        # tie variants and truth values to the branches that produced them
        parts = {}
        for c in sorted(diff):
            store[c] = self.tie([s.store.get(c) for s, _ in outs], [s for s, _ in outs], store[c], parts)
        v = self.tie([x for _, x in outs], [s for s, _ in outs], v, parts)
        n = self.newnode()
        nodes = [s.node for s, _ in outs]
        for labels, key in parts.items():
            for i, l in enumerate(labels):
                m = self.newnode()
                self.guards_used.append(key if key[0] == "some" else ("is",) + key[1:] + (l,))
                self.edge(nodes[i], ("g", key, l) if key[0] == "some" else ("g", ("is",) + key[1:] + (l,), True), m)
                nodes[i] = m
        for x in nodes:
            self.edge(x, None, n)
        patch = base.patch if all(s.patch == base.patch for s, _ in outs) else None
        self.st = State(store, n, patch, base.bytes)
        return v

    def iserr(self, v, st):
        v = self.deref(v, st.store)
        return isinstance(v, Ad) and v.k == RES and set(v.alts) == {1}

    def tie(self, vals, states, joined, parts):
        if len(parts) >= 4 and joined is not None:
            return joined
        labels = []
        kind = None
        res = False
        for v, s in zip(vals, states):
            v = self.deref(v, s.store) if v is not None else None
            if isinstance(v, Ad) and v.k == RES and set(v.alts) == {0} and v.base is None:
                res = True
                v = self.deref(v.alts[0].get("0"), s.store)
            if isinstance(v, C) and isinstance(v.v, bool):
                k, l = "b", v.v
            elif isinstance(v, Ad) and len(v.alts) == 1 and v.base is None and v.k == OPT:
                k, l = "o", 1 in v.alts
            elif isinstance(v, Ad) and len(v.alts) == 1 and v.base is None and v.k in self.P.adts and self.P.adts[v.k]["kind"] == "enum":
                k, l = v.k, self.P.variant_name(v.k, next(iter(v.alts)))
            else:
                return joined
            if kind is not None and k != kind:
                return joined
            kind = k
            labels.append(l)
        if len(set(labels)) < 2:
            return joined
        labels = tuple(labels)
        two = kind in ("b", "o")
        if labels in parts:
            key = parts[labels]
        else:
            self.nslot += 1
            self.slotev[self.nslot] = Event("merge", None, self.nslot, 0, self.stack[-1] if self.stack else None, None, tuple(self.loopstack))
            key = parts[labels] = ("some" if two else "isv", ("#%d" % self.nslot,), ())
        if res:
            if not (isinstance(joined, Ad) and joined.k == RES and set(joined.alts) == {0}):
                return joined
            x = joined.alts[0].get("0")
            if kind == "b":
                x = Cond(key, False, self.atoms(x))
            elif isinstance(x, Ad):
                x = Ad(x.k, x.alts, x.base, key[1:])
            return Ad(RES, {0: {"0": x}}, joined.base)
        if kind == "b":
            return Cond(key, False, self.atoms(joined))
        if isinstance(joined, Ad):
            return Ad(joined.k, joined.alts, joined.base, key[1:])
        return joined

    def altkey(self, d, vi):
        """guard key for variant vi of a merged value"""
        if d.gk is None or len(d.alts) < 2:
            return (None, None)
        if d.k == OPT:
            return (("some",) + d.gk, vi == 1)
        return (("is",) + d.gk + (self.P.variant_name(d.k, vi),), True)

    def branch(self, alts):
        """alts: [(key, pol, thunk)].  Explores all (or, in path mode, the chosen one)."""
        if self.dead():
            return TOP
        if self.path is not None:
            if len(alts) > 1:
                alts = self.consistent(alts)
                alts = [alts[self.choose(len(alts))]] if len(alts) > 1 else alts
            k, pol, th = alts[0]
            if k is not None:
                self.assume = dict(self.assume)
                self.assume[k] = pol
            self.guard(k, pol)
            return th()
        saved = self.st
        outs = []
        for k, pol, th in alts:
            self.st = saved.copy()
            self.guard(k, pol)
            v = th()
            if not self.dead():
                outs.append((self.st, v))
        self.st = saved
        return self.merge(outs)

    def consistent(self, alts):
        r = [a for a in alts if a[0] is None or self.decided(a[0]) in (None, a[1])]
        return r or alts

    def decided(self, key):
        """what the conditions of this path say about another one (None: nothing)"""
        if key in self.assume:
            return self.assume[key]
        if not self.opts.get("exact") or not isinstance(key, tuple) or len(key) != 4 or key[0] not in ("is", "Eq", "Lt") or isinstance(key[3], tuple):
            return None
        if key[0] in ("Eq", "Lt"):
            n = self.assume.get(("iters", frozenset([(key[1], key[2])])))
            if n is not None and isinstance(key[3], int):
                return n == key[3] if key[0] == "Eq" else n < key[3]
        for k, v in self.assume.items():
            if isinstance(k, tuple) and len(k) == 4 and k[1] == key[1] and k[2] == key[2]:
                if k[0] == key[0] and k[0] in ("is", "Eq") and v is True and type(k[3]) is type(key[3]) and k[3] != key[3]:
                    return False
                if k[0] == "Eq" and key[0] == "Lt" and v is True and isinstance(k[3], int) and isinstance(key[3], int):
                    return k[3] < key[3]
        return None

    def rounds_left(self, ctrl):
        """numbers of rounds that the conditions of this path leave open"""
        ns = list(range(1 + self.opts.get("rounds", 1)))
        if not self.opts.get("exact") or len(ctrl) != 1:
            return ns
        (p, o), = ctrl
        for k, v in self.assume.items():
            if isinstance(k, tuple) and len(k) == 4 and k[0] in ("Eq", "Lt") and k[1] == p and k[2] == o and isinstance(k[3], int):
                m = [n for n in ns if (n == k[3] if k[0] == "Eq" else n < k[3]) == v]
                ns = m or ns
        return ns

    # ------------------------------------------------------------ lattice
    def deref(self, v, store=None):
        n = 0
        while isinstance(v, Rf) and n < 50:
            v = self.load(v.c, v.p, store)
            n += 1
        return v

    def deepval(self, v, depth=0):
        """value with references replaced by what they point to"""
        v = self.deref(v)
        if depth > 12:
            return v
        if isinstance(v, Ad):
            return Ad(v.k, {i: {f: self.deepval(x, depth + 1) for f, x in fs.items()} for i, fs in v.alts.items()},
                      self.deepval(v.base, depth + 1) if v.base is not None else None)
        if isinstance(v, Li):
            return Li(self.deepval(v.e, depth + 1) if v.e is not None else None, v.ln, [self.deepval(x, depth + 1) for x in v.items] if v.items is not None else None)
        return v

    def atoms(self, v, depth=0):
        v = self.deref(v)
        if isinstance(v, Sy):
            return frozenset([(v.p, v.ops)])
        if isinstance(v, Mx):
            return v.a
        if isinstance(v, Cond):
            return v.at
        if depth > 10:
            return frozenset()
        if isinstance(v, Ad):
            s = frozenset()
            for fs in v.alts.values():
                for x in fs.values():
                    s |= self.atoms(x, depth + 1)
            if v.base is not None:
                s |= self.atoms(v.base, depth + 1)
            return s
        if isinstance(v, (Li, It)):
            s = frozenset((p, ops) for p, ops in v.ln)
            if v.items is not None:
                for x in v.items:
                    s |= self.atoms(x, depth + 1)
            elif v.e is not None:
                s |= self.atoms(v.e, depth + 1)
            return s
        if isinstance(v, Ln):
            s = set()
            for t in v.t:
                if t[0] == "len":
                    s.add((t[1], ("len",)))
                elif t[0] == "sy":
                    s.add((t[1], t[2]))
            return frozenset(s)
        return frozenset()

    def consts(self, v):
        v = self.deref(v)
        if isinstance(v, C):
            return frozenset([v.v]) if not isinstance(v.v, (dict, list)) else frozenset([str(v.v)])
        if isinstance(v, Mx):
            return v.c
        return frozenset()

    def join(self, a, b, sa=None, sb=None):
        if a is b or a == b:
            return a
        if a is None:
            return b
        if b is None:
            return a
        if isinstance(a, Rf):
            a = self.deref(a, sa)
        if isinstance(b, Rf):
            b = self.deref(b, sb)
        if a == b:
            return a
        if isinstance(a, Ad) and isinstance(b, Ad) and a.k == b.k:
            alts = {i: dict(f) for i, f in a.alts.items()}
            base = a.base if a.base is not None else b.base
            for i, f in b.alts.items():
                if i not in alts:
                    alts[i] = f
                else:
                    d = alts[i]
                    for n in set(d) | set(f):
                        x = d.get(n)
                        y = f.get(n)
                        if x is None and a.base is not None:
                            x = self.proj(a.base, ("f", n, i))
                        if y is None and b.base is not None:
                            y = self.proj(b.base, ("f", n, i))
                        d[n] = self.join(x, y, sa, sb)
            return Ad(a.k, alts, base)
        if isinstance(a, Li) and isinstance(b, Li):
            if a.items is not None and b.items is not None and len(a.items) == len(b.items):
                it = [self.join(x, y, sa, sb) for x, y in zip(a.items, b.items)]
                return Li(None, a.ln | b.ln, it)
            return Li(self.join(self.lielem(a), self.lielem(b), sa, sb), a.ln | b.ln)
        if isinstance(a, Ar) and isinstance(b, Ar):
            return a
        if isinstance(a, (Cl, Fnr)) or isinstance(b, (Cl, Fnr)):
            return a
        for x, y in ((a, b), (b, a)):
            if isinstance(x, Ad) and isinstance(y, Sy) and x.base is not None and x.base == y and len(x.alts) == 1 and not y.ops:
                (i, fs), = x.alts.items()
                return Ad(x.k, {i: {n: self.join(v, self.proj(y, ("f", n, i)), sa if x is a else sb, sb if x is a else sa) for n, v in fs.items()}}, y)
        if isinstance(a, Ln) and isinstance(b, Ln):
            pass
        # default: an empty list / default value joined with data keeps the data's shape
        if isinstance(a, Li) and a.e is None and not a.items and not isinstance(b, C):
            return b
        if isinstance(b, Li) and b.e is None and not b.items and not isinstance(a, C):
            return a
        return self.mix(self.atoms(a) | self.atoms(b), self.consts(a) | self.consts(b))

    def mix(self, at, cs=frozenset()):
        if len(at) == 1 and not cs:
            p, o = next(iter(at))
            return Sy(p, o)
        if not at and len(cs) == 1:
            return C(next(iter(cs)))
        if not at and not cs:
            return TOP
        return Mx(at, cs)

    def lielem(self, v):
        if v.items is not None:
            e = None
            for x in v.items:
                e = self.join(e, x)
            return e
        return v.e

    # ------------------------------------------------------------ places
    def proj(self, v, step):
        v = self.deref(v)
        if step[0] == "i":
            idx = step[1] if len(step) > 1 else None
            if isinstance(v, Li):
                if v.items is not None and isinstance(idx, int) and -1 < idx < len(v.items):
                    return v.items[idx]
                e = self.lielem(v)
                return e if e is not None else TOP
            if isinstance(v, Sy):
                return Sy(v.p + (("[%d]" % idx if isinstance(idx, int) else "[]"),), v.ops)
            if isinstance(v, Mx):
                return v
            return TOP
        _, name, vi = step
        if isinstance(v, Ad):
            fs = v.alts.get(vi)
            if fs is None and len(v.alts) == 1 and v.k not in (OPT, RES):
                fs = next(iter(v.alts.values()))
            if fs is not None and name in fs:
                return fs[name]
            if v.base is not None:
                return self.proj(v.base, step)
            return TOP
        if isinstance(v, Sy):
            if v.ops:
                return v
            r = Sy(v.p + (name,))
            x = self.shape("v", r)
            return r if x is None else Ve(x)
        if isinstance(v, Mx):
            if not v.c and v.sel is None and all(not o for _, o in v.a):
                return Mx([(p + (name,), ()) for p, _ in v.a])
            return v
        if isinstance(v, (Ve, Ar)):
            return v
        return TOP

    def vproj(self, v, adt, vi, name):
        """payload of variant vi"""
        v = self.deref(v)
        if isinstance(v, Ad):
            return self.proj(v, ("f", name, vi))
        if adt in (OPT, RES, CF):
            return v
        if isinstance(v, Sy) and not v.ops:
            a = self.P.adts.get(adt)
            if a and a["kind"] == "struct":
                return Sy(v.p + (name,))
            return Sy(v.p + ("@" + self.P.variant_name(adt, vi), name))
        return v if isinstance(v, (Sy, Mx, Ve)) else TOP

    def load(self, c, p, store=None):
        v = (store or self.st.store).get(c, TOP)
        for s in p:
            v = self.proj(v, s)
        return v

    def upd(self, v, p, val):
        if not p:
            return val
        s = p[0]
        if s[0] == "i":
            v0 = self.deref(v)
            if isinstance(v0, Li):
                if v0.items is not None and len(s) > 1 and isinstance(s[1], int) and s[1] < len(v0.items):
                    it = list(v0.items)
                    it[s[1]] = self.upd(it[s[1]], p[1:], val)
                    return Li(None, v0.ln, it)
                e = self.lielem(v0)
                return Li(self.join(e, self.upd(e if e is not None else TOP, p[1:], val)), v0.ln)
            if isinstance(v0, Sy):
                return Li(self.join(Sy(v0.p + ("[]",), v0.ops), self.upd(Sy(v0.p + ("[]",), v0.ops), p[1:], val)), [(v0.p, ("len",))])
            return Li(self.upd(TOP, p[1:], val))
        _, name, vi = s
        if isinstance(v, Ad):
            alts = {i: dict(f) for i, f in v.alts.items()}
            tgt = vi if vi in alts else (next(iter(alts)) if len(alts) == 1 else vi)
            fs = alts.setdefault(tgt, {})
            cur = fs.get(name)
            if cur is None:
                cur = self.proj(v.base, s) if v.base is not None else TOP
            fs[name] = self.upd(cur, p[1:], val)
            return Ad(v.k, alts, v.base)
        if isinstance(v, Rf):
            self.assign(v.c, v.p + p, val)
            return v
        cur = self.proj(v, s)
        return Ad("?", {vi: {name: self.upd(cur, p[1:], val)}}, v)

    def assign(self, c, p, val):
        if self.dead():
            return
        # follow references stored along the way
        v = self.st.store.get(c, TOP)
        for i, s in enumerate(p):
            if isinstance(v, Rf):
                return self.assign(v.c, v.p + p[i:], val)
            v = self.proj_noderef(v, s)
        self.st.store[c] = self.upd(self.st.store.get(c, TOP), p, val)

    def proj_noderef(self, v, s):
        if isinstance(v, Ad) and s[0] == "f":
            fs = v.alts.get(s[2])
            if fs is None and len(v.alts) == 1:
                fs = next(iter(v.alts.values()))
            if fs is not None and s[1] in fs:
                return fs[s[1]]
            return TOP
        if isinstance(v, Li) and s[0] == "i":
            return TOP
        return TOP

    def place(self, e, fr):
        """returns Rf for a place expression, or a plain value"""
        k = e[0]
        if k == "var":
            c = self.lookup(e[3], fr)
            if c is None:
                return TOP
            return Rf(c)
        if k == "field":
            b = self.place(e[3], fr)
            # a reference value held at the place is followed (auto-deref is explicit in THIR)
            if isinstance(b, Rf):
                return Rf(b.c, b.p + (("f", e[4], e[5]),))
            return self.proj(b, ("f", e[4], e[5]))
        if k == "deref":
            b = self.place(e[3], fr)
            if isinstance(b, Rf):
                v = self.load(b.c, b.p)
                if isinstance(v, Rf):
                    return v
                # Box or symbolic reference: the place itself
                return b
            return b
        if k == "index":
            b = self.place(e[3], fr)
            i = self.deref(self.ev(e[4], fr))
            st = ("i", i.v) if isinstance(i, C) and isinstance(i.v, int) else ("i",)
            if self.opts.get("index") is not None:
                r = self.opts["index"](self, b, i)
                if r is not None:
                    return r
            if isinstance(b, Rf):
                return Rf(b.c, b.p + (st,))
            return self.proj(b, st)
        if k == "static":
            return TOP
        return self.ev(e, fr)

    def lookup(self, var, fr):
        while fr is not None:
            c = fr.env.get(var)
            if c is not None:
                return c
            fr = fr.parent
        return None

    # ------------------------------------------------------------ expressions
    def ev(self, e, fr):
        if self.st.node is None:
            return TOP
        self.steps += 1
        if self.steps > self.maxsteps:
            raise Limit("step limit")
        m = getattr(self, "x_" + e[0], None)
        if m is None:
            self.note("unsupported expression " + e[0], e, fr)
            return TOP
        return m(e, fr)

    def note(self, s, e, fr):
        self.unknown[s] = self.unknown.get(s, 0) + 1

    def ty(self, e, fr):
        return fr.ctx.tys[e[1]]

    def coerce(self, v, ty, fr):
        """configuration quantities and streams are recognised by type"""
        t = ty
        while t.h in ("&", "&mut"):
            t = t.a[0]
        h = t.h
        if h in self.opts.get("vertypes", ()):
            d = self.deref(v)
            if not isinstance(d, (Ad, C, Ve)):
                return Ve(self.opts["vertypes"][h])
        return v

    def x_lit(self, e, fr):
        v = e[3]
        if isinstance(v, dict) and "bytes" in v:
            return C(v["bytes"])
        return C(v["float"] if isinstance(v, dict) else v)

    def x_zst(self, e, fr):
        return UNIT

    def x_constparam(self, e, fr):
        return Sy(("const:" + e[3],))

    def x_const(self, e, fr):
        d = fr.ctx.defs[e[3]]
        if e[4] is not None:
            t = self.ty(e, fr)
            a = self.P.adts.get(t.h)
            if a and a["kind"] == "enum":
                for i, v in enumerate(a["v"]):
                    if v["d"] == e[4]:
                        return Ad(t.h, {i: {}})
            return C(e[4])
        c = self.P.consts.get(d["k"])
        if c and c[0]["b"]:
            if ("const", d["k"]) in self.stack:
                return Sy(("const:" + d["k"],))
            self.stack.append(("const", d["k"]))
            f2 = Frame(fr.fn, c[1], {}, None)
            v = self.ev(c[0]["b"]["body"], f2)
            self.stack.pop()
            return v
        if self.opts.get("statics") is not None and d.get("tr") and len(e) > 5 and e[5]:
            # an associated constant of a type that is known
            t = self.subst(fr.ctx.tys[e[5][0]], fr)
            for i in self.P.impls:
                if i["trait"] == d["tr"] and i["self"].h == t.h:
                    for n, k in i["items"]:
                        if n == d["n"] and k in self.P.consts and self.P.consts[k][0].get("b"):
                            c = self.P.consts[k]
                            return self.ev(c[0]["b"]["body"], Frame(fr.fn, c[1], {}, None))
        return Sy(("const:" + d["n"],))

    def x_static(self, e, fr):
        v = self.opts.get("statics", {}).get(fr.ctx.defs[e[3]]["n"])
        if v is not None:
            return v
        return Sy(("static:" + fr.ctx.defs[e[3]]["n"],))

    def x_fnref(self, e, fr):
        return Fnr(e[3], fr)

    def x_var(self, e, fr):
        c = self.lookup(e[3], fr)
        if c is None:
            return TOP
        return self.st.store.get(c, TOP)

    def x_field(self, e, fr):
        p = self.place(e, fr)
        v = self.load(p.c, p.p) if isinstance(p, Rf) else p
        return self.coerce(v, self.ty(e, fr), fr)

    def x_index(self, e, fr):
        p = self.place(e, fr)
        return self.load(p.c, p.p) if isinstance(p, Rf) else p

    def x_deref(self, e, fr):
        p = self.place(e, fr)
        v = self.load(p.c, p.p) if isinstance(p, Rf) else p
        return self.coerce(v, self.ty(e, fr), fr)

    def x_ref(self, e, fr):
        p = self.place(e[3], fr)
        if isinstance(p, Rf):
            return p
        if e[4] and not isinstance(p, (Ar,)):
            return Rf(self.cell(p))
        return p

    def x_block(self, e, fr):
        stmts, tail, _ = e[3]
        lid = e[4] if len(e) > 4 else 0
        # labelled blocks
        brk = []
        fr.loops.append((lid, brk, None))
        v = UNIT
        for s in stmts:
            if self.dead():
                break
            if s[0] == "e":
                self.ev(s[1], fr)
            else:
                _, pat, init, els, line = s
                if init is None:
                    self.bind_uninit(pat, fr)
                    continue
                val = self.ev(init, fr) if not self.is_place_pat(pat) else self.refval(init, fr)
                if self.dead():
                    break
                if els is None:
                    r = self.match(pat, val, fr)
                    self.bindall(r[1], fr)
                else:
                    outs = self.match(pat, val, fr)
                    if outs[0] == "no":
                        self.ev(els, fr)
                    elif outs[0] == "yes":
                        self.bindall(outs[1], fr)
                    else:
                        key = outs[2]

                        def t(o=outs):
                            self.bindall(o[1], fr)
                            return UNIT

                        self.branch([(key[0], key[1], t), (key[0], not key[1] if key[0] else None, lambda: self.ev(els, fr))])
        if not self.dead():
            v = self.ev(tail, fr) if tail is not None else UNIT
        fr.loops.pop()
        if brk:
            outs = brk + ([(self.st, v)] if not self.dead() else [])
            v = self.merge(outs)
        return v

    def is_place_pat(self, pat):
        return pat[0] not in ("bind", "_")

    def refval(self, e, fr):
        p = self.place(e, fr)
        return p

    def bind_uninit(self, pat, fr):
        for x in walk(pat):
            if x[0] == "bind":
                fr.env[x[1]] = self.cell(TOP)

    def bindall(self, b, fr):
        for var, v in b:
            fr.env[var] = self.cell(v)

    # cond evaluation: returns (true_state or None, false_state or None) with bindings done in the states
    def cond(self, e, fr):
        """evaluates a condition; returns list of (truth, thunk-state) pairs as two state lists"""
        if self.dead():
            return None, None
        if e[0] == "logic":
            op = e[3]
            t1, f1 = self.cond(e[4], fr)
            if op == "And":
                if t1 is None:
                    return None, f1
                self.st = t1
                t2, f2 = self.cond(e[5], fr)
                return t2, self.mergestates([f1, f2])
            else:
                if f1 is None:
                    return t1, None
                self.st = f1
                t2, f2 = self.cond(e[5], fr)
                return self.mergestates([t1, t2]), f2
        if e[0] == "un" and e[3] == "Not":
            t, f = self.cond(e[4], fr)
            return f, t
        if e[0] == "iflet":
            val = self.refval(e[4], fr)
            if self.dead():
                return None, None
            r = self.match(e[3], val, fr)
            if r[0] == "yes":
                self.bindall(r[1], fr)
                return self.st, None
            if r[0] == "no":
                return None, self.st
            key = r[2]
            return self.fork(key[0], key[1], lambda: self.bindall(r[1], fr))
        if e[0] == "block" and not e[3][0] and e[3][1] is not None:
            return self.cond(e[3][1], fr)
        v = self.deref(self.ev(e, fr))
        if self.dead():
            return None, None
        return self.cond_of(v)

    def cond_of(self, v):
        v = self.truth(v)
        if isinstance(v, Cond):
            self.condat.append(v.at)
        if isinstance(v, C):
            return (self.st, None) if v.v else (None, self.st)
        if isinstance(v, Cond) and v.key is not None:
            self.lastkey = (v.key, not v.neg)
            return self.fork(v.key, not v.neg, None)
        self.lastkey = None
        return self.fork(None, None, None)

    def fork(self, key, pol, on_true):
        if self.path is not None:
            got = self.decided(key) if key is not None else None
            if got is not None:
                c = 0 if got == pol else 1
            else:
                c = self.choose(2)
                if key is not None:
                    self.assume = dict(self.assume)
                    self.assume[key] = pol if c == 0 else not pol
            self.guard(key, pol if c == 0 else (not pol if pol is not None else None))
            if c == 0:
                if on_true:
                    on_true()
                return self.st, None
            return None, self.st
        saved = self.st
        self.st = saved.copy()
        self.guard(key, pol)
        if on_true:
            on_true()
        t = self.st
        self.st = saved.copy()
        self.guard(key, (not pol) if pol is not None else None)
        f = self.st
        return t, f

    def mergestates(self, l):
        l = [s for s in l if s is not None and s.node is not None]
        if not l:
            return None
        if len(l) == 1:
            return l[0]
        keep = self.st
        self.merge([(s, UNIT) for s in l])
        r = self.st
        self.st = keep
        return r

    def truth(self, v):
        """C(bool) or Cond"""
        v = self.deref(v)
        if isinstance(v, C):
            if isinstance(v.v, bool):
                return v
            return Cond(None, False, ())
        if isinstance(v, Cond):
            return v
        if isinstance(v, Ve):
            lo, hi = self.cfg.get(v.n, (0, 1))
            if lo == hi:
                return C(bool(lo))
            raise Split(v.n, [1])
        if isinstance(v, Sy):
            return Cond(("t", v.p, v.ops), False, [(v.p, v.ops)])
        return Cond(None, False, self.atoms(v))

    def selmix(self, outs, atoms, keys=None):
        """constants selected by data derive from that data"""
        vs = [self.deref(v, s.store) for s, v in outs]
        if len(vs) < 2 or not atoms or any(v == vs[0] for v in vs[1:]):
            return None
        cs = set()
        for v in vs:
            n = self.num(v) if isinstance(v, (C, Ad)) else None
            if n is None and not (isinstance(v, C) and isinstance(v.v, str) and v is not UNIT):
                return None
            cs.add(v.v if isinstance(v, C) else n)
        if any(isinstance(v, Ad) for v in vs):
            return None
        sel = None
        if keys is not None and len(keys) == len(vs):
            sel = tuple((k, int(v.v) if isinstance(v, C) and isinstance(v.v, bool) else v.v) for k, v in zip(keys, vs) if isinstance(v, C))
            if len(sel) != len(vs):
                sel = None
        return Mx([(p, o + ("sel",)) for p, o in atoms], cs, sel)

    def x_if(self, e, fr):
        n0 = len(self.condat)
        self.lastkey = None
        t, f = self.cond(e[3], fr)
        k = self.lastkey
        cat = frozenset().union(*self.condat[n0:]) if len(self.condat) > n0 else frozenset()
        if len(self.condat) != n0 + 1:
            k = None
        x = e[3]
        while k and x[0] == "un" and x[3] == "Not":
            k, x = (k[0], not k[1]), x[4]
        outs, keys = [], []
        if t is not None and t.node is not None:
            self.st = t
            v = self.ev(e[4], fr)
            if not self.dead():
                outs.append((self.st, v))
                keys.append(k)
        if f is not None and f.node is not None:
            self.st = f
            v = self.ev(e[5], fr) if e[5] is not None else UNIT
            if not self.dead():
                outs.append((self.st, v))
                keys.append((k[0], not k[1]) if k else None)
        sel = self.selmix(outs, cat, keys if k else None)
        r = self.merge(outs)
        return self.selres(r, sel)

    def selres(self, r, sel):
        if sel is None:
            return r
        if isinstance(r, Cond):
            return Cond(r.key, r.neg, r.at | sel.a)
        return sel

    def x_logic(self, e, fr):
        n0 = len(self.condat)
        t, f = self.cond(e, fr)
        if t is None and f is None:
            self.kill()
            return TOP
        if f is None:
            self.st = t
            return TRUE
        if t is None:
            self.st = f
            return FALSE
        r = self.merge([(t, TRUE), (f, FALSE)])
        if isinstance(r, Cond) and len(self.condat) > n0:
            r = Cond(r.key, r.neg, r.at.union(*self.condat[n0:]))
        return r

    def x_iflet(self, e, fr):
        t, f = self.cond(e, fr)
        if t is None and f is None:
            self.kill()
            return TOP
        if f is None:
            self.st = t
            return TRUE
        if t is None:
            self.st = f
            return FALSE
        return self.merge([(t, TRUE), (f, FALSE)])

    def x_un(self, e, fr):
        v = self.deref(self.ev(e[4], fr))
        if e[3] == "Not":
            if isinstance(v, C) and isinstance(v.v, bool):
                return C(not v.v)
            if isinstance(v, Cond):
                return Cond(v.key, not v.neg, v.at)
            if isinstance(v, Ve):
                t = self.truth(v)
                return C(not t.v)
            if isinstance(v, Sy):
                if self.ty(e, fr).h == "bool":
                    return Cond(("t", v.p, v.ops), True, [(v.p, v.ops)])
                return Sy(v.p, v.ops + ("~",))
            return self.mix([(p, o + ("~",)) for p, o in self.atoms(v)])
        if e[3] == "Neg":
            if isinstance(v, C) and isinstance(v.v, int):
                return C(-v.v)
            l = lin(v)
            if l is not None:
                return lin_add(Ln(0, {}), l, -1)
            return self.mix([(p, o + ("neg",)) for p, o in self.atoms(v)])
        return TOP

    def disc(self, v):
        """discriminant of a constant enum value"""
        if isinstance(v, Ad) and len(v.alts) == 1:
            i = next(iter(v.alts))
            a = self.P.adts.get(v.k)
            if a and a["kind"] == "enum" and not v.alts[i]:
                return a["v"][i]["d"]
        return None

    def boolint(self, v):
        """a condition as a number"""
        if v.key and v.key[0] == "t":
            return Sy(v.key[1], v.key[2] + (("not",) if v.neg else ()))
        if self.path is not None and v.key is not None and self.opts.get("boolint"):
            return C(1 if self.cond_of(v)[0] is not None else 0)
        return self.mix([(p, o + ("cond",)) for p, o in v.at])

    def x_cast(self, e, fr):
        v = self.deref(self.ev(e[3], fr))
        d = self.disc(v)
        if d is not None:
            return C(d)
        if isinstance(v, C) and isinstance(v.v, bool):
            return C(int(v.v))
        if isinstance(v, Cond):
            return self.boolint(v)
        if isinstance(v, Sy):
            src, dst = self.ty(e[3], fr).h, self.ty(e, fr).h
            if src in PRIM_W and dst in PRIM_W and PRIM_W[dst] < PRIM_W[src] and src not in ("usize", "isize") and src[0] != "f":
                return Sy(v.p, v.ops + (("trunc", PRIM_W[dst], dst[0] == "i"),))
        return v

    def num(self, v):
        if isinstance(v, C) and isinstance(v.v, (int, bool)):
            return int(v.v)
        d = self.disc(v)
        return d

    def pathlen(self, p):
        """path mode: the number of elements of a container, chosen once per path"""
        ik = ("iters", frozenset([(p, ("len",))]))
        if ik not in self.assume:
            self.assume = dict(self.assume)
            self.assume[ik] = self.choose(1 + self.opts.get("rounds", 1))
        return self.assume[ik]

    facts = None        # opts facts: what the path knows of linear forms (without their constant): [least, greatest, excluded]

    def decide(self, op, d):
        """is d op 0, by what the path knows; a choice of the path if it does not know"""
        f, s = self.form(d)
        lo, hi, ne = self.facts.get(f, (None, None, frozenset()))
        # s * form + d.k op 0
        if s < 0:
            op = {"Lt": "Gt", "Le": "Ge", "Gt": "Lt", "Ge": "Le"}.get(op, op)
        k = -d.k * s
        if op in ("Eq", "Ne"):
            if k in ne or lo is not None and k < lo or hi is not None and k > hi:
                r = False
            elif lo == hi == k:
                r = True
            elif self.choose(2):
                r = False
                lo, hi = (k + 1 if lo == k else lo), (k - 1 if hi == k else hi)
                self.facts = {**self.facts, f: (lo, hi, ne | {k})}
            else:
                r = True
                self.facts = {**self.facts, f: (k, k, ne)}
            return r == (op == "Eq")
        # form < m ?
        m = k if op in ("Lt", "Ge") else k + 1
        if hi is not None and hi < m:
            r = True
        elif lo is not None and lo >= m:
            r = False
        else:
            r = not self.choose(2)
            self.facts = {**self.facts, f: (lo, m - 1, ne) if r else (m, hi, ne)}
        return r == (op in ("Lt", "Le"))

    def form(self, d):
        t = sorted(d.t.items(), key=str)
        s = 1 if t[0][1] > 0 else -1
        return tuple((k, c * s) for k, c in t), s

    def known(self, d):
        """(least, greatest) of a linear expression as far as the path knows"""
        if not d.t:
            return d.k, d.k
        f, s = self.form(d)
        lo, hi, ne = self.facts.get(f, (None, None, ()))
        if s < 0:
            lo, hi = (None if hi is None else -hi), (None if lo is None else -lo)
        return (None if lo is None else lo + d.k), (None if hi is None else hi + d.k)

    def compare(self, op, a, b):
        a, b = self.deref(a), self.deref(b)
        if self.path is not None:
            if isinstance(a, Sy) and a.ops == ("len",) and isinstance(b, C) and b.v in (0, 1):
                a = C(self.pathlen(a.p))
            elif isinstance(b, Sy) and b.ops == ("len",) and isinstance(a, C) and a.v in (0, 1):
                b = C(self.pathlen(b.p))
        if isinstance(b, Ve) and not isinstance(a, Ve):
            a, b = b, a
            op = {"Lt": "Gt", "Le": "Ge", "Gt": "Lt", "Ge": "Le"}.get(op, op)
        if isinstance(a, Ve):
            k = self.num(b)
            if k is None and isinstance(b, Ad) and b.k == OPT and 1 in b.alts and len(b.alts) == 1:
                k = self.num(self.deref(b.alts[1].get("0", TOP)))
            if k is None:
                if isinstance(b, Ve) and a.n == b.n:
                    return C(op in ("Eq", "Ge", "Le"))
                return Cond(None, False, ())
            lo, hi = self.cfg.get(a.n, (None, None))

            def ge(x):
                if lo is not None and lo >= x:
                    return True
                if hi is not None and hi < x:
                    return False
                raise Split(a.n, [x])

            if op == "Ge":
                return C(ge(k))
            if op == "Gt":
                return C(ge(k + 1))
            if op == "Lt":
                return C(not ge(k))
            if op == "Le":
                return C(not ge(k + 1))
            if op in ("Eq", "Ne"):
                r = ge(k) and not ge(k + 1)
                return C(r if op == "Eq" else not r)
        if self.opts.get("symlin") and isinstance(a, (Ln, Sy, C)) and isinstance(b, (Ln, Sy, C)):
            la, lb = self.aslin(a), self.aslin(b)
            if la is not None and lb is not None:
                d = lin_add(la, lb, -1)
                return C(self.decide(op, d)) if d.t else C({"Eq": d.k == 0, "Ne": d.k != 0, "Lt": d.k < 0, "Le": d.k <= 0, "Gt": d.k > 0, "Ge": d.k >= 0}[op])
        if self.opts.get("exact") and (isinstance(a, Ln) or isinstance(b, Ln)):
            la, lb = self.aslin(a), self.aslin(b)
            d = lin_add(la, lb, -1) if la is not None and lb is not None else None
            if d is not None and (not d.t or all(c >= 0 for c in d.t.values()) and d.k >= 0):
                # sizes are not negative
                if not d.t:
                    return C({"Eq": d.k == 0, "Ne": d.k != 0, "Lt": d.k < 0, "Le": d.k <= 0, "Gt": d.k > 0, "Ge": d.k >= 0}[op])
                if op in ("Lt", "Ge"):
                    return C(op == "Ge")
                if d.k > 0 and op in ("Le", "Gt", "Eq", "Ne"):
                    return C(op in ("Gt", "Ne"))
            if d is not None and self.opts.get("facts"):
                return C(self.decide(op, d))
        if self.opts.get("exact") and isinstance(a, Li) and isinstance(b, Li) and a.items is not None and b.items is not None and op in ("Eq", "Ne"):
            if len(a.items) != len(b.items):
                return C(op == "Ne")
            fs = [self.compare("Eq", x, y) for x, y in zip(a.items, b.items)]
            if all(isinstance(x, C) for x in fs):
                return C(all(x.v for x in fs) == (op == "Eq"))
        if op in ("Eq", "Ne") and self.opts.get("statics") is not None and isinstance(a, (Ad, Li)) and isinstance(b, (Ad, Li)) and self.solid(a) and self.solid(b):
            return C((self.deepval(a) == self.deepval(b)) == (op == "Eq"))
        x, y = self.num(a), self.num(b)
        if x is not None and y is not None:
            return C({"Eq": x == y, "Ne": x != y, "Lt": x < y, "Le": x <= y, "Gt": x > y, "Ge": x >= y}[op])
        if isinstance(a, C) and isinstance(b, C) and op in ("Eq", "Ne"):
            return C((a.v == b.v) == (op == "Eq"))
        # data comparison
        if self.num(a) is not None or isinstance(a, C):
            a, b = b, a
            op = {"Lt": "Gt", "Le": "Ge", "Gt": "Lt", "Ge": "Le"}.get(op, op)
        if isinstance(a, Ad) and isinstance(b, Ad) and a.k == b.k and op in ("Eq", "Ne"):
            if self.opts.get("exact") and len(a.alts) == 1 and a.alts.keys() == b.alts.keys() and a.base is None and b.base is None:
                fa, fb = next(iter(a.alts.values())), next(iter(b.alts.values()))
                fs = [self.compare("Eq", fa[n], fb[n]) for n in fa if n in fb]
                if fa.keys() == fb.keys() and all(isinstance(x, C) for x in fs):
                    return C(all(x.v for x in fs) == (op == "Eq"))
            if len(a.alts) == 1 and len(b.alts) == 1:
                if set(a.alts) != set(b.alts):
                    return C(op == "Ne")
            for x, y in ((a, b), (b, a)):
                if len(y.alts) == 1 and y.base is None and x.base is None:
                    i, fs = next(iter(y.alts.items()))
                    if i not in x.alts:
                        return C(op == "Ne")
                    if not fs and x.gk is not None:
                        key, pol = self.altkey(x, i)
                        if key is not None:
                            return Cond(key, (op == "Eq") != pol, self.atoms(x))
        at = self.atoms(a) | self.atoms(b)
        if isinstance(a, Sy):
            k = self.num(b)
            if k is None and isinstance(b, C) and isinstance(b.v, str):
                k = b.v
            if isinstance(b, Ad) and len(b.alts) == 1 and op in ("Eq", "Ne"):
                i = next(iter(b.alts))
                if b.k == OPT and i == 0:
                    return Cond(("some", a.p, a.ops), op == "Eq", at)
                if not b.alts[i]:
                    self.isadt[("is", a.p, a.ops, self.P.variant_name(b.k, i))] = b.k
                    return Cond(("is", a.p, a.ops, self.P.variant_name(b.k, i)), op == "Ne", at)
            if k is not None:
                neg = False
                if op == "Ne":
                    op, neg = "Eq", True
                elif op == "Le" and isinstance(k, int):
                    op, k = "Lt", k + 1
                elif op == "Gt" and isinstance(k, int):
                    op, k, neg = "Lt", k + 1, True
                elif op == "Ge":
                    op, neg = "Lt", True
                if op == "Lt" and a.ops and a.ops[-1] == "len" and k == 1:
                    op, k = "Eq", 0
                return Cond((op, a.p, a.ops, k), neg, at)
            if isinstance(b, Sy):
                neg = op == "Ne"
                if op in ("Eq", "Ne"):
                    ks = sorted([(a.p, a.ops), (b.p, b.ops)])
                    return Cond(("eq2",) + tuple(ks[0]) + (tuple(ks[1]),), neg, at)
                return Cond((op + "2", a.p, a.ops, (b.p, b.ops)), False, at)
        return Cond(None, False, at)

    def x_bin(self, e, fr):
        a = self.deref(self.ev(e[4], fr))
        b = self.deref(self.ev(e[5], fr))
        return self.binop(e[3], a, b)

    def binop(self, op, a, b):
        if op in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
            return self.compare(op, a, b)
        if self.opts.get("bitop") is not None:
            r = self.opts["bitop"](op, a, b)
            if r is not None:
                return r
        x, y = self.num(a), self.num(b)
        if x is not None and y is not None:
            try:
                r = {"Add": lambda: x + y, "Sub": lambda: x - y, "Mul": lambda: x * y, "Div": lambda: x // y if y else 0,
                     "Rem": lambda: x % y if y else 0, "BitAnd": lambda: x & y, "BitOr": lambda: x | y, "BitXor": lambda: x ^ y,
                     "Shl": lambda: x << y if y < 256 else 0, "Shr": lambda: x >> y}[op]()
                if isinstance(a, C) and isinstance(a.v, bool) and op.startswith("Bit"):
                    return C(bool(r))
                return C(r)
            except KeyError:
                return TOP
        if op in ("BitAnd", "BitOr") and (isinstance(a, (Cond, Ve)) or isinstance(b, (Cond, Ve))):
            ta, tb = self.truth(a), self.truth(b)
            dom = op == "BitOr"
            if isinstance(ta, C):
                return ta if ta.v == dom else tb
            if isinstance(tb, C):
                return tb if tb.v == dom else ta
            return Cond(None, False, self.atoms(ta) | self.atoms(tb))
        if isinstance(a, (Po, Ln)) or isinstance(b, (Po, Ln)):
            la, lb = self.aslin(a), self.aslin(b)
            if la is not None and lb is not None and op in ("Add", "Sub"):
                return lin_add(la, lb, 1 if op == "Add" else -1)
            if la is not None and lb is not None and op == "Mul":
                if not lb.t:
                    return Ln(la.k * lb.k, {t: c * lb.k for t, c in la.t.items()})
                if not la.t:
                    return Ln(lb.k * la.k, {t: c * la.k for t, c in lb.t.items()})
        if (self.path is not None or self.opts.get("linear")) and op in ("Add", "Sub", "Mul"):
            la, lb = self.aslin(a), self.aslin(b)
            if la is not None and lb is not None:
                if op != "Mul":
                    return lin_add(la, lb, 1 if op == "Add" else -1)
                if not lb.t:
                    return Ln(la.k * lb.k, {t: c * lb.k for t, c in la.t.items()})
                if not la.t:
                    return Ln(lb.k * la.k, {t: c * la.k for t, c in lb.t.items()})
        if self.opts.get("exact") and op == "Div" and isinstance(a, Sy) and isinstance(b, Sy):
            return Sy(("quot", a, b))
        if self.path is not None and op == "Div" and isinstance(b, C) and isinstance(b.v, int) and b.v > 0:
            la = self.aslin(a)
            if isinstance(a, Ln) and not a.t and a.k >= 0:
                return C(a.k // b.v)
            if la is not None and la.t and la.k % b.v == 0 and all(c % b.v == 0 for c in la.t.values()):
                return Ln(la.k // b.v, {t: c // b.v for t, c in la.t.items()})
        if isinstance(a, Sy) and y is not None:
            if (op, y) in (("Add", 0), ("Sub", 0), ("Mul", 1), ("Shl", 0), ("Shr", 0), ("BitOr", 0), ("Div", 1)):
                return a
            return self.addop(a, (op, y))
        if isinstance(b, Sy) and x is not None:
            if op in ("Add", "Mul", "BitAnd", "BitOr", "BitXor"):
                return self.addop(b, (op, x))
            return self.addop(b, ("r" + op, x))
        if self.opts.get("compose") is not None:
            r = self.opts["compose"](op, a, b)
            if r is not None:
                return r
        at = frozenset((p, o + (op,)) for p, o in self.atoms(a) | self.atoms(b))
        return self.mix(at)

    def addop(self, v, op):
        if not hasattr(v, "ops"):
            return TOP
        ops = v.ops
        if ops and isinstance(ops[-1], tuple) and ops[-1][0] in ("Add", "Sub") and op[0] in ("Add", "Sub"):
            d = (ops[-1][1] if ops[-1][0] == "Add" else -ops[-1][1]) + (op[1] if op[0] == "Add" else -op[1])
            if d == 0:
                return Sy(v.p, ops[:-1])
            return Sy(v.p, ops[:-1] + (("Add", d) if d > 0 else ("Sub", -d),))
        return Sy(v.p, ops + (op,))

    def aslin(self, v):
        if isinstance(v, Ln):
            return v
        if isinstance(v, Po):
            return Ln(0, {("pos", v.n): 1})
        if isinstance(v, C) and isinstance(v.v, int):
            return Ln(int(v.v), {})
        if isinstance(v, Sy):
            if v.ops == ("len",) and v.p[-1:] and v.p[-1][:1] == "#" and v.p[-1][1:].isdigit():
                return Ln(int(v.p[-1][1:]), {})
            if v.ops == ("len",) and v.p[-2:] == ("utf16", "bytes"):
                return Ln(0, {("len", v.p[:-1]): 2})
            if v.ops == ("len",):
                return Ln(0, {("len", v.p): 1})
            return Ln(0, {("sy", v.p, v.ops): 1})
        return None

    def x_assign(self, e, fr):
        v = self.ev(e[4], fr)
        p = self.place(e[3], fr)
        if self.opts.get("log_assign") is not None and not self.dead():
            self.opts["log_assign"].append((self.deepval(self.deref(p)), self.deepval(v), self.st.node))
        if isinstance(p, Rf):
            self.assign(p.c, p.p, v)
        return UNIT

    def x_assignop(self, e, fr):
        op = e[3].replace("Assign", "")
        rhs = self.deref(self.ev(e[5], fr))
        p = self.place(e[4], fr)
        if isinstance(p, Rf):
            cur = self.deref(self.load(p.c, p.p))
            self.assign(p.c, p.p, self.binop(op, cur, rhs))
        return UNIT

    def x_return(self, e, fr):
        v = self.ev(e[3], fr) if e[3] is not None else UNIT
        if self.dead():
            return TOP
        self.do_return(v, fr)
        return TOP

    def do_return(self, v, fr):
        v = self.strip_err(v, fr)
        if v is None:
            self.kill()
            return
        fr.rets.append((self.st.copy(), v))
        self.kill()

    def strip_err(self, v, fr=None):
        """the error outcome ends the exploration of a path; None if only that remains"""
        if self.opts.get("errs"):
            return v                # errors are outcomes of their own
        if isinstance(v, Ad) and v.k == RES:
            if 0 not in v.alts:
                return None
            if 1 in v.alts:
                return Ad(RES, {0: v.alts[0]})
        return v

    def x_break(self, e, fr):
        v = self.ev(e[3], fr) if e[3] is not None else UNIT
        if self.dead():
            return TOP
        # a loop and its body block share one scope: the loop (outermost) is the target
        for lid, brk, cont in fr.loops:
            if lid == e[4]:
                brk.append((self.st.copy(), v))
                break
        else:
            for lid, brk, cont in reversed(fr.loops):
                if cont is not None:
                    brk.append((self.st.copy(), v))
                    break
        self.kill()
        return TOP

    def x_continue(self, e, fr):
        for lid, brk, cont in reversed(fr.loops):
            if lid == e[3] and cont is not None:
                cont.append((self.st.copy(), UNIT))
                break
        else:
            for lid, brk, cont in reversed(fr.loops):
                if cont is not None:
                    cont.append((self.st.copy(), UNIT))
                    break
        self.kill()
        return TOP

    def x_repeat(self, e, fr):
        v = self.ev(e[3], fr)
        n = e[4]
        if n is not None and n <= 64:
            return Li(None, (), [v] * n)
        return Li(v, ())

    def x_array(self, e, fr):
        return Li(None, (), [self.ev(x, fr) for x in e[3]])

    def x_tuple(self, e, fr):
        if not e[3]:
            return UNIT
        return Ad(TUP, {0: {str(i): self.ev(x, fr) for i, x in enumerate(e[3])}})

    def x_adt(self, e, fr):
        fs = {n: self.ev(x, fr) for n, x in e[5]}
        k = e[3]
        if k.startswith("ordered_float::") and "0" in fs:
            return self.deref(fs["0"])
        base = self.ev(e[6], fr) if e[6] is not None else None
        if k.startswith("bitflags") or (k.endswith("InternalBitFlags")):
            pass
        return Ad(k, {e[4]: fs}, base)

    def x_closure(self, e, fr):
        return Cl(e[3], e[4], fr)

    def x_unsupported(self, e, fr):
        self.note("unsupported " + str(e[3]), e, fr)
        return TOP

    # ------------------------------------------------------------ shapes
    def shape(self, kind, v):
        """variants the reader can produce at this access path of the object (None: any)"""
        sh = self.opts.get("shape")
        if not sh or not isinstance(v, Sy) or v.ops or v.p[0] != "self":
            return None
        return sh.get((kind, tuple("[]" if s.startswith("[") else s for s in v.p[1:])))

    # ------------------------------------------------------------ match
    def match(self, pat, v, fr):
        """('yes'|'no'|'maybe', bindings, (key, pol))"""
        k = pat[0]
        if k == "_":
            return "yes", [], None
        if k == "bind":
            b = [(pat[1], v)]
            if pat[4] is not None:
                r = self.match(pat[4], v, fr)
                return r[0], b + list(r[1]), r[2]
            if pat[5]:
                pass
            elif isinstance(v, Rf):
                t = fr.ctx.tys[pat[3]]
                if t.h not in ("&", "&mut"):
                    # by-value binding of a place
                    lv = self.load(v.c, v.p)
                    b = [(pat[1], lv)]
            return "yes", b, None
        if k == "const":
            d = self.deref(v)
            c = pat[1]
            if isinstance(c, dict):
                t = strpat(c)
                if t is None:
                    return "maybe", [], (None, None)
                c = t
            if isinstance(d, (Ve, Cond)) and isinstance(c, bool):
                t = self.truth(d)
                if isinstance(t, C):
                    return ("yes" if t.v == c else "no"), [], None
                if t.key is not None:
                    return "maybe", [], (t.key, c != t.neg)
                return "maybe", [], (None, None)
            if isinstance(d, Sy) and isinstance(c, bool):
                return "maybe", [], (("t", d.p, d.ops), c)
            r = self.compare("Eq", d, C(c))
            if isinstance(r, C):
                return ("yes" if r.v else "no"), [], None
            return "maybe", [], ((r.key, not r.neg) if r.key is not None else (None, None))
        if k == "variant":
            adt, vi, subs = pat[1], pat[2], pat[3]
            d = self.deref(v)
            st = "yes"
            key = (None, None)
            if isinstance(d, Ve):
                a = self.P.adts.get(adt)
                if a:
                    r = self.compare("Eq", d, C(a["v"][vi]["d"]))
                    if isinstance(r, C):
                        st = "yes" if r.v else "no"
                    else:
                        st = "maybe"
                elif adt == OPT:
                    st = "yes" if vi == 1 else "no"
            elif isinstance(d, Ad) and (d.k == adt or d.k == "?"):
                if d.k == "?" and d.base is not None and not (vi in d.alts):
                    return self.match(pat, d.base, fr)
                if vi not in d.alts:
                    return "no", [], None
                if len(d.alts) > 1:
                    st = "maybe"
                    key = self.altkey(d, vi)
            elif adt == RES:
                if vi == 1:
                    return "no", [], None
            elif adt == CF:
                if vi == 1:
                    return "no", [], None
            elif adt == OPT:
                st = "maybe"
                al = self.shape("o", d)
                if al is not None and vi not in al:
                    return "no", [], None
                if al is not None and len(al) == 1:
                    st = "yes"
                elif isinstance(d, Sy):
                    key = (("some", d.p, d.ops), vi == 1)
                elif isinstance(d, C):
                    st = "yes" if vi == 1 else "no"
            else:
                a = self.P.adts.get(adt)
                nv = len(a["v"]) if a else 2
                al = self.shape("e", d)
                if al is not None and vi not in al:
                    return "no", [], None
                if nv > 1 and not (al is not None and len(al) == 1):
                    st = "maybe"
                    if isinstance(d, Sy):
                        key = (("is", d.p, d.ops, self.P.variant_name(adt, vi)), True)
                        self.isadt[key[0]] = adt
            if st == "no":
                return "no", [], None
            b = []
            for fi, sp in subs:
                fname = self.P.field_name(adt, vi, fi)
                if isinstance(v, Rf) and isinstance(d, Ad):
                    # keep a reference into the place
                    base = v
                    lv = self.load(v.c, v.p)
                    while isinstance(lv, Rf):
                        base, lv = lv, self.load(lv.c, lv.p)
                    sv = Rf(base.c, base.p + (("f", fname, vi),))
                else:
                    sv = self.vproj(d, adt, vi, fname)
                r = self.match(sp, sv, fr)
                if r[0] == "no":
                    return "no", [], None
                if r[0] == "maybe":
                    if st == "yes":
                        key = r[2]
                    else:
                        key = (None, None) if key[0] is not None or r[2][0] is not None else key
                    st = "maybe"
                b += r[1]
            return st, b, (key if st == "maybe" else None)
        if k == "leaf":
            d = self.deref(v)
            t = fr.ctx.tys[pat[1]]
            st, key, b = "yes", (None, None), []
            for fi, sp in pat[2]:
                fname = self.P.field_name(t.h, 0, fi) if t.h in self.P.adts else str(fi)
                if isinstance(v, Rf) and isinstance(d, Ad):
                    base = v
                    lv = self.load(v.c, v.p)
                    while isinstance(lv, Rf):
                        base, lv = lv, self.load(lv.c, lv.p)
                    sv = Rf(base.c, base.p + (("f", fname, 0),))
                elif t.h.startswith("ordered_float::"):
                    sv = d
                else:
                    sv = self.proj(d, ("f", fname, 0))
                r = self.match(sp, sv, fr)
                if r[0] == "no":
                    return "no", [], None
                if r[0] == "maybe":
                    if st == "yes":
                        key = r[2]
                    else:
                        key = (None, None)
                    st = "maybe"
                b += r[1]
            return st, b, (key if st == "maybe" else None)
        if k == "or":
            best = None
            keys = []
            for p in pat[1]:
                r = self.match(p, v, fr)
                if r[0] == "yes":
                    return r
                if r[0] == "maybe":
                    keys.append(r[2])
                    if best is None:
                        best = r
                    else:
                        # join bindings
                        d = dict(best[1])
                        for var, x in r[1]:
                            d[var] = self.join(d.get(var), x)
                        best = ("maybe", list(d.items()), (None, None))
            if best is None:
                return "no", [], None
            if len(keys) > 1:
                best = ("maybe", best[1], (None, None))
            return best
        if k == "slice":
            d = self.deref(v)
            b, st = [], "maybe"
            for i, p in enumerate(pat[1]):
                r = self.match(p, self.proj(d, ("i", i)), fr)
                if r[0] == "no":
                    return "no", [], None
                b += r[1]
            if pat[2] is not None:
                b += self.match(pat[2], d, fr)[1]
            for i, p in enumerate(pat[3]):
                b += self.match(p, self.proj(d, ("i",)), fr)[1]
            if isinstance(d, Li) and d.items is not None and pat[2] is None:
                st = "yes" if len(d.items) == len(pat[1]) else "no"
            return st, b, ((None, None) if st == "maybe" else None)
        return "maybe", [], (None, None)

    def x_match(self, e, fr):
        src = e[3]
        if src == "try":
            return self.do_try(e, fr)
        if src == "for":
            s = e[4]
            if s[0] == "call" and len(e[5]) == 1 and e[5][0][2][0] in ("loop",) or (s[0] == "call" and len(e[5]) == 1):
                return self.do_for(e, fr)
        val = self.refval(e[4], fr)
        if self.dead():
            return TOP
        return self.arms(val, e[5], fr)

    def arms(self, val, arms, fr):
        """sequential arm matching"""
        outs, keys = [], []
        gat = []
        hist = []       # negated keys of earlier arms
        for pat, g, body in arms:
            if self.dead():
                break
            r = self.match(pat, val, fr)
            if r[0] == "no":
                continue
            if r[0] == "yes" and g is None:
                self.bindall(r[1], fr)
                v = self.ev(body, fr)
                if not self.dead():
                    outs.append((self.st, v))
                    keys.append((hist[0][0], not hist[0][1]) if len(hist) == 1 and hist[0] else None)
                self.kill()
                break
            # maybe (or guarded)
            key, pol = r[2] if r[0] == "maybe" else (None, None)
            if self.path is not None:
                if r[0] == "maybe":
                    got = self.decided(key) if key is not None else None
                    if got is not None:
                        c = 0 if got == pol else 1
                    elif key is None or True:
                        c = self.choose(2) if not self.last_live(arms, pat, val, fr) else 0
                        if key is not None:
                            self.assume = dict(self.assume)
                            self.assume[key] = pol if c == 0 else not pol
                else:
                    c = 0
                if c == 1:
                    self.guard(key, (not pol) if pol is not None else None)
                    continue
                self.guard(key, pol)
                self.bindall(r[1], fr)
                if g is not None:
                    t, f = self.cond(g, fr)
                    if t is None:
                        if f is None:
                            break
                        self.st = f
                        continue
                    self.st = t
                v = self.ev(body, fr)
                if not self.dead():
                    outs.append((self.st, v))
                self.kill()
                break
            saved = self.st
            self.st = saved.copy()
            self.guard(key, pol)
            self.bindall(r[1], fr)
            nxt = []
            if r[0] == "maybe":
                st2 = saved.copy()
                keep = self.st
                self.st = st2
                self.guard(key, (not pol) if pol is not None else None)
                nxt.append(self.st)
                self.st = keep
            if g is not None:
                n0 = len(self.condat)
                t, f = self.cond(g, fr)
                gat += self.condat[n0:]
                if f is not None:
                    nxt.append(f)
                if t is not None:
                    self.st = t
                else:
                    self.kill()
            if not self.dead():
                v = self.ev(body, fr)
                if not self.dead():
                    outs.append((self.st, v))
                    keys.append((key, pol) if key is not None and g is None else None)
            hist.append((key, pol) if key is not None and g is None else None)
            m = self.mergestates(nxt)
            if m is None:
                self.kill()
            else:
                self.st = m
        if not self.dead() and arms:
            # matches are exhaustive: the fall-through of "maybe" arms is infeasible
            self.kill()
        if self.path is not None:
            if outs:
                self.st = outs[0][0]
                return outs[0][1]
            self.kill()
            return TOP
        sel = self.selmix(outs, self.atoms(val).union(*gat), keys)
        r = self.merge(outs)
        return self.selres(r, sel)

    def last_live(self, arms, pat, val, fr):
        seen = False
        for p, g, b in arms:
            if p is pat:
                seen = True
                continue
            if seen and self.match(p, val, fr)[0] != "no":
                return False
        return True

    def do_try(self, e, fr):
        call = e[4]
        arg = call[4][0]
        v = self.ev(arg, fr)
        if self.dead():
            return TOP
        t = self.ty(arg, fr)
        d = self.deref(v)
        if t.h == OPT:
            return self.opt_unwrap_or_return(d, fr)
        if isinstance(d, Ad) and d.k == RES:
            if 0 not in d.alts:
                if self.opts.get("errs"):
                    fr.rets.append((self.st.copy(), d))
                self.kill()
                return TOP
            return d.alts[0].get("0", TOP)
        return v

    def opt_unwrap_or_return(self, d, fr):
        alts = self.opt_alts(d)

        def some(p):
            return lambda: p

        def none():
            self.do_return(Ad(OPT, {0: {}}), fr)
            return TOP

        return self.branch([(k, pol, some(p) if vi == 1 else none) for vi, p, k, pol in alts])

    def opt_alts(self, d):
        """[(variant, payload, key, pol)]"""
        d = self.deref(d)
        if isinstance(d, Ad) and d.k == OPT:
            m = len(d.alts) > 1
            return [(i, fs.get("0", TOP)) + self.altkey(d, i) for i, fs in sorted(d.alts.items(), reverse=True)]
        if isinstance(d, Sy):
            al = self.shape("o", d)
            if al is not None and len(al) == 1:
                return [(1, d, None, None) if 1 in al else (0, None, None, None)]
            return [(1, d, ("some", d.p, d.ops), True), (0, None, ("some", d.p, d.ops), False)]
        if isinstance(d, (Ve, Ar)):
            return [(1, d, None, None)]
        return [(1, d, None, None), (0, None, None, None)]

    # ------------------------------------------------------------ loops
    def do_for(self, e, fr):
        call = e[4]
        src = self.ev(call[4][0], fr)
        if self.dead():
            return TOP
        it = self.mkiter(src)
        if self.ty(call[4][0], fr).h == "&mut":
            it = self.places(it, src)
        if self.ty(call[4][0], fr).peel().h.endswith("::IndexedMap"):
            it = self.indexed(it)
        arm = e[5][0]
        loop = arm[2]
        lid = loop[4]
        # loop -> block -> stmt e -> match next { None => break, Some(pat) => body }
        blk = loop[3]
        m = None
        for x in ([s[1] for s in blk[3][0] if s[0] == "e"] + ([blk[3][1]] if blk[3][1] is not None else [])):
            if x[0] == "match" and x[3] == "for":
                m = x
        pat, body = None, None
        for p, g, b in m[5]:
            if p[0] == "variant" and p[2] == 1:
                pat, body = p[3][0][1], b
        # bind the iterator variable (not referenced by user code)

        def run(elem):
            r = self.match(pat, elem, fr)
            self.bindall(r[1], fr)
            return self.ev(body, fr)

        self.iterate(it, run, fr, lid)
        return UNIT

    def places(self, it, r):
        """the elements of a list that is iterated by mutable reference are places"""
        if it.items is None or it.st or not self.opts.get("exact") or not isinstance(r, Rf):
            return it
        while isinstance(self.load(r.c, r.p), Rf):
            r = self.load(r.c, r.p)
        if not isinstance(self.load(r.c, r.p), Li):
            return it
        return It(it.e, it.ln, [Rf(r.c, r.p + (("i", i),)) for i in range(len(it.items))], (), it.src)

    def mkiter(self, v):
        d = self.deref(v)
        if isinstance(d, It):
            return d
        if isinstance(d, Ad) and d.k.startswith("core::ops::range::Range"):
            fs = next(iter(d.alts.values()))
            a, b = self.deref(fs.get("start", C(0))), self.deref(fs.get("end", TOP))
            if isinstance(a, C) and isinstance(b, C) and isinstance(a.v, int) and isinstance(b.v, int):
                n = b.v - a.v + (1 if "Inclusive" in d.k else 0)
                if n <= 24:
                    return It(TOP, (), [C(a.v + i) for i in range(max(0, n))])
            return It(TOP, self.atoms(b), src=("range", a, b))
        if isinstance(d, Li):
            if d.items is None and d.e is None and not d.ln and self.opts.get("exact"):
                return It(TOP, (), [])
            if d.items is not None and len(d.items) <= 64:
                return It(TOP, d.ln, list(d.items))
            return It(self.lielem(d) if self.lielem(d) is not None else TOP, d.ln, src=d)
        if isinstance(d, Sy):
            return It(Sy(elemof(d.p), d.ops), [(d.p, lenop(d.ops))], src=d)
        if isinstance(d, Mx):
            return It(Mx([(elemof(p), o) for p, o in d.a], d.c), [(p, lenop(o)) for p, o in d.a], src=d)
        if isinstance(d, Ad) and d.k == OPT:
            if 1 in d.alts and len(d.alts) == 1:
                return It(TOP, (), [d.alts[1].get("0", TOP)])
            if set(d.alts) == {0}:
                return It(TOP, (), [])
            return It(d.alts[1].get("0", TOP), ())
        if isinstance(d, Ad) and (d.k == TUP or d.k == "?") and d.base is not None:
            return self.mkiter(d.base)
        return It(TOP, self.atoms(d))

    def iterate(self, it, run, fr, lid=None, empty_ok=True):
        """run(elem) for every element; stages applied first"""
        stages = it.st

        def body(elem):
            for kind, f in stages:
                if self.dead():
                    return
                if kind == "map":
                    elem = self.apply(f, [elem], fr)
                elif kind in ("filter", "take_while", "skip_while"):
                    c = self.deref(self.apply(f, [elem], fr))
                    t, fls = self.cond_of(c)
                    if t is None:
                        # element skipped
                        if fls is not None:
                            self.st = fls
                        cont = self.curcont
                        if cont is not None:
                            cont.append((self.st.copy(), UNIT))
                        self.kill()
                        return
                    if fls is not None and self.curcont is not None:
                        self.curcont.append((fls, UNIT))
                    self.st = t
                elif kind == "filter_map":
                    o = self.apply(f, [elem], fr)
                    alts = self.opt_alts(o)
                    outs = []
                    saved = self.st
                    keep = None
                    if self.path is not None:
                        a = alts[self.choose(len(alts))] if len(alts) > 1 else alts[0]
                        self.guard(a[2], a[3])
                        if a[0] == 1:
                            elem = a[1]
                        else:
                            if self.curcont is not None:
                                self.curcont.append((self.st.copy(), UNIT))
                            self.kill()
                            return
                        continue
                    for vi, p, k, pol in alts:
                        self.st = saved.copy()
                        self.guard(k, pol)
                        if vi == 1:
                            keep = (self.st, p)
                        elif self.curcont is not None:
                            self.curcont.append((self.st, UNIT))
                    if keep is None:
                        self.kill()
                        return
                    self.st, elem = keep
                elif kind == "inspect":
                    self.apply(f, [elem], fr)
            if self.dead():
                return
            run(elem)

        if it.items is not None:
            brk = []
            for x in it.items:
                if self.dead():
                    break
                cont = []
                fr.loops.append((lid, brk, cont))
                old = getattr(self, "curcont", None)
                self.curcont = cont
                body(x)
                self.curcont = old
                fr.loops.pop()
                outs = cont + ([(self.st, UNIT)] if not self.dead() else [])
                self.merge(outs)
            outs = brk + ([(self.st, UNIT)] if not self.dead() else [])
            self.merge(outs)
            return
        if self.path is not None and self.opts.get("exact") and isinstance(it.src, tuple) and it.src[0] == "range" and isinstance(it.src[1], C) and isinstance(it.src[1].v, int):
            # counting up: the value of the counter in every round
            at = [it.src[1].v - 1]

            def nxt():
                at[0] += 1
                return body(C(at[0]))
            self.loop(nxt, fr, lid, it.ln, zero=True)
            return
        self.loop(lambda: body(it.e), fr, lid, it.ln, zero=True)

    curcont = None

    def loop(self, body, fr, lid, ctrl=(), zero=False):
        """zero: the loop may exit at its head (for); otherwise only through break"""
        if self.dead():
            return UNIT
        self.nloop += 1
        L = self.nloop
        if self.path is not None:
            ik = ("iters", frozenset(ctrl)) if zero and ctrl else None
            if ik is not None and ik in self.assume:
                n = self.assume[ik]
            else:
                ns = self.rounds_left(ctrl) if zero else [self.opts.get("rounds", 1)]
                n = ns[self.choose(len(ns))] if len(ns) > 1 else ns[0]
                if ik is not None:
                    self.assume = dict(self.assume)
                    self.assume[ik] = n
            val = UNIT
            if n == 0:
                return UNIT
            for rnd in range(n):
                brk, cont = [], []
                fr.loops.append((lid, brk, cont))
                self.loopstack.append((L, frozenset(ctrl)))
                old, self.curcont = self.curcont, cont
                body()
                self.curcont = old
                self.loopstack.pop()
                fr.loops.pop()
                if self.dead():
                    if brk:
                        self.st, val = brk[0]
                        return val
                    if cont:
                        self.st = cont[0][0]
                if self.dead():
                    return val
            if not zero:
                # ran without leaving: only paths that leave are observable
                self.kill()
            return val
        pre = self.st
        store = pre.store
        rollback = (len(self.res.edges), self.nn, self.nslot, self.nloop, self.ncell, len(self.patches), len(self.guards_used))
        steps = {}
        for rnd in range(6):
            head = self.newnode()
            self.edge(pre.node, None, head)
            self.st = State(dict(store), head, pre.patch, pre.bytes)
            brk, cont = [], []
            fr.loops.append((lid, brk, cont))
            self.loopstack.append((L, frozenset(ctrl)))
            nrets = [len(f.rets) for f in self.frames()]
            old, self.curcont = self.curcont, cont
            body()
            self.curcont = old
            self.loopstack.pop()
            fr.loops.pop()
            ends = cont + ([(self.st, UNIT)] if not self.dead() else [])
            new = dict(store)
            for s, _ in ends:
                for c, x in s.store.items():
                    if c in new:
                        y = new[c]
                        if y is not x and y != x:
                            new[c] = self.join(y, x, store, s.store)
            if rnd == 0 and zero and len(ctrl) == 1 and len(ends) == 1 and not brk and self.opts.get("linear"):
                # counted by a constant in every round: that many times the number of rounds
                (q, qo), = tuple(ctrl)
                for c, y in store.items():
                    x = ends[0][0].store.get(c)
                    if qo == ("len",) and x is not None and x is not y and x != y:
                        k = x.v - y.v if isinstance(x, C) and isinstance(y, C) and type(x.v) is int and type(y.v) is int else None
                        if k is None and isinstance(x, Ln) and isinstance(y, Ln) and x.t == y.t:
                            k = x.k - y.k
                        if k:
                            steps[c] = self.binop("Add", y, self.binop("Mul", Sy(q, qo), C(k)) if k != 1 else Sy(q, qo))
            changed = any(new[c] is not store[c] and new[c] != store[c] for c in store)
            if not changed or rnd == 5:
                break
            # discard this round
            (ne, self.nn, self.nslot, self.nloop, self.ncell, np_, ng) = rollback
            del self.res.edges[ne:]
            del self.patches[np_:]
            del self.guards_used[ng:]
            for f, n in zip(self.frames(), nrets):
                del f.rets[n:]
            store = new
        for s, _ in ends:
            self.edge(s.node, ("kill", L), head)
        outs = list(brk)
        if zero:
            ex = self.newnode()
            self.edge(head, None, ex)
            self.loopexit[(head, ex)] = (L, frozenset(ctrl))
            outs.append((State({**new, **steps}, ex, pre.patch, pre.bytes), UNIT))
        v = self.merge(outs)
        if not self.dead():
            n = self.newnode()
            self.edge(self.st.node, ("kill", L), n)
            self.st.node = n
        return v

    framelist = None

    def frames(self):
        return list(self.framestack)

    @property
    def framestack(self):
        if self.framelist is None:
            self.framelist = []
        return self.framelist

    def x_loop(self, e, fr):
        # while loops: loop { if c { body } else { break } }
        return self.loop(lambda: self.ev(e[3], fr), fr, e[4], (), zero=False)

    # ------------------------------------------------------------ calls
    def apply(self, f, args, fr):
        f = self.deref(f)
        if isinstance(f, Cl):
            return self.call_closure(f, args)
        if isinstance(f, Fnr):
            return self.call_spec(f.spec, args, f.fr, 0, None)
        if isinstance(f, Sy):
            pass
        s = frozenset()
        for a in args:
            s |= self.atoms(a)
        return self.mix(s)

    def call_closure(self, f, args):
        if self.depth > 60:
            return TOP
        b = f.b
        fr = Frame(f.fr.fn, f.fr.ctx, f.fr.subst, f.fr)
        ps = [p for p in b["params"]]
        # first THIR param of a closure is the closure itself
        if len(ps) == len(args) + 1:
            ps = ps[1:]
        for (t, p), a in zip(ps, args):
            if p is not None:
                r = self.match(p, a, fr)
                self.bindall(r[1], fr)
        self.depth += 1
        self.framestack.append(fr)
        v = self.ev(b["body"], fr)
        self.framestack.pop()
        self.depth -= 1
        return self.finish(fr, v)

    def only(self, v, vi):
        """v restricted to Option variant vi (below Ok); None if impossible"""
        d = self.deref(v)
        if isinstance(d, Ad) and d.k == RES:
            x = self.only(d.alts[0].get("0", TOP), vi) if 0 in d.alts else None
            return None if x is None else Ad(RES, {0: {"0": x}})
        if isinstance(d, Ad) and d.k == OPT:
            return Ad(OPT, {vi: d.alts[vi]}) if vi in d.alts else None
        if isinstance(d, Sy) and vi == 0:
            return None
        return v

    def finish(self, fr, v):
        if not self.dead():
            v = self.strip_err(v, fr)
            if v is None:
                self.kill()
        vi = None
        if fr.parent is None:
            if getattr(self, "none_only", ()) and fr.fn.key == self.none_only[-1]:
                vi = 0
            elif getattr(self, "some_only", ()) and fr.fn.key == self.some_only[-1]:
                vi = 1
            elif self.side == "r" and fr.fn.key == self.opts.get("root") and len(self.stack) == 1 and self.optional_result(fr.fn):
                vi = 1
        if vi is not None:
            rets = []
            for s, x in fr.rets:
                y = self.only(x, vi)
                if y is not None:
                    rets.append((s, y))
            fr.rets = rets
            if not self.dead():
                v = self.only(v, vi)
                if v is None:
                    self.kill()
        if not fr.rets:
            return v if not self.dead() else TOP
        outs = list(fr.rets)
        if not self.dead():
            outs.append((self.st, v))
        return self.merge(outs)

    def subst(self, t, fr):
        if t.h.startswith("param:") and fr is not None:
            return fr.subst.get(t.h[6:], t)
        return t

    def x_call(self, e, fr):
        spec = e[3]
        if spec[0] is None:
            f = self.ev(spec[1], fr)
            args = [self.ev(a, fr) for a in e[4]]
            if self.dead():
                return TOP
            return self.apply(f, args, fr)
        args = []
        pre = None
        nm = fr.ctx.defs[spec[0]]["n"]
        if nm in ("ok", "or_else") and "result" in fr.ctx.defs[spec[0]]["k"] and self.path is None and self.fallible(e[4][0], fr):
            pre = self.st.copy()
        torn = None
        if nm == "ok" and self.path is not None and self.opts.get("tolerant") and self.side == "r" and "result" in fr.ctx.defs[spec[0]]["k"] and self.fallible(e[4][0], fr):
            torn = (len(self.trace), self.st.bytes)
        for a in e[4]:
            args.append(self.ev(a, fr))
            if self.dead():
                return TOP
        if torn is not None and len(self.trace) > torn[0] and self.choose(2):
            # the attempt failed somewhere on its way
            del self.trace[torn[0]:]
            self.st.bytes = lin_add(torn[1], Ln(0, {("torn", torn[0]): 1}))
            return Ad(OPT, {0: {}})
        if pre is not None and pre.node != self.st.node:
            # a tolerated failure: the attempt left nothing behind (callers rewind)
            v = self.s_ok(args, fr, [], fr.ctx.defs[spec[0]]) if nm == "ok" else args[0]
            ok = self.st
            self.nslot += 1
            key = ("some", ("try#%d" % self.nslot,), ())
            self.st = ok
            self.guard(key, True)
            ok = self.st
            self.st = pre
            self.guard(key, False)
            if nm == "ok":
                return self.merge([(ok, v), (self.st, Ad(OPT, {0: {}}))])
            v2 = self.apply(args[1], [TOP], fr)
            return self.merge([(ok, v)] + ([(self.st, v2)] if not self.dead() else []))
        v = self.call_spec(spec, args, fr, e[2], e)
        if self.dead():
            return TOP
        t = self.ty(e, fr)
        if t.h == "!":
            self.kill()
            return TOP
        return self.coerce(v, t, fr)

    def fallible(self, e, fr):
        """the receiver of ok()/or_else() is itself a call (not a conversion of a value read before)"""
        while e[0] == "call" and e[3][0] is not None:
            n = fr.ctx.defs[e[3][0]]["n"]
            if n == "map_err":
                e = e[4][0]
                continue
            return n not in TRANSPARENT
        return e[0] == "call"

    def resolve(self, spec, fr):
        """(def record, Fn or None, subst types)"""
        d = fr.ctx.defs[spec[0]]
        targs = [self.subst(fr.ctx.tys[i], fr) for i in spec[1]]
        r = fr.ctx.defs[spec[2]] if spec[2] is not None else None
        fn = None
        if r is not None:
            fn = self.P.fns.get(r["k"])
        if d["tr"] and fn is None and targs:
            h = targs[0].h
            for i in self.P.impl_by.get((d["tr"], h), ()):
                for n, k in i["items"]:
                    if n == d["n"]:
                        fn = self.P.fns.get(k)
        if fn is None and r is None:
            fn = self.P.fns.get(d["k"])
        return d, r, fn, targs

    def call_spec(self, spec, args, fr, line, e):
        d, r, fn, targs = self.resolve(spec, fr)
        name = d["n"]
        hook = self.opts.get("hook")
        if hook is not None:
            h = hook(self, d, r, fn, targs, args, fr, line, e)
            if h is not NotImplemented:
                return h
        hk = self.opts.get("hooks")
        if hk and fn is not None and fn.key in hk:
            h = hk[fn.key](self, args, fr, fn)
            if h is not NotImplemented:
                return h
        if self.opts.get("callog") is not None:
            self.opts["callog"].append((d["k"] + " " + " ".join(t.s for t in targs), d["n"], [str(self.deref(a)) for a in args]))
        if self.opts.get("stdfx") is not None and (fn is None or fn.b is None):
            h = self.opts["stdfx"](self, d, args, fr, targs)
            if h is not NotImplemented:
                return h
        # archive / stream primitives
        h = self.prim(d, r, fn, targs, args, fr, line, e)
        if h is not NotImplemented:
            return h
        # non-terminals
        for f in (fn,):
            if f is not None and f.key in self.nts and not (self.opts.get("root") == f.key and not self.stack):
                r2 = self.nonterminal(f, args, fr, line, e, targs)
                if r2 is not NotImplemented:
                    return r2
        if fn is not None and fn.b is not None and not self.opaque(fn, d) and not (
                name == "next" and self.opts.get("exact") and len(args) == 1 and isinstance(self.deref(args[0]), It)):
            return self.inline(fn, args, targs, fr, line, e)
        return self.std(d, r, fn, targs, args, fr, line, e)

    def opaque(self, fn, d):
        st = fn.self_ty
        if st is not None:
            h = st.peel().h
            if h in self.opts.get("containers", ()):
                return True
        if fn.impl_trait in ("core::fmt::Debug", "core::fmt::Display", "core::cmp::PartialEq", "core::hash::Hash", "core::clone::Clone",
                             "core::cmp::PartialOrd", "core::cmp::Ord", "core::cmp::Eq", "core::error::Error"):
            return True
        if "bitflags" in (fn.key or "") or "_::" in fn.key and "InternalBitFlags" in fn.key:
            return True
        if fn.key in self.opts.get("opaque_fns", ()):
            return True
        if self.path is not None and fn.out.peel().h.rsplit("::", 1)[-1] in ("String", "str", "FName") and not any(self.P.is_arc(t, fn) for t in fn.ins):
            return True              # a name only: it moves no stream position
        return False

    def nonterminal(self, fn, args, fr, line, e, targs):
        self.setar(args)
        T = self.nts[fn.key]
        cur = self.opts.get("self_type")
        if T[0] == cur and fn.key != self.opts.get("root") and fn.key not in self.stack:
            return NotImplemented     # another entry point of the type under analysis: inline
        if fn.key == self.opts.get("root") and fn.key not in self.stack:
            return NotImplemented
        modes = []
        for t, a in zip(fn.ins, args):
            if t.h == "bool":
                x = self.truth(a)
                modes.append(x.v if isinstance(x, C) else "?")
        if T[4] is None:
            modes = []
        elif T[4] == "first":
            modes = modes[:1]
        else:
            modes = [T[4]]
        if T[3] is not None:
            modes.append("body" if T[3] == 0 else "tagged")
        val = args[T[2]] if T[1] == "w" and len(args) > T[2] else None
        other = frozenset()
        if T[1] == "r":
            ot = set()
            for i, a in enumerate(args):
                if not self.P.is_arc(fn.ins[i], fn) and fn.ins[i].h != "bool":
                    ot |= self.atoms(a)
            other = frozenset(ot)
        if self.opts.get("tolerant"):
            self.ntargs[self.nslot + 1] = (fn, [self.deepval(a) for a in args])
        if T[1] == "r" and self.optional_result(fn):
            p = ("#%d" % (self.nslot + 1),)
            if not self.feasible(fn, args, targs, fr, line, e, True):
                return self.nt_none(fn, args, targs, fr, line, e)
            if not self.feasible(fn, args, targs, fr, line, e, False):
                return self.mkopt(self.nt_event(fn, T, modes, val, other, line, fr))

            def some():
                return self.nt_event(fn, T, modes, val, other, line, fr)

            def none():
                return self.nt_none(fn, args, targs, fr, line, e)

            self.branch([(("some", p, ()), True, some), (("some", p, ()), False, none)])
            return Sy(p) if not self.dead() else TOP
        if self.side == "w" and self.opts.get("seeknodes"):
            self.ntargs[self.nslot + 1] = (fn, [self.deepval(a) for a in args])
        return self.nt_event(fn, T, modes, val, other, line, fr)

    def optional_result(self, fn):
        t = fn.out
        if t.h == RES:
            t = t.a[0]
        return t.h == OPT

    def feasible(self, fn, args, targs, fr, line, e, some):
        if self.path is not None:
            f = self.opts.get("feasible")
            return f(self, fn, some) if f else True
        keep = (self.st, len(self.res.edges), self.nn, self.nslot, self.nloop, self.ncell, len(self.patches), len(self.guards_used))
        nrets = [len(f.rets) for f in self.frames()]
        self.st = self.st.copy()
        nts, self.nts = self.nts, {k: v for k, v in self.nts.items() if k != fn.key}
        att = "some_only" if some else "none_only"
        old = getattr(self, att, ())
        setattr(self, att, old + (fn.key,))
        try:
            self.inline(fn, args, targs, fr, line, e)
            ok = not self.dead()
        finally:
            self.nts = nts
            setattr(self, att, old)
            (self.st, ne, self.nn, self.nslot, self.nloop, self.ncell, np_, ng) = keep
            del self.res.edges[ne:]
            del self.patches[np_:]
            del self.guards_used[ng:]
            for f, n in zip(self.frames(), nrets):
                del f.rets[n:]
        return ok

    def nt_none(self, fn, args, targs, fr, line, e):
        """the stream operations of a reader on the paths where it yields nothing"""
        nts, self.nts = self.nts, {k: v for k, v in self.nts.items() if k != fn.key}
        self.none_only = getattr(self, "none_only", ()) + (fn.key,)
        try:
            return self.inline(fn, args, targs, fr, line, e)
        finally:
            self.nts = nts
            self.none_only = self.none_only[:-1]

    def nt_event(self, fn, T, modes, val, other, line, fr):
        self.ntid += 1
        nid = self.nslot + 1
        hdr = modes and modes[0] is True and "tagged" not in modes
        nb = Ln(0, {("nt", nid): 1, **({("hdr", nid): 1} if hdr else {})})
        if hdr and self.path is not None and self.hdrat is None and self.st.bytes is not None:
            self.hdrat = lin_add(self.st.bytes, Ln(0, {("hdr", nid): 1}))
        s = self.emit(("nt", T[0], tuple(modes)), val, line, fr, None, None, nb)
        if T[1] == "w":
            # the returned size (if any) is the payload size of that call
            if "tagged" in modes and self.path is not None:
                return Ln(0, {("tag", nid): 1})
            if self.path is not None and T[0].startswith("unreal_asset_kismet::"):
                return Ln(0, {("mem", nid): 1})
            return Ln(0, {("nt", nid): 1}) if self.path is not None else Sy(("size#%d" % nid,))
        ev = self.slotev.get(self.nslot)
        if ev is not None:
            ev.val = Mx(other) if other else None
        return s

    def inline(self, fn, args, targs, fr, line, e):
        if self.depth > 40 or self.stack.count(fn.key) >= 2:
            self.note("recursion " + fn.key, e, fr)
            s = frozenset()
            for a in args:
                s |= self.atoms(a)
            if any(self.P.is_arc(t, fn) for t in fn.ins):
                return self.emit(("rec", fn.key), None, line, fr)
            return self.mix(s)
        sub = dict(zip(fn.gens, targs)) if len(fn.gens) == len(targs) else {}
        f2 = Frame(fn, fn.ctx, sub, None)
        for (t, p), a in zip(fn.b["params"], args):
            if p is not None:
                r = self.match(p, a, f2)
                self.bindall(r[1], f2)
        self.stack.append(fn.key)
        self.seen.add(fn.key)
        self.depth += 1
        self.framestack.append(f2)
        oldcont, self.curcont = self.curcont, None
        v = self.ev(fn.b["body"], f2)
        self.curcont = oldcont
        self.framestack.pop()
        self.depth -= 1
        self.stack.pop()
        v = self.finish(f2, v)
        if self.path is not None and fn.name == "write_property_guid" and not self.dead() and self.hdrat is None:
            self.hdrat = self.st.bytes
        return v

    # ------------------------------------------------------------ primitives
    def endian(self, targs):
        for t in targs:
            if t.h.endswith("::LittleEndian"):
                return "le"
            if t.h.endswith("::BigEndian"):
                return "be"
        return ""

    def pkind(self, n, targs):
        w = PRIM_W.get(n)
        if w is None:
            return None
        en = self.endian(targs) if w > 1 else ""
        return ("f%d%s" % (w, en)) if n[0] == "f" else ("w%d%s" % (w, en))

    def setar(self, args):
        if self.path is None:
            return
        self.curar = None
        for a in args:
            a = self.innerar(a)
            if isinstance(a, Ar):
                self.curar = a.id if str(a.id).startswith("tmp") else "main"
                return

    def prim(self, d, r, fn, targs, args, fr, line, e):
        self.setar(args)
        name, tr = d["n"], d["tr"] or ""
        trl = tr.rsplit("::", 1)[-1]
        if trl == "ReadBytesExt" and name.startswith("read_"):
            k = self.pkind(name[5:], targs)
            if k:
                w = PRIM_W[name[5:]]
                return self.emit(k, None, line, fr, name[5:], self.arid(args), Ln(w, {}))
            return self.emit("arr:" + name, None, line, fr)
        if trl == "WriteBytesExt" and name.startswith("write_"):
            k = self.pkind(name[6:], targs)
            if k:
                w = PRIM_W[name[6:]]
                self.emit(k, args[1], line, fr, name[6:], self.arid(args), Ln(w, {}))
                return UNIT
        if trl == "Read" and name == "read_exact":
            return self.read_exact(args, line, fr)
        if trl == "Read" and name in ("read_to_end", "read_to_string"):
            s = self.emit("rest", None, line, fr)
            self.setref(args[1], s)
            return Sy(s.p, ("len",))
        if trl == "Read" and name == "read":
            return self.read_exact(args, line, fr)
        if trl == "Write" and name in ("write_all", "write"):
            nb = self.write_bytes(args, line, fr, e)
            return nb if self.path is not None and name == "write" else UNIT
        if trl == "Write" and name in ("flush", "write_fmt"):
            return UNIT
        if trl == "Seek" or name in ("set_position", "position", "stream_position") and (trl == "ArchiveTrait" or (args and isinstance(self.deref(args[0]), Ar))):
            return self.seekop(name, args, line, fr)
        if trl == "ArchiveTrait":
            if name == "get_custom_version":
                t = targs[1] if len(targs) > 1 else targs[0]
                for t in targs:
                    if "custom_version" in t.h or t.h.split("::")[-1].startswith("F"):
                        pass
                return Ve("custom:" + targs[-1].h.split("::")[-1])
            if name in ("has_unversioned_properties", "use_event_driven_loader"):
                return Ve(name)
            if name == "get_object_version":
                return Ve("ObjectVersion")
            if name == "get_object_version_ue5":
                return Ve("ObjectVersionUE5")
            if name == "get_engine_version":
                return Ve("EngineVersion")
            if name == "get_archive_type":
                return Sy(("arc", "type"))
            if name == "get_mappings":
                return Ad(OPT, {0: {}}) if self.opts.get("no_mappings", True) else Sy(("arc", "mappings"))
            if name == "data_length":
                if self.opts.get("innerar") and self.opts.get("end") is not None:
                    return self.opts["end"]
                return Sy(("arc", "data_length"))
            if name in ("add_fname", "add_fname_with_number"):
                return self.mix(self.atoms(args[1])) if self.atoms(args[1]) else self.mix((), self.consts(args[1]))
            if name == "get_owned_name":
                return self.mix(self.atoms(args[1]))
            if name == "get_name_reference":
                return self.apply(args[2], [self.mix(self.atoms(args[1]))], fr)
            if name == "get_name_map":
                return Sy(("arc", "name_map"))
            if name.startswith("get_"):
                s = frozenset()
                for a in args[1:]:
                    s |= self.atoms(a)
                return Sy(("arc", name)) if not s else self.mix([(p, o + (name,)) for p, o in s])
        if trl in ("ArchiveReader", "ArchiveWriter", "UnrealReadExt", "UnrealWriteExt", "UnrealReadHelpers") or self.opts.get("prim_fns", {}).get(fn.key if fn else None):
            if self.opts.get("raw_level"):
                return NotImplemented
            if name in ("read_fstring", "read_fstring_len", "read_fstring_len_noterm", "read_fstring_noterm"):
                s = self.emit("fstr" + name[12:], None, line, fr)
                return s
            if name == "write_fstring":
                n = self.nslot + 1
                if self.opts.get("innerar"):
                    n = str(self.deepval(args[1]))      # equal texts take equal room
                self.emit("fstr", args[1], line, fr, None, self.arid(args), Ln(0, {("fstr", n): 1}))
                return Ln(0, {("fstr", n): 1}) if self.path is not None else Sy(("size#%d" % n,))
            if name == "read_guid":
                return self.emit("bytes16", None, line, fr, None, None, Ln(16, {}))
            if name == "write_guid":
                self.emit("bytes16", args[1], line, fr, None, None, Ln(16, {}))
                return UNIT
            if name == "read_bool":
                return self.emit("w1", None, line, fr, "bool", None, Ln(1, {}))
            if name == "write_bool":
                self.emit("w1", args[1], line, fr, "bool", None, Ln(1, {}))
                return UNIT
            if name == "read_fname":
                return self.emit("fname", None, line, fr, None, None, Ln(8, {}))
            if name == "write_fname":
                self.emit("fname", args[1], line, fr, None, None, Ln(8, {}))
                return UNIT
            if name == "read_fstring_name_header":
                return self.emit("fstr_hdr", None, line, fr)
        if name == "size_of" and d["k"].startswith("core::mem"):
            w = PRIM_W.get(targs[0].h)
            return C(w) if w else Sy(("sizeof:" + targs[0].s,))
        return NotImplemented

    def innerar(self, a, depth=0):
        """the archive behind a reader or writer that wraps one"""
        a = self.deref(a)
        if self.opts.get("innerar") and isinstance(a, Ad) and len(a.alts) == 1 and depth < 5:
            for n, x in next(iter(a.alts.values())).items():
                if n in ("asset_data", "name_map"):
                    continue
                x = self.innerar(x, depth + 1)
                if isinstance(x, Ar):
                    return x
        return a

    def arid(self, args):
        a = self.innerar(args[0])
        return a.id if isinstance(a, Ar) else None

    def setref(self, r, v):
        if isinstance(r, Rf):
            x = self.load(r.c, r.p)
            if isinstance(x, Rf):
                return self.setref(x, v)
            self.assign(r.c, r.p, v)

    def array_len(self, e, fr):
        """length of the array type behind a (coerced, borrowed) argument expression"""
        n = 0
        while isinstance(e, list) and e and n < 8:
            m = ARRAY_TY.search(self.ty(e, fr).s) if isinstance(e[1], int) else None
            if m:
                return int(m.group(1))
            if e[0] in ("ref", "deref", "cast") and len(e) > 3 and isinstance(e[3], list):
                e = e[3]
                n += 1
                continue
            break
        return None

    def write_bytes(self, args, line, fr, e):
        v = self.deref(args[1])
        nb = None
        if isinstance(v, Li) and v.items is not None:
            n = len(v.items)
        elif isinstance(v, Li) and v.e is None and not v.ln and self.opts.get("exact"):
            n = 0
        elif isinstance(v, C) and isinstance(v.v, (list, tuple)):
            n = len(v.v)
        else:
            n = self.array_len(e[4][1], fr) if e is not None and len(e[4]) > 1 else None
        if n is None:
            n = self.shape("n", v)
        if n is not None and n <= 3:
            for i in range(n):
                self.emit("w1", self.proj(v, ("i", i)), line, fr, None, self.arid(args), Ln(1, {}))
            return Ln(n, {})
        if n is not None:
            self.emit("bytes%d" % n, v, line, fr, None, self.arid(args), Ln(n, {}))
            return Ln(n, {})
        if isinstance(v, Sy):
            nb = self.aslin(Sy(v.p, ("len",)))
        elif isinstance(v, Ar) and self.path is not None:
            nb = self.others.get(v.id)
        elif isinstance(v, Ad) and v.k == "bytevec":
            nb = self.s_len([v], fr, (), None)
        self.byte_star(v, line, fr, self.arid(args), nb)
        return nb

    def byte_star(self, val, line, fr, ar=None, nb=None):
        """a byte run of unknown length: any number of single bytes"""
        if self.dead():
            return TOP
        if self.path is not None or self.st.patch is not None:
            return self.emit("bytes*", val, line, fr, None, ar, nb)
        self.nloop += 1
        L = self.nloop
        head = self.newnode()
        self.edge(self.st.node, None, head)
        self.st.node = head
        self.loopstack.append((L, frozenset()))
        s = self.emit("w1", val, line, fr, None, ar)
        if any("utf16" in o for _, o in self.atoms(val)):
            self.emit("w1", val, line, fr, None, ar)
        self.loopstack.pop()
        self.edge(self.st.node, ("kill", L), head)
        ex = self.newnode()
        self.edge(head, None, ex)
        self.st.node = ex
        return s

    def read_exact(self, args, line, fr):
        buf = args[1]
        v = self.deref(buf)
        if isinstance(v, Li) and v.items is not None:
            n = len(v.items)
            if n <= 3:
                self.setref(buf, Li(None, (), [self.emit("w1", None, line, fr, "u8", None, Ln(1, {})) for i in range(n)]))
                return UNIT
            s = self.emit("bytes%d" % n, None, line, fr, None, None, Ln(n, {}))
            if isinstance(s, Sy):
                self.setref(buf, Li(None, (), [Sy(s.p + ("[%d]" % i,)) for i in range(n)]))
            else:
                self.setref(buf, s)
            return UNIT
        if isinstance(v, Ad) and v.k == "zbuf":
            s = self.emit("bytes*", None, line, fr, None, None, v.alts[0]["0"])
            self.setref(buf, s)
            return UNIT
        ln = v.ln if isinstance(v, Li) else frozenset()
        s = self.byte_star(None, line, fr)
        if isinstance(s, Sy):
            ev = self.slotev[int(s.p[0][1:])]
            ev.val = Mx(ln) if ln else None
            self.setref(buf, Li(Sy(s.p + ("[]",)), ln | {(s.p, ())}))
        return UNIT

    def seekop(self, name, args, line, fr):
        if name in ("position", "stream_position"):
            if self.path is not None:
                if self.curar is not None and self.curar != "main":
                    return self.others.get(self.curar, Ln(0, {}))
                if self.opts.get("ra"):
                    return self.st.bytes
                if self.st.patch is not None:
                    return self.st.patch[1]
                b = self.st.bytes
                return Ln(b.k, {**b.t, ("start",): 1})
            if self.opts.get("seeknodes") and self.side == "w":
                n = self.newnode()
                self.edge(self.st.node, None, n)
                self.st.node = n
                self.notes.append(("pos", fr.fn.key, line, None, n, n))
                if self.opts.get("linear"):
                    return Ln(0, {("pos", n): 1})
                return Sy(("pos", str(n)))
            return Po(self.st.patch if self.st.patch is not None else self.st.node)
        if name == "rewind":
            tgt = ("start", C(0))
        elif name == "set_position":
            tgt = ("start", self.deref(args[1]))
        elif name == "seek":
            sf = self.deref(args[1])
            if isinstance(sf, Ad):
                i = next(iter(sf.alts))
                tgt = (("start", "end", "cur")[i], self.deref(sf.alts[i].get("0", TOP)))
            else:
                tgt = ("?", TOP)
        else:
            return TOP
        if self.opts.get("ra") and self.path is not None:
            x = self.aslin(tgt[1])
            if x is None:
                x = Ln(0, {("at", len(self.trace)): 1})
            elif tgt[0] == "end":
                x = lin_add(x, self.opts.get("end") or Ln(0, {("end",): 1}))
            elif tgt[0] == "cur":
                x = lin_add(x, self.st.bytes)
            if self.opts.get("innerar") and self.curar not in (None, "main"):
                self.others[self.curar] = x
                return x
            self.st.bytes = x
            return x
        if tgt[0] == "end":
            self.st.patch = None
            return Po(self.st.node)
        if tgt[0] == "start":
            if isinstance(tgt[1], Po):
                if tgt[1].n == self.st.node or self.eventfree(tgt[1].n, self.st.node):
                    self.st.patch = None
                elif self.side == "r" and self.path is None and self.st.patch is None:
                    # a reader going back re-reads from there (what it looked at was a peek)
                    n = self.newnode()
                    self.edge(tgt[1].n, None, n)
                    self.st.node = n
                else:
                    self.st.patch = tgt[1].n
                return tgt[1]
            if isinstance(tgt[1], Ln) and self.path is not None and self.st.bytes is not None:
                cur = lin_add(self.st.bytes, Ln(0, {("start",): 1}))
                self.st.patch = None if tgt[1] == cur else ("ln", tgt[1])
                return tgt[1]
            b = self.st.node
            if self.opts.get("seeknodes"):
                n = self.newnode()
                self.edge(b, None, n)
                self.st.node = n
            self.notes.append(("seek", fr.fn.key, line, tgt[1], b, self.st.node))
            return tgt[1]
        if tgt[0] == "cur":
            if isinstance(tgt[1], C) and isinstance(tgt[1].v, int):
                if tgt[1].v < 0 and self.side == "r" and self.path is None:
                    b = self.back(self.st.node, -tgt[1].v)
                    if b is not None:
                        n = self.newnode()
                        self.edge(b, None, n)
                        self.st.node = n
                        return Po(n)
                if tgt[1].v:
                    self.emit("skip%d" % tgt[1].v, None, line, fr)
                return Po(self.st.node)
            self.emit("skip*", tgt[1], line, fr)
            return TOP
        return TOP

    def eventfree(self, a, b):
        """only branching, no stream operation, between nodes a and b"""
        rev = {}
        for x, l, y in self.res.edges:
            if not isinstance(l, Event):
                rev.setdefault(y, []).append(x)
        st, seen = [b], {b}
        while st:
            x = st.pop()
            if x == a:
                return True
            for y in rev.get(x, ()):
                if y not in seen:
                    seen.add(y)
                    st.append(y)
        return False

    def back(self, node, n):
        """the node n bytes before node, if the way there is unique"""
        rev = {}
        for x, l, y in self.res.edges:
            rev.setdefault(y, []).append((x, l))
        while n > 0:
            p = rev.get(node, ())
            if len(p) != 1:
                return None
            node, l = p[0]
            if isinstance(l, Event):
                w = label_width(l.label)
                if w is None or w > n:
                    return None
                n -= w
        return node

    # ------------------------------------------------------------ std
    def std(self, d, r, fn, targs, args, fr, line, e):
        name = d["n"]
        if name in ("into", "from") and len(args) == 1 and len(targs) >= 2:
            src, dst = (targs[0], targs[1]) if name == "into" else (targs[1], targs[0])
            for i in self.P.impl_by.get(("core::convert::From", dst.h), ()):
                for n, k in i["items"]:
                    f2 = self.P.fns.get(k)
                    if n == "from" and f2 is not None and f2.b is not None and f2.ins[0].h == src.h and src.h in self.P.adts:
                        return self.inline(f2, args, targs, fr, line, e)
            if src.h == "bool" and dst.h in PRIM_W and dst.h != "bool":
                v = self.deref(args[0])
                if isinstance(v, C) and isinstance(v.v, bool):
                    return C(int(v.v))
                if isinstance(v, Cond):
                    return self.boolint(v)
        m = getattr(self, "s_" + name, None)
        if m is not None:
            x = m(args, fr, targs, d)
            if x is not NotImplemented:
                return x
        if name in ("from_le_bytes", "from_be_bytes") and self.opts.get("compose") is not None and isinstance(self.deref(args[0]), Li) and self.deref(args[0]).items:
            r = self.opts["compose"](name, *[self.deref(x) for x in self.deref(args[0]).items])
            if r is not None:
                return r
        if name in TRANSPARENT and args:
            return args[0]
        if name in ITER_SRC and args:
            it = self.mkiter(args[0])
            if name == "iter_mut" or name == "into_iter" and targs and targs[0].h == "&mut":
                it = self.places(it, args[0])
            if name in ("chunks", "chunks_exact") and self.opts.get("exact") and isinstance(self.deref(args[0]), Sy) and len(args) > 1:
                b = self.deref(args[0])
                p = b.p + (name, str(self.deref(args[1])))
                return It(Sy(b.p + ("[]",)), frozenset([(p, ("len",))]), [Sy(p + ("%d" % i,)) for i in range(self.pathlen(p))], (), Sy(p))
            if name in ("chunks", "chunks_exact") and self.opts.get("exact") and len(args) > 1 and isinstance(self.deref(args[0]), Li):
                l, c = self.deref(args[0]), self.num(self.deref(args[1]))
                if l.items is not None and c:
                    xs = list(l.items)
                    return self.mkiter(Li(None, (), [Li(None, (), xs[i:i + c]) for i in range(0, len(xs), c)]))
            if name == "encode_utf16" and self.path is not None and isinstance(self.deref(args[0]), Sy):
                b = self.deref(args[0])
                p = b.p + ("utf16",)
                return It(Sy(elemof(p)), frozenset([(p, ("len",))]), None, (), Sy(p))
            if name == "encode_utf16":
                return It(self.addop(it.e, "utf16"), it.ln, None, it.st)
            if targs and targs[0].peel().h.endswith("::IndexedMap") and name in ("into_iter", "iter", "iter_mut") or \
                    fn is not None and fn.self_ty is not None and fn.self_ty.peel().h.endswith("::IndexedMap") and name in ("into_iter", "iter", "iter_mut"):
                return self.indexed(it)
            if name in ("keys", "into_keys"):
                return It(self.proj(it.e, ("f", "0", 0)), it.ln, None if it.items is None else [self.proj(x, ("f", "0", 0)) for x in it.items], it.st)
            if name in ("values", "values_mut", "into_values"):
                return It(self.proj(it.e, ("f", "1", 0)), it.ln, None if it.items is None else [self.proj(x, ("f", "1", 0)) for x in it.items], it.st)
            return it
        if name in ("ge", "gt", "le", "lt", "eq", "ne") and len(args) == 2:
            if targs and targs[0].peel().h in self.opts.get("vertypes", ()):
                args = [self.coerce(a, targs[0], fr) if not isinstance(self.deref(a), Sy) or self.opts.get("selfver") and self.deref(a).p[0] == "self"
                        else a for a in args]
            return self.compare(name.capitalize(), args[0], args[1])
        # constructors used as functions: Some, Ok, tuple structs
        if "{constructor" in d["k"]:
            p = d["k"].split("::")
            if p[-2] in ("Some", "Ok"):
                return Ad(OPT if p[-2] == "Some" else RES, {1 if p[-2] == "Some" else 0: {"0": args[0]}})
            for ak in ("::".join(p[:-1]), "::".join(p[:-2])):
                a = self.P.adts.get(ak)
                if a:
                    vi = 0
                    for i, v in enumerate(a["v"]):
                        if v["n"] == p[-2]:
                            vi = i
                    return Ad(ak, {vi: {str(i): x for i, x in enumerate(args)}})
        if d["k"].startswith("core::panicking") or name in ("panic_fmt", "panic", "unreachable_display", "exit", "abort"):
            self.kill()
            return TOP
        return self.default_call(d, args, fr)

    def indexed(self, it):
        """elements of an IndexedMap are (position, key, value)"""
        def el(x):
            return Ad(TUP, {0: {"0": TOP, "1": self.proj(x, ("f", "0", 0)), "2": self.proj(x, ("f", "1", 0))}})
        return It(el(it.e), it.ln, None if it.items is None else [el(x) for x in it.items], it.st, it.src)

    def default_call(self, d, args, fr):
        name = d["n"]
        s = frozenset()
        clo = None
        for a in args:
            x = self.deref(a)
            if isinstance(x, (Cl, Fnr)):
                clo = x
                continue
            s |= self.atoms(x)
        if clo is not None:
            # an unmodelled higher-order function: its callback may run any number of times
            v = self.mix(s)
            n = len(clo.b["params"]) - 1 if isinstance(clo, Cl) else 1
            self.note("higher-order " + d["k"], None, fr)
            self.loop(lambda: self.apply(clo, [v] * max(0, n), fr), fr, None, (), zero=True)
        self.unknown[d["k"]] = self.unknown.get(d["k"], 0) + 1
        cs = frozenset()
        if s:
            return self.mix([(p, o + (name,)) for p, o in s])
        for a in args:
            cs |= self.consts(a)
        return Sy(("call:" + name,))

    # --- constructors / containers
    def s_default(self, a, fr, targs, d):
        t = targs[0] if targs else None
        if t is None:
            return TOP
        if t.h == "bool":
            return FALSE
        if t.h in PRIM_W:
            return C(0)
        if t.h == OPT:
            return Ad(OPT, {0: {}})
        if t.h.endswith("::Vec") or "Map" in t.h or t.h.endswith("String"):
            return Li()
        m = re.match(r"^\[(.+); (\d+)\]$", t.s) if self.opts.get("exact") else None
        if m and int(m.group(2)) <= 64:
            return Li(None, (), [self.s_default((), fr, t.a[:1], d)] * int(m.group(2)))
        ad = self.P.adts.get(t.h)
        if ad and ad["kind"] == "enum" and self.opts.get("exact"):
            for i, x in enumerate(ad["v"]):
                if "default" in x.get("attrs", ()) and not x["f"]:
                    return Ad(t.h, {i: {}})
        if ad and ad["kind"] == "struct":
            return Ad(t.h, {0: {}}, Sy(("default",)))
        return Sy(("default",))

    def s_new(self, a, fr, targs, d):
        k = d["k"]
        if not a:
            return Li()
        if "cursor" in k.lower():
            self.nar = getattr(self, "nar", 0) + 1
            return Ar("tmp%d" % self.nar)
        if "range" in k:
            return Ad("core::ops::range::RangeInclusive", {0: {"start": a[0], "end": a[1]}})
        if k.startswith("alloc::") or k.startswith("core::cell") or k.startswith("std::io::buffered"):
            return a[0]
        return NotImplemented

    def s_saturating_sub(self, a, fr, targs, d):
        x, y = self.num(self.deref(a[0])), self.num(self.deref(a[1]))
        if self.opts.get("facts") and (x is None or y is None):
            e = [self.aslin(self.deref(v)) for v in a[:2]]
            if None not in e:
                e = lin_add(e[0], e[1], -1)
                return C(0) if (e.k < 0 if not e.t else self.decide("Lt", e)) else e if e.t else C(e.k)
        if x is None or y is None:
            return NotImplemented
        return C(x - y) if x >= y else NotImplemented

    def s_contains(self, a, fr, targs, d):
        r = self.deref(a[0])
        if len(a) != 2 or not (isinstance(r, Ad) and r.k.startswith("core::ops::range::Range") and len(r.alts) == 1):
            return NotImplemented
        f, x = r.alts[0], self.deref(a[1])
        if self.num(x) is None and not isinstance(x, Ve):
            return NotImplemented
        for n, op in (("start", "Ge"), ("end", "Le" if r.k.endswith("Inclusive") else "Lt")):
            if n in f:
                y = self.deref(f[n])
                if self.num(y) is None and not isinstance(y, (Ve, Ad)):
                    return NotImplemented
                v = self.compare(op, x, y)
                if v == C(False):
                    return v
                if v != C(True):
                    return NotImplemented
        return C(True)

    def s_ends_with(self, a, fr, targs, d):
        v, q = (self.deref(x) for x in a[:2]) if len(a) == 2 else (None, None)
        if self.opts.get("errs") and isinstance(v, C) and isinstance(v.v, str) and isinstance(q, C) and isinstance(q.v, str):
            return C(getattr(v.v, {"ends_with": "endswith", "starts_with": "startswith"}[d["k"].rsplit("::", 1)[-1]])(q.v))
        return NotImplemented

    s_starts_with = s_ends_with

    def s_capacity(self, a, fr, targs, d):
        v = self.deref(a[0])
        if self.opts.get("innerar") and isinstance(v, Li) and not v.items:
            for p, o in v.ln:
                if p[0] == "#cap":
                    return C(int(p[1]))
            return C(0)
        if isinstance(v, Sy):
            return Sy(v.p, v.ops if v.ops and v.ops[-1] in ("len", "capacity") else v.ops + ("capacity",))
        if isinstance(v, Li) and v.ln:
            return self.mix([(p, o) for p, o in v.ln])
        return self.mix([(p, o if o and o[-1] in ("len", "capacity") else o + ("capacity",)) for p, o in self.atoms(v)])

    def s_with_capacity(self, a, fr, targs, d):
        if self.opts.get("innerar"):
            n = self.num(self.deref(a[0])) if a else None
            return Li(None, frozenset([(("#cap", str(n)), ())]) if n is not None else (), [])
        return Li()

    s_with_capacity_and_hasher = s_with_capacity
    s_new_uninit = s_with_capacity

    def s_from_elem(self, a, fr, targs, d):
        n = self.deref(a[1])
        if isinstance(n, C) and isinstance(n.v, int) and n.v <= 64:
            return Li(None, (), [a[0]] * n.v)
        if (self.opts.get("content") is not None or self.opts.get("errs")) and self.aslin(n) is not None:
            return Ad("zbuf", {0: {"0": self.aslin(n)}})
        return Li(a[0], self.atoms(n))

    def ctrl(self):
        s = frozenset()
        for L, c in self.loopstack:
            s |= c
        return s

    def innerctrl(self):
        return self.loopstack[-1][1] if self.loopstack else frozenset()

    def contupd(self, ref, elem, replace=False):
        cur = self.deref(ref)
        ctl = self.innerctrl()
        if isinstance(cur, Li):
            if cur.items is not None and (not self.loopstack or self.opts.get("exact")) and len(cur.items) < 64:
                nv = Li(None, cur.ln, list(cur.items) + [elem])
            elif cur.e is None and cur.items is None and (not self.loopstack or self.opts.get("exact")):
                nv = Li(None, cur.ln, [elem])
            elif self.path is not None and cur.e is None and not cur.items:
                nv = Li(elem, cur.ln | ctl)
            else:
                nv = Li(self.join(self.lielem(cur), elem), cur.ln | ctl)
        elif isinstance(cur, (Sy, Mx)):
            nv = Li(self.join(self.mkiter(cur).e, elem), self.mkiter(cur).ln | ctl)
        else:
            nv = Li(elem, ctl)
        self.setref(ref, nv)

    def s_push(self, a, fr, targs, d):
        self.contupd(a[0], self.deepval(a[1]))
        return UNIT

    s_push_back = s_push
    s_push_str = s_push

    def s_add_name_reference(self, a, fr, targs, d):
        if len(a) < 2 or not self.opts.get("selfver"):
            return NotImplemented
        self.contupd(a[0], self.deepval(a[1]))
        return TOP

    def s_insert(self, a, fr, targs, d):
        if len(a) == 3:
            self.contupd(a[0], Ad(TUP, {0: {"0": self.deepval(a[1]), "1": self.deepval(a[2])}}))
        else:
            self.contupd(a[0], a[1])
        return Ad(OPT, {0: {}})

    def pieces(self, v):
        """path mode: a byte vector as the values it was put together from"""
        v = self.deref(v)
        if isinstance(v, Ad) and v.k == "bytevec":
            return v.alts[0]["0"]
        if isinstance(v, Li) and (v.items == [] or v.items is None and v.e is None):
            return ()
        if isinstance(v, Sy):
            return (v,)
        return None

    def s_clear(self, a, fr, targs, d):
        if not self.opts.get("exact") or len(a) != 1 or not isinstance(a[0], Rf):
            return NotImplemented
        self.setref(a[0], Li())
        return UNIT

    def cut(self, v, r):
        """the pieces of a byte vector inside a constant range"""
        f = next(iter(r.alts.values()), {}) if len(r.alts) == 1 else {}
        lo, hi = self.num(self.deref(f.get("start", C(0)))), self.num(self.deref(f["end"])) if "end" in f else 1 << 62
        if "Inclusive" in r.k and hi is not None:
            hi += 1
        at, got = 0, []
        for x in v.alts[0]["0"]:
            n = self.aslin(Sy(x.p, ("len",)))
            if lo is None or hi is None or n is None or n.t:
                return Sy(("cut", str(v), str(r)))
            a, b = max(lo, at), min(hi, at + n.k)
            if (a, b) == (at, at + n.k):
                got.append(x)
            elif a < b:
                got.append(Sy(x.p + ("[%d..%d]" % (a - at, b - at), "#%d" % (b - a))))
            at += n.k
        return Ad("bytevec", {0: {"0": tuple(got)}})

    def s_extend(self, a, fr, targs, d):
        if self.opts.get("exact"):
            x, y = self.pieces(a[0]), self.pieces(a[1])
            if x is not None and y is not None and (x or y):
                self.setref(a[0], Ad("bytevec", {0: {"0": x + y}}))
                return UNIT
        it = self.mkiter(a[1])
        if it.st:
            it = self.collect(it, fr)
            it = self.mkiter(it)
        cur = self.deref(a[0])
        if isinstance(cur, Li) and it.items is not None and (cur.items is not None or cur.e is None):
            self.setref(a[0], Li(None, cur.ln, list(cur.items or []) + list(it.items)))
        elif isinstance(cur, Li):
            self.setref(a[0], Li(self.join(self.lielem(cur), it.e), cur.ln | it.ln))
        return UNIT

    s_extend_from_slice = s_extend
    s_append = s_extend

    def s_copy_from_slice(self, a, fr, targs, d):
        self.setref(a[0], self.deref(a[1]))
        return UNIT

    def s_resize(self, a, fr, targs, d):
        self.setref(a[0], Li(a[2], self.atoms(a[1])))
        return UNIT

    def s_ceil(self, a, fr, targs, d):
        v = self.deref(a[0])
        return self.ceilq(v.p[1], v.p[2]) if isinstance(v, Sy) and v.p[:1] == ("quot",) else NotImplemented

    def ceilq(self, x, y):
        """x / y rounded up; of a length: the number of chunks"""
        if isinstance(x, Sy) and x.ops == ("len",) and self.path is not None:
            return C(self.pathlen(x.p + ("chunks", str(y))))
        return Sy(("ceil", x, y))

    def s_div_ceil(self, a, fr, targs, d):
        x, y = self.deref(a[0]), self.deref(a[1])
        return self.ceilq(x, y) if isinstance(x, Sy) and isinstance(y, Sy) and self.opts.get("exact") else NotImplemented

    def s_unsigned_abs(self, a, fr, targs, d):
        v = self.deref(a[0])
        return C(abs(v.v)) if isinstance(v, C) and isinstance(v.v, int) else NotImplemented

    s_abs = s_unsigned_abs

    def s_update(self, a, fr, targs, d):
        if not (d["tr"] or "").startswith("digest::"):
            return NotImplemented
        v = self.deref(a[0])
        old = v.alts[0]["0"] if isinstance(v, Ad) and v.k == "hasher" else ()
        self.setref(a[0], Ad("hasher", {0: {"0": tuple(old) + (self.deref(a[1]),)}}))
        return UNIT

    def s_finalize(self, a, fr, targs, d):
        if not (d["tr"] or "").startswith("digest::"):
            return NotImplemented
        v = self.deref(a[0])
        return Ad("digest", {0: {"0": v.alts[0]["0"]}}) if isinstance(v, Ad) and v.k == "hasher" else TOP

    def s_digest(self, a, fr, targs, d):
        if not (d["tr"] or "").startswith("digest::"):
            return NotImplemented
        return Ad("digest", {0: {"0": (self.deref(a[0]),)}})

    def s_align_to(self, a, fr, targs, d):
        v = self.deref(a[0])
        if self.path is None or not isinstance(v, Sy) or v.p[-1:] != ("utf16",) or not targs or targs[-1].h != "u8":
            return NotImplemented
        return Ad(TUP, {0: {"0": Li(None, (), []), "1": Sy(v.p + ("bytes",)), "2": Li(None, (), [])}})

    def s_len(self, a, fr, targs, d):
        v = self.deref(a[0])
        if isinstance(v, Ar) and self.path is not None and v.id in self.others:
            return self.others[v.id]
        if isinstance(v, Ad) and v.k == "bytevec":
            n = Ln(0, {})
            for x in v.alts[0]["0"]:
                n = lin_add(n, self.aslin(Sy(x.p, ("len",))))
            return n
        if isinstance(v, Li):
            if v.items is not None:
                return C(len(v.items))
            if v.e is None and not v.ln:
                return C(0)
            if len(v.ln) == 1:
                p, o = next(iter(v.ln))
                return Sy(p, o)
            return self.mix(v.ln) if v.ln else TOP
        if isinstance(v, Sy):
            return Sy(v.p, lenop(v.ops))
        if isinstance(v, C) and isinstance(v.v, str):
            return C(len(v.v))
        if isinstance(v, It) and v.items is not None and not v.st and self.opts.get("exact"):
            return C(len(v.items))
        if isinstance(v, It):
            return self.mix(v.ln)
        return self.mix([(p, lenop(o)) for p, o in self.atoms(v)])

    s_count = s_len

    def s_is_empty(self, a, fr, targs, d):
        n = self.s_len(a, fr, targs, d)
        return self.compare("Eq", n, C(0))

    def solid(self, v):
        """made of constants only"""
        v = self.deref(v)
        if isinstance(v, C):
            return True
        if isinstance(v, Ad):
            return len(v.alts) == 1 and v.base is None and all(self.solid(x) for fs in v.alts.values() for x in fs.values())
        return isinstance(v, Li) and v.items is not None and all(self.solid(x) for x in v.items)

    def bykey(self, v, k):
        """exact mode: the entry of a map with that key; keys held by different symbols are different"""
        deep = self.opts.get("statics") is not None
        if not self.opts.get("exact") or not isinstance(v, Li) or v.items is None and v.e is not None or not isinstance(k, Sy) and not (deep and self.solid(k)):
            return None
        for x in v.items or ():
            x = self.deref(x)
            if not isinstance(x, Ad) or x.k != TUP:
                return None
            if deep and not isinstance(k, Sy):
                y = self.deepval(x.alts[0].get("0", TOP))
                if not self.solid(y):
                    return None
                if y == self.deepval(k):
                    return Ad(OPT, {1: {"0": x.alts[0].get("1", TOP)}})
                continue
            if self.deref(x.alts[0].get("0", TOP)) == k:
                return Ad(OPT, {1: {"0": x.alts[0].get("1", TOP)}})
        return Ad(OPT, {0: {}})

    def s_contains_key(self, a, fr, targs, d):
        r = self.bykey(self.deref(a[0]), self.deref(a[1])) if len(a) == 2 else None
        return NotImplemented if r is None else C(1 in r.alts)

    def s_get(self, a, fr, targs, d):
        if len(a) < 2:
            return a[0]
        v = self.deref(a[0])
        i = self.deref(a[1])
        if "::map::" in d["k"]:
            r = self.bykey(v, i)
            if r is not None:
                return r
        if isinstance(v, Li):
            if v.items is not None and isinstance(i, C) and isinstance(i.v, int):
                return Ad(OPT, {1: {"0": v.items[i.v]}}) if i.v < len(v.items) else Ad(OPT, {0: {}})
            e = self.lielem(v)
            if isinstance(e, Ad) and e.k == TUP and any(x in d["k"] for x in ("::map::", "indexed_map")):
                e = self.proj(e, ("f", "1", 0))
            return Ad(OPT, {1: {"0": e if e is not None else TOP}, 0: {}})
        at = self.atoms(v)
        return self.mix([(p + ("[]",), o) for p, o in at]) if at else TOP

    def s_index(self, a, fr, targs, d):
        v = self.deref(a[0])
        i = self.deref(a[1])
        if isinstance(i, Ad):       # range slicing
            if isinstance(v, Sy):
                return Sy(v.p, v.ops + ("slice",))
            if isinstance(v, Ad) and v.k == "bytevec":
                return self.cut(v, i)
            return v
        return self.proj(v, ("i", i.v) if isinstance(i, C) and isinstance(i.v, int) else ("i",))

    def s_index_mut(self, a, fr, targs, d):
        if isinstance(a[0], Rf):
            i = self.deref(a[1])
            r = a[0]
            x = self.load(r.c, r.p)
            while isinstance(x, Rf):
                r, x = x, self.load(x.c, x.p)
            if isinstance(i, Ad):
                return r
            return Rf(r.c, r.p + ((("i", i.v) if isinstance(i, C) and isinstance(i.v, int) else ("i",)),))
        return self.s_index(a, fr, targs, d)

    # --- Option / Result combinators
    def s_is_some(self, a, fr, targs, d):
        v = self.deref(a[0])
        if isinstance(v, Ad) and v.k == OPT:
            if len(v.alts) == 1:
                return C(1 in v.alts)
            return Cond(self.altkey(v, 1)[0], False, ())
        if isinstance(v, Sy):
            al = self.shape("o", v)
            if al is not None and len(al) == 1:
                return C(1 in al)
            return Cond(("some", v.p, v.ops), False, [(v.p, v.ops + ("some",))])
        return Cond(None, False, self.atoms(v))

    def s_is_none(self, a, fr, targs, d):
        c = self.s_is_some(a, fr, targs, d)
        if isinstance(c, C):
            return C(not c.v)
        return Cond(c.key, not c.neg, c.at)

    def s_is_ok(self, a, fr, targs, d):
        return TRUE

    def s_is_err(self, a, fr, targs, d):
        return FALSE

    def optmap(self, v, some, none):
        return self.branch([(k, pol, (lambda p=p: some(p)) if vi == 1 else none) for vi, p, k, pol in self.opt_alts(v)])

    def isres(self, d):
        return "result" in d["k"]

    def mkopt(self, v):
        return Ad(OPT, {1: {"0": v}})

    def isiter(self, d):
        return "iterator::Iterator" in d["k"] or "iter::" in d["k"]

    def s_map(self, a, fr, targs, d):
        if self.isiter(d):
            it = self.mkiter(a[0])
            return It(it.e, it.ln, it.items, it.st + (("map", a[1]),), it.src)
        if self.isres(d):
            v = self.unres(a[0])
            if self.dead():
                return TOP
            return Ad(RES, {0: {"0": self.apply(a[1], [v], fr)}})
        return self.optmap(a[0], lambda p: self.mkopt(self.apply(a[1], [p], fr)), lambda: Ad(OPT, {0: {}}))

    def unres(self, v):
        d = self.deref(v)
        if isinstance(d, Ad) and d.k == RES:
            if 0 not in d.alts:
                self.kill()
                return TOP
            return d.alts[0].get("0", TOP)
        return v

    def s_unwrap(self, a, fr, targs, d):
        v = self.deref(a[0])
        if isinstance(v, Ad) and v.k == RES:
            return self.unres(v)
        if isinstance(v, Ad) and v.k == OPT:
            if 1 not in v.alts:
                self.kill()
                return TOP
            self.guard(*self.altkey(v, 1))
            return v.alts[1].get("0", TOP)
        return a[0]

    s_expect = s_unwrap
    s_unwrap_unchecked = s_unwrap

    def s_ok_or(self, a, fr, targs, d):
        v = self.deref(a[0])
        if isinstance(v, Ad) and v.k == OPT:
            if 1 not in v.alts:
                if self.opts.get("errs"):
                    return Ad(RES, {1: {"0": Sy(("error",))}})
                self.kill()
                return TOP
            self.guard(*self.altkey(v, 1))
            return Ad(RES, {0: {"0": v.alts[1].get("0", TOP)}})
        if self.opts.get("exact") and isinstance(v, Sy) and self.assume.get(("some", v.p, v.ops)) is False:
            self.kill()
            return TOP
        return a[0]

    s_ok_or_else = s_ok_or

    def s_ok(self, a, fr, targs, d):
        v = self.deref(a[0])
        if isinstance(v, Ad) and v.k == RES:
            if 0 in v.alts:
                return self.mkopt(v.alts[0].get("0", TOP))
            return Ad(OPT, {0: {}})
        return self.mkopt(a[0]) if not isinstance(v, Ad) else a[0]

    def s_transpose(self, a, fr, targs, d):
        # Option<Result<T>> -> Result<Option<T>>: results are transparent
        v = self.deref(a[0])
        if isinstance(v, Ad) and v.k == OPT:
            alts = {}
            for i, fs in v.alts.items():
                alts[i] = {n: self.unres(x) for n, x in fs.items()}
            return Ad(OPT, alts)
        return a[0]

    def s_unwrap_or(self, a, fr, targs, d):
        v = self.deref(a[0])
        if self.isres(d):
            return self.unres(a[0])
        return self.optmap(a[0], lambda p: p, lambda: a[1])

    def s_unwrap_or_default(self, a, fr, targs, d):
        v = self.deref(a[0])
        if self.opts.get("tolerant") is not None and self.path is not None and not self.isres(d) and targs:
            return self.optmap(a[0], lambda p: p, lambda: self.s_default([], fr, targs[:1], d))
        if self.path is not None and not self.isres(d) and targs and targs[0].peel().h in ("[]", "slice", "alloc::vec::Vec"):
            return self.optmap(a[0], lambda p: p, lambda: Li(None, (), []))
        if isinstance(v, Ad) and v.k == OPT:
            if 1 in v.alts:
                return v.alts[1].get("0", TOP)
            if self.opts.get("statics") is not None and targs and targs[0].peel().h in ("[]", "slice"):
                return Li(None, (), [])
            return Sy(("default",))
        return a[0]

    def s_unwrap_or_else(self, a, fr, targs, d):
        if self.isres(d):
            return self.unres(a[0])
        return self.optmap(a[0], lambda p: p, lambda: self.apply(a[1], [], fr))

    def s_map_or(self, a, fr, targs, d):
        if self.isres(d):
            return self.apply(a[2], [self.unres(a[0])], fr)
        return self.optmap(a[0], lambda p: self.apply(a[2], [p], fr), lambda: a[1])

    def s_map_or_else(self, a, fr, targs, d):
        if self.isres(d):
            return self.apply(a[2], [self.unres(a[0])], fr)
        return self.optmap(a[0], lambda p: self.apply(a[2], [p], fr), lambda: self.apply(a[1], [], fr))

    def s_and_then(self, a, fr, targs, d):
        if self.isres(d):
            return self.apply(a[1], [self.unres(a[0])], fr)
        return self.optmap(a[0], lambda p: self.apply(a[1], [p], fr), lambda: Ad(OPT, {0: {}}))

    def s_is_some_and(self, a, fr, targs, d):
        return self.optmap(a[0], lambda p: self.apply(a[1], [p], fr), lambda: FALSE)

    def s_or_else(self, a, fr, targs, d):
        if self.isres(d):
            return a[0]
        return self.optmap(a[0], lambda p: self.mkopt(p), lambda: self.apply(a[1], [], fr))

    def s_or(self, a, fr, targs, d):
        if self.isres(d) or len(a) < 2:
            return a[0]
        return self.optmap(a[0], lambda p: self.mkopt(p), lambda: a[1])

    def s_write_box_via_move(self, a, fr, targs, d):
        return a[1]

    def s_get_or_insert_with(self, a, fr, targs, d):
        v = self.deref(a[0])
        r = a[0]
        x = self.load(r.c, r.p) if isinstance(r, Rf) else None
        while isinstance(x, Rf):
            r, x = x, self.load(x.c, x.p)
        if not isinstance(r, Rf) or not (isinstance(v, Ad) and v.k == OPT):
            return NotImplemented
        new = self.apply(a[1], [], fr) if 0 in v.alts else None
        if self.dead():
            return TOP
        if 1 in v.alts:
            new = self.join(v.alts[1].get("0", TOP), new) if new is not None else v.alts[1].get("0", TOP)
        self.assign(r.c, r.p, Ad(OPT, {1: {"0": new}}))
        return Rf(r.c, r.p + (("f", "0", 1),))

    def s_filter(self, a, fr, targs, d):
        if self.isiter(d):
            it = self.mkiter(a[0])
            return It(it.e, it.ln, it.items, it.st + (("filter", a[1]),), it.src)

        def some(p):
            t, f = self.cond_of(self.deref(self.apply(a[1], [p], fr)))
            outs = []
            if t is not None:
                outs.append((t, self.mkopt(p)))
            if f is not None:
                outs.append((f, Ad(OPT, {0: {}})))
            return self.merge(outs)

        return self.optmap(a[0], some, lambda: Ad(OPT, {0: {}}))

    def s_then(self, a, fr, targs, d):
        t, f = self.cond_of(self.deref(a[0]))
        outs = []
        if t is not None:
            self.st = t
            v = self.apply(a[1], [], fr)
            if not self.dead():
                outs.append((self.st, self.mkopt(v)))
        if f is not None:
            outs.append((f, Ad(OPT, {0: {}})))
        return self.merge(outs)

    def s_then_some(self, a, fr, targs, d):
        t, f = self.cond_of(self.deref(a[0]))
        outs = []
        if t is not None:
            outs.append((t, self.mkopt(a[1])))
        if f is not None:
            outs.append((f, Ad(OPT, {0: {}})))
        return self.merge(outs)

    def s_call_mut(self, a, fr, targs, d):
        t = self.deref(a[1])
        args = []
        if isinstance(t, Ad) and t.k == TUP:
            fs = t.alts[0]
            args = [fs[str(i)] for i in range(len(fs))]
        elif t is not UNIT:
            args = [t]
        return self.apply(a[0], args, fr)

    s_call = s_call_mut
    s_call_once = s_call_mut

    def s_from_residual(self, a, fr, targs, d):
        return Ad(RES, {1: {"0": TOP}})

    def s_drop(self, a, fr, targs, d):
        return UNIT

    def s_replace(self, a, fr, targs, d):
        if d["k"].startswith("core::mem"):
            old = self.deref(a[0])
            self.setref(a[0], a[1])
            return old
        return NotImplemented

    def s_take(self, a, fr, targs, d):
        if self.isiter(d):
            it = self.mkiter(a[0])
            n = self.deref(a[1])
            if it.items is not None and isinstance(n, C):
                return It(TOP, (), it.items[:n.v], it.st)
            return It(it.e, it.ln | self.atoms(n), None, it.st)
        old = self.deref(a[0])
        self.setref(a[0], Ad(OPT, {0: {}}) if "option" in d["k"] else Sy(("default",)))
        return old

    # --- iterators
    def s_enumerate(self, a, fr, targs, d):
        it = self.mkiter(a[0])
        if it.items is not None and not it.st:
            return It(TOP, it.ln, [Ad(TUP, {0: {"0": C(i), "1": x}}) for i, x in enumerate(it.items)])
        return self.wrapstage(it, lambda x: Ad(TUP, {0: {"0": Sy(("idx",)), "1": x}}))

    def wrapstage(self, it, f):
        return It(it.e, it.ln, it.items, it.st + (("map", Py(f)),), it.src)

    def s_zip(self, a, fr, targs, d):
        i1, i2 = self.mkiter(a[0]), self.mkiter(a[1])
        if i1.items is not None and i2.items is not None and not i1.st and not i2.st:
            return It(TOP, (), [Ad(TUP, {0: {"0": x, "1": y}}) for x, y in zip(i1.items, i2.items)])
        if i1.items is not None:
            i1 = It(self.lielem(Li(None, (), i1.items)), i1.ln, None, i1.st)
        e2 = i2.e if i2.items is None else self.lielem(Li(None, (), i2.items))
        return It(i1.e, i1.ln | i2.ln, None, i1.st + (("map", Py(lambda x: Ad(TUP, {0: {"0": x, "1": e2}}))),))

    def s_chain(self, a, fr, targs, d):
        if not self.isiter(d):
            return NotImplemented
        i1, i2 = self.mkiter(a[0]), self.mkiter(a[1])
        if i1.items is not None and i2.items is not None and not i1.st and not i2.st:
            return It(TOP, (), list(i1.items) + list(i2.items))
        return It(self.join(i1.e, i2.e), i1.ln | i2.ln, None, i1.st or i2.st)

    def s_rev(self, a, fr, targs, d):
        it = self.mkiter(a[0])
        return It(it.e, it.ln, list(reversed(it.items)) if it.items is not None else None, it.st, it.src)

    def s_skip(self, a, fr, targs, d):
        it = self.mkiter(a[0])
        n = self.deref(a[1])
        if it.items is not None and isinstance(n, C):
            return It(TOP, (), it.items[n.v:], it.st)
        return It(it.e, it.ln, None, it.st, it.src)

    def s_filter_map(self, a, fr, targs, d):
        it = self.mkiter(a[0])
        return It(it.e, it.ln, it.items, it.st + (("filter_map", a[1]),), it.src)

    def s_inspect(self, a, fr, targs, d):
        it = self.mkiter(a[0])
        return It(it.e, it.ln, it.items, it.st + (("inspect", a[1]),), it.src)

    def s_collect(self, a, fr, targs, d):
        return self.collect(self.mkiter(a[0]), fr)

    def collect(self, it, fr):
        if not it.st:
            if it.items is not None:
                return Li(None, it.ln, list(it.items))
            if isinstance(it.src, (Sy, Li)):
                return it.src
            return Li(it.e, it.ln)
        c = self.cell(Li())
        r = Rf(c)
        exact = it.items is not None

        def run(x):
            self.contupd(r, self.unres(x))

        self.iterate(it, run, fr)
        if self.dead():
            return TOP
        return self.deref(r)

    s_from_iter = s_collect

    def s_for_each(self, a, fr, targs, d):
        self.iterate(self.mkiter(a[0]), lambda x: self.apply(a[1], [x], fr), fr)
        return UNIT

    s_try_for_each = s_for_each

    def s_fold(self, a, fr, targs, d):
        c = self.cell(a[1])

        def run(x):
            v = self.unres(self.apply(a[2], [self.st.store.get(c, TOP), x], fr))
            if not self.dead():
                self.st.store[c] = v

        self.iterate(self.mkiter(a[0]), run, fr)
        return self.st.store.get(c, TOP)

    s_try_fold = s_fold

    def s_sum(self, a, fr, targs, d):
        c = self.cell(C(0))

        def run(x):
            self.st.store[c] = self.binop("Add", self.deref(self.st.store.get(c, TOP)), self.deref(self.unres(x)))

        self.iterate(self.mkiter(a[0]), run, fr)
        return self.st.store.get(c, TOP)

    def s_any(self, a, fr, targs, d):
        at = self.mkiter(a[0]).ln
        if len(a) > 1:
            self.iterate(self.mkiter(a[0]), lambda x: self.apply(a[1], [x], fr), fr)
        return Cond(None, False, at)

    s_all = s_any

    def s_find(self, a, fr, targs, d):
        if not self.isiter(d):
            return NotImplemented
        it = self.mkiter(a[0])
        if self.opts.get("exact") and it.items is not None and not it.st:
            for i, x in (enumerate(it.items) if d["n"] not in ("rfind", "rposition") else reversed(list(enumerate(it.items)))):
                t = self.truth(self.apply(a[1], [x], fr))
                if not isinstance(t, C):
                    break
                if t.v:
                    return Ad(OPT, {1: {"0": C(i) if d["n"] in ("position", "rposition") else x}})
            else:
                return Ad(OPT, {0: {}})
        self.iterate(it, lambda x: self.apply(a[1], [x], fr), fr)
        e = it.e if it.items is None else self.lielem(Li(None, (), it.items))
        return Ad(OPT, {1: {"0": e if e is not None else TOP}, 0: {}})

    s_rfind = s_rposition = s_find

    def s_find_map(self, a, fr, targs, d):
        it = self.mkiter(a[0])
        c = self.cell(Ad(OPT, {0: {}}))

        def run(x):
            self.st.store[c] = self.join(self.st.store.get(c), self.apply(a[1], [x], fr))

        self.iterate(it, run, fr)
        return self.st.store.get(c, TOP)

    def s_next(self, a, fr, targs, d):
        it = self.mkiter(a[0])
        if self.opts.get("exact") and it.items is not None and not it.st:
            if d["n"] == "last":
                return Ad(OPT, {1: {"0": it.items[-1]}}) if it.items else Ad(OPT, {0: {}})
            if d["n"] == "next" and isinstance(a[0], Rf):
                self.setref(a[0], It(it.e, it.ln, it.items[1:], (), it.src))
            return Ad(OPT, {1: {"0": it.items[0]}}) if it.items else Ad(OPT, {0: {}})
        return Ad(OPT, {1: {"0": it.e if it.items is None else (it.items[0] if it.items else TOP)}, 0: {}})

    s_first = s_next
    s_last = s_next

    def s_min(self, a, fr, targs, d):
        x = [lin(self.deref(v)) for v in a]
        if len(x) == 2 and all(v is not None and not v.t for v in x):
            return C((min if d["n"] == "min" else max)(v.k for v in x))
        if self.opts.get("facts") and len(a) == 2:
            x = [self.aslin(self.deref(v)) for v in a]
            if None not in x:
                e = lin_add(x[0], x[1], -1)
                r = (e.k < 0 if not e.t else self.decide("Lt", e)) == (d["n"] == "min")
                return a[0] if r else a[1]
        return self.mix(frozenset((p, o + ("min",)) for p, o in self.atoms(a[0]) | (self.atoms(a[1]) if len(a) > 1 else frozenset())))

    def s_add(self, a, fr, targs, d):
        return self.binop("Add", self.deref(a[0]), self.deref(a[1])) if len(a) == 2 else NotImplemented

    def s_sub(self, a, fr, targs, d):
        return self.binop("Sub", self.deref(a[0]), self.deref(a[1])) if len(a) == 2 else NotImplemented

    def s_bitor(self, a, fr, targs, d):
        return self.binop("BitOr", self.deref(a[0]), self.deref(a[1])) if len(a) == 2 else NotImplemented

    def s_bitand(self, a, fr, targs, d):
        return self.binop("BitAnd", self.deref(a[0]), self.deref(a[1])) if len(a) == 2 else NotImplemented

    def s_not(self, a, fr, targs, d):
        v = self.deref(a[0])
        return C(not v.v) if isinstance(v, C) and isinstance(v.v, bool) else NotImplemented

    def s_try_from(self, a, fr, targs, d):
        return a[0] if a else TOP

    s_from = s_try_from
    s_try_into = s_try_from
    s_from_bits_retain = s_try_from
    s_from_bits_truncate = s_try_from
    s_bits = s_try_from

    def s_from_bits(self, a, fr, targs, d):
        return a[0]

    def s_format(self, a, fr, targs, d):
        return self.mix([(p, o + ("format",)) for p, o in self.atoms(a[0])]) if a else TOP


class Py(V):
    __slots__ = ("f",)

    def __init__(self, f):
        self.f = f


_apply = Interp.apply


def apply2(self, f, args, fr):
    if isinstance(f, Py):
        return f.f(*args)
    return _apply(self, f, args, fr)


Interp.apply = apply2
