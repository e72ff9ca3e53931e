"""Symbolic normal forms of small functions (term rewriting over typed THIR).

term(fn) is a nested tuple: parameters, field projections, calls, tests.  References, clones and conversions that keep the value are erased,
locals are replaced by their definition, helpers of the workspace are unfolded, integer arithmetic is collected into linear forms.  Two functions
with equal normal forms compute the same value.  Anything else (loops, mutation through references) raises Unk: no verdict."""

SAME = {"clone", "to_owned", "as_ref", "as_mut", "borrow", "borrow_mut", "deref", "deref_mut", "as_slice", "copied", "cloned", "as_deref", "by_ref",
        "as_str", "as_mut_slice", "into_iter", "iter", "to_vec", "as_bytes", "unsize"}
INT = {"i8", "i16", "i32", "i64", "u8", "u16", "u32", "u64", "usize", "isize", "i128", "u128"}
BITS = {"i8": 8, "i16": 16, "i32": 32, "i64": 64, "u8": 8, "u16": 16, "u32": 32, "u64": 64, "usize": 64, "isize": 64}
RES = "core::result::Result"
OPT = "core::option::Option"


class Unk(Exception):
    pass


class Ret(Exception):
    pass


DIV = ("never",)


def lin(c, d):
    d = {k: v for k, v in d.items() if v}
    if not d:
        return ("lit", c)
    if c == 0 and len(d) == 1 and next(iter(d.values())) == 1:
        return next(iter(d))
    return ("lin", c, tuple(sorted(d.items(), key=repr)))


def unlin(t):
    if t[0] == "lit" and isinstance(t[1], int) and not isinstance(t[1], bool):
        return t[1], {}
    if t[0] == "lin":
        return t[1], dict(t[2])
    return 0, {t: 1}


def arith(op, a, b):
    ca, da = unlin(a)
    cb, db = unlin(b)
    if op in ("Add", "Sub"):
        s = 1 if op == "Add" else -1
        d = dict(da)
        for k, v in db.items():
            d[k] = d.get(k, 0) + s * v
        return lin(ca + s * cb, d)
    if op == "Mul" and (not da or not db):
        k, c, d = (ca, cb, db) if not da else (cb, ca, da)
        return lin(k * c, {x: k * v for x, v in d.items()})
    if op in ("Shl", "Shr", "BitAnd", "BitOr", "BitXor", "Div", "Rem") and not da and not db:
        try:
            return ("lit", {"Shl": lambda: ca << cb, "Shr": lambda: ca >> cb, "BitAnd": lambda: ca & cb, "BitOr": lambda: ca | cb,
                            "BitXor": lambda: ca ^ cb, "Div": lambda: ca // cb, "Rem": lambda: ca % cb}[op]())
        except (ValueError, ZeroDivisionError, KeyError):
            pass
    if op in ("BitAnd", "BitOr", "BitXor") and repr(b) < repr(a):
        a, b = b, a
    return ("bin", op, a, b)


FLIP = {"Lt": "Gt", "Gt": "Lt", "Le": "Ge", "Ge": "Le", "Eq": "Eq", "Ne": "Ne"}
NEG = {"Lt": "Ge", "Ge": "Lt", "Gt": "Le", "Le": "Gt", "Eq": "Ne", "Ne": "Eq"}


def test(op, a, b, integer=False):
    """canonical comparison; over integers a < b becomes  a - b + 1 <= 0"""
    if integer:
        if op in ("Gt", "Ge"):
            op, a, b = FLIP[op], b, a
        d = arith("Sub", a, b)
        if op == "Lt":
            d = arith("Add", d, ("lit", 1))
            op = "Le"
        if d[0] == "lit":
            return ("lit", {"Le": d[1] <= 0, "Eq": d[1] == 0, "Ne": d[1] != 0}[op])
        if op in ("Eq", "Ne"):
            e = arith("Mul", d, ("lit", -1))
            if repr(e) < repr(d):
                d = e
            return ("eq0", d) if op == "Eq" else ("not", ("eq0", d))
        return ("le0", d)
    if op in ("Gt", "Ge"):
        op, a, b = FLIP[op], b, a
    if op in ("Eq", "Ne"):
        if repr(b) < repr(a):
            a, b = b, a
        return ("cmp", "Eq", a, b) if op == "Eq" else ("not", ("cmp", "Eq", a, b))
    return ("cmp", op, a, b)


def neg(t):
    if t[0] == "not":
        return t[1]
    if t[0] == "lit":
        return ("lit", not t[1])
    if t[0] == "le0":      # not (d <= 0)  <=>  1 - d <= 0
        return ("le0", arith("Sub", ("lit", 1), t[1]))
    return ("not", t)


def mkif(c, a, b):
    if c == ("lit", True):
        return a
    if c == ("lit", False):
        return b
    if a == b:
        return a
    if c[0] == "not":
        c, a, b = c[1], b, a
    a, b = assume(a, c, True), assume(b, c, False)
    if a == b:
        return a
    if a == ("lit", True) and b == ("lit", False):
        return c
    if a == ("lit", False) and b == ("lit", True):
        return neg(c)
    if b == ("lit", False):
        return ("and", c, a)
    if a == ("lit", True):
        return ("or", c, b)
    return ("if", c, a, b)


def assume(t, c, val):
    """t under the assumption that test c has value val"""
    if not isinstance(t, tuple) or not t:
        return t
    if t == c:
        return ("lit", val)
    if t[0] == "if":
        x = assume(t[1], c, val)
        return mkif(x, assume(t[2], c, val), assume(t[3], c, val)) if x != t[1] else ("if", x, assume(t[2], c, val), assume(t[3], c, val))
    if t[0] in ("and", "or"):
        x, y = assume(t[1], c, val), assume(t[2], c, val)
        if (x, y) != t[1:]:
            return mkif(x, y, ("lit", False)) if t[0] == "and" else mkif(x, ("lit", True), y)
        return t
    if t[0] == "not":
        return neg(assume(t[1], c, val))
    return t


CONT = ("cont",)


def lams(t):
    """innermost-bound lambda number occurring free in the body of a lambda: the outermost level"""
    best = None
    st = [t]
    while st:
        x = st.pop()
        if isinstance(x, tuple):
            if len(x) == 3 and x[0] == "lp":
                best = x[1] if best is None else min(best, x[1])
            st.extend(x)
    return best


def subst(t, m, N):
    if not isinstance(t, tuple):
        return t
    if t in m:
        return m[t]
    r = tuple(subst(x, m, N) for x in t)
    if r == t:
        return t
    h = r[0]
    if h == "f":
        return N.proj(r[1], r[2])
    if h == "lin":
        acc = ("lit", r[1])
        for x, c in t[2]:
            acc = arith("Add", acc, arith("Mul", subst(x, m, N), ("lit", c)))
        return acc
    if h == "if":
        return mkif(r[1], r[2], r[3])
    if h in ("le0", "eq0") and r[1][0] == "lit":
        return ("lit", r[1][1] <= 0 if h == "le0" else r[1][1] == 0)
    if h == "not":
        return neg(r[1])
    if h == "and":
        return mkif(r[1], r[2], ("lit", False))
    if h == "or":
        return mkif(r[1], ("lit", True), r[2])
    return r


def leaves(t, f):
    if t[0] == "if":
        return mkif(t[1], leaves(t[2], f), leaves(t[3], f))
    return f(t)


def has_bind(p):
    if not isinstance(p, (list, tuple)) or not p:
        return False
    return p[0] == "bind" or any(has_bind(x) for x in p)


class Norm:
    def __init__(self, P, stop=lambda fn, d: False, deep=6, extra=None, casts=True):
        self.P, self.stop, self.deep, self.extra, self.erase_casts = P, stop, deep, extra, casts
        self.n = 0

    def fn(self, fn, args=None, depth=0):
        if fn.b is None:
            raise Unk("no body " + fn.key)
        env = {}
        for i, (ti, p) in enumerate(fn.b["params"]):
            a = args[i] if args is not None and i < len(args) else ("p", i)
            if p is not None:
                self.bind(p, a, env)
        return self.ret(fn.b["body"], env, fn, depth)

    def ret(self, body, env, fn, depth):
        return self.ex(body, env, fn, depth, lambda v, env: v, tail=True)

    # bindings -----------------------------------------------------------------------------------------------
    def bind(self, p, v, env):
        k = p[0]
        if k in ("_", "const"):
            return
        if k == "or" and not any(has_bind(x) for x in p[1]):
            return
        if k == "bind":
            env[p[1]] = v
            if p[4]:
                self.bind(p[4], v, env)
            return
        if k == "leaf":
            for n, s in p[2]:
                self.bind(s, self.proj(v, n), env)
            return
        if k == "variant":
            for n, s in p[3]:
                self.bind(s, self.proj(("as", p[1].split("::")[-1], p[2], v) if v[0] not in ("adt",) else v, n), env)
            return
        raise Unk("pattern " + k)

    def proj(self, v, n):
        n = str(n)
        if v[0] == "tuple" and n.isdigit() and int(n) < len(v) - 1:
            return v[1 + int(n)]
        if v[0] == "adt":
            for a, b in v[3]:
                if str(a) == n:
                    return b
        if v[0] == "as" and v[3][0] == "adt" and v[3][2] == v[2]:
            return self.proj(v[3], n)
        return ("f", v, n)

    def patc(self, p, v):
        """condition under which pattern p matches v"""
        k = p[0]
        if k in ("_",) or k == "bind" and not p[4]:
            return ("lit", True)
        if k == "bind":
            return self.patc(p[4], v)
        if k == "const":
            c = p[1]
            if isinstance(c, dict):
                from interp import strpat
                c = strpat(c)
                if c is None:
                    raise Unk("constant pattern")
            if isinstance(c, bool):
                return v if c else neg(v)
            return test("Eq", v, ("lit", c), isinstance(c, int))
        if k == "variant":
            c = ("is", p[1].split("::")[-1], p[2], v)
            if v[0] == "adt":
                c = ("lit", v[2] == p[2])
            for n, s in p[3]:
                c = self.conj(c, self.patc(s, self.proj(("as", p[1].split("::")[-1], p[2], v) if v[0] != "adt" else v, n)))
            return c
        if k == "leaf":
            c = ("lit", True)
            for n, s in p[2]:
                c = self.conj(c, self.patc(s, self.proj(v, n)))
            return c
        if k == "or":
            c = ("lit", False)
            for s in p[1]:
                c = mkif(c, ("lit", True), self.patc(s, v))
            return c
        raise Unk("pattern " + k)

    def conj(self, a, b):
        return mkif(a, b, ("lit", False))

    # expressions ----------------------------------------------------------------------------------------------
    def ex(self, e, env, fn, depth, k, tail=False):
        """value of e handed to continuation k(value, env); control flow (return, ?) short-circuits to the function's result"""
        self.n += 1
        if self.n > 20000:
            raise Unk("too large")
        h = e[0]
        if h in ("ref", "deref", "scope", "use"):
            return self.ex(e[3], env, fn, depth, k)
        if h == "cast":
            def c1(v, env):
                t = fn.ctx.tys[e[1]].h
                if self.erase_casts or v[0] == "lit":
                    return k(v, env)
                return k(("cast", t, v), env)
            return self.ex(e[3], env, fn, depth, c1)
        if h == "lit":
            return k(("lit", e[3]), env)
        if h == "const":
            if e[4] is not None:
                return k(("lit", e[4]), env)
            return k(("const", fn.ctx.defs[e[3]]["k"]), env)
        if h == "static":
            return k(("const", fn.ctx.defs[e[3]]["k"]), env)
        if h == "constparam" or h == "zst":
            return k(("const", str(e[3])), env)
        if h == "fnref":
            return k(("fn", fn.ctx.defs[e[3][0][0] if isinstance(e[3][0], list) else e[3][0]]["n"]), env)
        if h == "var":
            if e[3] not in env:
                return k(("var", e[3]), env)
            return k(env[e[3]], env)
        if h == "field":
            return self.ex(e[3], env, fn, depth, lambda v, env: k(self.proj(v, e[4]), env))
        if h == "index":
            return self.many([e[3], e[4]], env, fn, depth, lambda vs, env: k(("index", vs[0], vs[1]), env))
        if h == "tuple":
            return self.many(e[3], env, fn, depth, lambda vs, env: k(("tuple",) + tuple(vs), env))
        if h == "array":
            return self.many(e[3], env, fn, depth, lambda vs, env: k(("array",) + tuple(vs), env))
        if h == "repeat":
            return self.ex(e[3], env, fn, depth, lambda v, env: k(("repeat", v, e[4]), env))
        if h == "adt":
            if e[6]:
                raise Unk("functional update")
            ns = [str(n) for n, _ in e[5]]
            return self.many([x for _, x in e[5]], env, fn, depth,
                             lambda vs, env: k(("adt", e[3].split("::")[-1], e[4], tuple(sorted(zip(ns, vs)))), env))
        if h == "bin":
            def b1(vs, env):
                t = fn.ctx.tys[e[4][1]].peel().h
                if e[3] in FLIP:
                    return k(test(e[3], vs[0], vs[1], t in INT or t == "char"), env)
                if t in INT and e[3] == "Shl" and not self.erase_casts:
                    x = arith(e[3], vs[0], vs[1])
                    return k(x if x[0] == "lit" else ("cast", t, x), env)
                if t in INT:
                    return k(arith(e[3], vs[0], vs[1]), env)
                if t == "bool" and e[3] in ("BitAnd", "BitOr"):
                    return k(mkif(vs[0], vs[1], ("lit", False)) if e[3] == "BitAnd" else mkif(vs[0], ("lit", True), vs[1]), env)
                return k(("bin", e[3], vs[0], vs[1]), env)
            return self.many([e[4], e[5]], env, fn, depth, b1)
        if h == "un":
            def u1(v, env):
                t = fn.ctx.tys[e[1]].peel().h
                if e[3] == "Neg" and t in INT:
                    return k(arith("Mul", v, ("lit", -1)), env)
                if e[3] == "Not" and t == "bool":
                    return k(neg(v), env)
                return k(("un", e[3], v), env)
            return self.ex(e[4], env, fn, depth, u1)
        if h == "logic":
            def l1(a, env):
                def l2(b, env2):
                    return k(mkif(a, b, ("lit", False)) if e[3] == "And" else mkif(a, ("lit", True), b), env)
                return self.ex(e[5], dict(env), fn, depth, l2)
            return self.ex(e[4], env, fn, depth, l1)
        if h == "if":
            return self.cond(e[3], env, fn, depth, lambda env: self.ex(e[4], dict(env), fn, depth, k) if e[4] else k(("tuple",), env),
                             lambda env: self.ex(e[5], dict(env), fn, depth, k) if e[5] else k(("tuple",), env))
        if h == "match":
            return self.match(e, env, fn, depth, k)
        if h == "block":
            return self.stmts(e[3][0], 0, e[3][1], env, fn, depth, k)
        if h == "let":
            raise Unk("let")
        if h == "return":
            if e[3] is None:
                return ("tuple",)
            return self.ex(e[3], env, fn, depth, lambda v, env: self.returned(v, env))
        if h == "assign" and e[3][0] == "var":
            def a1(v, env):
                env = dict(env)
                env[e[3][3]] = v
                return k(("tuple",), env)
            return self.ex(e[4], env, fn, depth, a1)
        if h == "continue" and getattr(self, "cont", None) is not None:
            return self.cont(None, env)
        if h == "call":
            return self.call(e, env, fn, depth, k)
        if h == "closure":
            self.lam = getattr(self, "lam", 0) + 1
            lv = self.lam
            try:
                env2 = dict(env)
                b = e[4]
                for i, (ti, p) in enumerate(b["params"]):
                    if p is not None:
                        self.bind(p, ("lp", lv, i), env2)
                t = self.ex(b["body"], env2, fn, depth, lambda v, _: v)
            finally:
                self.lam -= 1
            return k(("lambda", t), env)
        if h in ("neverany", "coerce"):
            return self.ex(e[3], env, fn, depth, k)
        raise Unk(h)

    def returned(self, v, env):
        return v

    def many(self, es, env, fn, depth, k):
        def go(i, acc, env):
            if i == len(es):
                return k(acc, env)
            return self.ex(es[i], env, fn, depth, lambda v, env: go(i + 1, acc + [v], env))
        return go(0, [], env)

    def cond(self, c, env, fn, depth, yes, no):
        """if with let-chains"""
        if c[0] == "iflet":
            def m(v, env):
                t = self.patc(c[3], v)
                env2 = dict(env)
                self.bind(c[3], v, env2)
                return mkif(t, yes(env2) if t != ("lit", False) else DIV, no(env) if t != ("lit", True) else DIV)
            return self.ex(c[4], env, fn, depth, m)
        if c[0] == "logic" and c[3] == "And":
            return self.cond(c[4], env, fn, depth, lambda env2: self.cond(c[5], env2, fn, depth, yes, lambda _: no(env)), no)
        if c[0] in ("use", "scope"):
            return self.cond(c[3], env, fn, depth, yes, no)
        return self.ex(c, env, fn, depth, lambda v, env: mkif(v, yes(env) if v != ("lit", False) else DIV, no(env) if v != ("lit", True) else DIV))

    def match(self, e, env, fn, depth, k):
        src, scrut, arms = e[3], e[4], e[5]
        s = scrut
        while s[0] in ("use", "scope"):
            s = s[3]
        if s[0] == "call" and isinstance(s[3], list) and isinstance(s[3][0], int) and fn.ctx.defs[s[3][0]]["n"] == "branch":
            s = s[4][0]
            return self.ex(s, env, fn, depth, lambda v, env: self.try_(v, env, k))

        if src == "for" and getattr(self, "loops", False):
            return self.search(e, env, fn, depth, k)

        def m(v, env):
            def go(i):
                if i == len(arms):
                    return DIV
                p, g, b = arms[i]
                t = self.patc(p, v)
                if t == ("lit", False):
                    return go(i + 1)
                env2 = dict(env)
                self.bind(p, v, env2)
                if g is not None:
                    return mkif(t, self.cond(g, env2, fn, depth, lambda e3: self.ex(b, e3, fn, depth, k), lambda _: go(i + 1)),
                                go(i + 1) if t != ("lit", True) else DIV)
                if t == ("lit", True) or i == len(arms) - 1:
                    return self.ex(b, env2, fn, depth, k)
                return mkif(t, self.ex(b, env2, fn, depth, k), go(i + 1))
            return go(0)
        return self.ex(scrut, env, fn, depth, m)

    def search(self, e, env, fn, depth, k):
        """a loop that changes nothing and may return early: the first element for which the body returns decides"""
        loop = e[5][0][2]
        m = None
        for x in ([s[1] for s in loop[3][3][0] if s[0] == "e"] + ([loop[3][3][1]] if loop[3][3][1] is not None else [])):
            if x[0] == "match" and x[3] == "for":
                m = x
        if m is None:
            raise Unk("loop")
        pat, body = next(((p[3][0][1], b) for p, g, b in m[5] if p[0] == "variant" and p[2] == 1), (None, None))

        def run(v, env):
            self.lam = getattr(self, "lam", 0) + 1
            n = self.lam
            dom, el = self.domain(v, n)
            env2 = dict(env)
            self.bind(pat, el, env2)

            def end(_, e3):
                if any(e3.get(x) != env[x] for x in env):
                    raise Unk("loop changes a local")
                return CONT
            saved = getattr(self, "cont", None)
            self.cont = end
            try:
                b = self.ex(body, env2, fn, depth, end)
            finally:
                self.cont = saved
                self.lam -= 1
            return ("search", dom, n, b, k(("tuple",), env))
        return self.ex(e[4][4][0], env, fn, depth, run)

    def domain(self, v, n):
        i = ("i", n)
        if v[0] == "adt" and v[1] == "Range":
            a, b = self.proj(v, "start"), self.proj(v, "end")
            if a == ("lit", 0) and b[0] == "call" and b[1] == "len":
                return b[2][0], i
            c, ts = unlin(b)
            if a[0] == "lit" and (a[1] or c) and len(ts) == 1 and next(iter(ts.values())) == 1 and next(iter(ts))[:2] == ("call", "len"):
                # not all positions
                return ("part", next(iter(ts))[2][0], a[1], c), i
            raise Unk("range")
        if v[0] == "call" and v[1] == "enumerate":
            return v[2][0], ("tuple", i, ("index", v[2][0], i))
        if v[0] == "call" and v[1] in ("skip", "take", "step_by") and len(v[2]) == 2 and v[2][1][0] == "lit" and v[2][1][1] != {"skip": 0, "step_by": 1}.get(v[1]):
            d, e = self.domain(v[2][0], n)
            return ("part", d, v[1], v[2][1][1]), e
        if v[0] == "call":
            raise Unk("iterator " + v[1])
        return v, ("index", v, i)

    def apply(self, f, args):
        if f[0] == "lambda":
            lv = lams(f[1])
            if lv is None:
                return f[1]
            return subst(f[1], {("lp", lv, i + 1): a for i, a in enumerate(args)}, self)
        raise Unk("function value")

    def option(self, name, vs):
        """combinators on options and results, through tests and searches"""
        v = vs[0]
        if v[0] == "if":
            return mkif(v[1], self.option(name, [v[2]] + vs[1:]), self.option(name, [v[3]] + vs[1:]))
        if v[0] == "search":
            b = leaves(v[3], lambda x: x if x == CONT else self.option(name, [x] + vs[1:]))
            return ("search", v[1], v[2], b, self.option(name, [v[4]] + vs[1:]))
        if v[0] != "adt" or v[1] not in ("Option", "Result"):
            return None
        o = v[1] == "Option"
        good = v[2] == (1 if o else 0)
        x = self.proj(v, "0") if v[3] else None
        some = lambda y: ("adt", "Option", 1, (("0", y),))
        ok = lambda y: ("adt", "Result", 0, (("0", y),))
        none = ("adt", "Option", 0, ())
        if name == "map":
            return (some if o else ok)(self.apply(vs[1], [x])) if good else v
        if name == "and_then":
            return self.apply(vs[1], [x]) if good else v
        if name == "filter":
            return mkif(self.apply(vs[1], [x]), v, none) if good else v
        if name == "ok_or":
            return ok(x) if good else ("adt", "Result", 1, (("0", vs[1]),))
        if name == "ok_or_else":
            return ok(x) if good else ("adt", "Result", 1, (("0", self.apply(vs[1], [])),))
        if name == "ok":
            return some(x) if good else none
        if name in ("is_some", "is_ok"):
            return ("lit", good)
        if name in ("is_none", "is_err"):
            return ("lit", not good)
        if name == "unwrap_or":
            return x if good else vs[1]
        return None

    def try_(self, v, env, k):
        if v[0] == "adt" and v[1] in ("Result", "Option"):
            good = 0 if v[1] == "Result" else 1
            if v[2] == good:
                return k(self.proj(v, "0"), env)
            return v
        if v[0] == "if":
            return mkif(v[1], self.try_(v[2], env, k), self.try_(v[3], env, k))
        if v[0] == "search":
            return ("search", v[1], v[2], leaves(v[3], lambda x: x if x == CONT else self.try_(x, env, k)), self.try_(v[4], env, k))
        r = k(("ok", v), env)
        return ("try", v, r) if r != ("adt", "Result", 0, (("0", ("ok", v)),)) else v

    def stmts(self, ss, i, tail, env, fn, depth, k):
        if i == len(ss):
            if tail is None:
                return k(("tuple",), env)
            return self.ex(tail, env, fn, depth, k)
        s = ss[i]
        rest = lambda env: self.stmts(ss, i + 1, tail, env, fn, depth, k)
        if s[0] == "e":
            x = s[1]
            while x[0] in ("use", "scope", "neverany"):
                x = x[3]
            if x[0] == "return":
                return self.ex(x, env, fn, depth, lambda v, e2: v)

            def after(v, env2):
                # effects of plain expression statements are ignored only when they have none: calls keep their place
                if v[0] in ("call", "try", "ok") and x[0] not in ("if", "match", "block"):
                    return ("seq", v, rest(env2))
                return rest(env2)
            return self.ex(x, env, fn, depth, after)
        if s[0] == "let":
            p, init, els = s[1], s[2], s[3]
            if init is None:
                return rest(dict(env))

            def l(v, env):
                env2 = dict(env)
                self.bind(p, v, env2)
                if els is not None:
                    t = self.patc(p, v)
                    return mkif(t, rest(env2), self.ex(els, dict(env), fn, depth, lambda v, e3: v))
                return rest(env2)
            return self.ex(init, env, fn, depth, l)
        raise Unk("statement " + str(s[0]))

    # calls --------------------------------------------------------------------------------------------------------
    def call(self, e, env, fn, depth, k):
        spec = e[3]
        if not isinstance(spec, list) or not spec or not isinstance(spec[0], int):
            raise Unk("indirect call")
        d = fn.ctx.defs[spec[0]]
        r = fn.ctx.defs[spec[2]] if spec[2] is not None else None
        name = d["n"]
        tgt = self.P.fns.get((r or d)["k"])

        def done(vs, env):
            if self.extra is not None:
                x = self.extra(self, name, d, tgt, vs, e, fn)
                if x is not None:
                    return k(x, env)
            if getattr(self, "loops", False) and vs:
                if name in ("get", "get_mut") and len(vs) == 2 and tgt is None:
                    c, i = vs
                    some = ("adt", "Option", 1, (("0", ("index", c, i)),))
                    none = ("adt", "Option", 0, ())
                    return k(mkif(test("Ge", i, ("lit", 0), True), mkif(test("Lt", i, ("call", "len", (c,)), True), some, none), none), env)
                if name == "try_from" and len(vs) == 1 and tgt is None:
                    return k(mkif(test("Ge", vs[0], ("lit", 0), True), ("adt", "Result", 0, (("0", vs[0]),)), ("adt", "Result", 1, (("0", ("tuple",)),))), env)
                if name in ("position", "find") and len(vs) == 2 and tgt is None:
                    self.lam = getattr(self, "lam", 0) + 1
                    try:
                        n = self.lam + 100
                        dom, el = self.domain(vs[0], n)
                        b = mkif(self.apply(vs[1], [el]), ("adt", "Option", 1, (("0", ("i", n) if name == "position" else el),)), CONT)
                    finally:
                        self.lam -= 1
                    return k(("search", dom, n, b, ("adt", "Option", 0, ())), env)
                if tgt is None or tgt.b is None:
                    r2 = self.option(name, list(vs))
                    if r2 is not None:
                        return k(r2, env)
            if name in ("index", "index_mut") and len(vs) == 2:
                return k(("index", vs[0], vs[1]), env)
            if name in SAME and len(vs) == 1:
                return k(vs[0], env)
            if name in ("into", "from") and len(vs) == 1 and self.same_value(e, fn, tgt):
                return k(vs[0], env)
            if name in ("lt", "le", "gt", "ge", "eq", "ne") and len(vs) == 2 and (tgt is None or tgt.impl_trait is None or not tgt.b or "derive" in str(tgt.exp)
                                                                                  or tgt.impl_trait.startswith("core::cmp")):
                return k(test(name.capitalize(), vs[0], vs[1], False), env)
            if name in ("wrapping_add", "wrapping_sub", "wrapping_neg", "wrapping_mul") and vs:
                op = {"wrapping_add": "Add", "wrapping_sub": "Sub", "wrapping_mul": "Mul"}.get(name)
                return k(arith(op, vs[0], vs[1]) if op else arith("Mul", vs[0], ("lit", -1)), env)
            if tgt is not None and tgt.b is not None and depth < self.deep and not self.stop(tgt, d):
                try:
                    return k(self.fn(tgt, vs, depth + 1), env)
                except Unk:
                    pass
            return k(("call", name, tuple(vs)), env)
        return self.many(e[4], env, fn, depth, done)

    def same_value(self, e, fn, tgt):
        return tgt is None or tgt.b is None
