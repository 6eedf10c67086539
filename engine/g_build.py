"""The regex builder: trees, refusals, containment, options; the generic bottom-up traversal"""
import contracts
import oracle
from framework import *
from g_parse import Hirs, canon, norm, string
from models import seq

MK = "RegexBuilder::mk"
NARY = ("And", "Or", "Concat")
UN = ("LookAhead", "Not", "Repeat", "Prefixes")
LEAF = ("EmptyString", "NoMatch", "Regex", "Literal", "ByteLiteral", "Byte", "ByteSet", "ExprRef")


class Asts:
    def __init__(self, P, u):
        self.P = P
        self.u = u
        self.t = P.adt("RegexAst")
        self.v = {v["name"]: i for i, v in enumerate(P.types[self.t]["variants"])}
        missing = [x for x in NARY + UN + LEAF if x not in self.v]
        if missing:
            raise Undecided("no RegexAst variant " + missing[0])

    def string(self, s):
        return Vec(list(s.encode()))

    def node(self, t):
        k = t[0]
        v = self.v[k]
        if k in NARY:
            f = [Vec([self.node(x) for x in t[1]])]
        elif k == "Repeat":
            f = [Box(self.node(t[1])), t[2], t[3]]
        elif k in UN:
            f = [Box(self.node(t[1]))]
        elif k in ("Regex", "Literal"):
            f = [self.string(t[1])]
        elif k in ("ByteLiteral", "ByteSet"):
            f = [Vec(list(t[1]))]
        elif k == "ExprRef":
            f = [self.u.ref(t[1])]
        elif k == "Byte":
            f = [t[1]]
        else:
            f = []
        return Agg("adt", self.t, v, f)


def builder(P, u, opts=None):
    """a value of RegexBuilder around the abstract expression set"""
    t = P.adt("RegexBuilder")
    et = P.adt("ExprSet")
    f = []
    for name, ty in [(x[0], x[1]) for x in P.types[t]["variants"][0]["fields"]]:
        p = P.types[ty].get("path") or ""
        if ty == et:
            f.append(u.es)
        elif p.endswith("ParserBuilder"):
            f.append(Opaque("parserbuilder", dict(opts or {})))
        else:
            raise Undecided("field %s of RegexBuilder" % name)
    return [Agg("adt", t, 0, f)]


def show(t):
    k = t[0]
    if k in NARY:
        return k + "(" + ", ".join(show(x) for x in t[1]) + ")"
    if k == "Repeat":
        return "Repeat(%s, %s, %s)" % (show(t[1]), t[2], t[3])
    if k in UN:
        return "%s(%s)" % (k, show(t[1]))
    if len(t) > 1:
        return "%s(%r)" % (k, t[1])
    return k


def den(A, t):
    k = t[0]
    if k in NARY:
        return A.op(k, [den(A, x) for x in t[1]], [])
    if k == "Repeat":
        return A.op(k, [den(A, t[1])], [t[2], t[3]])
    if k == "LookAhead":
        return A.op("Lookahead", [den(A, t[1])], [0])
    if k in UN:
        return A.op(k, [den(A, t[1])], [])
    if k in ("EmptyString", "NoMatch"):
        return A.op(k, None, [])
    if k == "Byte":
        return A.op("Byte", None, [t[1]])
    if k == "ByteSet":
        l = [A.op("Byte", None, [b]) for b in range(3) if t[1][0] >> b & 1]
        return A.op("Or", l, []) if l else A.op("NoMatch", None, [])
    if k in ("Literal", "ByteLiteral"):
        b = t[1].encode() if isinstance(t[1], str) else bytes(t[1])
        l = [A.op("Byte", None, [x]) for x in b]
        return A.op("Concat", l, []) if l else A.op("EmptyString", None, [])
    if k == "Regex":
        return A.op("Or", [den(A, ("Literal", x)) for x in TEXTS.get(t[1], (t[1],))], [])
    if k == "ExprRef":
        return A.den(t[1])
    raise Undecided(k)


# pattern texts and their words
TEXTS = {
    "\x00|\x01": ("\x00", "\x01"),
    "\x01|\x00": ("\x01", "\x00"),
    "\x02\x00|\x01": ("\x02\x00", "\x01"),
    "\x01|\x00\x02": ("\x01", "\x00\x02"),
    "\x00\x01": ("\x00\x01",),
    "(\x00)": ("\x00",),
    "\x00|\x00\x00": ("\x00", "\x00\x00"),
}
LITS = ("\x00", "\x01\x00", "")
SETS = ([0], [5], [7], [2])


class Gen:
    """trees by path of choices; bad: put exactly one refused construct somewhere"""

    def __init__(self, ctx, u, bad=None):
        self.ctx = ctx
        self.u = u
        self.n = 0
        self.leaves = []
        self.bad = bad

    def leafref(self):
        c = len(self.leaves)
        if c >= 2:
            i = self.ctx.choose(2, "same")
            return ("ExprRef", self.leaves[i])
        n = self.u.leaf(name="xyz"[c]).id
        self.leaves.append(n)
        return ("ExprRef", n)

    def leaf(self, full):
        self.n += 1
        if not full:
            k = ("ExprRef", "EmptyString", "Byte")[self.ctx.choose(3, "leaf")]
        else:
            k = LEAF[self.ctx.choose(len(LEAF), "leaf")]
        if k == "ExprRef":
            return self.leafref()
        if k == "Byte":
            return ("Byte", self.n % 3)
        if k == "Regex":
            return ("Regex", "\x02")
        if k == "Literal":
            return ("Literal", LITS[self.ctx.choose(len(LITS), "lit")] if full else LITS[1])
        if k == "ByteLiteral":
            return ("ByteLiteral", ((1,), (1, 2), ())[self.ctx.choose(3, "lit")])
        if k == "ByteSet":
            return ("ByteSet", SETS[self.ctx.choose(4, "set")])
        return (k,)

    def tree(self, depth, kinds=None, last=True, full=True, arity=3):
        ks = list(kinds or NARY + UN + ("leaf",))
        if not last and "LookAhead" in ks:
            ks.remove("LookAhead")
        k = ks[self.ctx.choose(len(ks), "kind")] if depth > 0 else "leaf"
        if k == "leaf":
            return self.leaf(full)
        self.n += 1
        if k in NARY:
            m = self.ctx.choose(arity + 1, "arity") if arity >= 0 else -arity
            l = []
            if m > 2 and depth == 1:
                # wide: references only
                return (k, [self.leafref() for i in range(m)])
            for i in range(m):
                l.append(self.tree(depth - 1, None, last and (k == "Or" or k == "Concat" and i == m - 1), full and depth == 1 and m < 2, 2))
            return (k, l)
        if k == "Repeat":
            mn = SInt(Atom("m%d" % self.n, 0, U32MAX))
            mx = SInt(Atom("n%d" % self.n, 0, U32MAX))
            return (k, self.tree(depth - 1, None, False, full, 2), mn, mx)
        return (k, self.tree(depth - 1, None, last and k == "LookAhead" and False, full, 2))


def repeats(t):
    k = t[0]
    if k == "Repeat":
        yield t
    subs = t[1] if k in NARY else [t[1]] if k in UN else []
    for x in subs:
        yield from repeats(x)


def setup(env, I, pay=1):
    T = env.template()
    u = Uni(I, T, True, 1)
    u.allow_look = True
    contracts.install(u, pay=pay)
    h = I.hooks["ExprSet::mk_repeat"]

    def rep(I, body, a):
        if u.mine(a[0]):
            if I.ctx.cmp_int("Gt", a[2], a[3]):
                I.panic("mk_repeat called with reversed bounds")
        return h(I, body, a)

    I.hooks["ExprSet::mk_repeat"] = rep
    return u


def hooks_parse(env, I):
    H = Hirs(env.P)
    I.parsed = []

    def parse(I, p, s):
        b = bytes(seq(s))
        I.parsed.append((dict(p.data), b))
        if b[:1] == b"!":
            return err(Opaque("parse error", {}), None)
        alts = TEXTS.get(b.decode("latin1"))
        if alts:
            t = tuple(("Literal", tuple(x.encode())) for x in alts)
            return ok(H.hir(("Alternation", t) if len(t) > 1 else t[0]), None)
        return ok(H.hir(("Literal", tuple(b))), None)

    I.hooks["parse"] = parse


def lang_job(kinds, depth, arity=3):
    def run(env, res, split, job):
        need(env.P, MK)

        def f(I, ctx):
            u = setup(env, I)
            hooks_parse(env, I)
            t = Gen(ctx, u).tree(depth, kinds, arity=arity)
            I.tree = t
            a = Asts(env.P, u).node(t)
            b = builder(env.P, u)
            r = I.call_path(MK, Ref(b, 0), Ref([a], 0))
            bad = [x for x in repeats(t) if ctx.cmp_int("Gt", x[2], x[3])]
            return u, t, (strip(r.f[0]).f[0] if r.v == 0 else None), bad

        for I, ctx, (u, t, r, bad) in traces(env, res, split, job, f, panics=("build.panic", lambda I: show(I.tree))):
            if r is None:
                if not bad:
                    res.violate("build.refused", MK, "a valid tree is refused", show(t))
                else:
                    res.ok("build.refused")
                continue
            if bad:
                res.violate("build.accepted", MK, "a repetition with min > max is accepted", show(t))
                continue
            if t[0] == "ExprRef" and r != t[1]:
                res.violate("build.ref", MK, "an embedded reference is not returned as it is", show(t))
            rng = random.Random(5)
            done = False
            for k in range(5):
                A = (oracle.Assign if k < 3 else oracle.UAssign)(u, env.pools, rng, {})
                if A.bad:
                    continue
                try:
                    e, g = den(A, t), A.den(r)
                except (oracle.Skip, Undecided):
                    res.skipped += 1
                    continue
                if e is None or g is None:
                    res.skipped += 1
                    continue
                done = True
                if (e != g) if isinstance(A, oracle.UAssign) else (e[0] != g[0]):
                    d = ""
                    if not isinstance(A, oracle.UAssign):
                        d = " on the word '%s'" % oracle.wstr(next(oracle.bits(e[0] ^ g[0])))
                    res.violate("build.lang", MK, "the tree %s becomes %s" % (show(t), u.show(r)), "the language differs" + d + "; integers %s" % ({a.name: v for a, v in A.atoms.items()},))
                    break
            if done:
                res.ok("build.lang")
                if len(res.samples) < 3:
                    res.samples.append(show(t))

    return run



# ---------------------------------------------------------------- refusals


def bad_job():
    """one construct that has to be refused, at any position of a small tree"""

    def run(env, res, split, job):
        need(env.P, MK)

        def f(I, ctx):
            u = setup(env, I)
            hooks_parse(env, I)
            u.leaf(name="x")
            n = I.call_path("VecHashCons::len", Ref(u.es.f, u.tpl.fi))
            kinds = [("ExprRef", i) for i in (0, n, n + 1, n + 1000, U32MAX)]
            kinds += [("ByteSet", [1] * k) for k in (0, 2, 3, 8, 9)]
            kinds += [("Regex", "!x")]
            m = SInt(Atom("m", 1, U32MAX))
            k = ctx.choose(len(kinds) + 2, "bad")
            if k < len(kinds):
                t = kinds[k]
            elif k == len(kinds):
                t = ("Repeat", ("EmptyString",), SInt(m.a, 0), SInt(m.a, -1))
            else:
                t = ("Repeat", ("Byte", 1), U32MAX, 0)
            for d in range(ctx.choose(3, "depth")):
                w = ctx.choose(9, "around")
                if w < 6:
                    o = [("Byte", 0), ("NoMatch",)][ctx.choose(2, "other")] if d == 0 else ("EmptyString",)
                    t = (NARY[w % 3], [t, o] if w < 3 else [o, t])
                elif w == 6:
                    t = ("Not", t)
                elif w == 7:
                    t = ("Repeat", t, 0, U32MAX)
                else:
                    t = ("Prefixes", t)
            I.tree = t
            a = Asts(env.P, u).node(t)
            b = builder(env.P, u)
            r = I.call_path(MK, Ref(b, 0), Ref([a], 0))
            return t, r.v

        for I, ctx, (t, v) in traces(env, res, split, job, f, panics=("build.panic", lambda I: show(I.tree))):
            if v == 0:
                res.violate("build.accepted", MK, "an invalid tree is accepted", show(t))
            else:
                res.ok("build.accepted")

    return run


def ref_job():
    """every reference handed out stays usable"""

    def run(env, res, split, job):
        need(env.P, MK)

        def f(I, ctx):
            u = setup(env, I)
            x = u.leaf(name="x").id
            y = u.fresh(("Not", [x], []), name="last").id
            i = [1, 2, 3, 4, 5, x, y][ctx.choose(7, "ref")]
            b = builder(env.P, u)
            r = I.call_path(MK, Ref(b, 0), Ref([Asts(env.P, u).node(("ExprRef", i))], 0))
            return i, (strip(r.f[0]).f[0] if r.v == 0 else None)

        for I, ctx, (i, g) in traces(env, res, split, job, f, panics=("build.panic", None)):
            if g is None:
                res.violate("build.refused", MK, "a valid reference is refused", str(i))
            elif g != i:
                res.violate("build.ref", MK, "an embedded reference is not returned as it is", "%s became %s" % (i, g))
            else:
                res.ok("build.ref")

    return run


def words_job():
    """byte sets of the full alphabet: 8 words accepted, other counts refused"""

    def run(env, res, split, job):
        need(env.P, MK)

        def f(I, ctx):
            es = [I.call_path("ExprSet::new", 256)]

            class U:
                es = None
                ref = lambda self, i: Agg("adt", env.P.adt("ExprRef"), 0, [i])

            u = U()
            u.es = es[0]
            n = ctx.choose(12, "words")
            w = [(0x9E3779B9 * (i + 1)) & 0xFFFFFFFF for i in range(n)]
            b = builder(env.P, u)
            r = I.call_path(MK, Ref(b, 0), Ref([Asts(env.P, u).node(("ByteSet", w))], 0))
            if r.v == 0:
                e = strip(I.call_path("ExprSet::get", Ref(es, 0), r.f[0]))
                k = I.p.types[I.p.adt("Expr")]["variants"][e.v]["name"]
                g = [strip(x) for x in seq(strip(e.f[0]))] if k == "ByteSet" else [k]
                return n, w, g
            return n, w, None

        for I, ctx, (n, w, g) in traces(env, res, split, job, f, panics=("build.panic", None)):
            if n != 8 and g is not None:
                res.violate("build.accepted", MK, "a byte set of wrong size is accepted", "%d words" % n)
            elif n == 8 and g is None:
                res.violate("build.refused", MK, "a byte set is refused", "%d words" % n)
            elif n == 8 and g != w:
                res.violate("build.lang", MK, "a byte set becomes another set", "%s" % g)
            else:
                res.ok("build.accepted")

    return run


def real_leaf_job():
    """leaves over the full alphabet denote exactly their bytes"""
    LEAVES = [("Byte", b) for b in range(256)] + [("ByteLiteral", (b,)) for b in range(256)]
    LEAVES += [("ByteLiteral", tuple(x)) for x in (b"", b"ab", b"\xce\xb1", b"\xce", b"\xb1\xce", b"\xff\xfe\x00", b"\xed\xa0\x80", b"aa\x80aa", bytes(range(256)), b"ab" * 300)]
    LEAVES += [("Literal", x) for x in ("", "a", "ab", "\x00", "\x7f", "\u0080", "\u03b1b", "\uffff", "\U0001f600", "(a|b)*", "\\n.", "ab" * 300, "".join(map(chr, range(256))))]
    LEAVES += [("EmptyString",), ("NoMatch",)]

    def run(env, res, split, job):
        need(env.P, MK)

        def f(I, ctx):
            es = [I.call_path("ExprSet::new", 256)]

            class U:
                ref = lambda self, i: Agg("adt", env.P.adt("ExprRef"), 0, [i])

            u = U()
            u.es = es[0]
            t = LEAVES[ctx.choose(len(LEAVES), "leaf")]
            I.tree = t
            r = I.call_path(MK, Ref(builder(env.P, u), 0), Ref([Asts(env.P, u).node(t)], 0))
            if r.v != 0:
                return t, None
            return t, norm(I, es, strip(r.f[0]), {"ty": env.P.adt("ExprRef")})

        for I, ctx, (t, g) in traces(env, res, split, job, f, panics=("build.panic", lambda I: show(I.tree))):
            k = t[0]
            w = {"Byte": lambda: (1 << t[1],), "ByteLiteral": lambda: tuple(1 << b for b in t[1]), "Literal": lambda: tuple(1 << b for b in t[1].encode()), "EmptyString": lambda: (), "NoMatch": lambda: None}[k]()
            if g is None:
                res.violate("build.refused", MK, "a valid tree is refused", show(t)[:200])
            elif canon(g, {}) != canon([] if w is None else [w], {}):
                res.violate("build.lang", MK, "a leaf does not denote its bytes", show(t)[:200])
            else:
                res.ok("build.lang")

    return run


def wide_job(deep, th=False):
    """very many children, very deep trees"""

    def run(env, res, split, job):
        need(env.P, MK)

        def f(I, ctx):
            u = setup(env, I)
            hooks_parse(env, I)
            x, y = [u.leaf(name=c).id for c in "xy"]
            b = builder(env.P, u)
            asts = Asts(env.P, u)
            if deep:
                n = (9, 17, 33, 65, 130, 260)[ctx.choose(6, "depth")]
                ks = [("Concat", "Not"), ("Concat", "Or"), ("And", "Or", "Not"), ("Repeat", "Concat"), ("Prefixes", "Not")][ctx.choose(5, "kinds")]
                a = asts.node(("ExprRef", y))
                ops = []
                for i in range(n):
                    k = ks[i % len(ks)]
                    ops.append(k)
                    if k in NARY:
                        a = Agg("adt", asts.t, asts.v[k], [Vec([asts.node(("ExprRef", x)), a])])
                    elif k == "Repeat":
                        a = Agg("adt", asts.t, asts.v[k], [Box(a), 2, 3])
                    else:
                        a = Agg("adt", asts.t, asts.v[k], [Box(a)])
                I.tree = ("%d levels of %s" % (n, ", ".join(ks)),)
            else:
                N = (7, 9, 16, 17, 33, 65, 129, 257, 1025, 5000) + ((66000,) if th else ())
                n = N[ctx.choose(len(N), "children")]
                k = NARY[ctx.choose(3, "kind")]
                J = sorted({0, 1, n // 2, n - 2, n - 1}) if n < 4000 else [0, n - 1]
                j = J[ctx.choose(len(J), "position")]
                ops = (k, n, j)
                a = Agg("adt", asts.t, asts.v[k], [Vec([asts.node(("ExprRef", y if i == j else x)) for i in range(n)])])
                I.tree = ("%s of %d children" % (k, n),)
            r = I.call_path(MK, Ref(b, 0), Ref([a], 0))
            return u, x, y, ops, (strip(r.f[0]).f[0] if r.v == 0 else None), show(I.tree)

        def same(u, r, k, kids, ints=()):
            n = u.nodes.get(r)
            return n is not None and n.sem is not None and n.sem[0] == k and list(n.sem[1]) == kids and tuple(n.sem[2]) == ints

        for I, ctx, (u, x, y, ops, r, nm) in traces(env, res, split, job, f, budget=4 * 10**7, panics=("build.panic", lambda I: show(I.tree))):
            if r is None:
                res.violate("build.refused", MK, "a valid tree is refused", nm)
                continue
            if deep:
                # from the top down
                for k in reversed(ops):
                    n = u.nodes.get(r)
                    l = list(n.sem[1]) if n is not None and n.sem is not None else []
                    ok_ = bool(l) and same(u, r, k, [x, l[-1]] if k in NARY else [l[-1]], (2, 3) if k == "Repeat" else ())
                    if not ok_:
                        break
                    r = l[-1]
                else:
                    if r == y:
                        res.ok("build.lang")
                        continue
                res.undec("another structure")
                continue
            k, n, j = ops
            want = [x] * j + [y] + [x] * (n - 1 - j)
            if same(u, r, k, want):
                res.ok("build.lang")
                continue
            rng = random.Random(5)
            done = False
            for q in range(4):
                A = (oracle.Assign if q < 3 and n < 2000 else oracle.UAssign)(u, env.pools, rng, {})
                if A.bad:
                    continue
                try:
                    g = A.den(r)
                    X, Y = A.den(x), A.den(y)
                    if k != "Concat":
                        e = A.op(k, [X, Y], [])
                    else:
                        rep = lambda m: [A.op("Repeat", [X], [m, m])] if m else []
                        e = A.op(k, rep(j) + [Y] + rep(n - 1 - j), [])
                except (oracle.Skip, Undecided):
                    continue
                if e is None or g is None:
                    continue
                done = True
                if (e != g) if isinstance(A, oracle.UAssign) else (e[0] != g[0]):
                    res.violate("build.lang", MK, "a tree of many children becomes another language", nm)
                    break
            else:
                if done:
                    res.ok("build.lang")
                else:
                    res.undec("another structure")

    return run


# ---------------------------------------------------------------- containment

CI = ("RegexAst::contained_in", "RegexBuilder::mk_contained_in_ast", "RegexBuilder::mk_contained_in", "RegexBuilder::is_contained_in")


def limit(ctx):
    """a fuel limit: any, or one of some particular ones (where arithmetic on an unknown one is out of the domain)"""
    k = ctx.choose(5, "fuel")
    return SInt(Atom("fuel", 0, (1 << 64) - 1)) if k == 0 else (0, 1, 1000, (1 << 63) + 5)[k - 1]


def same(a, b):
    if isinstance(a, SInt) and isinstance(b, SInt):
        return a.a is b.a and a.o == b.o
    return isinstance(a, int) and isinstance(b, int) and a == b


def contain_job(which):
    W = CI[which]

    def run(env, res, split, job):
        need(env.P, MK, W)

        def f(I, ctx):
            u = setup(env, I)
            hooks_parse(env, I)
            I.show = ""
            g = Gen(ctx, u)
            b = builder(env.P, u, {"unicode": "given"})
            asts = Asts(env.P, u)
            if which <= 1:
                l = []
                for i in range(2):
                    k = ctx.choose(5 if which == 1 else 4, "operand")
                    if k == 0:
                        l.append(g.leafref())
                    elif k == 1:
                        l.append((NARY[ctx.choose(3, "op")], [g.leafref(), g.leaf(False)]))
                    elif k == 2:
                        l.append(("Not", g.leafref()))
                    elif k == 3:
                        l.append(("Regex", "\x01"))
                    else:
                        l.append(("Regex", "!"))
                I.show = str(l)
                n = [asts.node(x) for x in l]
                if which == 0:
                    t = I.call_path(W, Ref(n, 0), Ref(n, 1))
                    r = I.call_path(MK, Ref(b, 0), Ref([t], 0))
                else:
                    r = I.call_path(W, Ref(b, 0), Ref(n, 0), Ref(n, 1))
                return u, l, r.v, (strip(r.f[0]).f[0] if r.v == 0 else None), None
            pats = ["\x00", "\x01", "!", ""] + list(TEXTS)
            i = ctx.choose(len(pats), "pattern")
            l = [("Regex", pats[i]), ("Regex", pats[ctx.choose(4 if i < 3 and which == 2 else len(pats), "pattern")])]
            I.show = str(l)
            a = [string(x[1]) for x in l]
            if which == 2:
                r = I.call_path(W, Ref(b, 0), *a)
                return u, l, r.v, (strip(r.f[0]).f[0] if r.v == 0 else None), None
            fuel = limit(ctx)
            calls = []
            empty = ctx.choose(2, "empty")
            exceeded = ctx.choose(2, "fuel exceeded")

            def new(I, body, x):
                if not u.mine(x[0]):
                    return NotImplemented
                calls.append((strip(x[1]).f[0], x[2]))
                return err(Opaque("anyhow"), None) if exceeded else ok(Opaque("regex", {}), None)

            def ae(I, body, x):
                if not isinstance(strip(x[0]), Opaque):
                    return NotImplemented
                return bool(empty)

            need(env.P, "Regex::new_with_exprset", "Regex::always_empty")
            I.hooks["Regex::new_with_exprset"] = new
            I.hooks["Regex::always_empty"] = ae
            r = I.call_path(W, Ref(b, 0), a[0], a[1], fuel)
            return u, l, r.v, (r.f[0] if r.v == 0 else None), (fuel, calls, bool(empty), bool(exceeded))

        for I, ctx, (u, l, v, r, lim) in traces(env, res, split, job, f, panics=("contain.panic", lambda I: I.show)):
            invalid = any(x[0] == "Regex" and x[1][:1] == "!" for x in l)
            if invalid:
                if v == 0:
                    res.violate("contain.error", W, "an invalid pattern gives no error", str(l))
                else:
                    res.ok("contain.error")
                continue
            if lim:
                fuel, calls, empty, exceeded = lim
                if v != 0 and not exceeded:
                    res.violate("contain.error", W, "valid patterns within the fuel give an error", str(l))
                    continue
                if v == 0 and exceeded and calls:
                    res.violate("contain.fuel", W, "exceeding the fuel gives no error", str(l))
                    continue
                if not calls and v == 0 and r is True and l[0] == l[1]:
                    res.ok("contain.verdict")  # everything is contained in itself
                    continue
                if not calls and v == 0:
                    # decided from the texts
                    S, B = [set(TEXTS.get(x[1], (x[1],))) for x in l]
                    if r is not (S <= B):
                        res.violate("contain.verdict", W, "the verdict is wrong", "%s, verdict: %s" % (l, r))
                        continue
                if len(calls) != 1:
                    res.undec("containment is decided otherwise")
                    continue
                node, fl = calls[0]
                if not same(fl, fuel):
                    res.violate("contain.fuel", W, "the fuel limit is not the given one", repr(fl))
                    continue
                if v == 0 and r is not empty:
                    res.violate("contain.verdict", W, "the verdict is not emptiness of the containment regex", "empty: %s, verdict: %s" % (empty, r))
                    continue
                r = node
                res.ok("contain.verdict")
            elif v != 0:
                res.violate("contain.error", W, "valid operands give an error", str(l))
                continue
            rng = random.Random(3)
            done = False
            for k in range(6):
                A = (oracle.Assign if k < 4 else oracle.UAssign)(u, env.pools, rng, {})
                if A.bad:
                    continue
                t = []
                try:
                    for x in l:
                        t.append(A.op("EmptyString", None, []) if x == ("Regex", "") else den(A, x))
                    e, g = A.op("And", [t[0], A.op("Not", [t[1]], [])], []), A.den(r)
                except (oracle.Skip, Undecided):
                    res.skipped += 1
                    continue
                if e is None or g is None:
                    res.skipped += 1
                    continue
                done = True
                if (e != g) if isinstance(A, oracle.UAssign) else (e[0] != g[0]):
                    res.violate("contain.lang", W, "the containment regex is not small without big", "%s: %s" % (l, u.show(r)))
                    break
            if done:
                res.ok("contain.lang")
                if len(res.samples) < 3:
                    res.samples.append("%s => %s" % (l, u.show(r)))
            bad = [p for p, s in I.parsed if p != {"unicode": "given"}]
            if bad:
                res.violate("contain.options", W, "a pattern is parsed with other options", str(bad[0]))

    return run


# ---------------------------------------------------------------- options and entry points

OPTS = ("unicode", "utf8", "ignore_whitespace", "case_insensitive", "dot_matches_new_line")


def option_job():
    """the flags of the pattern syntax: each sets what it names, nothing else, and holds for later patterns"""

    def run(env, res, split, job):
        W = "RegexBuilder::mk_regex"
        need(env.P, W, *["RegexBuilder::" + o for o in OPTS])

        def f(I, ctx):
            u = setup(env, I)
            hooks_parse(env, I)
            b = builder(env.P, u)
            want = {}
            I.show = ""
            for step in range(2):
                o = OPTS[ctx.choose(len(OPTS), "option")]
                v = ctx.choose(2, "value") == 1
                I.call_path("RegexBuilder::" + o, Ref(b, 0), v)
                want[o] = v
                I.show += "%s(%s) " % (o, v)
            r = I.call_path(W, Ref(b, 0), string("\x01"))
            return u, want, I.parsed, r

        for I, ctx, (u, want, parsed, r) in traces(env, res, split, job, f, panics=("build.panic", lambda I: I.show)):
            if len(parsed) != 1 or parsed[0][1] != b"\x01":
                res.violate("build.pattern", W, "not exactly the given pattern is parsed", "%s" % (parsed,))
            elif parsed[0][0] != want:
                res.violate("build.options", W, "the pattern is parsed with other options", "%s: %s" % (I.show, parsed[0][0]))
            else:
                res.ok("build.options")

    return run


def entry_job():
    """Regex::new, new_with_parser, to_regex, to_regex_limited: which node, which limit, which parser"""
    E = ("Regex::new", "Regex::new_with_parser", "RegexBuilder::to_regex", "RegexBuilder::to_regex_limited")

    def run(env, res, split, job):
        need(env.P, "Regex::new_with_exprset", "ExprSet::parse_expr", *E)

        def f(I, ctx):
            u = setup(env, I)
            which = ctx.choose(4, "entry")
            W = E[which]
            I.show = W
            calls, parses = [], []
            badpat = ctx.choose(2, "parse error") == 1 if which < 2 else False
            exceeded = ctx.choose(2, "exceeded") == 1 if which == 3 else False

            def new(I, body, x):
                calls.append((strip(x[0]), strip(x[1]).f[0], x[2]))
                return err(Opaque("anyhow"), None) if exceeded else ok(Opaque("regex", {"n": len(calls)}), None)

            def parse(I, body, x):
                parses.append((strip(x[0]), dict(strip(x[1]).data), bytes(seq(x[2]))))
                return err(Opaque("anyhow"), None) if badpat else ok(u.ref(7), None)

            I.hooks["Regex::new_with_exprset"] = new
            I.hooks["ExprSet::parse_expr"] = parse
            lim = limit(ctx) if which == 3 else 0
            if which == 0:
                r = I.call_path(W, string("ab"))
            elif which == 1:
                r = I.call_path(W, Opaque("parser", {"unicode": "given"}), string("ab"))
            else:
                b = builder(env.P, u)
                r = I.call_path(W, Ref(b, 0), u.ref(9), *([lim] if which == 3 else []))
            return u, which, r, calls, parses, lim, badpat, exceeded

        for I, ctx, (u, which, r, calls, parses, lim, badpat, exceeded) in traces(env, res, split, job, f, panics=("build.panic", lambda I: I.show)):
            W = E[which]
            if badpat or exceeded:
                if r.v == 0:
                    res.violate("build.accepted", W, "an error is not reported", "parse error" if badpat else "fuel exceeded")
                else:
                    res.ok("build.accepted")
                continue
            val = r if which == 2 else (r.f[0] if r.v == 0 else None)
            if val is None:
                res.violate("build.refused", W, "a valid regex is refused")
                continue
            if len(calls) != 1 or not isinstance(val, Opaque):
                raise Undecided("%s works otherwise" % W)
            es, node, fuel = calls[0]
            full = (1 << 64) - 1
            if which == 3:
                if not same(fuel, lim):
                    res.violate("build.fuel", W, "the limit is not the given one", repr(fuel))
                    continue
            elif fuel != full:
                res.violate("build.fuel", W, "the search is limited", repr(fuel))
                continue
            if which < 2:
                if len(parses) != 1 or parses[0][2] != b"ab" or parses[0][1] != ({"unicode": "given"} if which else {}) or parses[0][0] is not es:
                    res.violate("build.pattern", W, "another pattern or other options are used", "%s" % (parses,))
                    continue
                if node != 7:
                    res.violate("build.ref", W, "another node is compiled", str(node))
                    continue
            elif node != 9 or es is not u.es:
                res.violate("build.ref", W, "another node is compiled", str(node))
                continue
            res.ok("build.entry")

    return run


# ---------------------------------------------------------------- the generic traversal

MAP = "map_ast"


def shape(ctx, budget, top=True):
    """ordered trees with at most `budget` nodes"""
    kids = []
    left = budget - 1
    m = ctx.choose(min(left, 3) + 1, "children")
    left -= m
    for i in range(m):
        give = ctx.choose(left + 1, "below") if left else 0
        if i == m - 1:
            give = left
        kids.append(shape(ctx, give + 1, False) if give else [])
        left -= give
    return kids


def mapast_job(n, fail):
    def run(env, res, split, job):
        need(env.P, MAP)

        def f(I, ctx):
            t = shape(ctx, n)
            nodes = []

            def build(t):
                k = len(nodes)
                nodes.append(None)
                kids = [build(x) for x in t]
                c = [nodes[x] for x in kids]
                nodes[k] = Opaque("tree", [k, c])
                I.kids[k] = kids
                return k

            I.kids = {}
            build(t)
            bad = ctx.choose(len(nodes) + 1, "failing") - 1 if fail else -1
            log = []
            I.show = str(t)

            def get_args(I, x):
                o = strip(x)
                return Slice(o.data[1], 0, len(o.data[1]))

            def map_node(I, x, args):
                o = strip(x)
                l = [strip(y) for y in seq(args)]
                log.append((o.data[0], [y.data if isinstance(y, Opaque) else y for y in l]))
                if o.data[0] == bad:
                    return err(Opaque("anyhow", bad), None)
                return ok(Opaque("value", o.data[0]), None)

            r = I.call_path(MAP, Ref([nodes[0]], 0), lambda x: get_args(I, x), lambda x, y: map_node(I, x, y))
            return I.kids, bad, log, r

        for I, ctx, (kids, bad, log, r) in traces(env, res, split, job, f, panics=("mapast.panic", lambda I: I.show)):
            seen = [x[0] for x in log]
            post = []

            def walk(k):
                for x in kids[k]:
                    walk(x)
                post.append(k)

            walk(0)
            if len(set(seen)) != len(seen):
                res.violate("mapast.once", MAP, "a node is visited twice", "%s: %s" % (I.show, seen))
                continue
            for k, (i, args) in enumerate(log):
                if args != kids[i]:
                    res.violate("mapast.order", MAP, "a node gets other results than its children's, in order", "tree %s, node %d: %s" % (I.show, i, args))
                    break
            else:
                if seen != post[: len(seen)]:
                    res.violate("mapast.sequence", MAP, "the nodes are not visited children first, from the first to the last", "%s: %s" % (I.show, seen))
                elif bad >= 0:
                    if bad in seen and (r.v == 0 or seen[-1] != bad):
                        res.violate("mapast.error", MAP, "the first error does not end the traversal", "%s: %s" % (I.show, seen))
                    elif r.v == 0:
                        res.violate("mapast.error", MAP, "an error is lost", "%s: %s" % (I.show, seen))
                    else:
                        res.ok("mapast.error")
                elif r.v != 0 or len(seen) != len(kids) or strip(r.f[0]).data != 0:
                    res.violate("mapast.result", MAP, "the result is not the root's", "%s: %s" % (I.show, seen))
                else:
                    res.ok("mapast.result")
                    if len(res.samples) < 2:
                        res.samples.append(I.show)

    return run


def all_jobs(tier):
    th = tier == "thorough"
    J = []
    for k in NARY:
        J.append(Job("build", "trees of depth 2 under " + k, lang_job((k,), 2, 2), split=2))
    for k in UN:
        J.append(Job("build", "trees of depth 2 under " + k, lang_job((k,), 2, 2)))
    for n in (3, 4, 5):
        J.append(Job("build", "%d children" % n, lang_job(NARY, 1, -n)))
    J.append(Job("build", "leaves", lang_job(("leaf",), 1)))
    J.append(Job("build", "leaves over all bytes", real_leaf_job(), split=2))
    J.append(Job("build", "very many children", wide_job(False, th), split=4))
    J.append(Job("build", "very deep trees", wide_job(True), split=2))
    J.append(Job("build", "refused constructs anywhere in a tree", bad_job()))
    J.append(Job("build", "references to nodes", ref_job()))
    J.append(Job("build", "sizes of byte sets", words_job()))
    for i in range(4):
        J.append(Job("contain", CI[i], contain_job(i)))
    J.append(Job("build", "syntax options", option_job()))
    J.append(Job("build", "entry points", entry_job()))
    for n in range(1, 7 if not th else 9):
        J.append(Job("mapast", "trees of %d nodes" % n, mapast_job(n, True)))
    if th:
        for k in NARY:
            J.append(Job("build", "trees of depth 2 under %s, three children" % k, lang_job((k,), 2, 3), split=16, secs=800))
        for k in UN:
            J.append(Job("build", "trees of depth 3 under " + k, lang_job((k,), 3, 2), split=16, secs=800))
    return J
