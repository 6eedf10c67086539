"""Symbolic derivatives: the byte-class partition computed for the relevance check"""
from framework import *
import contracts
from g_mk import no
from g_deriv import install_map, inner, shapes

# (condition letters, result name) lists of a child
LISTS = [
    [],
    [((0,), "p")],
    [((0, 1), "p")],
    [((0, 1, 2), "p")],
    [((0,), "p"), ((1,), "q")],
    [((0,), "p"), ((0, 1), "q")],
    [((0, 1), "p"), ((1, 2), "q")],
    [((0, 1), "p"), ((2,), "q")],
    [((1,), "p"), ((0, 1, 2), "q")],
    [((0,), "p"), ((1,), "q"), ((2,), "p")],
    [((0, 1), "p"), ((1, 2), "q"), ((0, 2), "s")],
    [((0, 1), "p"), ((1, 2), "q"), ((0,), "s")],
    [((0, 1, 2), "p"), ((0, 1), "q"), ((1, 2), "s")],
    [((0, 1), "0"), ((2,), "p")],
    [((0, 2), "e"), ((0, 1), "p")],
]
FEW = [1, 5, 6, 13]


def sym_body(P):
    b = P.fn("RelevanceCache::deriv")
    if b is not None:
        return b
    c = [
        b
        for b in P.bodies.values()
        if b["key"] and b["key"].startswith("RelevanceCache::") and b["argc"] == 3 and "Vec<(ExprRef" in tyname(P, b["locals"][0]).replace("ast::", "").replace("derivre::", "")
    ]
    if len(c) == 1:
        return c[0]
    raise Undecided("no unique symbolic-derivative function")


def tyname(P, t):
    return P.types[t].get("name") or P.types[t].get("s") or ""


def condmask(u, i):
    v = u.view(i)
    if v is None or v[0] not in ("Byte", "ByteSet"):
        return None
    if v[0] == "Byte":
        return 1 << v[2][0]
    m = 0
    for w in v[2][:1]:
        m |= w
    return m


def sym_setup(u, T, lists):
    u.smemo = {}
    u.symlists = {}

    def cond(ls):
        if len(ls) == 1:
            return T.bytes[ls[0]]
        return T.sets[sum(1 << x for x in ls)]

    def seed(i):
        if i not in u.smemo:
            n = u.nodes[i]
            ls = LISTS[lists[u.I.ctx.choose(len(lists), "classes of " + n.name)]]
            names = {}
            out = []
            for c, r in ls:
                if r == "0":
                    rid = NO_MATCH
                elif r == "e":
                    rid = EMPTY
                elif r in names:
                    rid = names[r]
                else:
                    names[r] = rid = u.leaf(None, no("Lookahead"), n.name + "." + r, 2).id
                out.append((c, rid))
            u.symlists[i] = out
            n.sem = ("symlist", out, u.null(i))
            u.smemo[i] = out
        return Vec([tup(u.ref(cond(c)), u.ref(r)) for c, r in u.smemo[i]])

    install_map(u, seed)


class SAssign(O.Assign):
    def sem(self, s):
        if s[0] == "symlist":
            ds = [O.EPS] if s[2] else []
            for c, r in s[1]:
                ds.append(O.cat([O.letters(c), self.den(r)]))
            return O.union(ds) if ds else O.EMPTYSET
        return O.Assign.sem(self, s)


def judge(env, res, u, rule, e, lst, where, look, n=8):
    views = {}
    conds = []
    for c, r in lst:
        m = condmask(u, c)
        if m is None or m == 0:
            res.violate(rule + ".cond", where, "classes of %s: condition %s is not a non-empty byte class" % (u.show(e), u.show(c)), "result %s" % u.show(r))
            return
        conds.append((m, r))
    rng = random.Random(23)
    done = 0
    for k in range(n * 4):
        A = SAssign(u, env.pools, rng, views)
        if A.bad:
            continue
        try:
            if not contracts.empties_ok(u, A):
                continue
            d = A.den(e)
            got = {}
            for m, r in conds:
                got[r] = A.den(r)
        except (O.Skip, Undecided):
            res.skipped += 1
            continue
        except Infeasible:
            continue
        done += 1
        res.evals += 1
        for b in range(3):
            exp = O.deriv(d, b)
            g = O.union([got[r] for m, r in conds if m >> b & 1] or [O.EMPTYSET])
            x = (exp[0] ^ g[0]) & O.UPTO[2]
            if look:
                # only emptiness has to agree
                a1, a2 = exp[2], g[2]
                if exp[0] & O.UPTO[2]:
                    a1 = True
                if g[0] & O.UPTO[2]:
                    a2 = True
                if a1 is None or a2 is None or a1 == a2:
                    continue
                x = 1
            if x:
                i = next(O.bits(x))
                res.violate(
                    rule,
                    where,
                    "byte classes of %s -> %s" % (u.show(e), "; ".join("%s: %s" % (bin(m)[2:], u.show(r)) for m, r in conds)),
                    "letter %d: differs on %s: expected %s" % (b, O.wstr(i), "member" if exp[0] >> i & 1 else "non-member"),
                )
                return
        if done >= n:
            break
    if done:
        res.ok(rule)
        if len(res.samples) < 2:
            res.samples.append("classes of %s => %s" % (u.show(e), "; ".join("%s: %s" % (bin(m)[2:], u.show(r)) for m, r in conds)))


def sym_job(mk, lists, rule="sym", look=False):
    def run(env, res, split, job):
        body = sym_body(env.P)
        need(env.P, "RelevanceCache::new")

        def f(I, ctx):
            T = env.template()
            u = Uni(I, T, True, 3)
            u.allow_look = True
            contracts.install(u, nomatch=("And",), pay=0)
            sym_setup(u, T, lists)
            e = mk(u, T)
            rc = [used(I, "RelevanceCache::new")]
            out = []
            for x in e if isinstance(e, list) else [e]:
                c0 = I.call_path("ExprSet::cost", u.exprs)
                r = I.run(body["id"], [Ref(rc, 0), u.exprs, u.ref(x)])
                c0 = I.call_path("ExprSet::cost", u.exprs) - c0
                l = []
                for p in seq(r):
                    p = strip(p)
                    l.append((strip(p.f[0]).f[0], strip(p.f[1]).f[0]))
                out.append((x, l, c0))
            return u, out

        def show(I):
            return ", ".join(I.uni.show(n.id) for n in I.uni.leaves if n.depth == 0)

        for I, ctx, (u, out) in traces(env, res, split, job, f, panics=(rule + ".panic", show)):
            for k, (x, l, c) in enumerate(out):
                if c < 0 or k == 0 and c < len(l):
                    res.violate("sym.cost", "RelevanceCache::deriv", "a symbolic derivative of %d classes is charged %d" % (len(l), c), u.show(x))
                else:
                    res.ok("sym.cost")
                judge(env, res, u, rule, x, l, "RelevanceCache::deriv", look or haslook(u, x))

    return run


# ---------------------------------------------------------------- wider alphabets

# lists over five symbols: classes that overlap in several ways; a result is a name or ("or", name, name)
PQ = ("or", "p", "q")
WLISTS = [
    [((0, 1, 2), "p"), ((0, 1, 3), "q"), ((0, 4), PQ)],
    [((0, 1, 2), "p"), ((0, 1, 3), "q"), ((0, 2), PQ)],
    [((0, 1, 2), "p"), ((0, 1, 3), "q"), ((0, 1, 4), PQ)],
    [((0, 1, 2, 3), "p"), ((1, 2, 3, 4), "q"), ((0, 2, 4), "s"), ((2, 3), PQ)],
    [((0, 1, 2, 3), "p"), ((0,), "q"), ((1,), "s"), ((2,), "t")],
    [((0, 1, 2, 3, 4), "p"), ((0, 1), "q"), ((2, 3), "s"), ((1, 2), "t")],
    [((0,), "p"), ((1,), "q"), ((2,), "s"), ((3,), "t"), ((4,), PQ)],
    [((0, 1), "p"), ((1, 2), "q"), ((2, 3), "s"), ((3, 4), "t"), ((0, 4), PQ)],
    [((0, 1, 2), "p"), ((2, 3), "0"), ((1, 3), "q")],
    [((0, 1, 2), "p"), ((1, 2, 3), "any"), ((2, 3, 4), "q")],
    [((0, 1), "p"), ((2, 3), "any"), ((1, 2), "e")],
    [((0, 2, 4), "p"), ((1, 3), "p"), ((0, 1), "q")],
    [((0,), "p"), ((1,), "p"), ((2,), "p"), ((3,), "q")],
    [((0,), "p"), ((1, 2), "p"), ((3,), "p"), ((4,), "p")],
]


def wide_job(tag, n, idx, disjoint_names=False):
    """classes over five symbols, judged symbol by symbol: the result at a symbol is the same combination of what
    the children have at that symbol"""

    def run(env, res, split, job):
        body = sym_body(env.P)
        need(env.P, "RelevanceCache::new")

        def f(I, ctx):
            T = env.template(5)
            u = Uni(I, T, True, 3)
            u.allow_look = True
            contracts.install(u, nomatch=("And",), pay=0, nomax=2)
            names = {}

            def value(r, own):
                if r == "0":
                    return NO_MATCH
                if r == "e":
                    return EMPTY
                if r == "any":
                    return ANYSTR
                if isinstance(r, tuple):
                    return strip(u.call("ExprSet::mk_or", Vec([u.ref(x) for x in sorted(value(y, own) for y in r[1:])]))).f[0]
                if own + r not in names:
                    names[own + r] = u.leaf(None, no("Lookahead"), own + r, 2).id
                return names[own + r]

            def cond(ls):
                m = sum(1 << x for x in ls)
                if len(ls) == 1:
                    return T.bytes[ls[0]]
                return strip(u.call("ExprSet::mk_byte_set", Slice([m], 0, 1))).f[0]

            kids = []
            lists = {}
            for k in range(n):
                x = u.leaf(None, no("Lookahead", "Or", "And", "Not"), "k%d" % k, 1).id
                kids.append(x)
                ls = WLISTS[idx[k] if k < len(idx) else idx[-1]]
                lists[x] = [(c, value(r, "k%d" % k if disjoint_names else "")) for c, r in ls]
                u.nodes[x].sem = ("wide",)
            kids.sort()
            e = inner(u, tag, kids)

            def seed(i):
                if i in lists:
                    return Vec([tup(u.ref(cond(c)), u.ref(r)) for c, r in lists[i]])
                raise Undecided("classes of another node")

            install_map(u, seed)
            rc = [used(I, "RelevanceCache::new")]
            r = I.run(body["id"], [Ref(rc, 0), u.exprs, u.ref(e)])
            l = []
            for p in seq(r):
                p = strip(p)
                l.append((strip(p.f[0]).f[0], strip(p.f[1]).f[0]))
            return u, e, kids, lists, l

        lab = "%s of %s" % (tag, ", ".join(str(WLISTS[i]) for i in idx))
        for I, ctx, (u, e, kids, lists, l) in traces(env, res, split, job, f, panics=("sym.panic", lambda I: lab)):
            conds = []
            bad = False
            for c, r in l:
                m = condmask(u, c)
                if m is None or m == 0:
                    res.violate("sym.cond", "RelevanceCache::deriv", "%s: condition %s is not a non-empty byte class" % (lab, u.show(c)), "")
                    bad = True
                    break
                conds.append((m, r))
            if bad:
                continue
            views = {}
            rng = random.Random(29)
            done = 0
            for _ in range(24):
                A = O.Assign(u, env.pools, rng, views)
                if A.bad:
                    continue
                try:
                    if not contracts.empties_ok(u, A):
                        continue
                    for s in range(5):
                        ds = [O.union([A.den(r) for c, r in lists[k] if s in c] or [O.EMPTYSET]) for k in kids]
                        exp = O.compl(ds[0]) if tag == "Not" else O.union(ds) if tag == "Or" else O.inter(ds)
                        got = O.union([A.den(r) for m, r in conds if m >> s & 1] or [O.EMPTYSET])
                        if exp[0] != got[0]:
                            i = next(O.bits(exp[0] ^ got[0]))
                            res.violate(
                                "sym",
                                "RelevanceCache::deriv",
                                "byte classes of %s -> %s" % (lab, "; ".join("%s: %s" % (bin(m)[2:], u.show(r)) for m, r in conds)),
                                "symbol %d: differs on %s: expected %s" % (s, O.wstr(i), "member" if exp[0] >> i & 1 else "non-member"),
                            )
                            bad = True
                            break
                except (O.Skip, Undecided):
                    res.skipped += 1
                    continue
                except Infeasible:
                    continue
                if bad:
                    break
                done += 1
                res.evals += 1
                if done >= 6:
                    break
            if done and not bad:
                res.ok("sym")

    return run


def haslook(u, i):
    n = u.nodes.get(i)
    if n is None or n.kids is None:
        return n is not None and n.sem is not None and n.sem[0] == "Lookahead"
    return n.tags[0] == "Lookahead" or any(haslook(u, k) for k in n.kids)


def all_jobs(tier):
    J = []
    full = list(range(len(LISTS)))
    for t in COMPOSITE:

        def mk(u, T, t=t):
            return u.leaf(20, (t,), "e").id

        ls = full if t in ("Not", "Repeat", "Prefixes", "Lookahead") or tier == "thorough" else FEW
        J.append(Job("sym", "byte classes of " + t, sym_job(mk, ls), split=4 if t in ("Or", "And", "Concat") else 1))
    for t in ("Or", "And", "Concat"):

        def mk2(u, T, t=t):
            u.simple_kids = False
            return u.leaf(20, (t,), "e").id

        J.append(Job("sym", "byte classes of binary " + t, sym_job(mk2, full), split=8))
    for i in range(5):
        J.append(Job("sym", "byte classes of constant %d" % (i + 1), sym_job(lambda u, T, i=i: i + 1, [0])))
    for b in range(3):
        J.append(Job("sym", "byte classes of byte %d" % b, sym_job(lambda u, T, b=b: T.bytes[b], [0])))
    for m in (3, 5, 6):
        J.append(Job("sym", "byte classes of set %d" % m, sym_job(lambda u, T, m=m: T.sets[m], [0])))
    for nm, f in shapes().items():
        J.append(Job("symmap", "byte classes of shape " + nm, sym_job(f, [1, 6] if tier == "quick" else FEW), split=2))
    for i in range(len(WLISTS)):
        J.append(Job("sym", "classes over 5 symbols: Not %d" % i, wide_job("Not", 1, [i])))
    pairs = [(0, 1), (0, 4), (12, 13), (12, 12), (7, 8), (9, 10), (3, 6), (11, 5)]
    if tier == "thorough":
        pairs = [(i, j) for i in range(len(WLISTS)) for j in range(i, len(WLISTS))]
    for t in ("Or", "And"):
        for i, j in pairs:
            for d in (False, True):
                J.append(Job("sym", "classes over 5 symbols: %s %d %d %s" % (t, i, j, d), wide_job(t, 2, [i, j], d)))
    for t in ("Or", "And"):
        J.append(Job("sym", "classes over 5 symbols: %s 12 13 11" % t, wide_job(t, 3, [12, 13, 11])))
    return J
