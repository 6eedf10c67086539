"""Constructors of regex nodes: language, flags, no panic (groups mk_*)"""
from framework import *

LOOK = ("Lookahead",)


def no(*ex):
    return tuple(t for t in COMPOSITE if t not in ex)


def key_of(op):
    return "ExprSet::mk_" + op.lower()


def build_arg(u, s, T):
    if s[0] == "leaf":
        return u.leaf(s[1], s[2], "xyzw"[len([l for l in u.leaves if l.depth == 0]) % 4]).id
    if s[0] == "b":
        return T.bytes[s[1]]
    if s[0] == "s":
        return T.sets[s[1]]
    if s[0] == "id":
        return s[1]
    if s[0] == "alias":
        return None
    raise ValueError(s)


def flat(u, op, i):
    """how many operands i stands for under the operator, as far as the analysed code looked"""
    n = u.nodes.get(i)
    if n is None or n.tags != (op,) or n.kids is None:
        return 1
    return max(1, len(n.kids))


def nary_job(op, specs, opt=True, rich=1, alias=False, look=False, depth=3):
    def run(env, res, split, job):
        need(env.P, key_of(op))

        def f(I, ctx):
            T = env.template()
            u = Uni(I, T, opt, depth)
            u.rich = rich
            u.allow_look = look
            ids = []
            for s in specs:
                if s[0] == "alias":
                    ids.append(ids[s[1]])
                else:
                    ids.append(build_arg(u, s, T))
            if alias:
                u.alias = [i for i in ids if i in u.nodes]
                u.alias_concat = True
            cost0 = I.call_path("ExprSet::cost", u.exprs)
            r = u.call(key_of(op), Vec(u.refs(ids))).f[0]
            cost1 = I.call_path("ExprSet::cost", u.exprs)
            return u, ids, r, cost1 - cost0

        def show(I):
            u = I.uni
            return ", ".join(u.show(n.id) for n in u.leaves if n.depth == 0)

        for I, ctx, (u, ids, r, cost) in traces(env, res, split, job, f, panics=("mk.panic", show)):
            check_lang(env, res, u, "mk.lang." + op.lower(), "mk.flags", key_of(op), op, ids, [], r)
            if len(ids) > 0 and cost < sum(flat(u, op, i) for i in ids):
                res.violate("mk.cost", key_of(op), "%s of %d operands accounts a cost of %d" % (op, len(ids), cost))

    return run


def jobs_nary(op, tier):
    J = []
    A = no("Lookahead") if op == "And" else COMPOSITE
    A1 = no("Lookahead")

    def add(name, specs, **kw):
        split = kw.pop("split", 1)
        J.append(Job("mk_" + op.lower(), "mk_%s %s" % (op.lower(), name), nary_job(op, specs, **kw), split=split))

    def L(slot, tags=None):
        return ("leaf", slot, tags or A)

    consts = [("id", EMPTY), ("id", NO_MATCH), ("id", ANY), ("id", ANYSTR), ("id", NONEMPTY), ("b", 0), ("b", 1), ("s", 3), ("s", 6), ("s", 5)]
    add("[]", [])
    for opt in (True, False) if op == "Or" else (True,):
        o = "" if opt else " (no optimisation)"
        add("x" + o, [L(20)], opt=opt)
        first = L(20, A1) if op == "Concat" else L(20)
        second = L(30, A1) if op == "Concat" else L(30)
        sp = 8 if op == "Or" and opt else 1
        add("x,y" + o, [first, L(30)], opt=opt, split=sp, rich=1)
        add("y,x" + o, [second, L(20)], opt=opt, split=sp, rich=1)
        add("x,x" + o, [first, ("alias", 0)], opt=opt)
        add("x,y alias" + o, [L(20, A1), L(30, A1)], opt=False, alias=True, split=2)
        for i, c in enumerate(consts):
            add("x,const%d%s" % (i, o), [first, c], opt=opt)
            add("const%d,x%s" % (i, o), [c, L(20)], opt=opt)
        # three operands: one may have any structure, the others are not flattened
        nf = no(op, "Lookahead") if op != "Or" else no("Or", "Concat")
        last = no(op) if op == "Concat" else nf
        for j, perm in enumerate([(10, 20, 30), (30, 20, 10), (20, 30, 10), (10, 30, 20)]):
            for k in range(3):
                sl = [("leaf", p, (A1 if op == "Concat" and i < 2 else A) if i == k else (last if i == 2 else nf)) for i, p in enumerate(perm)]
                if j and k and tier == "quick":
                    continue
                add("3/%s/%d%s" % (perm, k, o), sl, opt=opt, rich=0, split=2 if op == "Or" else 1)
        for c in consts:
            add("x,%s,y%s" % (c, o), [("leaf", 20, nf), c, ("leaf", 30, last)], opt=opt, rich=0)
            add("x,%s,x%s" % (c, o), [("leaf", 20, nf), c, ("alias", 0)], opt=opt, rich=0)
        for i, c in enumerate(consts):
            for d in consts:
                add("%s,%s%s" % (c, d, o), [c, d], opt=opt)
                if i >= 5 or tier != "quick":
                    add("%s,%s,x%s" % (c, d, o), [c, d, ("leaf", 20, no(op, "Concat"))], opt=opt, rich=0)
        add("bytes%s" % o, [("b", 2), ("s", 3), ("b", 0), ("leaf", 20, no(op, "Concat")), ("s", 5)], opt=opt, rich=0)
        add("x,y,x,y%s" % o, [("leaf", 20, nf), ("leaf", 30, nf), ("alias", 0), ("alias", 1)], opt=opt, rich=0)
        add("5%s" % o, [("leaf", p, nf) for p in (30, 10, 40, 20, 5)], opt=False if op == "Or" else True, rich=0, split=2)
    return J


# ---------------------------------------------------------------- unary constructors


def unary_job(op, spec, ints=None):
    def run(env, res, split, job):
        need(env.P, key_of(op))

        def f(I, ctx):
            T = env.template()
            u = Uni(I, T, True, 3)
            x = build_arg(u, spec, T)
            iv = ints(u, ctx) if ints else []
            cost0 = I.call_path("ExprSet::cost", u.exprs)
            r = u.call(key_of(op), u.ref(x), *iv).f[0]
            return u, x, iv, r, I.call_path("ExprSet::cost", u.exprs) - cost0

        def show(I):
            u = I.uni
            return ", ".join(u.show(n.id) for n in u.leaves if n.depth == 0)

        for I, ctx, (u, x, iv, r, cost) in traces(env, res, split, job, f, panics=("mk.panic", show)):
            if cost < 1:
                res.violate("mk.cost", key_of(op), "the construction is not charged (%d)" % cost, u.show(x))
            else:
                res.ok("mk.cost")
            check_lang(env, res, u, "mk.lang." + op.lower(), "mk.flags", key_of(op), op, [x], iv, r, n=14, known=known_prefix)
            if op == "Lookahead":
                check_look(env, res, u, x, iv, r)

    return run


def known_prefix(u, op, args, r, fl, e):
    """the recorded finding: Prefixes of an operand that is not flagged positive"""
    if op == "Prefixes" and fl == (False, False) and e[2] and not u.pos(args[0]):
        return "mk_prefixes-operand-not-flagged-positive"
    return None


def check_look(env, res, u, x, iv, r):
    """Lookahead(e, n): accepting the k-th byte of e must report n + k"""
    views = {}
    rng = random.Random(3)
    for k in range(6):
        A = O.Assign(u, env.pools, rng, views)
        if A.bad:
            continue
        try:
            exp = {w: A.int(iv[0]) + O.LEN[w] for w in O.bits(O.short(A.den(x))[0])}
            got = look_map(u, A, r)
        except (O.Skip, Undecided, Infeasible):
            continue
        if got is None:
            continue
        res.ok("mk.look")
        if got != exp:
            res.violate("mk.look", key_of("Lookahead"), "Lookahead(%s; %s) -> %s" % (u.show(x), iv[0], u.show(r)), "lookahead lengths: expected %s got %s" % (exp, got))
            return


def look_map(u, A, i):
    """word -> reported lookahead length, for nodes made of lookaheads only (else None)"""
    if i == NO_MATCH:
        return {}
    v = A.views.get(i)
    if v is None:
        v = A.views[i] = u.view(i)
    if v is None:
        return None
    if v[0] == "Lookahead":
        n = A.int(v[2][0])
        d = A.den(v[1][0])
        if d[0] & 1 and v[1][0] != EMPTY:
            # it is not over where its operand first matches: no length is reported there, and longer matches follow
            return {w: n + O.LEN[w] if w else 0 for w in O.bits(d[0])}
        return {w: n + O.LEN[w] for w in O.bits(O.short(d)[0])}
    if v[0] == "Or":
        out = {}
        for k in v[1]:
            m = look_map(u, A, k)
            if m is None:
                return None
            for w, n in m.items():
                out[w] = min(out.get(w, n), n)
        return out
    return None


def look_or_job(kinds, order):
    """Or of lookaheads over shared / different bodies: the shortest lookahead must win"""

    def run(env, res, split, job):
        need(env.P, "ExprSet::mk_or")

        def f(I, ctx):
            T = env.template()
            u = Uni(I, T, False, 3)
            u.rich = 0
            bodies = {"e": EMPTY, "x": u.leaf(2, no("Lookahead"), "x").id, "y": u.leaf(40, no("Lookahead"), "y").id, "b": T.bytes[0]}
            for k in ("x", "y"):
                u.assign_flag(u.nodes[bodies[k]], "null", False, [])
            ids = []
            for i, k in enumerate(kinds):
                n = u.leaf(order[i], LOOK, "L%d" % i)
                n.kids = [bodies[k]]
                n.ints = [SInt(Atom("n%d" % i, 0, 1 << 20))]
                for j in range(i):
                    if kinds[j] == k:
                        ctx.rels.append(("Ne", n.ints[0], u.nodes[ids[j]].ints[0]))
                u.adopt(n)
                ids.append(n.id)
            r = u.call("ExprSet::mk_or", Vec(u.refs(ids))).f[0]
            return u, ids, r

        for I, ctx, (u, ids, r) in traces(env, res, split, job, f, panics=("mk.panic", None)):
            check_lang(env, res, u, "mk.lang.or", "mk.flags", "ExprSet::mk_or", "Or", ids, [], r)
            views = {}
            rng = random.Random(11)
            for k in range(10):
                A = O.Assign(u, env.pools, rng, views)
                if A.bad:
                    continue
                try:
                    exp = {}
                    for i in ids:
                        for w, n in look_map(u, A, i).items():
                            exp[w] = min(exp.get(w, n), n)
                    got = look_map(u, A, r)
                except (O.Skip, Undecided, Infeasible):
                    continue
                if got is None:
                    continue
                res.ok("mk.look")
                if got != exp:
                    res.violate("mk.look", "ExprSet::mk_or", "Or(%s) -> %s" % (", ".join(u.show(x) for x in ids), u.show(r)), "lookahead lengths: expected %s got %s" % (exp, got))
                    break

    return run


def int_repeat(lo1, hi1, lo2, hi2, rel=True):
    def f(u, ctx):
        a = SInt(Atom("min", lo1, hi1)) if lo1 != hi1 else lo1
        b = SInt(Atom("max", lo2, hi2)) if lo2 != hi2 else lo2
        if rel and isinstance(a, SInt) and isinstance(b, SInt):
            ctx.rels.append(("Le", a, b))
        return [a, b]

    return f


def jobs_unary(tier):
    J = []
    consts = [("id", EMPTY), ("id", NO_MATCH), ("id", ANY), ("id", ANYSTR), ("id", NONEMPTY), ("b", 0), ("s", 6)]
    for op in ("Not", "Prefixes", "Lookahead"):
        ints = (lambda u, ctx: [SInt(Atom("n", 0, 1 << 20))]) if op == "Lookahead" else None
        tags = no("Lookahead")
        g = "mk_look" if op == "Lookahead" else "mk_unary"
        J.append(Job(g, "mk_%s x" % op.lower(), unary_job(op, ("leaf", 20, tags), ints)))
        for c in consts:
            J.append(Job(g, "mk_%s %s" % (op.lower(), c), unary_job(op, c, ints)))
    for c in consts + [("leaf", 20, no("Lookahead"))]:
        for nm, iv in (
            ("min<=max", int_repeat(0, U32MAX, 0, U32MAX)),
            ("min,inf", int_repeat(0, U32MAX, U32MAX, U32MAX)),
            ("0,max", int_repeat(0, 0, 0, U32MAX)),
            ("small", int_repeat(0, 3, 0, 3)),
        ):
            J.append(Job("mk_unary", "mk_repeat %s %s" % (c, nm), unary_job("Repeat", c, iv)))
    for kinds, order in (
        ("ee", (10, 20)),
        ("ee", (20, 10)),
        ("xx", (10, 20)),
        ("xx", (20, 10)),
        ("xy", (10, 20)),
        ("ex", (10, 20)),
        ("ex", (20, 10)),
        ("xxy", (20, 10, 30)),
        ("eex", (20, 10, 30)),
        ("exe", (20, 30, 10)),
        ("xbx", (30, 20, 10)),
        ("xyx", (30, 10, 20)),
        ("eee", (30, 10, 20)),
        ("eex", (10, 20, 5)),
        ("eeyx", (10, 20, 5, 30)),
    ):
        J.append(Job("mk_look", "or of lookaheads %s %s" % (kinds, order), look_or_job(kinds, order)))
    return J


# ---------------------------------------------------------------- alternation of word-like concatenations (trie)


def trie_job(words, perm=None, tailopen=()):
    """Or of real concatenations over leaves: words are strings over leaf letters; '' is the empty string"""

    def run(env, res, split, job):
        need(env.P, "ExprSet::mk_or", "ExprSet::mk_concat")

        def f(I, ctx):
            T = env.template()
            u = Uni(I, T, True, 2)
            u.rich = 0
            al = {}

            def sym(c):
                if c in "012":
                    return T.bytes[int(c)]
                if c not in al:
                    al[c] = u.leaf(4 + 4 * (ord(c) - ord("p")), no("Lookahead", "Concat", "Or"), c).id
                return al[c]

            ids = []
            for w in words:
                l = [sym(c) for c in w]
                ids.append(u.call("ExprSet::mk_concat", Vec(u.refs(l))).f[0])
            if perm:
                ids = [ids[i] for i in perm]
            r = u.call("ExprSet::mk_or", Vec(u.refs(ids))).f[0]
            return u, ids, r

        for I, ctx, (u, ids, r) in traces(env, res, split, job, f, panics=("mk.panic", None), budget=20_000_000):
            check_lang(env, res, u, "mk.lang.or", "mk.flags", "ExprSet::mk_or", "Or", ids, [], r, n=16)
            opt = [i for i, v in enumerate(env.P.types[env.P.adt("ExprSet")]["variants"][0]["fields"]) if v[0] == "optimize"]

    return run


def jobs_trie(tier):
    J = []
    sets = [
        ["01", "02"],
        ["pq", "pr"],
        ["p", "pq"],
        ["pq", "p", "pr"],
        ["pq", "pqr"],
        ["pqr", "pqs", "pt"],
        ["pqr", "prq", "qpr", "qrp"],
        ["p0", "p1", "p2"],
        ["p0", "p1", "q"],
        ["", "p", "pq"],
        ["", "pq", "pr"],
        ["012", "01", "0"],
        ["0120", "0121", "0112", "1", "12", "2"],
        ["pp", "ppp", "pppp"],
        ["pqr", "pqr", "ps"],
        ["p0q", "p1q", "pq"],
        ["pqq", "pq", "prr", "pr"],
        ["0p", "0q", "1p", "1q", "2"],
        ["00", "01", "02", "1", "20", "21"],
    ]
    for s in sets:
        J.append(Job("mk_trie", "trie %s" % s, trie_job(s)))
        J.append(Job("mk_trie", "trie rev %s" % s, trie_job(s, list(reversed(range(len(s)))))))
    # nesting deeper than the recursion bound of the prefix sharing
    deep = ["p" * i + "q" for i in range(1, 108)] + ["p" * 107]
    J.append(Job("mk_trie", "trie deep chain", trie_job(deep), secs=200))
    return J


def leaf_job():
    """single bytes, byte sets, strings: what they denote and that building them is charged"""

    def run(env, res, split, job):
        names = ("mk_byte", "mk_byte_set", "mk_byte_literal", "mk_literal")
        need(env.P, *["ExprSet::" + x for x in names])

        def f(I, ctx):
            T = env.template()
            u = Uni(I, T, True, 2)
            k = names[ctx.choose(4, "constructor")]
            if k == "mk_byte":
                v = ctx.choose(3, "byte")
                a, e = v, [{v}]
            elif k == "mk_byte_set":
                v = ctx.choose(8, "set")
                a, e = Slice([v], 0, 1), [{b for b in range(3) if v >> b & 1}]
            else:
                n = ctx.choose(5, "length")
                v = [(2 * i + ctx.choose(2, "letter")) % 3 for i in range(n)]
                a, e = Slice(v, 0, n), [{b} for b in v]
            c = I.call_path("ExprSet::cost", u.exprs)
            r = u.call("ExprSet::" + k, a).f[0]
            return u, k, v, e, r, I.call_path("ExprSet::cost", u.exprs) - c

        for I, ctx, (u, k, v, e, r, cost) in traces(env, res, split, job, f, panics=("mk.panic", None)):
            W = "ExprSet::" + k
            if cost < len(e):
                res.violate("mk.cost", W, "the construction is not charged (%d)" % cost, str(v))
            A = O.Assign(u, env.pools, random.Random(1), {})
            w = O.cat([O.letters(sorted(x)) if x else O.EMPTYSET for x in e]) if e else O.EPS
            try:
                g = A.den(r)
            except (O.Skip, Undecided):
                res.skipped += 1
                continue
            if g[0] != w[0]:
                res.violate("mk.lang." + k[3:], W, "%s(%s) -> %s" % (k, v, u.show(r)), "language differs on '%s'" % O.wstr(next(O.bits(g[0] ^ w[0]))))
                continue
            fl = (u.null(r), u.pos(r))
            if fl != (bool(w[0] & 1), w[2] is not False):
                res.violate("mk.flags", W, "flags of %s(%s)" % (k, v), "%s" % (fl,))
                continue
            res.ok("mk.lang")

    return run


def many_job(op):
    """many operands of different identity, in several orders, some twice, some constants between them"""

    def run(env, res, split, job):
        need(env.P, key_of(op))

        def f(I, ctx):
            T = env.template()
            u = Uni(I, T, True, 1)
            n = (6, 8, 9, 12, 16, 17, 24, 33, 40)[ctx.choose(9, "operands")]
            # at most one that contains the empty word, so that the others are seen
            z = ctx.choose(3, "nullable")
            sl = list(range(n))
            o = ctx.choose(4, "order")
            if o == 1:
                sl.reverse()
            elif o == 2:
                sl = sl[::2] + sl[1::2]
            elif o == 3:
                random.Random(n).shuffle(sl)
            ids = []
            for q, s in enumerate(sl):
                x = u.leaf(s, ("Repeat",) if q % 3 else ("Not",), "e%d" % q)
                nul = z == 1 and q == n // 2 or z == 2
                u.assign_flag(x, "null", nul, [])
                u.assign_flag(x, "pos", True if x.tags == ("Repeat",) else nul, [])
                ids.append(x.id)
            e = ctx.choose(8 if n == 6 and z == 0 and o == 0 else 5, "besides")
            if e > 4:
                # over and over: amounts that are nothing when cut to one or two bytes
                ids = (ids * 11000)[: (256, 1024, 65536)[e - 5]]
            elif e == 1:
                ids.append(ids[0])
            elif e == 2:
                ids = ids[:3] + ids
            elif e == 3:
                ids = ids[: n // 2] + [T.bytes[0]] + ids[n // 2 :] + [T.bytes[1]]
            elif e == 4:
                ids = ids[: n // 2] + [{"Or": NO_MATCH, "And": ANYSTR, "Concat": EMPTY}[op]] + ids[n // 2 :]
            cost0 = I.call_path("ExprSet::cost", u.exprs)
            r = u.call(key_of(op), Vec(u.refs(ids))).f[0]
            return u, ids, r, "%s of %d operands" % (op, len(ids)), I.call_path("ExprSet::cost", u.exprs) - cost0

        for I, ctx, (u, ids, r, nm, cost) in traces(env, res, split, job, f, budget=6 * 10**7, panics=("mk.panic", lambda I: "many operands of " + op)):
            if cost < 1:
                res.violate("mk.cost", key_of(op), nm, "the construction is not charged (%d)" % cost)
            else:
                res.ok("mk.cost")
            v = u.view(r)
            want = list(ids)
            if op != "Concat":
                want = set(want)
            if v is not None and v[0] == op and (list(v[1]) == want if op == "Concat" else set(v[1]) == want):
                # the very operands
                res.ok("mk.lang." + op.lower())
                fl = (u.null(r), u.pos(r))
                null = all(u.null(i) for i in ids) if op != "Or" else any(u.null(i) for i in ids)
                pos = {"Or": any, "And": all, "Concat": all}[op](u.pos(i) for i in ids)
                if fl[0] != null or fl[1] and not fl[0] and op != "And" and not pos or fl[0] and not fl[1]:
                    res.violate("mk.flags", key_of(op), nm, "%s" % (fl,))
                else:
                    res.ok("mk.flags")
                continue
            check_lang(env, res, u, "mk.lang." + op.lower(), "mk.flags", key_of(op), op, ids, [], r, n=12)

    return run


def all_jobs(tier):
    J = []
    for op in ("Or", "And", "Concat"):
        J.append(Job("mk_" + op.lower(), "mk_%s of many" % op, many_job(op), split=2))
    for op in ("Or", "And", "Concat"):
        J += jobs_nary(op, tier)
    J += jobs_unary(tier) + jobs_trie(tier)
    J.append(Job("mk_unary", "bytes, sets and strings", leaf_job()))
    return J
