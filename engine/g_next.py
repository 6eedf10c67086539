"""Forced next byte and lookahead lengths of a state"""
from framework import *
from g_mk import no
from g_deriv import inner


def nb_name(P, v):
    return P.types[v.ty]["variants"][v.v]["name"]


def gamma(name, b=None):
    """words allowed by a verdict"""
    if name == "Dead":
        return 0
    if name == "ForcedEOI":
        return 1
    if name == "SomeBytes":
        return O.FULL
    m = 0
    for i, w in enumerate(O.WORDS):
        if w and w[0] == b:
            m |= 1 << i
    return m


def judge(env, res, u, e, v, W, n=10):
    P = env.P
    name = nb_name(P, v)
    b = strip(v.f[0]) if name == "ForcedByte" else None
    if name == "SomeBytes":
        res.ok("next")
        return
    if name not in ("Dead", "ForcedEOI", "ForcedByte"):
        res.undec("unknown verdict " + name)
        return
    rng = random.Random(5)
    views = {}
    done = 0
    for k in range(n):
        A = O.Assign(u, env.pools, rng, views)
        if A.bad:
            continue
        try:
            d = A.den(e)
        except (O.Skip, Undecided):
            res.skipped += 1
            continue
        except Infeasible:
            continue
        done += 1
        res.evals += 1
        x = d[0] & ~gamma(name, b)
        if name == "Dead" and d[2]:
            x = x or 1
        if x:
            i = next(O.bits(x))
            res.violate("next", W, "%s reported for %s" % (name + ("(%s)" % b if b is not None else ""), u.show(e)), "but it accepts %s" % O.wstr(i))
            return
    if done:
        res.ok("next")
        if len(res.samples) < 3:
            res.samples.append("%s for %s" % (name, u.show(e)))


def gen(maxd):
    """structure down to maxd levels; below, only kinds whose verdict cannot depend on their parts"""

    def kid_gen(u, n, t, lf):
        if t in ("Or", "And", "Concat") or n.depth < maxd:
            if t == "Concat" and n.depth > 0:
                c = u.I.ctx.choose(3, n.name + ".head")
                k = [u.tpl.bytes[c]] if c < 2 else [stop(u, n, maxd)]
                return k + [u.leaf(None, no("Concat", "Lookahead"), n.name + ".t", n.depth + 1).id], []
            if t == "Or" and n.depth > 0:
                return sorted([stop(u, n, maxd), stop(u, n, maxd)]), []
            return None
        if t == "Lookahead" and u.I.ctx.choose(2, n.name + ".void"):
            return [EMPTY], [3]
        k = stop(u, n, maxd, t)
        if t == "Repeat":
            if k in u.nodes and u.null(k) or k in (EMPTY, ANYSTR):
                return [k], [0, SInt(Atom(n.name + ".max", 1, U32MAX))]
            return [k], [u.I.ctx.choose(2, n.name + ".min"), SInt(Atom(n.name + ".max", 1, U32MAX))]
        if t == "Lookahead":
            if k in u.nodes:
                u.assign_flag(u.nodes[k], "null", False, [])
            return [k], [3]
        return [k], []

    def stop(u, n, maxd, t=None):
        c = u.I.ctx.choose(4, n.name + ".part")
        if c < 2:
            return [u.tpl.bytes[1], u.tpl.sets[6]][c]
        if c == 2 and n.depth + 1 < maxd + 1:
            return u.leaf(None, [x for x in ("Repeat", "Concat") if x != t], n.name + ".r", n.depth + 1).id
        return u.leaf(None, [x for x in ("And", "Not", "Prefixes") if x != t], n.name + ".o", n.depth + 1).id

    return kid_gen


def next_job(mk, rich=1, depth=5, maxd=1, simple=True):
    def run(env, res, split, job):
        need(env.P, "NextByteCache::new", "NextByteCache::next_byte")

        def f(I, ctx):
            T = env.template()
            u = Uni(I, T, True, depth)
            u.allow_look = True
            u.rich = rich
            u.kid_gen = gen(maxd)
            u.simple_kids = simple
            e = mk(u, T)
            c = [used(I, "NextByteCache::new")]
            out = []
            for x in e if isinstance(e, list) else [e]:
                out.append((x, I.call_path("NextByteCache::next_byte", Ref(c, 0), u.exprs, u.ref(x))))
            if len(out) > 1:
                for x, v in out:
                    c2 = [used(I, "NextByteCache::new")]
                    w = I.call_path("NextByteCache::next_byte", Ref(c2, 0), u.exprs, u.ref(x))
                    if (w.v, [strip(y) for y in w.f]) != (v.v, [strip(y) for y in v.f]):
                        res.violate("next.order", "NextByteCache::next_byte", "next byte of %s depends on earlier queries" % u.show(x), "%s after others, %s by itself" % (nb_name(env.P, v), nb_name(env.P, w)))
            return u, out

        for I, ctx, (u, out) in traces(env, res, split, job, f, panics=("next.panic", None)):
            for x, v in out:
                judge(env, res, u, x, v, "NextByteCache::next_byte")

    return run


def table_job(env, res, split, job):
    """the join and meet of verdicts against the sets of words they stand for"""
    P = env.P
    ty = None
    for t, d in enumerate(P.types):
        if d["k"] == "adt" and (d.get("path") or "").endswith("::NextByte"):
            ty = t
    if ty is None:
        raise Undecided("no type NextByte")
    vals = []
    for i, v in enumerate(P.types[ty]["variants"]):
        if v["fields"]:
            vals += [(v["name"], 0, Agg("adt", ty, i, [0])), (v["name"], 1, Agg("adt", ty, i, [1]))]
        else:
            vals.append((v["name"], None, Agg("adt", ty, i, [])))
    I = env.interp(Ctx([]))
    for tr, op in (("std::ops::BitOr", "bitor"), ("std::ops::BitAnd", "bitand")):
        bs = [b for b in P.bodies.values() if (b["key"] or "").endswith("::" + op) and "NextByte" in b["key"]]
        if len(bs) != 1:
            res.undec("no unique " + op)
            continue
        for n1, b1, v1 in vals:
            for n2, b2, v2 in vals:
                try:
                    r = I.run(bs[0]["id"], [vclone(I, v1), vclone(I, v2)])
                except Panic:
                    res.violate("next.table", op, "panics on %s, %s" % (n1, n2))
                    continue
                res.traces += 1
                rn = nb_name(P, r)
                g = gamma(rn, r.f[0] if r.f else None)
                g1, g2 = gamma(n1, b1), gamma(n2, b2)
                e = g1 | g2 if op == "bitor" else g1 & g2
                if e & ~g:
                    res.violate("next.table", "NextByte::" + op, "%s of %s(%s) and %s(%s) gives %s" % (op, n1, b1, n2, b2, rn), "accepts fewer words than it must")
                else:
                    res.ok("next.table")


# ---------------------------------------------------------------- lookahead lengths


def look_alts(u, e):
    v = u.view(e)
    if v is None:
        return []
    ks = v[1] if v[0] == "Or" else [e]
    out = []
    for k in ks:
        w = u.view(k)
        if w is not None and w[0] == "Lookahead":
            out.append((w[1][0], w[2][0]))
    return out


def len_job(mk):
    def run(env, res, split, job):
        need(env.P, "ExprSet::lookahead_len", "ExprSet::possible_lookahead_len")

        def f(I, ctx):
            T = env.template()
            u = Uni(I, T, True, 3)
            u.allow_look = True
            e = mk(u, T)
            return u, e, u.call("ExprSet::lookahead_len", u.ref(e)), u.call("ExprSet::possible_lookahead_len", u.ref(e))

        for I, ctx, (u, e, r, p) in traces(env, res, split, job, f, panics=("look.panic", None)):
            try:
                alts = look_alts(u, e)
            except Undecided as x:
                res.undec(x)
                continue
            rng = random.Random(3)
            for k in range(12):
                A = O.Assign(u, env.pools, rng, {})
                if A.bad:
                    continue
                fin = [A.int(n) for x, n in alts if x == EMPTY]
                alln = [A.int(n) for x, n in alts]
                exp = min(fin) if fin else None
                got = A.int(strip(r.f[0])) if r.v == 1 else None
                res.evals += 1
                W = "ExprSet::lookahead_len"
                if exp != got:
                    res.violate("look.len", W, "length reported for %s" % u.show(e), "expected %s, got %s (alternatives %s)" % (exp, got, alln))
                    break
                gp = A.int(strip(p))
                if gp != max(alln, default=0):
                    res.violate("look.possible", "ExprSet::possible_lookahead_len", "possible length reported for %s" % u.show(e), "expected %s, got %s" % (max(alln, default=0), gp))
                    break
            else:
                res.ok("look.len")
                if len(res.samples) < 3:
                    res.samples.append("length of %s = %s" % (u.show(e), r))

    return run


def len_shapes():
    def at(u, n):
        return SInt(Atom(n, 0, U32MAX))

    def fin(u, nm, s):
        return inner(u, "Lookahead", [EMPTY], [at(u, nm)], slot=s)

    def run(u, nm, s, x):
        y = u.leaf(x, no("Lookahead"), "x" + nm, 1)
        u.assign_flag(y, "null", False, [])
        return inner(u, "Lookahead", [y.id], [at(u, nm)], slot=s)

    return {
        "final": lambda u, T: fin(u, "n", 20),
        "running": lambda u, T: run(u, "n", 20, 5),
        "plain": lambda u, T: u.leaf(20, no("Or", "Lookahead"), "e").id,
        "empty string": lambda u, T: EMPTY,
        "two final": lambda u, T: inner(u, "Or", [fin(u, "n", 20), fin(u, "m", 21)], slot=30),
        "final and running": lambda u, T: inner(u, "Or", [fin(u, "n", 20), run(u, "m", 21, 5)], slot=30),
        "running and final": lambda u, T: inner(u, "Or", [run(u, "m", 19, 5), fin(u, "n", 20)], slot=30),
        "final, running, final": lambda u, T: inner(u, "Or", [fin(u, "n", 19), run(u, "m", 20, 5), fin(u, "k", 21)], slot=30),
        "two running": lambda u, T: inner(u, "Or", [run(u, "n", 20, 5), run(u, "m", 21, 6)], slot=30),
        "three final": lambda u, T: inner(u, "Or", [fin(u, "n", 20), fin(u, "m", 21), fin(u, "k", 22)], slot=30),
        "plain and running": lambda u, T: inner(u, "Or", [u.leaf(19, no("Or", "Lookahead"), "e", 1).id, run(u, "m", 20, 5)], slot=30),
        "concat with final": lambda u, T: inner(u, "Concat", [u.leaf(19, no("Concat", "Lookahead"), "e", 1).id, fin(u, "m", 20)], slot=30),
        "plain or": lambda u, T: u.leaf(20, ("Or",), "e").id,
    }


def starts(bs):
    """words that start with these letters"""
    m = 0
    for i, w in enumerate(O.WORDS):
        if tuple(w[: len(bs)]) == tuple(bs):
            m |= 1 << i
    return m


def forced_job(mk):
    """the query for a forced text: true only if every word starts with it"""

    def run(env, res, split, job):
        need(env.P, "ExprSet::has_simply_forced_bytes")
        texts = [()] + [(a,) for a in range(3)] + [(a, b) for a in range(3) for b in range(3)] + [(a, b, c) for a in range(2) for b in range(2) for c in range(2)]

        def f(I, ctx):
            T = env.template()
            u = Uni(I, T, True, 3)
            u.allow_look = True
            u.simple_kids = False
            e = mk(u, T)
            out = []
            t = texts[ctx.choose(len(texts), "text")]
            r = I.call_path("ExprSet::has_simply_forced_bytes", u.exprs, u.ref(e), Slice(list(t), 0, len(t)))
            return u, e, t, I.truth(r)

        for I, ctx, (u, e, t, r) in traces(env, res, split, job, f, panics=("next.panic", lambda I: "forced text")):
            if not r:
                res.ok("next.forced")
                continue
            views = {}
            rng = random.Random(31)
            done = 0
            for k in range(12):
                A = O.Assign(u, env.pools, rng, views)
                if A.bad:
                    continue
                try:
                    d = A.den(e)
                except (O.Skip, Undecided):
                    res.skipped += 1
                    continue
                except Infeasible:
                    continue
                done += 1
                x = d[0] & ~starts(t)
                if x:
                    i = next(O.bits(x))
                    res.violate("next.forced", "ExprSet::has_simply_forced_bytes", "the text %s is reported as forced for %s" % (list(t), u.show(e)), "but it accepts %s" % O.wstr(i))
                    done = 0
                    break
                if done >= 5:
                    break
            if done:
                res.ok("next.forced")

    return run


def forced_shapes():
    from g_deriv import inner

    S = {}
    for t in COMPOSITE:
        S[t] = lambda u, T, t=t: u.leaf(20, (t,), "e").id
    for b in range(3):
        S["byte %d" % b] = lambda u, T, b=b: T.bytes[b]
    S["set"] = lambda u, T: T.sets[3]
    for w in [(0, 1), (0, 1, 0), (1, 1), (2, 0, 1)]:
        S["word %s" % (w,)] = lambda u, T, w=w: inner(u, "Concat", [T.bytes[b] for b in w])
        S["word %s and more" % (w,)] = lambda u, T, w=w: inner(u, "Concat", [T.bytes[b] for b in w] + [u.leaf(None, no("Concat"), "x", 1).id])
    S["letter, set"] = lambda u, T: inner(u, "Concat", [T.bytes[0], T.sets[3], T.bytes[1]])
    S["letter, unknown, letter"] = lambda u, T: inner(u, "Concat", [T.bytes[0], u.leaf(None, no("Concat"), "x", 1).id, T.bytes[1]])
    S["unknown, letter"] = lambda u, T: inner(u, "Concat", [u.leaf(None, no("Concat"), "x", 1).id, T.bytes[1]])
    return S


def all_jobs(tier):
    J = []
    for nm, f in forced_shapes().items():
        J.append(Job("next", "forced text of " + nm, forced_job(f)))
    for t in COMPOSITE:

        def mk(u, T, t=t):
            return u.leaf(20, (t,), "e").id

        J.append(Job("next", "next byte of " + t, next_job(mk, 1, 6, 2 if tier == "thorough" else 1), split=4 if t in ("Or", "Concat", "Lookahead", "Repeat") else 1, limit=100000))
    for i in [1, 2, 3, 4, 5, 6, 52]:
        J.append(Job("next", "next byte of node %d" % i, next_job(lambda u, T, i=i: i)))
    for m in (3, 7):
        J.append(Job("next", "next byte of set %d" % m, next_job(lambda u, T, m=m: T.sets[m] if m != 7 else ANY)))

    def two(u, T):
        e = u.leaf(20, ("Concat", "Or", "Repeat", "Lookahead"), "e")
        u.materialise(e)
        return [e.id] + [k for k in e.kids] + [e.id]

    def two_r(u, T):
        e = u.leaf(20, ("Concat", "Or", "Repeat", "Lookahead"), "e")
        u.materialise(e)
        return [k for k in e.kids] + [e.id]

    J.append(Job("next", "next byte of a node, then its parts", next_job(two, maxd=0, simple=False), split=4))
    J.append(Job("next", "next byte of the parts, then the node", next_job(two_r, maxd=0, simple=False), split=4))
    for d in (1 << 8, 1 << 16, 1 << 24):

        def far(u, T, d=d):
            x = u.leaf(5, no("Lookahead"), "x", 1).id
            y = u.leaf((5, d), no("Lookahead"), "y", 1).id
            a = inner(u, "Concat", [T.bytes[0], x], slot=30)
            b = inner(u, "Concat", [T.bytes[1], y], slot=(30, d))
            c = inner(u, "Concat", [T.sets[6], y], slot=(30, 2 * d))
            return [a, b, c, a]

        J.append(Job("next", "next byte of nodes far apart %d" % d, next_job(far, maxd=0, simple=False)))
    J.append(Job("next", "join and meet of verdicts", table_job))
    for nm, f in len_shapes().items():
        J.append(Job("look", "lookahead length: " + nm, len_job(f)))
    return J
