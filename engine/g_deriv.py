"""Derivatives: concrete-byte (DerivCache::derivative) and the generic node traversal (ExprSet::map)"""
from framework import *
import contracts
from g_mk import no, look_map
from models import hm_find, hm_put

MAPKEY = "ExprSet::map"


def install_map(u, seed):
    """structural induction over the traversal: before the real traversal of a node starts, the results for
    the children whose content is unknown are put into its result table. seed(child id) -> abstract result"""
    I = u.I
    done = set()

    def visit(i, cache, mk_key, seen):
        if i in seen:
            return
        seen.add(i)
        n = u.nodes.get(i)
        if n is not None and (n.kids is None or n.role == "atom"):
            k = I.call_value(mk_key, [u.ref(i)])
            if hm_find(I, cache, k) is None:
                hm_put(I, cache, k, seed(i))
            return
        if n is not None:
            for k in n.kids:
                visit(k, cache, mk_key, seen)
            return
        # real node: its children too (only nodes made during the trace can have abstract ones)
        if i in (ANYSTR, NONEMPTY) or i in u.tpl.real:
            return
        for k in u.view(i)[1] if u.view(i)[0] not in ("Byte", "ByteSet") else ():
            visit(k, cache, mk_key, seen)

    def hook(I, body, a):
        if not u.mine(a[0]):
            return NotImplemented
        cache = strip(a[2])
        if not isinstance(cache, HMap):
            raise Undecided("result table of the traversal is not a map")
        cell = [a[4]]
        mk_key = Ref(cell, 0)
        root = strip(a[1]).f[0]
        n = u.nodes.get(root)
        if n is not None and n.kids is None and n.sem is None and n.role != "atom":
            if hm_find(I, cache, I.call_value(mk_key, [u.ref(root)])) is None:
                u.materialise(n)
        if n is None or n.kids is not None:
            seen = set()
            for k in (n.kids if n is not None else (() if root in u.tpl.real or root in (ANYSTR, NONEMPTY) else u.view(root)[1])):
                visit(k, cache, mk_key, seen)
        return I.run(body["id"], a, nohook=True)

    need(u.P, MAPKEY) if len(u.P.by_key.get(MAPKEY, [])) == 0 else None
    I.hooks[MAPKEY] = hook


def deriv_setup(u):
    """children's derivatives are abstract nodes"""
    u.dmemo = {}
    u.byte = None

    def seed(i):
        b = u.byte
        key = (i, b)
        if key not in u.dmemo:
            c = u.I.ctx.choose(2, "%s by %d" % (u.nodes[i].name, b))
            if c == 1:
                u.emptyd.append((i, b))
                u.dmemo[key] = NO_MATCH
            else:
                n = u.fresh(("deriv", [i, b]), name="d%d(%s)" % (b, u.nodes[i].name))
                u.dmemo[key] = n.id
        return u.ref(u.dmemo[key])

    u.emptyd = []
    install_map(u, seed)


def emptyd_ok(u, A):
    for i, b in u.emptyd:
        if O.deriv(A.den(i), b)[2] is not False:
            return False
    return True


def judge(env, res, u, rule, e, b, r, where, n=10):
    views = {}
    rng = random.Random(17)
    done = 0
    for k in range(n * 4):
        A = O.Assign(u, env.pools, rng, views)
        if A.bad:
            continue
        try:
            if not emptyd_ok(u, A) or not contracts.empties_ok(u, A):
                continue
            exp = O.deriv(A.den(e), b)
            got = A.den(r)
        except (O.Skip, Undecided):
            res.skipped += 1
            continue
        except Infeasible:
            continue
        done += 1
        res.evals += 1
        d = (exp[0] ^ got[0]) & O.UPTO[2]
        if d:
            i = next(O.bits(d))
            res.violate(rule, where, "derivative of %s by letter %d -> %s" % (u.show(e), b, u.show(r)), "differs on %s: expected %s" % (O.wstr(i), "member" if exp[0] >> i & 1 else "non-member"))
            return
        try:
            m = lmap(u, A, e)
            if m is not None:
                g = lmap(u, A, r)
                if g is not None:
                    ex = {}
                    for w, x in m.items():
                        ww = O.WORDS[w]
                        if ww and ww[0] == b:
                            ex[O.IDX[ww[1:]]] = x
                    g = {w: x for w, x in g.items() if O.LEN[w] <= 2}
                    if ex != g:
                        res.violate(rule + ".look", where, "derivative of %s by letter %d -> %s" % (u.show(e), b, u.show(r)), "lookahead lengths: expected %s got %s" % (ex, g))
                        return
        except (O.Skip, Undecided, Infeasible):
            pass
        if done >= n:
            break
    if done and b == 0:
        for k in range(10):
            A = O.UAssign(u, env.pools, rng, views)
            if A.bad:
                continue
            try:
                if any(O.iv_deriv(A.den(i)) for i, x in u.emptyd if x == 0) or any(A.op(op, [A.den(x) for x in args], ints) for op, args, ints in u.empties):
                    continue
                exp = O.iv_deriv(A.den(e))
                got = A.den(r)
            except (O.Skip, Undecided, Infeasible):
                continue
            res.evals += 1
            if exp != got:
                res.violate(rule, where, "derivative of %s by letter 0 -> %s" % (u.show(e), u.show(r)), "over one letter: expected lengths %s, got %s; integers %s" % (exp, got, {a.name: v for a, v in A.atoms.items()}))
                return
    if done:
        res.ok(rule)
        if len(res.samples) < 3:
            res.samples.append("derivative of %s by %d => %s" % (u.show(e), b, u.show(r)))


def lmap(u, A, i):
    """look_map extended to summaries and to Concat with a final lookahead"""
    if i == NO_MATCH:
        return {}
    n = u.nodes.get(i)
    if n is not None and n.kids is None:
        if n.sem is None:
            return None
        op = n.sem[0]
        if op == "Lookahead":
            k = A.int(n.sem[2][0])
            return {w: k + O.LEN[w] for w in O.bits(O.short(A.den(n.sem[1][0]))[0])}
        if op == "Or":
            return join([lmap(u, A, x) for x in n.sem[1]])
        if op == "Concat":
            return catmap(u, A, n.sem[1])
        return None
    v = A.views.get(i)
    if v is None:
        v = A.views[i] = u.view(i)
    if v[0] == "Lookahead":
        k = A.int(v[2][0])
        return {w: k + O.LEN[w] for w in O.bits(O.short(A.den(v[1][0]))[0])}
    if v[0] == "Or":
        return join([lmap(u, A, x) for x in v[1]])
    if v[0] == "Concat":
        return catmap(u, A, v[1])
    return None


def join(ms):
    if any(m is None for m in ms):
        return None
    out = {}
    for m in ms:
        for w, n in m.items():
            out[w] = min(out.get(w, n), n)
    return out


def catmap(u, A, ks):
    m = lmap(u, A, ks[-1])
    if m is None:
        return None
    p = O.cat([A.den(k) for k in ks[:-1]])
    out = {}
    for x in O.bits(p[0]):
        for w, n in m.items():
            z = O.WORDS[x] + O.WORDS[w]
            if len(z) <= O.N:
                j = O.IDX[z]
                out[j] = min(out.get(j, n), n)
    return out


def counted(h, n):
    def g(I, b, a):
        n[0] += 1
        return h(I, b, a)

    return g


def deriv_job(mk, bytes_=(0, 1), opts=None, rule="deriv", memo=False):
    """mk(u, T) -> node id"""

    def run(env, res, split, job):
        need(env.P, "DerivCache::derivative", "DerivCache::new")

        def f(I, ctx):
            T = env.template()
            u = Uni(I, T, opts is None or opts.get("optimize", True), 3)
            u.allow_look = True
            contracts.install(u)
            deriv_setup(u)
            e = mk(u, T)
            dc = [used(I, "DerivCache::new")]
            out = []
            for b in bytes_:
                u.byte = b
                es = e if isinstance(e, list) else [e]
                for x in es:
                    r = I.call_path("DerivCache::derivative", Ref(dc, 0), u.exprs, u.ref(x), b)
                    out.append((x, b, r.f[0]))
            if memo:
                n = [0]
                for k in [k for k in I.hooks if k.startswith("ExprSet::mk")]:
                    I.hooks[k] = counted(I.hooks[k], n)
                for x, b, r in list(out):
                    r2 = I.call_path("DerivCache::derivative", Ref(dc, 0), u.exprs, u.ref(x), b)
                    if n[0]:
                        res.violate("memo.deriv", "DerivCache::derivative", "a derivative that is known is built again", u.show(x))
                        break
                    if r2.f[0] != r:
                        res.violate("memo.deriv", "DerivCache::derivative", "the derivative of a node changes", u.show(x))
                        break
                else:
                    res.ok("memo.deriv", len(out))
                return u, []
            return u, out

        def show(I):
            return ", ".join(I.uni.show(n.id) for n in I.uni.leaves if n.depth == 0)

        for I, ctx, (u, out) in traces(env, res, split, job, f, panics=(rule + ".panic", show)):
            for x, b, r in out:
                judge(env, res, u, rule, x, b, r, "DerivCache::derivative")

    return run


def inner(u, tag, kids, ints=(), name=None, slot=None):
    n = u.leaf(slot, (tag,), name or tag.lower(), 0)
    n.kids = list(kids)
    n.ints = list(ints)
    u.adopt(n)
    return n.id


def shapes():
    """two-level trees over abstract leaves, with sharing"""

    def lf(u, s, nm, ex=("Lookahead",)):
        return u.leaf(s, no(*ex), nm, 1).id

    def s_or_concat(u, T):
        x, y = lf(u, 5, "x", ("Lookahead", "Concat", "Or")), lf(u, 9, "y", ("Lookahead", "Concat", "Or"))
        c = inner(u, "Concat", [y, x], slot=20)
        return inner(u, "Or", sorted([x, c]), slot=30)

    def s_and_not(u, T):
        x, y = lf(u, 5, "x", ("Lookahead", "Not", "And")), lf(u, 9, "y", ("Lookahead", "And"))
        n = inner(u, "Not", [x], slot=20)
        return inner(u, "And", sorted([y, n]), slot=30)

    def s_concat3(u, T):
        x, y, z = (lf(u, 5 + 4 * i, "xyz"[i], ("Lookahead", "Concat")) for i in range(3))
        return inner(u, "Concat", [x, y, z], slot=30)

    def s_concat_rep(u, T):
        x, y = lf(u, 5, "x", ("Lookahead", "Concat")), lf(u, 9, "y", ("Lookahead", "Concat"))
        a = SInt(Atom("min", 0, U32MAX))
        b = SInt(Atom("max", 2, U32MAX))
        u.I.ctx.rels.append(("Le", a, b))
        if u.null(x):
            a = 0  # a repetition of a nullable node has minimum 0
        r = inner(u, "Repeat", [x], [a, b], slot=20)
        return inner(u, "Concat", [r, y, x], slot=30)

    def s_concat_not(u, T):
        x, y = lf(u, 5, "x", ("Lookahead", "Not")), lf(u, 9, "y", ("Lookahead", "Concat"))
        n = inner(u, "Not", [x], slot=20)
        return inner(u, "Concat", [n, x, y], slot=30)

    def s_shared(u, T):
        x = lf(u, 5, "x", ("Lookahead", "Concat", "Or", "And"))
        c = inner(u, "Concat", [x, x], slot=20)
        o = inner(u, "Or", sorted([x, c]), slot=25)
        return inner(u, "And", sorted([o, c]), slot=30)

    def s_prefix(u, T):
        x, y = lf(u, 5, "x", ("Lookahead", "Concat")), lf(u, 9, "y", ("Lookahead", "Concat"))
        u.assign_flag(u.nodes[x], "pos", True, [])
        u.assign_flag(u.nodes[y], "pos", True, [])
        c = inner(u, "Concat", [x, y], slot=20)
        p = inner(u, "Prefixes", [c], slot=25)
        return inner(u, "Or", sorted([p, y]), slot=30)

    def s_byte_concat(u, T):
        x = lf(u, 5, "x", ("Lookahead", "Concat"))
        return inner(u, "Concat", [T.bytes[1], x], slot=30)

    def s_set_concat(u, T):
        x = lf(u, 5, "x", ("Lookahead", "Concat"))
        return inner(u, "Concat", [T.sets[6], T.bytes[0], x], slot=30)

    def s_look(u, T):
        x, y = lf(u, 5, "x", ("Lookahead", "Concat")), lf(u, 9, "y")
        u.assign_flag(u.nodes[y], "null", False, [])
        l = inner(u, "Lookahead", [y], [SInt(Atom("n", 0, 1 << 20))], slot=20)
        return inner(u, "Concat", [x, l], slot=30)

    def s_look_e(u, T):
        x = lf(u, 5, "x", ("Lookahead", "Concat"))
        l = inner(u, "Lookahead", [EMPTY], [SInt(Atom("n", 0, 1 << 20))], slot=20)
        return inner(u, "Concat", [x, l], slot=30)

    def s_look_or(u, T):
        y, z = lf(u, 5, "y"), lf(u, 9, "z")
        for q in (y, z):
            u.assign_flag(u.nodes[q], "null", False, [])
        a = inner(u, "Lookahead", [y], [SInt(Atom("n", 0, 1 << 20))], slot=20)
        b = inner(u, "Lookahead", [z], [SInt(Atom("m", 0, 1 << 20))], slot=22)
        return inner(u, "Or", [a, b], slot=30)

    def s_two(u, T):
        """two different roots through one cache"""
        x, y = lf(u, 5, "x", ("Lookahead", "Concat")), lf(u, 9, "y", ("Lookahead", "Concat"))
        return [inner(u, "Concat", [x, y], slot=30), inner(u, "Concat", [y, x], slot=31), inner(u, "And", [x, y], slot=32)]

    def s_two_rep(u, T):
        x = lf(u, 5, "x", ("Lookahead",))
        return [inner(u, "Repeat", [x], [2, 5], slot=30), inner(u, "Repeat", [x], [2, 4], slot=31), inner(u, "Not", [x], slot=32)]

    S = {k[2:]: v for k, v in locals().items() if k.startswith("s_")}
    for d in FAR:
        # roots whose ids agree in their low bits
        def far(u, T, d=d):
            x, y = lf(u, 5, "x", ("Lookahead", "Concat")), lf(u, 9, "y", ("Lookahead", "Concat"))
            return [inner(u, "Concat", [x, y], slot=30), inner(u, "Concat", [y, x], slot=(30, d)), inner(u, "Not", [x], slot=(30, 2 * d))]

        def far_kids(u, T, d=d):
            x, y = lf(u, 5, "x", ("Lookahead", "Concat")), lf(u, (5, d), "y", ("Lookahead", "Concat"))
            return inner(u, "Concat", [x, inner(u, "Not", [y], slot=(5, 2 * d))], slot=(30, 3 * d))

        S["far %d" % d] = far
        S["parts far %d" % d] = far_kids
    return S


FAR = [1 << 8, 1 << 16, 1 << 24]


# ---------------------------------------------------------------- the full alphabet


class WideSets:
    """a real node store over `n` symbols; byte-set nodes with unknown content"""

    def __init__(self, I, n):
        from g_bytes import Lanes

        self.L = Lanes(I, n)
        self.I, self.n = I, n

    def call(self, name, *a):
        return self.I.call_path(name, *a)


def wide_job(n, lo, hi):
    """derivative by every symbol in lo..hi of a node whose byte set (or byte) is unknown, alone and at the head of
    a concatenation"""

    def run(env, res, split, job):
        need(env.P, "DerivCache::derivative", "DerivCache::new")
        for b in range(lo, hi):
            for shape in ("set", "set in concat", "byte", "byte in concat", "not set"):

                def f(I, ctx):
                    W = WideSets(I, n)
                    L = W.L
                    tail = L.S.node(1 << (n - 1))
                    if shape.startswith("byte"):
                        v = SInt(Atom("byte", 0, n - 1))
                        h = strip(seq(I.call_path("VecHashCons::get", Ref(L.es[0].f, L.fi), tail))[0])
                        e = L.new([v])
                        L.sets[e] = [v]
                        L.hdrs[e] = h
                    else:
                        e = L.fresh("s")
                    if "concat" in shape:
                        top = strip(I.call_path("ExprSet::mk_concat", Ref(L.es, 0), Vec([L.S.ref(e), L.S.ref(tail)]))).f[0]
                    elif "not" in shape:
                        top = strip(I.call_path("ExprSet::mk_not", Ref(L.es, 0), L.S.ref(e))).f[0]
                    else:
                        top = e
                    dc = [I.call_path("DerivCache::new")]
                    r = I.call_path("DerivCache::derivative", Ref(dc, 0), Ref(L.es, 0), L.S.ref(top), b)
                    if shape.startswith("byte"):
                        mem = ctx.cmp_int("Eq", v, b)
                    else:
                        from models import lane_truth

                        mem = lane_truth(I, L.sets[e][b // 32], b % 32)
                    return r.f[0], mem, tail

                for I, ctx, (r, mem, tail) in traces(env, res, split, job, f, budget=10**8, panics=("deriv.panic", lambda I: "derivative by symbol %d of %d" % (b, n))):
                    exp = {"set": (EMPTY, NO_MATCH), "set in concat": (tail, NO_MATCH), "byte": (EMPTY, NO_MATCH), "byte in concat": (tail, NO_MATCH), "not set": (NONEMPTY, ANYSTR)}[shape][0 if mem else 1]
                    if r != exp:
                        res.violate("deriv.wide", "DerivCache::derivative", "derivative of an unknown %s by symbol %d of %d" % (shape, b, n), "the symbol %s; the result is node %d, not %d" % ("belongs to it" if mem else "does not", r, exp))
                    else:
                        res.ok("deriv.wide")

    return run


def wide_memo_job(n):
    """one result table, all symbols: every pair of symbols is told apart by one of the nodes"""

    def run(env, res, split, job):
        need(env.P, "DerivCache::derivative", "DerivCache::new")

        def f(I, ctx):
            L = WideSets(I, n).L
            k = (n - 1).bit_length()
            tops = []
            for i in range(k):
                m = sum(1 << b for b in range(n) if b >> i & 1)
                tops.append((i, strip(I.call_path("ExprSet::mk_not", Ref(L.es, 0), L.S.ref(L.S.node(m)))).f[0]))
            dc = [I.call_path("DerivCache::new")]
            out = []
            for b in range(n):
                for i, t in tops:
                    r = I.call_path("DerivCache::derivative", Ref(dc, 0), Ref(L.es, 0), L.S.ref(t), b)
                    out.append((i, b, r.f[0]))
            return out

        for I, ctx, out in traces(env, res, split, job, f, budget=10**8, panics=("deriv.panic", lambda I: "all symbols of %d" % n)):
            for i, b, r in out:
                if r != (NONEMPTY if b >> i & 1 else ANYSTR):
                    res.violate("deriv.wide", "DerivCache::derivative", "a remembered derivative is given for another symbol", "alphabet of %d, complement of the symbols with bit %d, symbol %d" % (n, i, b))
                else:
                    res.ok("deriv.wide")

    return run


def all_jobs(tier):
    J = []

    for t in COMPOSITE:
        tags = (t,)

        def mk(u, T, tags=tags):
            return u.leaf(20, tags, "e").id

        J.append(Job("memo", "derivative twice of " + t, deriv_job(mk, (0, 1, 0), memo=True), limit=1500, secs=120))
        J.append(Job("deriv", "derivative of " + t, deriv_job(mk), split=2 if t in ("Or", "And", "Concat") else 1))
    for i in range(5):
        J.append(Job("deriv", "derivative of constant %d" % (i + 1), deriv_job(lambda u, T, i=i: i + 1, (0, 1, 2, 0))))
    for b in range(3):
        J.append(Job("deriv", "derivative of byte %d" % b, deriv_job(lambda u, T, b=b: T.bytes[b], (0, 1, 2, 1))))
    for m in (3, 5, 6):
        J.append(Job("deriv", "derivative of set %d" % m, deriv_job(lambda u, T, m=m: T.sets[m], (0, 1, 2, 1))))
    for nm, f in shapes().items():
        J.append(Job("map", "derivative of shape " + nm, deriv_job(f, (0, 1, 0), rule="map"), split=2))
    for n in (33, 256):
        for lo in range(0, n, 16):
            J.append(Job("wide", "derivative of unknown sets over %d symbols by %d.." % (n, lo), wide_job(n, lo, min(n, lo + 16)), secs=200))
        J.append(Job("wide", "one result table for %d symbols" % n, wide_memo_job(n), secs=200))
    return J
