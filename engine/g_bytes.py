"""Byte sets: the algebra on nodes and the helper functions on word vectors"""
from framework import *
from g_store import term

M32 = (1 << 32) - 1


def words(m, n):
    return [(m >> (32 * i)) & M32 for i in range((n + 31) // 32)]


def family(n):
    full = (1 << n) - 1
    if n <= 5:
        return list(range(1 << n))
    pos = sorted({p for p in (0, 1, 7, 30, 31, 32, 33, 62, 63, 64, 65, 127, 128, n // 2, n - 2, n - 1) if 0 <= p < n})
    out = {0, full}
    for p in pos:
        out |= {1 << p, full & ~(1 << p), (1 << p) - 1, full & ~((1 << p) - 1), (2 << p) - 1}
    for p, q in zip(pos, pos[1:]):
        out |= {1 << p | 1 << q, ((2 << q) - 1) & ~((1 << p) - 1)}
    out |= {int("01" * 128, 2) & full, int("10" * 128, 2) & full, int("0011" * 64, 2) & full}
    return sorted(out)


class Store:
    def __init__(self, I, es, n):
        self.I, self.es, self.n = I, es, n
        self.P = I.p
        self.memo = {}
        self.rty = self.P.adt("ExprRef")

    def ref(self, i):
        return Agg("adt", self.rty, 0, [i])

    def call(self, name, *a):
        r = self.I.call_path("ExprSet::" + name, Ref(self.es, 0), *a)
        return strip(r).f[0]

    def node(self, m):
        """the canonical node of a set"""
        if m not in self.memo:
            if m == 0:
                self.memo[m] = NO_MATCH
            elif m & (m - 1) == 0:
                self.memo[m] = self.call("mk_byte", m.bit_length() - 1)
            else:
                w = words(m, self.n)
                self.memo[m] = self.call("mk_byte_set", Slice(w, 0, len(w)))
        return self.memo[m]

    def content(self, i):
        k, kids, ints, fl = term(self.P, strip(self.I.call_path("ExprSet::get", Ref(self.es, 0), self.ref(i))))
        if k == "NoMatch":
            return 0
        if k == "Byte":
            return 1 << ints[0]
        if k == "ByteSet":
            m = 0
            for j, w in enumerate(ints):
                m |= w << (32 * j)
            return m
        return None


def sname(m, n):
    b = [i for i in range(n) if m >> i & 1]
    return "{%s}" % ",".join(map(str, b)) if len(b) <= 6 else "all but {%s}" % ",".join(str(i) for i in range(n) if not m >> i & 1) if n - len(b) <= 6 else hex(m)


def expect(res, S, op, r, m, args, n):
    got = S.content(r)
    d = "%s(%s) over %d symbols" % (op, ", ".join(sname(a, n) for a in args), n)
    if got is None:
        res.violate("bytes." + op, "ExprSet::" + op, "the result is not a byte set", d)
    elif got != m:
        res.violate("bytes." + op, "ExprSet::" + op, "wrong symbols" + (", some outside of the alphabet" if got >> n else ""), "%s gives %s instead of %s" % (d, sname(got, max(n, got.bit_length())), sname(m, n)))
    elif r != S.node(m):
        res.violate("bytes." + op, "ExprSet::" + op, "the result is not the node of that set", d)
    else:
        res.ok("bytes")
        return True
    return False


def algebra_job(n, part, parts):
    def run(env, res, split, job):
        P = env.P
        ops = ["mk_byte", "mk_byte_set", "mk_byte_set_or", "mk_byte_set_and", "mk_byte_set_sub", "mk_byte_set_neg_or", "mk_byte_set_not"]
        need(P, *["ExprSet::" + o for o in ops])
        fam = family(n)
        full = (1 << n) - 1

        def f(I, ctx):
            I.budget = 10**9
            es = [I.call_path("ExprSet::new", n)]
            S = Store(I, es, n)
            if part == 0:
                for m in fam:
                    w = words(m, n)
                    expect(res, S, "mk_byte_set", S.call("mk_byte_set", Slice(w, 0, len(w))), m, [m], n)
                for b in sorted({0, 1, n // 2, n - 2, n - 1, min(31, n - 1), min(32, n - 1)}):
                    expect(res, S, "mk_byte", S.call("mk_byte", b), 1 << b, [1 << b], n)
                # all the symbols at once
                w = words(full, n)
                r = S.call("mk_byte_set", Slice(w, 0, len(w)))
                if r != ANY:
                    res.violate("bytes.mk_byte_set", "ExprSet::mk_byte_set", "the set of all symbols is not ANY_BYTE", "%d symbols" % n)
            sets = [m for m in fam if m]
            for m in sets[part::parts]:
                a = S.ref(S.node(m))
                expect(res, S, "mk_byte_set_not", S.call("mk_byte_set_not", a), full & ~m, [m], n)
            ns = sets if n <= 5 else sets[:: max(1, len(sets) // 24)] + [full]
            for x in ns[part::parts]:
                for y in ns:
                    a, b = S.ref(S.node(x)), S.ref(S.node(y))
                    expect(res, S, "mk_byte_set_and", S.call("mk_byte_set_and", a, b), x & y, [x, y], n)
                    expect(res, S, "mk_byte_set_sub", S.call("mk_byte_set_sub", a, b), x & ~y, [x, y], n)
                    l = [a, b]
                    expect(res, S, "mk_byte_set_or", S.call("mk_byte_set_or", Slice(l, 0, 2)), x | y, [x, y], n)
                    expect(res, S, "mk_byte_set_neg_or", S.call("mk_byte_set_neg_or", Slice(l, 0, 2)), full & ~(x | y), [x, y], n)
            for l in ([], ns[:1], ns[:3], ns[-3:], ns[::5]):
                v = [S.ref(S.node(x)) for x in l]
                o = 0
                for x in l:
                    o |= x
                expect(res, S, "mk_byte_set_or", S.call("mk_byte_set_or", Slice(list(v), 0, len(v))), o, l, n)
                expect(res, S, "mk_byte_set_neg_or", S.call("mk_byte_set_neg_or", Slice(list(v), 0, len(v))), full & ~o, l, n)
            return True

        for _ in traces(env, res, split, job, f, budget=10**9, panics=("bytes.panic", lambda I: "byte-set operation over %d symbols" % n)):
            pass

    return run


class Lanes:
    """byte-set nodes with arbitrary content: every word is a vector of unknown membership bits, related lane-wise"""

    def __init__(self, I, n):
        self.I, self.n = I, n
        self.nw = (n + 31) // 32
        P = self.P = I.p
        self.es = [I.call_path("ExprSet::new", n)]
        self.S = Store(I, self.es, n)
        vt = P.adt("VecHashCons")
        es = self.es[0]
        self.vh = [x for x in es.f if isinstance(x, Agg) and x.k == "adt" and x.ty == vt][0]
        self.fi = [i for i, x in enumerate(es.f) if x is self.vh][0]
        self.sets = {}
        self.hdrs = {}
        self.made = []
        self.expr_tid = P.adt("Expr")
        hdr = None
        two = I.call_path("ExprSet::mk_byte_set", Ref(self.es, 0), Slice(words(3, n), 0, self.nw))
        self.hdr = strip(seq(I.call_path("VecHashCons::get", Ref(es.f, self.fi), two.f[0]))[0])

        def vget(I, body, a):
            if strip(a[0]) is not self.vh or not isinstance(a[1], int) or a[1] not in self.sets:
                return NotImplemented
            l = [self.hdrs.get(a[1], self.hdr)] + list(self.sets[a[1]])
            return Slice(l, 0, len(l))

        def mk(I, body, a):
            if strip(a[0]) is not es:
                return NotImplemented
            e = strip(a[1])
            if P.types[e.ty]["variants"][e.v]["name"] != "ByteSet":
                return NotImplemented
            w = [strip(x) for x in seq(e.f[0])]
            if not any(isinstance(x, Word) for x in w):
                return NotImplemented
            i = self.new(w)
            self.made.append(i)
            return self.S.ref(i)

        need(P, "VecHashCons::get", "VecHashCons::insert", "ExprSet::mk")
        I.hooks["VecHashCons::get"] = vget
        I.hooks["ExprSet::mk"] = mk

    def new(self, w):
        d = [0xDEAD0000 + len(self.sets), 1, 2]
        i = self.I.call_path("VecHashCons::insert", Ref(self.es[0].f, self.fi), Slice(d, 0, 3))
        self.sets[i] = w
        return i

    def fresh(self, name):
        """an unknown set of at least two symbols"""
        ws = []
        for j in range(self.nw):
            v = LaneVar("%s%d" % (name, j))
            m = M32 if self.n >= 32 * (j + 1) else (1 << (self.n - 32 * j)) - 1
            ws.append(w_norm(Word((v,), (0, m), 32)))
        self.I.ctx.ones.append((tuple(ws), "ge2"))
        return self.new(ws)

    def differ(self, a, b):
        x = tuple(w_op(lambda p, q: p ^ q, p, q, 32) for p, q in zip(self.sets[a], self.sets[b]))
        self.I.ctx.ones.append((x, "ge1"))

    def words_of(self, i):
        if i in self.sets:
            return list(self.sets[i])
        c = self.S.content(i)
        if c is None:
            return None
        if c >> (32 * self.nw):
            return None
        return words(c, self.n)

    def show(self, i):
        if i in self.sets:
            v = self.sets[i][0]
            return repr(v.vars[0])[:-1] if isinstance(v, Word) and len(v.vars) == 1 else "set"
        return sname(self.S.content(i) or 0, self.n)


def lane_job(n, op, kinds):
    """kinds: one of 's' (unknown set) or a symbol per operand; the same letter twice is the same node"""

    def run(env, res, split, job):
        P = env.P
        need(P, "ExprSet::" + op)

        def f(I, ctx):
            L = Lanes(I, n)
            args = []
            byname = {}
            for k in kinds:
                if isinstance(k, int):
                    args.append(L.S.node(1 << k))
                else:
                    if k not in byname:
                        i = L.fresh(k)
                        for o in byname.values():
                            L.differ(i, o)
                        byname[k] = i
                    args.append(byname[k])
            ws = [L.words_of(a) for a in args]
            mask = words((1 << n) - 1, n)

            def lift(g, a, b):
                return [w_op(g, x, y, 32) for x, y in zip(a, b)]

            AND, OR = (lambda x, y: x & y), (lambda x, y: x | y)
            if op == "mk_byte_set_and":
                e = lift(AND, ws[0], ws[1])
            elif op == "mk_byte_set_sub":
                e = lift(lambda x, y: x & ~y & M32, ws[0], ws[1])
            else:
                e = [0] * L.nw
                for w in ws:
                    e = lift(OR, e, w)
                if op in ("mk_byte_set_neg_or", "mk_byte_set_not"):
                    e = lift(lambda x, y: ~x & y & M32, e, mask)
            rf = [L.S.ref(a) for a in args]
            if op in ("mk_byte_set_or", "mk_byte_set_neg_or"):
                r = I.call_path("ExprSet::" + op, Ref(L.es, 0), Slice(rf, 0, len(rf)))
            elif op == "mk_byte_set":
                w = list(ws[0])
                r = I.call_path("ExprSet::" + op, Ref(L.es, 0), Slice(w, 0, len(w)))
            else:
                r = I.call_path("ExprSet::" + op, Ref(L.es, 0), *rf)
            return L, args, e, r.f[0]

        for I, ctx, (L, args, e, r) in traces(env, res, split, job, f, budget=10**8, panics=("bytes.panic", lambda I: "%s over %d symbols" % (op, n))):
            W = "ExprSet::" + op
            d = "%s(%s) over %d symbols, case %s" % (op, ", ".join(L.show(a) for a in args), n, " ".join(ctx.labels)[-200:])
            try:
                g = L.words_of(r)
                if g is None:
                    res.violate("bytes." + op, W, "the result is not a byte set of the alphabet", d)
                    continue
                bad = None
                for j in range(L.nw):
                    x = w_op(lambda p, q: p ^ q, e[j], g[j], 32)
                    m = ctx.lane_feasible(x, 1)[1] if isinstance(x, Word) else x
                    if m:
                        bad = 32 * j + (m & -m).bit_length() - 1
                        break
                if bad is not None:
                    res.violate("bytes." + op, W, "wrong membership for some sets" + (": a symbol outside of the alphabet" if bad >= n else ""), "symbol %d; %s" % (bad, d))
                    continue
                if r in L.sets and r not in args:
                    # a set node must have at least two symbols
                    p = PopCount(tuple(x for x in g), 0)
                    if any(set(map(id, ws)) == set(map(id, g)) and k == "ge2" for ws, k in ctx.ones):
                        pass
                    else:
                        lo = sum(bin(w).count("1") if not isinstance(w, Word) else bin(ctx.lane_feasible(w, 1)[1] & ~ctx.lane_feasible(w, 1)[0]).count("1") for w in g)
                        if lo < 2:
                            res.violate("bytes." + op, W, "a set node may have fewer than two symbols", d)
                            continue
                    if L.made.count(r) and any(o != r and o in L.sets and L.sets[o] == g for o in L.made):
                        pass
                res.ok("bytes")
                if len(res.samples) < 2:
                    res.samples.append(d[:200])
            except (Undecided, Infeasible) as x:
                res.undec(x)

    return run


def helper_job(env, res, split, job):
    """byteset_* on vectors of words"""
    P = env.P
    names = ["byteset_contains", "byteset_set", "byteset_clear", "byteset_set_range", "byteset_union", "byteset_intersection", "byteset_256", "byteset_from_range"]
    fns = {}
    for k in names:
        b = P.fn(k)
        if b is None:
            c = [x for x in P.bodies.values() if (x["key"] or "").endswith(k)]
            b = c[0] if len(c) == 1 else None
        if b is not None:
            fns[k] = b
    res.notes = [k for k in names if k not in fns]
    pos = [0, 1, 30, 31, 32, 33, 63, 64, 127, 128, 191, 192, 223, 224, 254, 255]
    pats = [0, (1 << 256) - 1, int("01" * 128, 2), (1 << 255) | 1, ((1 << 64) - 1) << 32]

    def val(l):
        m = 0
        for j, w in enumerate(l):
            m |= w << (32 * j)
        return m

    def f(I, ctx):
        def sl(m):
            w = words(m, 256)
            return w, Slice(w, 0, 8)

        def bad(k, d):
            res.violate("bytes.helper", k, "wrong result", d)

        for b in pos:
            for m in pats:
                if "byteset_contains" in fns:
                    w, s = sl(m)
                    r = I.truth(I.run(fns["byteset_contains"]["id"], [s, b]))
                    if r != bool(m >> b & 1):
                        bad("byteset_contains", "bit %d of %x" % (b, m))
                for k, g in (("byteset_set", m | 1 << b), ("byteset_clear", m & ~(1 << b))):
                    if k in fns:
                        w, s = sl(m)
                        I.run(fns[k]["id"], [s, b])
                        if val(w) != g:
                            bad(k, "bit %d of %x gives %x" % (b, m, val(w)))
                res.ok("bytes.helper", 3)
        for a in pos:
            for b in pos:
                e = ((2 << b) - 1) & ~((1 << a) - 1) if a <= b else 0
                if "byteset_from_range" in fns:
                    r = val([strip(x) for x in seq(I.run(fns["byteset_from_range"]["id"], [a, b]))])
                    if r != e:
                        bad("byteset_from_range", "%d..=%d gives %x" % (a, b, r))
                res.ok("bytes.helper")
        for x in pats:
            for y in pats:
                for k, g in (("byteset_union", x | y), ("byteset_intersection", x & y)):
                    if k in fns:
                        w, s = sl(x)
                        w2, s2 = sl(y)
                        I.run(fns[k]["id"], [s, s2])
                        if val(w) != g or val(w2) != y:
                            bad(k, "%x, %x give %x" % (x, y, val(w)))
                res.ok("bytes.helper", 2)
        if "byteset_256" in fns:
            r = [strip(x) for x in seq(I.run(fns["byteset_256"]["id"], []))]
            if r != [0] * 8:
                bad("byteset_256", r)

    for _ in traces(env, res, split, job, f, budget=10**9, panics=("bytes.panic", lambda I: "byte-set helper")):
        pass


def all_jobs(tier):
    J = []
    for n in (2, 3, 5, 31, 32, 33, 40, 64, 65, 255, 256):
        parts = 4 if n >= 5 else 1
        for p in range(parts):
            J.append(Job("bytes", "byte sets over %d symbols, part %d" % (n, p), algebra_job(n, p, parts)))
    for n in (3, 31, 32, 40, 64, 256):
        bs = {3: [0, 1, 2], 31: [0, 30], 32: [0, 31], 40: [0, 31, 32, 39], 64: [0, 32, 63], 256: [0, 33, 255]}[n]
        J.append(Job("bytes", "mk_byte_set of any set, %d symbols" % n, lane_job(n, "mk_byte_set", ["s"]), secs=60))
        J.append(Job("bytes", "mk_byte_set_not of any set, %d symbols" % n, lane_job(n, "mk_byte_set_not", ["s"]), secs=60))
        for b in bs:
            J.append(Job("bytes", "mk_byte_set_not of %d, %d symbols" % (b, n), lane_job(n, "mk_byte_set_not", [b]), secs=60))
        for op in ("mk_byte_set_and", "mk_byte_set_sub", "mk_byte_set_or", "mk_byte_set_neg_or"):
            for k in [["s", "t"], ["s", "s"]] + [["s", b] for b in bs] + [[b, "s"] for b in bs] + [[bs[0], bs[-1]], [bs[0], bs[0]]]:
                J.append(Job("bytes", "%s of %s, %d symbols" % (op, k, n), lane_job(n, op, k), secs=60))
        for op in ("mk_byte_set_or", "mk_byte_set_neg_or"):
            for k in [[], ["s"], ["s", "t", "u"], ["s", bs[0], "t"]]:
                J.append(Job("bytes", "%s of %s, %d symbols" % (op, k, n), lane_job(n, op, k), secs=60))
    J.append(Job("bytes", "functions on word vectors", helper_job))
    return J
