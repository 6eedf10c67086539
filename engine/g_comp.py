"""Alphabet compression: the symbol mapping, its inverse and the translated regex"""
from framework import *
from g_store import term
from g_bytes import Lanes, words, M32, sname
from g_build import same
import itertools


def lang(get, i, syms, L, memo):
    """words (tuples of symbols, length <= L) accepted by node i; get(i) -> (kind, kids, ints)"""
    if i in memo:
        return memo[i]
    k, kids, ints = get(i)
    if k == "EmptyString":
        r = {()}
    elif k == "NoMatch":
        r = set()
    elif k == "Byte":
        r = {(ints[0],)} if ints[0] in syms else set()
    elif k == "ByteSet":
        r = {(s,) for s in syms if ints(s)}
    else:
        ks = [lang(get, x, syms, L, memo) for x in kids]
        if k == "Or":
            r = set().union(*ks)
        elif k == "And":
            r = set.intersection(*ks)
        elif k == "Not":
            r = set(allwords(syms, L)) - ks[0]
        elif k == "Concat":
            r = {()}
            for x in ks:
                r = {a + b for a in r for b in x if len(a) + len(b) <= L}
        elif k == "Repeat":
            mn, mx = ints
            r, cur, n = set(), {()}, 0
            while True:
                if n >= mn:
                    if cur <= r and n > mn:
                        break
                    r |= cur
                if n >= mx or n > mn + L + 1 or n > 40:
                    break
                cur = {a + b for a in cur for b in ks[0] if len(a) + len(b) <= L}
                n += 1
        elif k == "Prefixes":
            raise Undecided("prefix closure on truncated words")
        elif k == "Lookahead":
            r = ks[0]
        else:
            raise Undecided("kind " + k)
    memo[i] = r
    return r


def allwords(syms, L):
    return [w for n in range(L + 1) for w in itertools.product(syms, repeat=n)]


def reader(I, es, P, lanes=None):
    rty = P.adt("ExprRef")

    def get(i):
        if lanes is not None and i in lanes.sets:
            ws = lanes.sets[i]

            def has(s):
                w = ws[s // 32]
                if not isinstance(w, Word):
                    return bool(w >> (s % 32) & 1)
                c0, c1 = I.ctx.lane_feasible(w, 1)
                b = 1 << (s % 32)
                if c0 & b and c1 & b:
                    v = I.ctx.choose(2, "bit")
                    I.ctx.assume_lanes(w, b, v)
                    return bool(v)
                return bool(c1 & b)

            return "ByteSet", [], has
        k, kids, ints, fl = term(P, strip(I.call_path("ExprSet::get", Ref(es, 0), Agg("adt", rty, 0, [i]))))
        if k == "ByteSet":
            m = 0
            for j, w in enumerate(ints):
                if isinstance(w, Word):
                    raise Undecided("unknown word")
                m |= w << (32 * j)
            return k, kids, lambda s: bool(m >> s & 1)
        return k, kids, ints

    return get


def looks(get, i, seen=None):
    k, kids, ints = get(i)
    out = [ints[0]] if k == "Lookahead" else []
    for x in kids:
        out += looks(get, x)
    return out


UNK = (10, 77, 200, 255)


def unknown(L, name, base, pos):
    """set of bytes `base` with unknown membership of the bytes pos"""
    ws = words(base, 256)
    by = {}
    for p in pos:
        by[p // 32] = by.get(p // 32, 0) | 1 << (p % 32)
    for j, m in by.items():
        v = LaneVar("%s%d" % (name, j))
        b = ws[j] & ~m
        ws[j] = Word((v,), (b, b | m), 32)
    return L.new(ws)


def comp_job(build, probes, L=2, roots=1, pref=False):
    """build(S) -> list of root ids, S offers mk(name, *args) and sets"""

    def run(env, res, split, job):
        P = env.P
        need(P, "AlphabetInfo::from_exprset", "AlphabetInfo::map", "AlphabetInfo::inv_map", "AlphabetInfo::len")

        def f(I, ctx):
            Ls = Lanes(I, 256)
            S = Src(I, Ls)
            rts = build(S)
            rf = [S.ref(x) for x in rts]
            c0 = I.call_path("ExprSet::cost", Ref(Ls.es, 0))
            out = I.call_path("AlphabetInfo::from_exprset", Ref(Ls.es, 0), Slice(rf, 0, len(rf)))
            al, es2, rl = [out.f[0]], [out.f[1]], [strip(x).f[0] for x in seq(out.f[2])]
            W = "AlphabetInfo::from_exprset"
            n = I.call_path("AlphabetInfo::len", Ref(al, 0))
            mp = [I.call_path("AlphabetInfo::map", Ref(al, 0), b) for b in range(256)]
            src = reader(I, Ls.es, P, Ls)
            trg = reader(I, es2, P)

            def desc():
                return job.name + "; " + " ".join("%s=%s" % (s.name, "".join("1" if src(s.id)[2](p) else "0" for p in probes)) for s in S.named)

            if I.call_path("ExprSet::cost", Ref(es2, 0)) < c0:
                res.violate("comp.cost", W, "the cost counter went back", "%s" % job.name)
                return
            built, todo = set(), list(rl)
            while todo:
                i = todo.pop()
                if i not in built and i > NONEMPTY:
                    k, kids, _ = trg(i)
                    if k not in ("Byte", "ByteSet"):
                        built.add(i)
                        todo += kids
            d = I.call_path("ExprSet::cost", Ref(es2, 0)) - c0
            if d < len(built):
                res.violate("comp.cost", W, "the nodes of the translated regex are not charged", "%s: %d nodes, %d" % (job.name, len(built), d))
                return
            bad = [b for b in range(256) if not 0 <= mp[b] < n]
            if bad:
                res.violate("comp.map", W, "a byte has no symbol of the alphabet", "byte %d -> %s of %d; %s" % (bad[0], mp[bad[0]], n, desc()))
                return
            if n != I.call_path("ExprSet::alphabet_size", Ref(es2, 0)):
                res.violate("comp.map", W, "the expression set has another alphabet size", desc())
                return
            # which bytes are told apart by a set or byte of the regex
            leaves = []
            todo, seen = list(rts), set()
            while todo:
                i = todo.pop()
                if i in seen:
                    continue
                seen.add(i)
                k, kids, ints = src(i)
                todo += kids
                if k == "Byte":
                    leaves.append(lambda s, b=ints[0]: s == b)
                elif k == "ByteSet":
                    leaves.append(ints)
            sig = {}
            for b in range(256):
                s = tuple(l(b) for l in leaves)
                o = sig.setdefault(mp[b], (s, b))
                if o[0] != s:
                    res.violate("comp.map", W, "two bytes that the regex tells apart share a symbol", "bytes %d and %d -> %d; %s" % (o[1], b, mp[b], desc()))
                    return
            cnt = {}
            for b in range(256):
                cnt.setdefault(mp[b], []).append(b)
            for s in range(min(n, 256)):
                r = I.call_path("AlphabetInfo::inv_map", Ref(al, 0), s)
                v = strip(r.f[0]) if r.v == 1 else None
                c = cnt.get(s, [])
                if v is not None and c != [v]:
                    res.violate("comp.inv", "AlphabetInfo::inv_map", "the inverse map gives a byte that is not the only one with the symbol", "symbol %d -> %s, bytes %s; %s" % (s, v, c[:5], desc()))
                    return
            # the translated regex
            ps = sorted(set(probes))
            tsy = sorted({mp[b] for b in ps})
            for x, y in zip(rts, rl):
                if looks(src, x) != [] or looks(trg, y) != []:
                    if sorted(looks(src, x)) != sorted(looks(trg, y)):
                        res.violate("comp.expr", W, "the lookahead of the translated regex is another", "%s: %s, %s" % (desc(), looks(src, x), looks(trg, y)))
                        return
                a = lang(src, x, ps, L, {})
                b = lang(trg, y, tsy, L, {})

                for w in allwords(ps, L):
                    if (w in a) != (tuple(mp[c] for c in w) in b):
                        res.violate("comp.expr", W, "the translated regex gives another verdict", "on bytes %s: %s instead of %s; %s" % (list(w), w not in a, w in a, desc()))
                        return
            if len(rl) != len(rts):
                res.violate("comp.expr", W, "a regex was lost", desc())
                return
            res.ok("comp", 256 + n + len(rts))
            if len(res.samples) < 2:
                res.samples.append("%s: %d symbols" % (desc(), n))

        for _ in traces(env, res, split, job, f, budget=10**8, panics=("comp.panic", lambda I: job.name + " " + " ".join(I.ctx.labels)[-200:])):
            pass

    return run


def numbers_job(env, res, split, job):
    """the bounds of repetitions and the lengths of lookaheads are carried over, whatever they are"""
    W = "AlphabetInfo::from_exprset"
    need(env.P, W)

    def f(I, ctx):
        Ls = Lanes(I, 256)
        S = Src(I, Ls)
        sets = [S.byte(77), S.set(LET), S.set(LET | 1 << 200)]
        c = S.mk("concat", [S.set(LET), S.byte(77)])
        x = [c, S.byte(77), S.un("not", c), S.set(LET)][ctx.choose(4, "part")]
        lo, hi = [(2, 0xFFFF, 0x10000, 0xFFFFFFFE), (0, 1, 2, 0xFFFFFFFF), (0x10000, 0xFFFFFFF0, 0xFFFFFFF1, 0xFFFFFFFF)][ctx.choose(3, "range")], None
        mn, mx = SInt(Atom("min", lo[0], lo[1])), SInt(Atom("max", lo[2], lo[3]))
        n = SInt(Atom("length", 0, 0xFFFFFFFF))
        k = ctx.choose(4, "form")
        if k == 0:
            r = S.un("repeat", x, mn, mx)
        elif k == 1:
            r = S.un("not", S.mk("concat", [S.byte(200), S.un("repeat", x, mn, mx), S.byte(200)]))
        elif k == 2:
            r = S.un("lookahead", S.mk("concat", [x, S.byte(200)]), n)
        else:
            r = S.mk("concat", [S.un("repeat", x, mn, mx), S.un("lookahead", S.mk("concat", [x, S.byte(200)]), n)])
        out = I.call_path(W, Ref(Ls.es, 0), Slice([S.ref(r)], 0, 1))
        es2, rl = [out.f[1]], [strip(y).f[0] for y in seq(out.f[2])]
        if len(rl) != 1:
            return None, None
        src, trg = reader(I, Ls.es, env.P, Ls), reader(I, es2, env.P)

        def numbers(get, i):
            kind, kids, ints = get(i)
            own = [(kind, list(ints))] if kind in ("Repeat", "Lookahead") else []
            return own + [y for z in kids for y in numbers(get, z)]

        return numbers(src, r), numbers(trg, rl[0])

    for I, ctx, (a, b) in traces(env, res, split, job, f, budget=10**8, panics=("comp.panic", lambda I: job.name)):
        if a is None or [x[0] for x in a] != [x[0] for x in b]:
            res.undec("the translated regex has another shape")
            continue
        for (k, x), (_, y) in zip(a, b):
            if not all(same(p, q) for p, q in zip(x, y)):
                res.violate("comp.expr", W, "a number of a %s is changed by the translation" % k, "%s becomes %s" % (x, y))
                break
        else:
            res.ok("comp.expr")


class Named:
    def __init__(self, name, i):
        self.name, self.id = name, i


class Src:
    def __init__(self, I, L):
        self.I, self.L = I, L
        self.named = []

    def ref(self, i):
        return self.L.S.ref(i)

    def unk(self, name, base=0, pos=UNK):
        i = unknown(self.L, name, base, pos)
        self.named.append(Named(name, i))
        return i

    def set(self, m):
        return self.L.S.node(m)

    def byte(self, b):
        return self.L.S.node(1 << b)

    def mk(self, name, *args):
        a = []
        for x in args:
            if isinstance(x, list):
                a.append(Vec([self.ref(y) for y in x]) if name != "Slice" else None)
            else:
                a.append(x)
        return self.I.call_path("ExprSet::mk_" + name, Ref(self.L.es, 0), *a).f[0]

    def un(self, name, e, *ints):
        return self.mk(name, self.ref(e), *ints)


def rng_mask(a, b):
    return ((2 << b) - 1) & ~((1 << a) - 1)


LET = rng_mask(97, 122)


def builds():
    def two_sets(S):
        s, t = S.unk("s", LET, (10, 77)), S.unk("t", rng_mask(48, 57), (10, 200))
        return [S.mk("concat", [s, t])]

    def set_and_byte(S):
        s = S.unk("s", LET, UNK)
        return [S.mk("concat", [S.byte(10), s, S.byte(255)])]

    def all_ops(S):
        s, t = S.unk("s", LET, (10, 200)), S.unk("t", 0x55 << 60, (10, 77))
        n = S.un("not", S.mk("concat", [s, t]))
        r = S.un("repeat", S.mk("concat", [t, S.byte(77)]), 1, 3)
        return [S.mk("and", [n, S.mk("or", [r, s])])]

    def two_roots(S):
        s, t = S.unk("s", LET, (10, 77, 255)), S.unk("t", LET, (10, 77))
        return [S.un("repeat", s, 2, 5), S.mk("concat", [t, s])]

    def shared(S):
        s = S.unk("s", 0, UNK)
        c = S.mk("concat", [s, S.byte(77)])
        return [S.mk("or", [S.mk("concat", [c, c]), S.un("not", c)]), c]

    def unreachable(S):
        S.unk("unused", LET, (10, 77))
        s = S.unk("s", 0xFF << 100, (200, 255))
        return [S.un("repeat", s, 0, 0xFFFFFFFF)]

    def look(S):
        s = S.unk("s", LET, (10, 77))
        return [S.mk("concat", [s, S.un("lookahead", S.mk("concat", [S.byte(77), s]), 0)])]

    def deep(S):
        s = S.unk("s", LET, (10, 77))
        e = s
        for i in range(12):
            e = S.mk("concat", [S.un("not", e), s]) if i % 2 else S.mk("or", [e, S.mk("concat", [S.byte(77), e])])
        return [e]

    def bounds(S):
        c = S.mk("concat", [S.unk("s", LET, (10, 77)), S.byte(77)])
        return [S.un("repeat", c, a, b) for a, b in ((0, 1), (2, 2), (0, 0xFFFFFFFF), (1, 0xFFFFFFFF), (0, 2), (1, 2))]

    def wide(S):
        s = S.unk("s", LET, (10, 77))
        ks = [S.mk("concat", [S.byte(x), s]) for x in range(110, 122)] + [S.mk("concat", [s, S.byte(x), S.byte(78)]) for x in (10, 77)]
        return [S.mk("or", ks), S.mk("and", [S.un("not", k) for k in ks]), S.mk("concat", ks[:1] * 3)]

    def consts(S):
        return [1, 2, 3, 4, 5]

    def any_and_byte(S):
        return [S.mk("concat", [4, S.byte(200), 3])]

    def literal(n):
        def b(S):
            return [S.byte(x) for x in range(n)]

        return b

    def sets(n):
        def b(S):
            return [S.set(1 << (2 * i) | 1 << (2 * i + 1) | 1 << (3 * i % 251)) for i in range(n)]

        return b

    def classes(n):
        """n symbols: single bytes, then sets that separate the rest"""

        def b(S):
            l = [S.byte(x) for x in range(n - 8)]
            l += [S.set(rng_mask(n - 8 + i, n - 8 + i + 1)) for i in range(7)]
            return l

        return b

    def many_unknown(S):
        l = [S.set(rng_mask(i, i + 1)) for i in range(100, 163)]
        return l + [S.unk("s", 0, (10, 77)), S.unk("t", 0, (10, 77))]

    d = {
        "two sets": (two_sets, (10, 77, 97, 50, 200), 2),
        "set between bytes": (set_and_byte, (10, 77, 98, 200, 255), 3),
        "all operators": (all_ops, (10, 77, 60, 97, 200), 3),
        "two regexes": (two_roots, (10, 77, 97, 255), 3),
        "shared parts": (shared, (10, 77, 200, 255), 3),
        "nodes outside of the regex": (unreachable, (0, 100, 200, 255), 2),
        "lookahead": (look, (10, 77, 97, 0), 3),
        "nesting": (deep, (10, 77, 97, 0), 3),
        "repetition bounds": (bounds, (10, 77, 97, 0), 4),
        "many operands": (wide, (10, 77, 110, 121), 3),
        "constants": (consts, (0, 255), 2),
        "any byte and one byte": (any_and_byte, (199, 200, 201), 3),
        "64 sets and more": (many_unknown, (10, 77, 101, 162), 1),
    }
    for n in (255, 256):
        d["all of %d bytes" % n] = (literal(n), (0, 1, 254, 255), 2)
        d["%d classes" % n] = (classes(n), (0, 247, 248, 249, 254, 255), 1)
    for n in (63, 64, 65, 80):
        d["%d sets" % n] = (sets(n), (0, 1, 2, 126, 127, 128, 129, 255), 1)
    return d


def all_jobs(tier):
    J = []
    for nm, (b, pr, L) in builds().items():
        J.append(Job("comp", "compression: " + nm, comp_job(b, pr, L), split=2 if "unk" in b.__code__.co_names else 1, limit=5000))
    J.append(Job("comp", "compression: any numbers", numbers_job, limit=5000))
    return J
