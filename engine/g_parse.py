"""Translation of the parser's syntax trees (regex_syntax Hir): languages, anchors, classes"""
import contracts
import oracle
from framework import *
from models import seq

W = "ExprSet::parse_expr"
LOOKS = ("Start", "End", "StartLF", "EndLF", "StartCRLF", "EndCRLF", "WordAscii", "WordAsciiNegate", "WordUnicode", "WordStartUnicode", "WordEndHalfAscii")


class Hirs:
    """builds values of the parser's tree types"""

    def __init__(self, P):
        self.P = P
        self.t = {}
        for i, x in enumerate(P.types):
            p = x.get("path") or ""
            if x["k"] == "adt" and p.startswith("regex_syntax::"):
                self.t.setdefault(p.rsplit("::", 1)[1], i)
        for n in ("HirKind", "Literal", "Class", "Look", "Repetition", "Capture"):
            if n not in self.t:
                raise Undecided("no type " + n)

    def struct(self, tyname, **kw):
        t = self.t[tyname]
        fs = [f[0] for f in self.P.types[t]["variants"][0]["fields"]]
        if sorted(fs) != sorted(kw):
            raise Undecided("fields of " + tyname)
        return Agg("adt", t, 0, [kw[f] for f in fs])

    def variant(self, name, v, *f):
        t = self.t[name]
        for i, x in enumerate(self.P.types[t]["variants"]):
            if x["name"] == v:
                return Agg("adt", t, i, list(f))
        raise Undecided("variant " + v)

    def hir(self, t):
        """t: tree as nested tuples"""
        k = t[0]
        box = lambda l: Box(Agg("array", None, 0, l))
        if k == "Empty":
            v = self.variant("HirKind", "Empty")
        elif k == "Literal":
            v = self.variant("HirKind", "Literal", Agg("adt", self.t["Literal"], 0, [box(list(t[1]))]))
        elif k in ("Bytes", "Unicode"):
            v = self.variant("HirKind", "Class", self.variant("Class", k, Opaque("class", [Opaque("range", list(r)) for r in t[1]])))
        elif k == "Look":
            v = self.variant("HirKind", "Look", self.variant("Look", t[1]))
        elif k == "Repetition":
            mx = none() if t[2] is None else some(t[2])
            v = self.variant("HirKind", "Repetition", self.struct("Repetition", min=t[1], max=mx, greedy=t[3], sub=Box(self.hir(t[4]))))
        elif k == "Capture":
            n = none() if t[1] is None else some(box(list(t[1].encode())))
            v = self.variant("HirKind", "Capture", self.struct("Capture", index=1, name=n, sub=Box(self.hir(t[2]))))
        else:
            v = self.variant("HirKind", k, Vec([self.hir(x) for x in t[1]]))
        return Opaque("hir", [v])


def string(s):
    b = s.encode()
    return Slice(list(b), 0, len(b))


def utf8_sequences(a, b):
    """the specification: the inclusive range of scalar values as sequences of byte ranges"""
    out = []

    def enc(c):
        return chr(c).encode("utf-8")

    def rec(lo, hi):
        # lo, hi: encodings of equal length
        if len(lo) == 1:
            return [[(lo[0], hi[0])]]
        if lo[0] == hi[0]:
            return [[(lo[0], lo[0])] + r for r in rec(lo[1:], hi[1:])]
        r = []
        l0, h0 = lo[0], hi[0]
        tail = len(lo) - 1
        if lo[1:] != bytes([0x80] * tail):
            r += [[(l0, l0)] + x for x in rec(lo[1:], bytes([0xBF] * tail))]
            l0 += 1
        up = []
        if hi[1:] != bytes([0xBF] * tail):
            up = [[(h0, h0)] + x for x in rec(bytes([0x80] * tail), hi[1:])]
            h0 -= 1
        if l0 <= h0:
            r += [[(l0, h0)] + [(0x80, 0xBF)] * tail]
        return r + up

    for lo, hi in ((0, 0x7F), (0x80, 0x7FF), (0x800, 0xFFFF), (0x10000, 0x10FFFF)):
        parts = [(lo, hi)] if lo != 0x800 else [(0x800, 0xD7FF), (0xE000, 0xFFFF)]
        for l, h in parts:
            x, y = max(a, l), min(b, h)
            if x <= y:
                out += rec(enc(x), enc(y))
    return out


def seq_values(P, a, b):
    rt = st = None
    for i, x in enumerate(P.types):
        p = x.get("path") or ""
        if p == "regex_syntax::utf8::Utf8Range":
            rt = i
        if p == "regex_syntax::utf8::Utf8Sequence":
            st = i
    if rt is None:
        raise Undecided("no type Utf8Range")
    out = []
    for s in utf8_sequences(a, b):
        out.append(Vec([Agg("adt", rt, 0, list(r)) for r in s]))
    return Vec(out)


# ---------------------------------------------------------------- reference semantics of trees


def has(t, f):
    if f(t):
        return True
    subs = t[1] if t[0] in ("Concat", "Alternation") else [t[-1]] if t[0] in ("Repetition", "Capture") else []
    return any(has(x, f) for x in subs)


def is_look(t):
    return t[0] == "Look"


def supported(t, s=True, e=True):
    """anchors stand only where they are trivially satisfied"""
    k = t[0]
    if k == "Look":
        return (t[1] == "Start" and s) or (t[1] == "End" and e)
    if k == "Concat":
        return all(supported(x, s and i == 0, e and i == len(t[1]) - 1) for i, x in enumerate(t[1]))
    if k == "Alternation":
        return all(supported(x, s, e) for x in t[1])
    if k == "Capture":
        return supported(t[2], s, e)
    if k == "Repetition":
        return supported(t[4], False, False)
    return True


def den(A, t):
    """language of a tree without anchors"""
    k = t[0]
    if k == "Empty":
        return A.op("EmptyString", None, [])
    if k == "Literal":
        return A.op("Concat", [A.op("Byte", None, [b]) for b in t[1]], []) if t[1] else A.op("EmptyString", None, [])
    if k == "Unicode":
        l = [A.op("Byte", None, [r[0]]) for r in t[1]]
        return A.op("Or", l, []) if l else A.op("NoMatch", None, [])
    if k == "Repetition":
        return A.op("Repeat", [den(A, t[4])], [t[1], U32MAX if t[2] is None else t[2]])
    if k == "Capture":
        d = den(A, t[2])
        return A.op("Lookahead", [d], [0]) if t[1] == "stop" else d
    return A.op("Concat" if k == "Concat" else "Or", [den(A, x) for x in t[1]], [])


def spans(A, t, w):
    """positions (i, j) of word w that the tree matches"""
    n = len(w)
    k = t[0]
    R = range(n + 1)
    if not has(t, is_look):
        m = den(A, t)[0]
        return {(i, j) for i in R for j in range(i, n + 1) if m >> oracle.IDX[w[i:j]] & 1}
    if k == "Look":
        return {(i, i) for i in R if {"Start": i == 0, "End": i == n}[t[1]]}
    if k == "Concat":
        r = {(i, i) for i in R}
        for x in t[1]:
            s = spans(A, x, w)
            r = {(i, j) for i, m in r for m2, j in s if m == m2}
        return r
    if k == "Alternation":
        return set().union(*[spans(A, x, w) for x in t[1]])
    if k == "Capture":
        return spans(A, t[2], w)
    if k == "Repetition":
        s = spans(A, t[4], w)
        mn = min(A.int(t[1]), 5)
        mx = 12 if t[2] is None else min(A.int(t[2]) - A.int(t[1]), 6) + mn
        p = {(i, i) for i in R}
        out = set()
        for c in range(mx + 1):
            if c >= mn:
                out |= p
            p = {(i, j) for i, m in p for m2, j in s if m == m2}
        return out
    raise Undecided(k)


def expect(A, t):
    if not has(t, is_look):
        return den(A, t)
    m = 0
    for i, w in enumerate(oracle.WORDS):
        if (0, len(w)) in spans(A, t, w):
            m |= 1 << i
    return (m, 2, None)


def show(t):
    k = t[0]
    if k == "Empty":
        return "()"
    if k == "Literal":
        return "'" + "".join("abc"[b] if b < 3 else "\\x%02x" % b for b in t[1]) + "'"
    if k in ("Bytes", "Unicode"):
        return "[" + ",".join("%x-%x" % tuple(r) for r in t[1]) + "]"
    if k == "Look":
        return "\\" + t[1]
    if k == "Repetition":
        return "%s{%s,%s}" % (show(t[4]), t[1], t[2] if t[2] is not None else "inf")
    if k == "Capture":
        return "(%s:%s)" % (t[1] or "group", show(t[2]))
    return {"Concat": "Concat", "Alternation": "Alt"}[k] + "(" + ", ".join(show(x) for x in t[1]) + ")"


# ---------------------------------------------------------------- generation

NAMES = ("stop", "stopx", "sto", "xstop", "STOP", "Stop", "stop_", "stop1", "stopstop", "s", "pots", "step")


class Gen:
    def __init__(self, ctx, looks, stop, big, depth):
        self.ctx, self.looks, self.stop, self.big = ctx, looks, stop, big
        self.n = 0
        self.top = depth

    def each(self, looks):
        """one look-around, or one named group, in every surrounding"""
        a, b = ("Literal", (0,)), ("Literal", (1,))
        if looks:
            x = ("Look", looks[self.ctx.choose(len(looks), "look-around")])
        else:
            n = NAMES[self.ctx.choose(len(NAMES), "name")]
            x = ("Capture", n, [b, ("Repetition", 0, None, True, b), ("Literal", (1, 2))][self.ctx.choose(3, "group")])
        top = [
            x,
            ("Concat", (a, x)),
            ("Capture", None, x),
            ("Capture", "x", ("Concat", (a, x))),
            ("Alternation", (x, a)),
            ("Alternation", (a, x)),
            ("Alternation", (("Concat", (a, x)), b)),
        ]
        if looks or x[1] != "stop":
            top += [("Concat", (x, a)), ("Concat", (a, x, b)), ("Repetition", 0, None, True, x), ("Repetition", 0, 1, False, x), ("Repetition", 2, 2, True, x), ("Concat", (("Capture", None, x), a))]
        return top[self.ctx.choose(len(top), "place")]

    def tree(self, depth, no=(), last=True):
        """no: kinds the parser never puts here; last: a lookahead may stand here"""
        small = depth == 0 and self.top > 1
        opts = ["Literal1"] if small else ["Literal1", "Literal2", "Unicode"]
        if "Empty" not in no:
            opts.append("Empty")
        if self.looks:
            opts += ["Start", "End"] + (["Other"] if depth > 0 else [])
        if depth > 0:
            opts += ["Repetition", "Capture", "Named"] + [k for k in ("Concat", "Alternation") if k not in no]
            if self.stop and last:
                opts.append("Stop")
        k = opts[self.ctx.choose(len(opts), "kind")]
        self.n += 1
        b = self.n % 3
        if k == "Literal1":
            return ("Literal", (b,))
        if k == "Literal2":
            return ("Literal", (b, (b + 1) % 3))
        if k == "Unicode":
            return ("Unicode", ((b, b),) if b else ((0, 0), (2, 2)))
        if k == "Empty":
            return ("Empty",)
        if k in ("Start", "End"):
            return ("Look", k)
        if k == "Other":
            return ("Look", LOOKS[2 + self.n % (len(LOOKS) - 2)])
        if k == "Repetition":
            o = self.ctx.choose(4, "bounds")
            if o == 0:
                mn, mx = 0, None
            elif o == 1:
                mn, mx = 0, 1
            elif o == 2:
                mn, mx = SInt(Atom("m%d" % self.n, 0, U32MAX - 1)), None
            else:
                mn, mx = SInt(Atom("m%d" % self.n, 0, U32MAX - 1)), SInt(Atom("n%d" % self.n, 1, U32MAX - 1))
                self.ctx.rels.append(("Le", mn, mx))
            return ("Repetition", mn, mx, self.ctx.choose(2, "greedy") == 0 if depth == self.top else True, self.tree(depth - 1, (), False))
        if k in ("Capture", "Named", "Stop"):
            nm = {"Capture": None, "Named": ("stopx", "sto")[self.n % 2], "Stop": "stop"}[k]
            return ("Capture", nm, self.tree(depth - 1, (), last and k != "Stop"))
        m = 2 + (self.ctx.choose(2, "arity") if self.big and depth == self.top else 0)
        l = []
        for i in range(m):
            l.append(self.tree(depth - 1, (k, "Empty") if k == "Concat" else (k,), last and (k == "Alternation" or i == m - 1)))
        return (k, tuple(l))


def parse_job(depth, looks, stop, big):
    def run(env, res, split, job):
        need(env.P, W)

        def f(I, ctx):
            T = env.template()
            u = Uni(I, T, True, 1)
            u.allow_look = True
            contracts.install(u)
            H = Hirs(env.P)
            g = Gen(ctx, looks, stop, big, depth)
            if "each" == looks:
                t = g.each([v["name"] for v in env.P.types[H.t["Look"]]["variants"]])
            elif stop == "names":
                t = g.each(None)
            else:
                t = g.tree(depth)
            I.tree = t
            I.hooks["parse"] = lambda I, p, s: ok(H.hir(t), None)
            I.hooks["utf8seqs"] = lambda I, a, b: seq_values(env.P, a, b)
            r = I.call_path(W, u.exprs, Opaque("parser", {}), string("pattern"))
            return u, t, (r.f[0].f[0] if r.v == 0 else None)

        for I, ctx, (u, t, r) in traces(env, res, split, job, f, panics=("parse.panic", lambda I: show(I.tree))):
            sup = supported(t)
            if r is None:
                if sup:
                    res.violate("parse.refused", W, "a supported pattern is refused", show(t))
                else:
                    res.ok("parse.refused")
                continue
            if has(t, lambda x: x[0] == "Look" and x[1] not in ("Start", "End")):
                res.violate("parse.accepted", W, "an unsupported look-around is not refused", show(t))
                continue
            rng = random.Random(5)
            done = False
            for k in range(4):
                A = (oracle.Assign if k < 2 or has(t, is_look) else oracle.UAssign)(u, env.pools, rng, {})
                if A.bad:
                    continue
                try:
                    e, g = expect(A, t), A.den(r)
                except (oracle.Skip, Undecided):
                    res.skipped += 1
                    continue
                if e is None or g is None:
                    res.skipped += 1
                    continue
                done = True
                bad = e != g if isinstance(A, oracle.UAssign) else e[0] != g[0]
                if bad:
                    d = ""
                    if not isinstance(A, oracle.UAssign):
                        d = " on the word '%s'" % oracle.wstr(next(oracle.bits(e[0] ^ g[0])))
                    res.violate("parse.lang", W, "%s is translated to %s" % (show(t), u.show(r)), "the language differs" + d + "; integers %s" % ({a.name: v for a, v in A.atoms.items()},))
                    break
            if done:
                res.ok("parse.lang")
                if len(res.samples) < 3:
                    res.samples.append(show(t))

    return run


# ---------------------------------------------------------------- classes, over real bytes


def norm(I, es, r, memo):
    """finite language of a node over bytes as a tuple of alternatives, each a tuple of 256-bit sets"""
    if r in memo:
        return memo[r]
    e = strip(I.call_path("ExprSet::get", Ref(es, 0), r if isinstance(r, Agg) else Agg("adt", memo["ty"], 0, [r])))
    n = I.p.types[I.p.adt("Expr")]["variants"][e.v]["name"]
    kids = []
    for x in e.f:
        x = strip(x)
        if isinstance(x, (Slice, Vec)) or (isinstance(x, Agg) and x.k == "array"):
            kids = [strip(y) for y in seq(x)]
    if n == "EmptyString":
        out = ((),)
    elif n == "NoMatch":
        out = ()
    elif n == "Byte":
        out = ((1 << strip(e.f[0]),),)
    elif n == "ByteSet":
        m = 0
        for i, w in enumerate(kids):
            m |= w << (32 * i)
        out = ((m,),)
    elif n == "Or":
        out = tuple(y for k in kids for y in norm(I, es, k.f[0], memo))
    elif n == "Concat":
        out = ((),)
        for k in kids:
            d = norm(I, es, k.f[0], memo)
            out = tuple(a + b for a in out for b in d)
            if len(out) > 5000:
                raise Undecided("too many alternatives")
    else:
        raise Undecided("node kind %s in a class" % n)
    memo[r] = out
    return out


def canon(alts, memo):
    """canonical form of a finite language given by alternatives"""
    alts = frozenset(alts)
    if alts in memo:
        return memo[alts]
    eps = () in alts
    cls = {}
    parts = [(a[0], a[1:]) for a in alts if a]
    # atoms of the first sets
    atoms = [(1 << 256) - 1]
    for m in {p[0] for p in parts}:
        nx = []
        for a in atoms:
            if a & m:
                nx.append(a & m)
            if a & ~m:
                nx.append(a & ~m)
        atoms = nx
    for a in atoms:
        rest = frozenset(p[1] for p in parts if p[0] & a)
        if rest:
            c = canon(rest, memo)
            if c != (False, ()):
                cls[c] = cls.get(c, 0) | a
    r = (eps, tuple(sorted(((m, c) for c, m in cls.items()), key=lambda x: x[0])))
    memo[alts] = r
    return r


def member(c):
    """some word of a canonical language"""
    w = []
    while not c[0]:
        m, c = c[1][0]
        w.append((m & -m).bit_length() - 1)
    return bytes(w)


def differ(x, y):
    """a word on which two canonical languages differ"""
    todo = [(b"", x, y)]
    while todo:
        w, x, y = todo.pop(0)
        if x is None or y is None:
            return w + member(x or y), x is not None
        if x[0] != y[0]:
            return w, x[0]
        cuts = [m for m, _ in x[1]] + [m for m, _ in y[1]]
        for b in range(256):
            fx = [c for m, c in x[1] if m >> b & 1]
            fy = [c for m, c in y[1] if m >> b & 1]
            a, c = (fx or [None])[0], (fy or [None])[0]
            if a != c:
                todo.append((w + bytes([b]), a, c))
    return b"", None


def fresh_set(I):
    return [I.call_path("ExprSet::new", 256)]


RS = [(0, 0), (0x20, 0x7F), (0x41, 0x5A), (0x61, 0x61), (0x7F, 0x80), (0x81, 0xBF), (0xC0, 0x7FF), (0x100, 0x17F), (0x3B1, 0x3C9), (0x7FF, 0x800), (0x900, 0x97F), (0xFFF, 0x1000), (0x2000, 0x206F), (0xAC00, 0xD7A3), (0xD7FF, 0xE000), (0xFFFF, 0x10000), (0x1F600, 0x1F64F), (0x10002, 0x10FFFF)]
CPS = [0, 0x41, 0x7E, 0x7F, 0x80, 0xBF, 0xC0, 0x7FE, 0x7FF, 0x800, 0xFFF, 0x1000, 0x2028, 0xD7FF, 0xE000, 0xFFFD, 0xFFFF, 0x10000, 0x3FFFF, 0x40000, 0x10FFFE, 0x10FFFF]


def uni_job(mode):
    def run(env, res, split, job):
        need(env.P, W)

        def pick(ctx, lo, what):
            c = [x for x in CPS if x >= lo]
            if not c:
                raise Infeasible()
            return c[ctx.choose(len(c), what)]

        def klass(ctx, n, tag):
            l, lo = [], 0
            for i in range(n):
                a = pick(ctx, lo, "%s%d.start" % (tag, i))
                b = pick(ctx, a, "%s%d.end" % (tag, i))
                l.append((a, b))
                lo = b + 2
            return l

        def f(I, ctx):
            es = fresh_set(I)
            H = Hirs(env.P)
            if mode == "one":
                cl = [klass(ctx, 1, "r")]
            elif mode == "two":
                R = RS[ctx.choose(len(RS), "first")]
                R2 = [x for x in RS if x[0] > R[1] + 1]
                if not R2:
                    raise Infeasible()
                cl = [[R, R2[ctx.choose(len(R2), "second")]]]
            elif mode == "again":
                # the cache: another class, then the first again
                c1 = [[(0x80, 0x8F)], [(0x3B1, 0x3B3)], [(0x41, 0x43), (0x3B1, 0x3B3)], [(0x800, 0x900)], []][ctx.choose(5, "first class")]
                k = ctx.choose(8, "second class")
                s, e = (c1[-1] if c1 else (0x80, 0x8F))
                c2 = [c1, c1[:-1] + [(s, e + 1)], c1[:-1] + [(s + 1, e)], c1 + [(0x10000, 0x10001)], c1[:-1], [(s, s), (e, e)], c1[1:], c1 + [(0x20, 0x20)][: not c1]][k]
                cl = [c1, c2, c1]
            elif mode == "lead":
                # all characters whose first byte lies in a range
                B = [(0xC2, 0xDF), (0xE0, 0xEF), (0xF0, 0xF4)][ctx.choose(3, "length")]
                n = B[1] - B[0] + 1
                a = ctx.choose(n, "first")
                b = a + ctx.choose(n - a, "last")
                sh = {0xC2: 6, 0xE0: 12, 0xF0: 18}[B[0]]
                z = {0xC2: 0xC0, 0xE0: 0xE0, 0xF0: 0xF0}[B[0]]
                lo, hi = (B[0] + a - z) << sh, ((B[0] + b - z + 1) << sh) - 1
                lo, hi = max(lo, {6: 0x80, 12: 0x800, 18: 0x10000}[sh]), min(hi, 0x10FFFF)
                c = [(lo, min(hi, 0xD7FF)), (max(lo, 0xE000), hi)] if sh == 12 and lo <= 0xD800 <= hi else [(lo, hi)]
                cl = [[x for x in c if x[0] <= x[1]]]
            elif mode == "cont":
                # a run of the last (or last but one) byte
                w = (0, 6, 12)[ctx.choose(3, "byte from the end")]
                base = (0x3C0, 0x3000, 0x40000)[ctx.choose(3, "block")]
                if w == 12 and base != 0x40000 or w == 6 and base == 0x3C0:
                    raise Infeasible()
                a = ctx.choose(64, "first")
                L = sorted({1, 2, 3, 64 - a} & set(range(1, 65 - a)))
                n = L[ctx.choose(len(L), "length")]
                cl = [[(base + (a << w), base + ((a + n) << w) - 1)]]
            elif mode == "long":
                # two classes of many ranges that differ in one number
                n = (9, 17, 33, 65, 130)[ctx.choose(5, "ranges")]
                c1 = [(0x3B1 + 4 * i, 0x3B2 + 4 * i) for i in range(n)]
                i = (0, 1, n // 2, n - 2, n - 1)[ctx.choose(5, "position")]
                k = ctx.choose(3, "difference")
                a, b = c1[i]
                c2 = c1[:i] + [[(a, a)], [(a, b + 1)], []][k] + c1[i + 1 :]
                cl = [[c1, c2], [c2, c1]][ctx.choose(2, "order")]
            else:
                cl = [list(mode)]
            I.cl = cl
            out = []
            for c in cl:
                I.hooks["parse"] = lambda I, p, s: ok(H.hir(("Unicode", tuple(c))), None)
                I.hooks["utf8seqs"] = lambda I, a, b: seq_values(env.P, a, b)
                r = I.call_path(W, Ref(es, 0), Opaque("parser", {}), string("pattern"))
                if r.v != 0:
                    out.append(None)
                    continue
                memo = {"ty": r.f[0].ty}
                out.append(norm(I, es, r.f[0].f[0], memo))
            return cl, out

        for I, ctx, (cl, out) in traces(env, res, split, job, f, budget=10**7, panics=("class.panic", lambda I: str(I.cl))):
            for i, (c, o) in enumerate(zip(cl, out)):
                nm = "[" + ", ".join("U+%04X-U+%04X" % r for r in c) + "]" + (" (after %s)" % cl[i - 1] if i else "")
                if o is None:
                    res.violate("class.unicode", W, "a Unicode class is refused", nm)
                    break
                e = []
                for a, b in c:
                    for s in utf8_sequences(a, b):
                        e.append(tuple(((1 << (y - x + 1)) - 1) << x for x, y in s))
                m = {}
                x, y = canon(e, m), canon(o, m)
                if x != y:
                    w, inexp = differ(x, y)
                    res.violate("class.unicode", W, "a Unicode class does not denote the encodings of its members", "%s: %s %s" % (nm, " ".join("%02x" % b for b in w), "is missing" if inexp else "is accepted"))
                    break
                res.ok("class.unicode")
                if len(res.samples) < 3:
                    res.samples.append("class " + nm)

    return run


def bytes_job(n):
    B = [0, 1, 31, 32, 63, 65, 127, 128, 224, 254, 255]

    def run(env, res, split, job):
        need(env.P, W)

        def f(I, ctx):
            es = fresh_set(I)
            H = Hirs(env.P)
            l, lo = [], 0
            for i in range(n):
                c = [x for x in B if x >= lo]
                if not c:
                    raise Infeasible()
                a = c[ctx.choose(len(c), "start")]
                c = [x for x in B if x >= a]
                b = c[ctx.choose(len(c), "end")]
                l.append((a, b))
                lo = b + 2
            if n == 0:
                a = ctx.choose(256, "byte")
                l = [(a, min(255, a + ctx.choose(2, "more")))]
            I.cl = l
            I.hooks["parse"] = lambda I, p, s: ok(H.hir(("Bytes", tuple(l))), None)
            r = I.call_path(W, Ref(es, 0), Opaque("parser", {}), string("pattern"))
            return l, (norm(I, es, r.f[0].f[0], {"ty": r.f[0].ty}) if r.v == 0 else None)

        for I, ctx, (l, o) in traces(env, res, split, job, f, budget=10**7, panics=("class.panic", lambda I: str(I.cl))):
            m = 0
            for a, b in l:
                m |= ((1 << (b - a + 1)) - 1) << a
            if o is None or canon(o, {}) != canon([(m,)] if m else [], {}):
                res.violate("class.bytes", W, "a byte class does not denote its bytes", str(l))
            else:
                res.ok("class.bytes")

    return run


def literal_job():
    def run(env, res, split, job):
        need(env.P, W)
        LITS = [bytes([i]) for i in range(256)] + [b"a", b"\x00", b"\xff", b"ab", b"aa", b"\xce\xb1", b"abcabc", bytes(range(0, 256, 15)), bytes([0x7F, 0x80, 0x81])]

        def f(I, ctx):
            es = fresh_set(I)
            H = Hirs(env.P)
            s = LITS[ctx.choose(len(LITS), "literal")]
            I.cl = s
            I.hooks["parse"] = lambda I, p, x: ok(H.hir(("Literal", tuple(s))), None)
            r = I.call_path(W, Ref(es, 0), Opaque("parser", {}), string("pattern"))
            return s, (norm(I, es, r.f[0].f[0], {"ty": r.f[0].ty}) if r.v == 0 else None)

        for I, ctx, (s, o) in traces(env, res, split, job, f, budget=10**7, panics=("class.panic", lambda I: str(I.cl))):
            if o is None or canon(o, {}) != canon([tuple(1 << b for b in s)], {}):
                res.violate("parse.literal", W, "a literal does not denote its bytes", str(s))
            else:
                res.ok("parse.literal")

    return run


def all_jobs(tier):
    th = tier == "thorough"
    J = []
    J.append(Job("parse", "trees of depth 2 without anchors", parse_job(2, False, True, True), split=8))
    J.append(Job("parse", "trees of depth 1 with anchors", parse_job(1, True, True, True), split=1))
    J.append(Job("parse", "trees of depth 2 with anchors", parse_job(2, True, False, False), split=8))
    J.append(Job("parse", "literals", literal_job()))
    J.append(Job("parse", "every look-around, every place", parse_job(0, "each", False, False)))
    J.append(Job("parse", "names of groups", parse_job(0, False, "names", False)))
    J.append(Job("uclass", "unicode classes by first byte", uni_job("lead"), split=8))
    J.append(Job("uclass", "unicode classes by following bytes", uni_job("cont"), split=4))
    J.append(Job("uclass", "byte classes, every byte", bytes_job(0), split=4))
    J.append(Job("uclass", "unicode classes of one range", uni_job("one"), split=4))
    J.append(Job("uclass", "unicode classes of two ranges", uni_job("two"), split=8))
    J.append(Job("uclass", "unicode classes seen before", uni_job("again")))
    J.append(Job("uclass", "long unicode classes that differ in one place", uni_job("long"), split=8))
    J.append(Job("parse", "byte classes of one range", bytes_job(1)))
    J.append(Job("parse", "byte classes of two ranges", bytes_job(2), split=8, limit=400 if not th else 100000))
    if th:
        J.append(Job("parse", "trees of depth 3 with anchors", parse_job(3, True, False, False), split=32, limit=40000, secs=800))
    return J
