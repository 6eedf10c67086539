"""Printing: bounded, total, terminating"""
from framework import *
from g_deriv import inner
from g_struct import callgraph, sccs
from models import strip_ty

SUFFIX = 96  # what a level may add once the limit is reached (closing texts)
LEAF = 8192  # text of one leaf (a byte set)
L0 = 1000
BIG = 5000
UMAX = (1 << 64) - 1


def printers(P):
    """functions that print a node: they recurse, and are given the node, the text so far and the limit"""
    G = callgraph(P)
    out = []
    ref = P.adt("ExprRef")
    for c in sccs(G):
        for x in c:
            b = P.bodies.get(x)
            if b is None or not b["local"]:
                continue
            a = sig(P, b)
            if a.count("ref") == 1 and a.count("text") == 1 and a.count("int") == 1 and "set" in a:
                out.append(b)
    if not out:
        raise Undecided("anchor missing: a recursive function that prints nodes")
    # of these, the one that looks at the node; others only pass a node on
    looks = [b for b in out if any(p and p.endswith("::ExprSet::get") for p in callees(b))]
    return looks or out


def callees(b):
    for blk in b["blocks"]:
        if blk["t"][0] == "call":
            yield blk["t"][1].get("p")


def sig(P, b):
    r = []
    for t in b["locals"][1 : b["argc"] + 1]:
        ty = P.types[t]
        if t == P.adt("ExprRef"):
            r.append("ref")
        elif ty["k"] == "int":
            r.append("int")
        elif ty["k"] == "ref":
            i = P.types[ty["e"]]
            p = i.get("path", "")
            if p == "std::string::String":
                r.append("text")
            elif ty["e"] == P.adt("ExprSet"):
                r.append("set")
            elif i.get("local"):
                r.append("pp")
            else:
                r.append("?")
        else:
            r.append("?")
    return r


class Print:
    def __init__(self, env, I, k, mapping=None, unknown_limit=True):
        self.I = I
        P = self.P = env.P
        T = self.T = env.template(k)
        self.u = Uni(I, T, True, 2)
        self.u.allow_look = True
        self.k = k
        if mapping is not None:
            pp = I.call_path("PrettyPrinter::new", Vec(list(mapping)), k)
            I.call_path("ExprSet::set_pp", self.u.exprs, pp)
        self.M = SInt(Atom("limit", 0, UMAX)) if unknown_limit else None
        self.base = None
        self.entry = None
        self.bad = []
        self.kids = 0
        self.big_once = False
        self.pr = printers(P)
        I.hooks["print_unknown"] = True
        I.hooks["int_scale"] = scale
        I.smaller = {}
        for b in self.pr:
            I.hooks[b["key"]] = self.child

    def child(self, I, body, args):
        """summary of printing a child: some text is added"""
        a = dict(zip(sig(self.P, body), args))
        t = strip(a["text"])
        if self.entry is None:
            return NotImplemented
        if strip(a["ref"]).f[0] not in self.u.nodes:
            # a leaf whose content is known
            return NotImplemented
        self.kids += 1
        n = len(t.f)
        if n <= self.entry:
            self.bad.append("a child is printed before the node has added any text")
        lim = a["int"]
        if not self.below(lim) and not (isinstance(lim, int) and lim <= self.M.lo()):
            self.bad.append("a child is printed with the limit %r instead of %r" % (lim, self.M))
        else:
            lo = lim if isinstance(lim, int) else lim.lo()
            if n - lo > 16:
                self.bad.append("a child is printed although the text may be longer than the limit by %d" % min(n - lo, BIG))
        k = 1
        if not self.big_once and I.ctx.choose(2, "child's text") == 1:
            k = BIG
            self.big_once = True
        t.f.extend(b"x" * k)
        self.base = len(t.f)
        return ok(UNIT)

    def below(self, x, by=0):
        """x <= limit + by by construction"""
        if isinstance(x, int):
            return x <= self.M.lo() + by
        if x.a is self.M.a:
            return x.o <= by
        y = self.I.smaller.get(x.a)
        return y is not None and self.below(SInt(y.a, y.o + x.o), by)

    def call(self, node):
        P, I = self.P, self.I
        b = self.pr[0]
        if len(self.pr) > 1:
            l = [b for b in self.pr if b["key"].endswith("write_expr")]
            if len(l) != 1:
                raise Undecided("several functions print nodes")
            b = l[0]
        pp = [I.call_path("ExprSet::pp", self.u.exprs)]
        txt = [Vec(list(b"x" * L0), True)]
        self.entry = self.base = L0
        m = {"ref": self.u.ref(node), "set": self.u.exprs, "text": Ref(txt, 0), "int": self.M, "pp": pp[0]}
        s = sig(P, b)
        if any(x not in m for x in s):
            raise Undecided("arguments of " + b["key"])
        I.run(b["id"], [m[x] for x in s], nohook=True)
        return txt[0]


def scale(I, op, a, b, t):
    """a limit multiplied or divided by a constant"""
    m = (1 << t["bits"]) - 1
    if isinstance(a, int):
        a, b = b, a
        if not op.startswith("Mul"):
            return NotImplemented
    if not isinstance(b, int) or b <= 0 or t["signed"]:
        return NotImplemented
    if op in ("Mul", "MulWithOverflow", "MulUnchecked"):
        if op != "MulUnchecked" and I.ctx.cmp_int("Gt", a, m // b):
            if op == "MulWithOverflow":
                return tup(0, True)
            raise Undecided("product that wraps")
        r = a if b == 1 else SInt(Atom("%r*%d" % (a, b), a.lo() * b, a.hi() * b))
        return tup(r, False) if "With" in op else r
    if op == "Div":
        r = a if b == 1 else SInt(Atom("%r/%d" % (a, b), a.lo() // b, a.hi() // b))
        if r is not a:
            I.smaller[r.a] = a
        return r
    return NotImplemented


def node_job(name, mk, k=256, mapping=None):
    def run(env, res, split, job):
        need(env.P, "ExprSet::expr_to_string_max_len", "ExprSet::pp")

        def f(I, ctx):
            p = Print(env, I, k, mapping)
            e = mk(p)
            return p, e, p.call(e)

        def show(I):
            return name

        for I, ctx, (p, e, t) in traces(env, res, split, job, f, budget=4 * 10**6, panics=("print.panic", show), diverge=("print.end", "PrettyPrinter", name)):
            what = "%s (limit %d..%s, text so far %d)" % (name, p.M.lo(), "" if p.M.hi() == UMAX else p.M.hi(), L0)
            if p.bad:
                res.violate("print.bound", "PrettyPrinter", p.bad[0], what)
                continue
            n = len(t.f)
            over = min(n - p.base, n - p.M.lo())
            # escapes: up to six bytes for one that was checked against the limit
            if over > SUFFIX + 5 * max(0, min(p.M.lo(), n) - L0 - (p.base - L0)):
                res.violate("print.bound", "PrettyPrinter", "%d bytes are added beyond the limit" % over, what)
                continue
            if bytes(t.f[:L0]) != b"x" * L0:
                res.violate("print.bound", "PrettyPrinter", "text already printed is changed", what)
                continue
            try:
                bytes(t.f).decode("utf8")
            except UnicodeDecodeError:
                res.violate("print.panic", "PrettyPrinter", "the text is not UTF-8", what)
                continue
            res.ok("print.bound")
            if len(res.samples) < 3:
                res.samples.append("%s: %d bytes" % (what, n - L0))

    return run


def sets(k):
    full = (1 << k) - 1
    out = [full, full & 0x5555555555555555555555555555555555555555555555555555555555555555, full & ~(full // 3 if k > 2 else 0), full & ~1, full >> 1]
    for i in sorted({0, 1, 9, 10, 13, 31, 32, 34, 39, 63, 64, 92, 95, 96, 126, 127, 128, 254, 255}):
        if i < k:
            out += [1 << i, full & ~(1 << i)]
            if i + 2 <= k:
                out += [3 << i, 1 << i | 1 << (k - 1)]
    return sorted(set(x for x in out if x))


def mapping_of(k):
    """256 bytes on k symbols"""
    return [min(b, k - 1) for b in range(256)] if k < 256 else list(range(256))


def leaf_jobs(k, mapping):
    def run(env, res, split, job):
        # every byte, then sets
        for what in ["byte"] + ["set"] + ["consts"]:
            n = {"byte": k, "consts": 3}.get(what, len(sets(k)))
            for x in range(n):

                def f(I, ctx):
                    p = Print(env, I, k, mapping)
                    if what == "byte":
                        e = p.T.bytes[x]
                    elif what == "consts":
                        e = (EMPTY, NO_MATCH, ANY)[x]
                    else:
                        m = sets(k)[x]
                        w = (k + 31) // 32
                        e = strip(p.u.call("ExprSet::mk_byte_set", Slice([m >> 32 * i & 0xFFFFFFFF for i in range(w)], 0, w))).f[0]
                    return p, e, p.call(e)

                lab = "%s %s, %d symbols%s" % (what, hex(sets(k)[x]) if what == "set" else x, k, ", mapped" if mapping else "")
                for I, ctx, (p, e, t) in traces(env, res, 1, job, f, budget=10**7, panics=("print.panic", lambda I: lab)):
                    if len(t.f) - L0 > LEAF:
                        res.violate("print.bound", "PrettyPrinter", "a leaf has a text of %d bytes" % (len(t.f) - L0), lab)
                    else:
                        res.ok("print.bound")

    return run


def info_job():
    """the whole text with the legend of symbols"""

    def run(env, res, split, job):
        need(env.P, "ExprSet::expr_to_string_with_info", "ExprSet::expr_to_string_max_len", "ExprSet::set_pp")
        perm = [255 - b for b in range(256)]
        holes = [2 * (b % 64) for b in range(256)]
        for k, mp in [(256, None), (256, perm), (1, mapping_of(1)), (2, mapping_of(2)), (33, mapping_of(33)), (128, holes), (255, mapping_of(255))]:

            def f(I, ctx):
                p = Print(env, I, k, mp, False)
                return p, I.call_path("ExprSet::expr_to_string_with_info", p.u.exprs, p.u.ref(p.T.bytes[0]))

            lab = "legend of %d symbols" % k
            for I, ctx, (p, t) in traces(env, res, 1, job, f, budget=3 * 10**7, panics=("print.panic", lambda I: lab)):
                t = strip(t)
                if type(t) is not Vec:
                    res.undec("text unknown")
                    continue
                if len(t.f) > 1024 + 64 * 1024:
                    res.violate("print.bound", "PrettyPrinter", "a legend of %d bytes" % len(t.f), lab)
                else:
                    res.ok("print.bound")
                    res.samples.append("%s: %d bytes" % (lab, len(t.f)))

    return run


def top_job():
    """the public entry: the limit it is given is the limit printing uses, and the text starts empty"""

    def run(env, res, split, job):
        need(env.P, "ExprSet::expr_to_string_max_len")

        def f(I, ctx):
            p = Print(env, I, 3)
            seen = []

            def hook(I, body, args):
                a = dict(zip(sig(env.P, body), args))
                seen.append(a)
                strip(a["text"]).f.extend("\u00e9x".encode() * 40)
                return ok(UNIT)

            for b in p.pr:
                I.hooks[b["key"]] = hook
            e = p.u.leaf(20, ("Or",), "e").id
            r = I.call_path("ExprSet::expr_to_string_max_len", p.u.exprs, p.u.ref(e), p.M)
            return p, e, seen

        for I, ctx, (p, e, seen) in traces(env, res, split, job, f, panics=("print.panic", lambda I: "an unknown node")):
            bad = None
            for s in seen:
                lim = s["int"]
                if not p.below(lim, SUFFIX):
                    bad = "printing is started with the limit %r instead of %r" % (lim, p.M)
            if len(seen) > 1:
                bad = bad or "a node is printed %d times" % len(seen)
            if bad:
                res.violate("print.bound", "ExprSet::expr_to_string_max_len", bad, "")
            else:
                res.ok("print.bound")

    return run


def tree_job(name, mk, leafbytes):
    """syntax trees"""

    def run(env, res, split, job):
        from g_build import Asts

        need(env.P, "RegexAst::write_to_str")

        for start in (0, L0):
            for withset in (False, True):

                def f(I, ctx):
                    p = Print(env, I, 3)
                    A = Asts(env.P, p.u)
                    A.string = lambda x: Vec(list(x.encode()), True)
                    t = mk(A, p)
                    txt = [Vec(list(b"x" * start), True)]
                    p.entry = -1
                    p.big_once = True
                    ast = [A.node(t)]
                    I.call_path("RegexAst::write_to_str", Ref(ast, 0), Ref(txt, 0), p.M, some(p.u.exprs) if withset else none())
                    return p, txt[0]

                for I, ctx, (p, t) in traces(env, res, split, job, f, budget=3 * 10**7, panics=("print.panic", lambda I: "syntax tree: " + name)):
                    n = len(t.f)
                    over = n - max(start, p.M.lo(), p.base or 0)
                    if over > SUFFIX + leafbytes:
                        res.violate("print.bound", "RegexAst::write_to_str", "%d bytes are added beyond the limit" % over, "syntax tree: %s, limit at most %d" % (name, p.M.hi()))
                    elif p.bad:
                        res.violate("print.bound", "RegexAst::write_to_str", p.bad[0], name)
                    else:
                        res.ok("print.bound")

    return run


def node_shapes():
    N = {}

    def kids(p, n, tags=COMPOSITE):
        return [p.u.leaf(None, tags, "k%d" % i, 1, sem=("print",)).id for i in range(n)]

    for t in ("Not", "Prefixes"):
        N[t] = lambda p, t=t: inner2(p.u, t, kids(p, 1))
    N["Lookahead"] = lambda p: inner2(p.u, "Lookahead", kids(p, 1), [SInt(Atom("n", 0, U32MAX))])

    def rep(p):
        a, b = SInt(Atom("min", 0, U32MAX)), SInt(Atom("max", 1, U32MAX))
        p.I.ctx.rels.append(("Le", a, b))
        return inner2(p.u, "Repeat", kids(p, 1), [a, b])

    N["Repeat"] = rep
    for t in ("Or", "And", "Concat"):
        for n in (2, 3, 6):
            N["%s of %d" % (t, n)] = lambda p, t=t, n=n: inner2(p.u, t, kids(p, n))
        N["%s of 80" % t] = lambda p, t=t: long_(p, t, 80, kids(p, 1)[0])

    def long_(p, t, n, k):
        p.big_once = True
        return inner2(p.u, t, [k] * n)

    runs = {
        "two letters": b"ab",
        "letters": b"abc\"\\'\n",
        "control characters": b"\x00\x01\x1f\x7f",
        "two-byte character": "\u00e9".encode(),
        "a character cut": b"\xc3",
        "two halves": b"\xc3\xc3",
        "invalid": b"a\xff\xfeb",
        "four-byte character": "\U0001f600\U000e0001".encode(),
        "long": b"abcdefgh" * 30,
        "long invalid": b"abcdefgh\xff" * 12,
        "long control": b"\x01" * 300,
        "long multi-byte": "\u20ac".encode() * 80,
    }
    for nm, r in runs.items():

        def cc(p, r=r, where=0):
            bs = [p.T.bytes[b] for b in r]
            k = kids(p, 2)
            l = [bs, bs + k[:1], k[:1] + bs, k[:1] + bs + k[1:], bs + k[:1] + bs][where]
            return inner2(p.u, "Concat", l)

        for w in range(5):
            N["Concat of %s (%s)" % (nm, ("alone", "first", "last", "between", "around")[w])] = lambda p, cc=cc, w=w: cc(p, where=w)
    return N


def inner2(u, tag, kids, ints=()):
    n = u.leaf(None, (tag,), tag.lower(), 0)
    n.kids = list(kids)
    n.ints = list(ints)
    return n.id


def trees():
    T = {}

    def leafs(A, p):
        return [("Byte", 97), ("Literal", "abc"), ("EmptyString",), ("NoMatch",), ("Regex", "a|b"), ("ByteLiteral", [255, 97])]

    for i, nm in enumerate(["byte", "literal", "empty", "none", "pattern", "byte string"]):
        T[nm] = (lambda A, p, i=i: leafs(A, p)[i], 64)
    T["short set"] = (lambda A, p: ("ByteSet", [1]), 64)
    T["byte set"] = (lambda A, p: ("ByteSet", [0x55555555] * 8), 4096)
    T["long literal"] = (lambda A, p: ("Concat", [("Literal", "ab" * 300)] * 3), 700)
    for t in ("And", "Or", "Concat"):
        T[t] = (lambda A, p, t=t: (t, leafs(A, p)), 64)
        T[t + " of 50"] = (lambda A, p, t=t: (t, [("Byte", 97)] * 50), 64)
    for t in ("Not", "LookAhead", "Prefixes"):

        def deep(A, p, t=t):
            x = ("Byte", 98)
            for _ in range(40):
                x = (t, x)
            return x

        T[t + " nested"] = (deep, 64)
    T["Repeat"] = (lambda A, p: ("Repeat", ("Repeat", ("Byte", 1), 0, U32MAX), SInt(Atom("min", 0, U32MAX)), SInt(Atom("max", 0, U32MAX))), 64)

    def withref(A, p):
        e = inner2(p.u, "Or", [p.u.leaf(None, COMPOSITE, "k", 1, sem=("print",)).id for _ in range(2)])
        return ("Concat", [("Byte", 97), ("ExprRef", e), ("Byte", 98)])

    T["reference"] = (withref, 64 + SUFFIX)
    return T


def all_jobs(tier):
    J = []
    for nm, f in node_shapes().items():
        J.append(Job("print", nm, node_job(nm, f)))
    for k, m in [(256, False), (256, True), (1, True), (2, True), (3, False), (33, True), (64, True), (100, False), (255, True)]:
        mp = (mapping_of(k) if k < 256 else [255 - b for b in range(256)]) if m else None
        J.append(Job("print", "leaves over %d symbols%s" % (k, ", mapped" if m else ""), leaf_jobs(k, mp)))
    J.append(Job("print", "legend", info_job()))
    J.append(Job("print", "entry", top_job()))
    for nm, (f, n) in trees().items():
        J.append(Job("print", "syntax tree: " + nm, tree_job(nm, f, n)))
    return J
