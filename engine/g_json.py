"""JSON quoting: byte classes against the escape rules of JSON, and the homomorphism over nodes"""
import contracts
import oracle
from framework import *
from g_build import builder
from g_deriv import install_map
from g_mk import no
from models import vclone
from g_parse import fresh_set, norm

W = "RegexBuilder::json_quote"
FULL = 'nrbtf\\"u'
UNESC = {"n": 10, "r": 13, "b": 8, "t": 9, "f": 12, "\\": 0x5C, '"': 0x22}
OPTS = [FULL, FULL[:-1], ""] + list(FULL) + [FULL.replace(c, "") for c in FULL[:-1]] + ["un", "ub", "u\\", "nu\\\"", "rt\""]
OPTS = list(dict.fromkeys(OPTS))
CTRL = (1 << 32) - 1
ALL = (1 << 256) - 1
SPECIAL = 1 << 0x5C | 1 << 0x22 | 1 << 0x7F


def options(P, esc, raw):
    t = P.adt("JsonQuoteOptions")
    f = []
    for x in P.types[t]["variants"][0]["fields"]:
        if x[0] == "allowed_escapes":
            f.append(Vec(list(esc.encode())))
        elif x[0] == "raw_mode":
            f.append(raw)
        else:
            raise Undecided("option " + x[0])
    return [Agg("adt", t, 0, f)]


def unquote(s, esc):
    """the byte a quotation stands for, or None"""
    if len(s) == 1:
        return s[0] if s[0] >= 0x20 and not SPECIAL >> s[0] & 1 else None
    if s[0] != 0x5C:
        return None
    if len(s) == 2:
        c = chr(s[1])
        return UNESC.get(c) if c in esc else None
    if len(s) == 6 and s[1:4] == b"u00" and "u" in esc:
        h = s[4:].decode("latin1")
        return int(h, 16) if all(c in "0123456789abcdefABCDEF" for c in h) else None
    return None


def required(b, esc):
    """the standard quotations of a byte"""
    if b >= 0x20 and not SPECIAL >> b & 1:
        return [bytes([b])]
    r = []
    for c, v in UNESC.items():
        if v == b and c in esc:
            r.append(b"\\" + c.encode())
    if "u" in esc and b < 0x20:
        r += [b"\\u%04x" % b, b"\\u%04X" % b]
    if "u" in esc and b == 0x7F:
        r.append(b"\\u007F")
    return r


def expand(alts, cap=70000):
    out = set()
    for a in alts:
        n = 1
        for m in a:
            n *= bin(m).count("1")
        if n > cap:
            raise Undecided("too many strings")
        l = [b""]
        for m in a:
            bs = [bytes([i]) for i in range(256) if m >> i & 1]
            l = [x + b for x in l for b in bs]
        out.update(l)
    return out


def sets():
    printable = ALL & ~CTRL & ~(1 << 0x7F)
    S = [ALL, ALL & ~(1 << 10), CTRL, CTRL & ~(1 << 10), printable, ALL & ~CTRL, SPECIAL, ALL & ~SPECIAL, CTRL | SPECIAL]
    S += [ALL & ~(1 << b) for b in range(32)]
    S += [CTRL & ~(1 << b) | 1 << 65 for b in (0, 9, 13, 31)]
    S += [1 << b | 1 << (b + 1) for b in (7, 8, 9, 10, 11, 12, 13, 30, 31, 0x21, 0x22, 0x5B, 0x5C, 0x7E, 0x7F)]
    S += [1 << b | 1 << 0x61 for b in (0, 8, 9, 10, 0x0A, 0x0B, 0x0F, 0x10, 0x1A, 0x1F, 0x22, 0x5C, 0x7F)]
    S += [ALL & ~(1 << 10 | 1 << 13), ALL & ~(1 << 0x5C), ALL & ~(1 << 0x22), ALL & ~(1 << 0x7F), ALL & ~(1 << 10 | 1 << 0x22), printable & ~(1 << 0x22), 0xFFFF, 0xFFFF0000, 0x0000FC00 | 1 << 0x41, ((1 << 128) - 1) << 128, ((1 << 128) - 1), 1 << 255 | 1 << 128]
    return list(dict.fromkeys(S))


def sname(m):
    b = [i for i in range(256) if m >> i & 1]
    if len(b) > 128:
        return "all but {%s}" % ",".join("%02x" % i for i in range(256) if not m >> i & 1)
    return "{%s}" % ",".join("%02x" % i for i in b[:12]) + ("..." if len(b) > 12 else "")


def class_job(ms, raws, opts=OPTS):
    def run(env, res, split, job):
        need(env.P, W)

        def f(I, ctx):
            m = ms[ctx.choose(len(ms), "set")]
            o = opts[ctx.choose(len(opts), "options")]
            raw = raws[ctx.choose(len(raws), "raw")]
            I.show = "%s with escapes %r" % (sname(m), o)
            if getattr(env, "set256", None) is None:
                env.set256 = fresh_set(I)
            es = [vclone(I, env.set256[0])]

            class U:
                pass

            u = U()
            u.es = es[0]
            b = builder(env.P, u)
            w = [(m >> (32 * i)) & 0xFFFFFFFF for i in range(8)]
            e = I.call_path("ExprSet::mk_byte_set", Ref(es, 0), Slice(w, 0, 8))
            r = I.call_path(W, Ref(b, 0), e, Ref(options(env.P, o, raw), 0))
            if r.v != 0:
                return m, o, raw, None
            return m, o, raw, norm(I, es, r.f[0].f[0], {"ty": r.f[0].ty})

        for I, ctx, (m, o, raw, alts) in traces(env, res, split, job, f, budget=10**7, panics=("json.panic", lambda I: I.show)):
            if alts is None:
                res.violate("json.refused", W, "quoting a byte class is refused", I.show)
                continue
            L = expand(alts)
            if not raw:
                bad = [s for s in L if len(s) < 3 or s[:1] != b'"' or s[-1:] != b'"']
                if bad:
                    res.violate("json.delimiters", W, "a text without the delimiting quotes is accepted", "%s: %r" % (I.show, bad[0]))
                    continue
                L = {s[1:-1] for s in L}
            bad = [s for s in L if unquote(s, o) is None or not m >> unquote(s, o) & 1]
            if bad:
                res.violate("json.sound", W, "a text is accepted that is no quotation of a member", "%s accepts %r" % (I.show, min(bad)))
                continue
            miss = [q for b in range(256) if m >> b & 1 for q in required(b, o) if q not in L]
            if miss:
                res.violate("json.complete", W, "a standard quotation of a member is not accepted", "%s does not accept %r" % (I.show, miss[0]))
                continue
            res.ok("json.class")
            if len(res.samples) < 2:
                res.samples.append(I.show)

    return run


# ---------------------------------------------------------------- nodes


def node_job(t, wrap=None):
    """a node over operands of unknown content: its quotation is the operation over theirs"""

    def run(env, res, split, job):
        need(env.P, W)

        def f(I, ctx):
            T = env.template()
            u = Uni(I, T, True, 2)
            u.allow_look = True
            u.simple_kids = False
            contracts.install(u)
            img = {}

            def quoted(i):
                if i not in img:
                    if i in (EMPTY, NO_MATCH):
                        img[i] = i
                    else:
                        img[i] = u.leaf(None, no("Lookahead"), "q(%s)" % u.nodes[i].name).id
                        u.nodes[img[i]].role = "atom"
                return u.ref(img[i])

            install_map(u, quoted)
            e = u.leaf(20, (t,), "e").id
            top = e
            I.show = t
            if wrap:
                from g_deriv import inner

                u.materialise(u.nodes[e])
                o = u.leaf(5, no("Lookahead", "Or", "Concat"), "o").id
                top = inner(u, wrap, sorted([o, e]), slot=30)
            b = builder(env.P, u)
            r = I.call_path(W, Ref(b, 0), u.ref(top), Ref(options(env.P, FULL, True), 0))
            if e in u.nodes and u.nodes[e].kids is None:
                u.materialise(u.nodes[e])
            return u, e, top, img, (strip(r.f[0]).f[0] if r.v == 0 else None)

        for I, ctx, (u, e, top, img, r) in traces(env, res, split, job, f, panics=("json.panic", lambda I: I.show)):
            n = u.nodes[e]
            kind = n.tags[0]
            if kind in ("Not", "Prefixes"):
                if r is not None:
                    res.violate("json.node", W, "%s is quoted although that accepts texts that do not unquote" % kind, u.show(top))
                else:
                    res.ok("json.refused")
                continue
            if r is None:
                if kind != "And":
                    res.violate("json.refused", W, "%s is refused" % kind, u.show(top))
                else:
                    res.ok("json.refused")
                continue
            if any(k in u.tpl.real and k not in (EMPTY, NO_MATCH) or k in (ANYSTR, NONEMPTY, ANY) for k in n.kids):
                res.skipped += 1
                continue
            rng = random.Random(9)
            done = False
            for k in range(8):
                A = (oracle.Assign if k < 4 else oracle.UAssign)(u, env.pools, rng, {})
                if A.bad:
                    continue

                def q(i):
                    return A.den(img.get(i, i))

                try:
                    ex = A.op(kind, [q(i) for i in n.kids], [0] if kind == "Lookahead" else list(n.ints or []))
                    if top != e:
                        ks = u.nodes[top].kids
                        ex = A.op(wrap, [ex if i == e else q(i) for i in ks], [])
                    g = A.den(r)
                except (oracle.Skip, Undecided):
                    res.skipped += 1
                    continue
                if ex is None or g is None:
                    res.skipped += 1
                    continue
                done = True
                if (ex != g) if isinstance(A, oracle.UAssign) else (ex[0] != g[0]):
                    res.violate("json.node", W, "the quotation of %s is not built from those of its operands" % u.show(top), "%s" % u.show(r))
                    break
            if done:
                res.ok("json.node")

    return run


def const_job():
    """the constant nodes"""

    def run(env, res, split, job):
        need(env.P, W)

        def f(I, ctx):
            i = (EMPTY, NO_MATCH)[ctx.choose(2, "constant")]
            raw = ctx.choose(2, "raw") == 1
            es = fresh_set(I)

            class U:
                pass

            u = U()
            u.es = es[0]
            b = builder(env.P, u)
            ty = env.P.adt("ExprRef")
            r = I.call_path(W, Ref(b, 0), Agg("adt", ty, 0, [i]), Ref(options(env.P, FULL, raw), 0))
            if r.v != 0:
                return i, raw, None
            return i, raw, expand(norm(I, es, r.f[0].f[0], {"ty": ty}))

        for I, ctx, (i, raw, L) in traces(env, res, split, job, f, panics=("json.panic", None)):
            w = set() if i == NO_MATCH else {b""} if raw else {b'""'}
            if L != w:
                res.violate("json.node", W, "the quotation of a constant is wrong", "constant %d, raw %s: %s" % (i, raw, L))
            else:
                res.ok("json.node")

    return run


def preset_job():
    """the predefined options and the membership test"""

    def run(env, res, split, job):
        T = "JsonQuoteOptions::"
        names = ("no_unicode", "with_unicode")
        need(env.P, T + "is_allowed", *[T + n for n in names])

        def f(I, ctx):
            n = names[ctx.choose(2, "preset")]
            o = [I.call_path(T + n)]
            ok = {b for b in range(256) if I.truth(I.call_path(T + "is_allowed", Ref(o, 0), b))}
            return n, ok

        for I, ctx, (n, got) in traces(env, res, split, job, f, panics=("json.panic", None)):
            want = set((FULL if n == "with_unicode" else FULL[:-1]).encode())
            if got != want:
                res.violate("json.preset", T + n, "the predefined options allow other escapes", "%s" % sorted(map(chr, got ^ want)))
            else:
                res.ok("json.preset")

    return run


def all_jobs(tier):
    th = tier == "thorough"
    J = []
    b = [x for x in range(256) if x < 0x22 or x in (0x22, 0x23, 0x2F, 0x41, 0x5B, 0x5C, 0x5D, 0x61, 0x75, 0x7E, 0x7F, 0x80, 0xBF, 0xC3, 0xFF)]
    J.append(Job("json", "single bytes", class_job([1 << x for x in (range(256) if th else b)], [True]), split=8))
    J.append(Job("json", "byte classes", class_job(sets(), [True], OPTS if th else [FULL, FULL[:-1], "", "u", "n", "bu", 'rtf"']), split=16, secs=800 if th else 200))
    J.append(Job("json", "byte classes with delimiters", class_job([ALL, ALL & ~(1 << 10), CTRL, 1 << 10, 1 << 65, SPECIAL, 1 << 65 | 1 << 66], [False], OPTS[:6])))
    J.append(Job("json", "constants", const_job()))
    J.append(Job("json", "predefined options", preset_job()))
    for t in COMPOSITE:
        J.append(Job("json", "quotation of " + t, node_job(t)))
    for t in ("And", "Not", "Prefixes", "Concat", "Repeat"):
        J.append(Job("json", "quotation of %s inside Or" % t, node_job(t, "Or")))
    return J
