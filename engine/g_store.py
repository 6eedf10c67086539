"""The hash-consing store and the encoding of nodes in it"""
from framework import *
from models import tfind

LONG = 130
VECS = {
    "empty": [],
    "0": [0],
    "1": [1],
    "0,0": [0, 0],
    "0,1": [0, 1],
    "1,0": [1, 0],
    "long a": [7] * 129 + [1],
    "long b": [7] * 129 + [2],
    "longer": [7] * 129 + [1] + [5] * 140,
    "128": [9] * 128,
    "124": [9] * 124,
    "125": [9] * 125,
    "65536": [3] * 65536,
    "70000": [3] * 69999 + [4],
    "70000 b": [3] * 69999 + [5],
}


def insert(I, hc, v, how):
    r = Ref(hc, 0)
    if how == 0:
        return I.call_path("VecHashCons::insert", r, Slice(list(v), 0, len(v)))
    I.call_path("VecHashCons::start_insert", r)
    if how == 1:
        for x in v:
            I.call_path("VecHashCons::push_u32", r, x)
    elif how == 2:
        for x in v[:1]:
            I.call_path("VecHashCons::push_u32", r, x)
        I.call_path("VecHashCons::push_slice", r, Slice(list(v[1:]), 0, len(v[1:])))
    else:
        k = max(0, len(v) - 1)
        I.call_path("VecHashCons::push_slice", r, Slice(list(v[:k]), 0, k))
        for x in v[k:]:
            I.call_path("VecHashCons::push_u32", r, x)
    return I.call_path("VecHashCons::finish_insert", r)


def readback(res, I, hc, model, hist, W="VecHashCons::get"):
    for j, v in enumerate(model):
        g = [strip(x) for x in seq(I.call_path("VecHashCons::get", Ref(hc, 0), j))]
        if g != list(v):
            res.violate("hc.get", W, "the content of an earlier vector changed", "id %d: %s... of length %d instead of %s... of length %d; insertions: %s" % (j, g[:4], len(g), list(v)[:4], len(v), hist))
            return False
    return True


def step(res, I, hc, model, name, how, hist):
    v = tuple(VECS[name])
    hist.append(name)
    i = insert(I, hc, v, how)
    exp = model.index(v) if v in model else len(model)
    if exp == len(model):
        model.append(v)
    if i != exp:
        res.violate("hc.id", "VecHashCons::finish_insert", "wrong id returned" if i != exp else "", "got %s, expected %d; insertions: %s" % (i, exp, hist))
        return False
    n = I.call_path("VecHashCons::len", Ref(hc, 0))
    if n != len(model):
        res.violate("hc.id", "VecHashCons::len", "wrong number of vectors", "got %s, expected %d; insertions: %s" % (n, len(model), hist))
        return False
    for j, e in ((len(model) - 1, True), (len(model), False), ((1 << 32) - 1, False)):
        if I.truth(I.call_path("VecHashCons::is_valid", Ref(hc, 0), j)) != e:
            res.violate("hc.id", "VecHashCons::is_valid", "wrong validity of id", "id %d; insertions: %s" % (j, hist))
            return False
    return readback(res, I, hc, model, hist)


def hc_job(names, steps, hows, mode):
    def run(env, res, split, job):
        need(env.P, "VecHashCons::new", "VecHashCons::insert", "VecHashCons::get", "VecHashCons::start_insert", "VecHashCons::push_u32", "VecHashCons::push_slice", "VecHashCons::finish_insert", "VecHashCons::is_valid", "VecHashCons::len")

        def f(I, ctx):
            I.rehash = "grow" in mode
            I.collide = "collide" in mode
            hc = [I.call_path("VecHashCons::new")]
            model, hist = [], []
            good = True
            for s in range(steps):
                nm = names[ctx.choose(len(names), "vector")]
                how = hows[ctx.choose(len(hows), "how")] if len(hows) > 1 and (s in (0, steps - 1)) else hows[s % len(hows)]
                if not step(res, I, hc, model, nm, how, hist):
                    good = False
                    break
            if "clone" in mode and good:
                c2 = [vclone(I, hc[0])]
                m2, h2 = list(model), list(hist)
                good = step(res, I, hc, model, names[0], 0, hist) and step(res, I, c2, m2, names[-1], 0, h2) and readback(res, I, hc, model, hist) and readback(res, I, c2, m2, h2)
            if good:
                res.ok("hc", steps)
                if len(res.samples) < 2:
                    res.samples.append("insertions " + ", ".join(hist))
            return True

        for _ in traces(env, res, split, job, f, panics=("hc.panic", lambda I: "store operation")):
            pass

    return run


# ---------------------------------------------------------------- node encoding

IDS = [1, 5, 300, (1 << 32) - 1]
INTS = [0, 1, 2, 255, 256, 65536, (1 << 32) - 1]


def exprs_of(P, kind, words, ctx, flags):
    """a node value of the kind, its parts chosen among boundary values; returns (Expr, (kind, kids, ints, flags))"""
    tid = P.adt("Expr")
    rty, fty = P.adt("ExprRef"), P.adt("ExprFlags")
    vi = [i for i, v in enumerate(P.types[tid]["variants"]) if v["name"] == kind]
    if not vi:
        raise Undecided("no kind " + kind)
    vi = vi[0]
    out, kids, ints, fl = [], [], [], None
    for name, ty, pub in P.types[tid]["variants"][vi]["fields"]:
        t = P.types[ty]
        if ty == fty:
            fl = flags[ctx.choose(3, "marks")]
            out.append(Agg("adt", fl.ty, fl.v, list(fl.f)))
        elif ty == rty:
            k = IDS[ctx.choose(len(IDS), "operand")]
            kids.append(k)
            out.append(Agg("adt", rty, 0, [k]))
        elif t["k"] == "int":
            if kind == "Byte":
                v = [0, 1, 31, 32, 127, 128, 254, 255][ctx.choose(8, "byte")]
            else:
                v = INTS[ctx.choose(len(INTS), "number")]
            ints.append(v)
            out.append(v)
        elif t["k"] == "ref" and kind == "ByteSet":
            m = [[0x80000001] * words, [(1 << 32) - 1] * words, [i + 2 for i in range(words)]][ctx.choose(3, "set")]
            ints += m
            out.append(Slice(list(m), 0, words))
        elif t["k"] == "ref":
            l = [[5], [1, 300], [300, 1], [7] * 9, list(range(1, 200))][ctx.choose(5, "operands")]
            kids += l
            out.append(Slice([Agg("adt", rty, 0, [x]) for x in l], 0, len(l)))
        else:
            raise Undecided("field of Expr::" + kind)
    return Agg("adt", tid, vi, out), (kind, kids, ints, fl)


def term(P, e, I=None):
    fty, rty = P.adt("ExprFlags"), P.adt("ExprRef")
    kind = P.types[e.ty]["variants"][e.v]["name"]
    kids, ints, fl = [], [], None
    for x in e.f:
        x = strip(x)
        if isinstance(x, Agg) and x.ty == fty:
            fl = x
        elif isinstance(x, Agg) and x.ty == rty:
            kids.append(x.f[0])
        elif isinstance(x, (int, SInt)):
            ints.append(x)
        else:
            for y in seq(x):
                y = strip(y)
                if isinstance(y, Agg):
                    kids.append(y.f[0])
                else:
                    ints.append(y)
    return kind, kids, ints, fl


def enc_job(kinds, alphabet):
    words = (alphabet + 31) // 32

    def run(env, res, split, job):
        P = env.P
        need(P, "ExprSet::new", "ExprSet::mk", "ExprSet::get", "ExprSet::get_flags", "ExprSet::get_tag", "ExprSet::get_args", "ExprSet::is_nullable", "ExprSet::is_positive", "ExprFlags::from_nullable_positive")
        base = env.interp(Ctx([]))
        es0 = base.call_path("ExprSet::new", alphabet)

        def f(I, ctx):
            es = [vclone(I, es0)]
            r = Ref(es, 0)
            fls = [I.call_path("ExprFlags::from_nullable_positive", a, b) for a, b in ((False, False), (False, True), (True, True))]
            made = []
            for kind in kinds:
                e, t = exprs_of(P, kind, words, ctx, fls)
                i = I.call_path("ExprSet::mk", r, e)
                made.append((i, t))
                # and once more: same node
                e2 = vclone(I, e)
                i2 = I.call_path("ExprSet::mk", r, e2)
                if i2.f[0] != i.f[0]:
                    res.violate("enc.same", "ExprSet::mk", "the same node made twice has two ids", t)
                    return
            for a in range(len(made)):
                for b in range(a):
                    ta, tb = made[a][1], made[b][1]
                    same = ta[:3] == tb[:3] and (ta[3].f if ta[3] else None) == (tb[3].f if tb[3] else None)
                    if (made[a][0].f[0] == made[b][0].f[0]) != same:
                        res.violate("enc.same", "ExprSet::mk", "two different nodes share an id" if not same else "equal nodes have different ids", "%s and %s" % (ta[:3], tb[:3]))
                        return
            for i, t in made:
                g = term(P, strip(I.call_path("ExprSet::get", r, i)))
                d = "%s, marks %s, alphabet %d" % (str(t[:3])[:200], t[3].f if t[3] else None, alphabet)
                if g[:3] != (t[0], t[1], t[2]):
                    res.violate("enc.get", "ExprSet::get", "a %s node reads back differently" % t[0], "%s read as %s" % (d, str(g[:3])[:200]))
                    return
                if t[3] is not None:
                    fl = I.call_path("ExprSet::get_flags", r, i)
                    if g[3] is None or g[3].f != t[3].f or fl.f != t[3].f:
                        res.violate("enc.flags", "ExprSet::get_flags", "the marks of a %s node read back differently" % t[0], "%s read as %s / %s" % (d, g[3].f if g[3] else None, fl.f))
                        return
                    k = [x.f for x in fls].index(t[3].f)
                    en, ep = [(False, False), (False, True), (True, True)][k]
                else:
                    en, ep = {"EmptyString": (True, True), "NoMatch": (False, False)}.get(t[0], (False, True))
                    fl = I.call_path("ExprSet::get_flags", r, i)
                gn, gp = I.truth(I.call_path("ExprSet::is_nullable", r, i)), I.truth(I.call_path("ExprSet::is_positive", r, i))
                if (gn, gp) != (en, ep):
                    res.violate("enc.flags", "ExprSet::is_nullable", "the marks of a %s node read back differently" % t[0], "%s read as nullable=%s positive=%s" % (d, gn, gp))
                    return
                tag = I.call_path("ExprSet::get_tag", r, i)
                tn = P.types[tag.ty]["variants"][tag.v]["name"]
                if tn != t[0]:
                    res.violate("enc.tag", "ExprSet::get_tag", "the kind of a %s node reads back differently" % t[0], tn)
                    return
                ar = [strip(x).f[0] for x in seq(I.call_path("ExprSet::get_args", r, i))]
                if ar != t[1]:
                    res.violate("enc.args", "ExprSet::get_args", "the operands of a %s node read back differently" % t[0], "%s read as %s" % (d, ar[:20]))
                    return
                if not I.truth(I.call_path("ExprSet::is_valid", r, i)):
                    res.violate("enc.valid", "ExprSet::is_valid", "a node's id is not valid", d)
                    return
            res.ok("enc", len(made))
            if len(res.samples) < 2:
                res.samples.append("%s at alphabet %d" % (str([t[:3] for i, t in made])[:150], alphabet))

        for _ in traces(env, res, split, job, f, panics=("enc.panic", lambda I: "storing or reading a node: " + " ".join(I.ctx.labels))):
            pass

    return run


def const_job(n):
    def run(env, res, split, job):
        P = env.P

        def f(I, ctx):
            es = [I.call_path("ExprSet::new", n)]
            rty = P.adt("ExprRef")

            def get(i):
                return term(P, strip(I.call_path("ExprSet::get", Ref(es, 0), Agg("adt", rty, 0, [i]))))

            W = "ExprSet::new"
            if I.call_path("ExprSet::alphabet_size", Ref(es, 0)) != n:
                res.violate("enc.const", W, "alphabet size not kept", n)
            if I.truth(I.call_path("ExprSet::is_valid", Ref(es, 0), Agg("adt", rty, 0, [0]))):
                res.violate("enc.const", W, "the invalid reference is valid", n)
            if get(1)[0] != "EmptyString" or get(2)[0] != "NoMatch":
                res.violate("enc.const", W, "EMPTY_STRING or NO_MATCH is another node", n)
                return
            k, kids, ints, fl = get(3)
            m = 0
            if k == "Byte":
                m = 1 << ints[0]
            elif k == "ByteSet":
                for j, w in enumerate(ints):
                    m |= w << (32 * j)
            if m != (1 << n) - 1:
                res.violate("enc.const", W, "ANY_BYTE is not the set of all %d symbols" % n, "%s %s" % (k, [hex(x) for x in ints]))
                return
            for i, mn in ((4, 0), (5, 1)):
                k, kids, ints, fl = get(i)
                a = [strip(x).f[0] for x in seq(I.call_path("ExprSet::get_args", Ref(es, 0), Agg("adt", rty, 0, [i])))]
                if k != "Repeat" or a != [3] or ints != [mn, (1 << 32) - 1]:
                    res.violate("enc.const", W, "constant %d is not a repetition of ANY_BYTE" % i, "%s %s %s" % (k, a, ints))
                    return
                nu = I.truth(I.call_path("ExprSet::is_nullable", Ref(es, 0), Agg("adt", rty, 0, [i])))
                po = I.truth(I.call_path("ExprSet::is_positive", Ref(es, 0), Agg("adt", rty, 0, [i])))
                if nu != (mn == 0) or not po:
                    res.violate("enc.const", W, "wrong marks of constant %d" % i, "%s %s" % (nu, po))
                    return
            res.ok("enc.const", 5)

        for _ in traces(env, res, split, job, f, panics=("enc.panic", lambda I: "new expression set for an alphabet of %d" % n)):
            pass

    return run


KINDS = ["EmptyString", "NoMatch", "Byte", "ByteSet", "Lookahead", "Not", "Repeat", "Prefixes", "Concat", "Or", "And"]


def all_jobs(tier):
    J = []
    th = tier == "thorough"
    sm = ["empty", "0", "1", "0,0", "0,1", "1,0"]
    lg = ["long a", "long b", "longer", "0", "empty"]
    bd = ["128", "124", "125", "0,1"]
    for mode in ([], ["grow"], ["collide"], ["grow", "collide"]):
        mn = "+".join(mode) or "plain"
        J.append(Job("hc", "short vectors, %s" % mn, hc_job(sm, 4 if th else 3, [0, 1, 2, 3], mode), split=2))
        J.append(Job("hc", "long vectors, %s" % mn, hc_job(lg, 4 if th else 3, [0, 2, 1], mode), split=4))
    J.append(Job("hc", "very long vectors", hc_job(["65536", "70000", "70000 b", "0"], 2, [0, 2], ["grow"]), split=8, secs=200))
    J.append(Job("hc", "many short vectors", hc_job(sm, 5 if th else 4, [0], []), split=4))
    J.append(Job("hc", "vectors ending at the buffer's end", hc_job(bd, 3, [0, 1, 2, 3], []), split=4))
    J.append(Job("hcclone", "clone, then insert in both", hc_job(sm + ["long a"], 2, [0], ["clone", "grow"])))
    J.append(Job("hcclone", "clone, then insert in both, without growth", hc_job(sm + ["long a"], 2, [0], ["clone"])))
    for n in (1, 32, 33, 256):
        for k in KINDS:
            if n in (32, 256) or k in ("ByteSet", "Byte"):
                J.append(Job("enc", "%s node, alphabet %d" % (k, n), enc_job([k], n)))
    for a in ("Not", "Prefixes", "Repeat"):
        for b in ("Not", "Prefixes", "Lookahead"):
            if a != b and (a, b) != ("Repeat", "Lookahead"):
                J.append(Job("enc", "%s and %s nodes" % (a, b), enc_job([a, b], 32), limit=20000))
    for a, b in (("Or", "And"), ("Or", "Concat"), ("And", "Concat"), ("Not", "Or"), ("Byte", "ByteSet"), ("ByteSet", "Concat"), ("EmptyString", "NoMatch")):
        J.append(Job("enc", "%s and %s nodes" % (a, b), enc_job([a, b], 32), limit=20000))
    for n in (2, 3, 31, 32, 33, 64, 65, 255, 256):
        J.append(Job("enc", "predefined nodes, alphabet %d" % n, const_job(n)))
    return J
