"""Abstract regex nodes.

An argument whose content is not known is a reserved hash-cons id whose tag / flags / children are
split on (trace partitioning) only when the analysed code asks for them.  All code of derivre is
interpreted on its MIR; only the *reading* of such a node is replaced by the lazy abstraction.
"""
from core import *
from interp import SymEnum, copyval
from models import vclone, strip, seq
import models

COMPOSITE = ("Lookahead", "Not", "Repeat", "Prefixes", "Concat", "Or", "And")
SIMPLE = ("EmptyString", "NoMatch", "Byte", "ByteSet")
EMPTY, NO_MATCH, ANY, ANYSTR, NONEMPTY = 1, 2, 3, 4, 5
U32MAX = 0xFFFFFFFF


class Node:
    __slots__ = ("id", "tags", "null", "pos", "kids", "ints", "sem", "name", "depth", "kidmode", "role", "parents")

    def __init__(self, id, tags, name, depth=0):
        self.id = id
        self.tags = tags
        self.null = None
        self.pos = None
        self.kids = None
        self.ints = None
        self.sem = None  # summary node: (op, args, ints)
        self.name = name
        self.depth = depth
        self.kidmode = None
        self.role = None
        self.parents = []

    def __repr__(self):
        return self.name


class SymExpr(SymEnum):
    __slots__ = ("uni", "n", "ty")

    def __init__(self, uni, n, ty):
        self.uni = uni
        self.n = n
        self.ty = ty

    def switch(self, I, targets, other):
        t = self.uni.expr_ty
        groups = {}
        for v in t["variants"]:
            if v["name"] in self.n.tags:
                groups.setdefault(targets.get(int(v["discr"]), other), []).append(v["name"])
        gs = list(groups.items())
        i = I.ctx.choose(len(gs), self.n.name + ".tag")
        self.uni.restrict(I, self.n, gs[i][1])
        return gs[i][0]

    def field(self, I, var, idx):
        v = self.uni.expr_ty["variants"][var]
        if v["name"] not in self.n.tags:
            raise Infeasible()
        self.uni.restrict(I, self.n, [v["name"]])
        f = self.uni.variant_fields(I, self.n)
        return f, idx

    def cast_int(self, I):
        raise Undecided("discriminant of a node as integer")

    def eq(self, I, o):
        raise Undecided("equality of Expr")


class SymTag(SymEnum):
    __slots__ = ("uni", "n")

    def __init__(self, uni, n):
        self.uni = uni
        self.n = n

    def switch(self, I, targets, other):
        groups = {}
        for v in self.uni.tag_ty["variants"]:
            if v["name"] in self.n.tags:
                groups.setdefault(targets.get(int(v["discr"]), other), []).append(v["name"])
        gs = list(groups.items())
        i = I.ctx.choose(len(gs), self.n.name + ".tag")
        self.uni.restrict(I, self.n, gs[i][1])
        return gs[i][0]

    def field(self, I, var, idx):
        raise Undecided("field of a tag")

    def concrete(self, I):
        ts = [t for t in self.uni.order if t in self.n.tags]
        t = ts[I.ctx.choose(len(ts), self.n.name + ".tag")]
        self.uni.restrict(I, self.n, [t])
        return t

    def cast_int(self, I):
        t = self.concrete(I)
        for v in self.uni.tag_ty["variants"]:
            if v["name"] == t:
                return int(v["discr"])

    def eq(self, I, o):
        if isinstance(o, SymTag):
            if o.n is self.n:
                return True
            a = self.concrete(I)
            b = o.concrete(I)
            return a == b
        if isinstance(o, int):
            name = [v["name"] for v in self.uni.tag_ty["variants"] if int(v["discr"]) == o]
            name = name[0] if name else None
        else:
            name = self.uni.tag_ty["variants"][o.v]["name"]
        if name not in self.n.tags:
            return False
        if len(self.n.tags) == 1:
            return True
        if I.ctx.choose(2, self.n.name + ".tag==" + name) == 0:
            self.uni.restrict(I, self.n, [name])
            return True
        self.uni.restrict(I, self.n, [t for t in self.n.tags if t != name])
        return False


class Template:
    """ExprSet for an alphabet of k symbols, built by interpreting the constructors, with reserved ids"""

    def __init__(self, P, I, k=3, pool=44):
        self.k = k
        self.P = P
        c = [I.call_path("ExprSet::new", k)]
        self.c = c
        self.ref_ty = P.adt("ExprRef")
        words = (k + 31) // 32
        self.bytes = {}
        self.sets = {}

        def call(name, *a):
            return I.call_path("ExprSet::" + name, Ref(c, 0), *a).f[0]

        def mset(m):
            w = [(m >> (32 * i)) & 0xFFFFFFFF for i in range(words)]
            self.sets[m] = call("mk_byte_set", Slice(w, 0, words))

        full = (1 << k) - 1
        self.bytes[0] = call("mk_byte", 0)
        mset(3)
        self.pool = []
        es = c[0]
        fi = None
        vt = P.adt("VecHashCons")
        for i, x in enumerate(es.f):
            if isinstance(x, Agg) and x.k == "adt" and x.ty == vt:
                fi = i
        if fi is None:
            raise Undecided("ExprSet holds no VecHashCons")
        self.fi = fi
        for i in range(pool):
            d = [0xDEAD0000 + i, i]
            self.pool.append(I.call_path("VecHashCons::insert", Ref(es.f, fi), Slice(d, 0, 2)))
        for b in range(1, k):
            self.bytes[b] = call("mk_byte", b)
        for m in (6, 5):
            if m < full:
                mset(m)
        self.sets[full] = ANY
        self.real = {EMPTY: ("EmptyString",), NO_MATCH: ("NoMatch",)}
        for b, i in self.bytes.items():
            self.real[i] = ("Byte", b)
        for m, i in self.sets.items():
            self.real[i] = ("ByteSet", m)


def need(P, *keys):
    for k in keys:
        if P.fn(k) is None:
            raise Undecided("anchor missing: " + k)


class Uni:
    def __init__(self, I, tpl, optimize=True, maxdepth=2):
        self.I = I
        self.P = P = I.p
        self.tpl = tpl
        self.c = [vclone(I, tpl.c[0])]
        self.es = self.c[0]
        self.vh = self.es.f[tpl.fi]
        self.nodes = {}
        self.leaves = []
        self.maxdepth = maxdepth
        self.expr_tid = P.adt("Expr")
        self.expr_ty = P.types[self.expr_tid]
        self.tag_ty = P.types[P.adt("ExprTag")]
        self.order = [v["name"] for v in self.tag_ty["variants"]]
        self.ref_ty = tpl.ref_ty
        self.flags_ty = P.adt("ExprFlags")
        self.alias = []  # ids a kid may alias
        self.extra_kids = []
        self.simple_kids = True
        self.used = set()
        z, p, pn = (
            I.call_path("ExprFlags::from_nullable_positive", a, b).f[0] for a, b in ((False, False), (False, True), (True, True))
        )
        self.fz, self.fnull, self.fpos = z, pn & ~p, p & ~z
        if self.fnull == 0 or self.fpos == 0:
            raise Undecided("flag bits not recognised")
        opt = [i for i, v in enumerate(P.types[P.adt("ExprSet")]["variants"][0]["fields"]) if v[0] == "optimize"]
        if not optimize:
            if opt:
                self.es.f[opt[0]] = False
            else:
                I.call_path("ExprSet::disable_optimizations", Ref(self.c, 0))
        self.rflags = {}
        self.install(I)
        I.uni = self

    # ------------------------------------------------------------ references
    def ref(self, i):
        return Agg("adt", self.ref_ty, 0, [i])

    def refs(self, l):
        return [self.ref(x) for x in l]

    @property
    def exprs(self):
        return Ref(self.c, 0)

    def call(self, key, *args):
        return self.I.call_path(key, self.exprs, *args)

    # ------------------------------------------------------------ creation
    def take(self, slot=None, low=False, below=None, above=None):
        pool = self.tpl.pool
        if slot is None:
            free = [x for x in pool if x not in self.used]
            if above is not None:
                free = [x for x in free if x > above]
            if below is not None:
                free = [x for x in free if x < below]
            if not free:
                raise Undecided("pool of node ids exhausted")
            i = free[0] if low else free[-1]
        elif isinstance(slot, tuple):  # far above another node's id
            i = pool[slot[0]] + slot[1]
        else:
            i = pool[slot]
        self.used.add(i)
        return i

    def leaf(self, slot=None, tags=COMPOSITE, name=None, depth=0, low=False, sem=None, below=None, above=None):
        i = self.take(slot, low, below, above)
        n = Node(i, tuple(tags), name or "e%d" % i, depth)
        n.sem = sem
        self.nodes[i] = n
        if sem is None:
            self.leaves.append(n)
        return n

    def fresh(self, sem, tags=SIMPLE[:0] + COMPOSITE, name=None):
        """summary node above every existing id"""
        i = self.I.call_path("VecHashCons::insert", Ref(self.es.f, self.tpl.fi), Slice([0xBEEF0000 + len(self.nodes), len(self.nodes)], 0, 2))
        n = Node(i, tuple(tags), name or "t%d" % i)
        n.sem = sem
        self.nodes[i] = n
        return n

    # ------------------------------------------------------------ properties of nodes
    def restrict(self, I, n, tags):
        ts = tuple(t for t in n.tags if t in tags)
        if not ts:
            raise Infeasible()
        if ts != n.tags:
            n.tags = ts
            if n.sem is not None:
                self.sem_tags(I, n)
            self.tagflags(n)

    def sem_tags(self, I, n):
        pass

    def tagflags(self, n):
        if all(t in ("And", "Not", "Prefixes") for t in n.tags):
            # for these positive == nullable
            if n.null is not None:
                self.assign_flag(n, "pos", n.null, [])
            elif n.pos is not None:
                self.assign_flag(n, "null", n.pos, [])

    def real_flags(self, i):
        r = self.tpl.real.get(i)
        if r is not None:
            return {"EmptyString": (True, True), "NoMatch": (False, False)}.get(r[0], (False, True))
        if i == ANYSTR:
            return (True, True)
        if i == NONEMPTY:
            return (False, True)
        # a node made during the trace
        r = self.rflags.get(i)
        if r is None:
            f = self.I.call_path("ExprSet::get_flags", self.exprs, self.ref(i)).f[0]
            r = self.rflags[i] = (bool(f & self.fnull), bool(f & self.fpos))
        return r

    def null(self, i):
        n = self.nodes.get(i)
        if n is None:
            return self.real_flags(i)[0]
        if n.null is None:
            self.decide(n, "null")
        return n.null

    def pos(self, i):
        n = self.nodes.get(i)
        if n is None:
            return self.real_flags(i)[1]
        if n.pos is None:
            self.decide(n, "pos")
        return n.pos

    def try_flag(self, n, which, v):
        """can the flag take this value?  (with everything this implies; restores the state)"""
        trail = []
        try:
            self.assign_flag(n, which, v, trail)
            return True
        except Infeasible:
            return False
        finally:
            for m, w in trail:
                setattr(m, w, None)

    def assign_flag(self, n, which, v, trail):
        cur = getattr(n, which)
        if cur is not None:
            if cur != v:
                raise Infeasible()
            return
        setattr(n, which, v)
        trail.append((n, which))
        if which == "null" and v:
            self.assign_flag(n, "pos", True, trail)
        if which == "pos" and not v:
            self.assign_flag(n, "null", False, trail)
        if all(t in ("And", "Not", "Prefixes") for t in n.tags):
            self.assign_flag(n, "pos" if which == "null" else "null", v, trail)
        if n.kids is not None:
            self.check_node(n, trail)
        for p in n.parents:
            self.check_node(p, trail)

    def check_node(self, n, trail):
        """flags of a node against the flags of its children (three-valued)"""
        for which in ("null", "pos"):
            r = self.tri_flag(n, which)
            v = getattr(n, which)
            if r is not None:
                if v is None:
                    self.assign_flag(n, which, r, trail)
                elif v != r:
                    raise Infeasible()
            elif v is not None:
                # unit propagation for the simple cases
                t = n.tags[0]
                w = which
                if t == "And":
                    w = "null"
                if t in ("Concat", "And") and v:
                    for k in n.kids:
                        if k in self.nodes:
                            self.assign_flag(self.nodes[k], w, True, trail)
                elif t == "Or" and not v:
                    for k in n.kids:
                        if k in self.nodes:
                            self.assign_flag(self.nodes[k], w, False, trail)

    def peek(self, i, which):
        n = self.nodes.get(i)
        if n is None:
            return self.real_flags(i)[0 if which == "null" else 1]
        return getattr(n, which)

    def tri_flag(self, n, which):
        t = n.tags[0]
        k = n.kids
        if t in ("Or", "Concat", "And"):
            w = "null" if t == "And" else which
            vs = [self.peek(x, w) for x in k]
            if t == "Or":
                return True if True in vs else (None if None in vs else False)
            return False if False in vs else (None if None in vs else True)
        if t == "Not":
            v = self.peek(k[0], "null")
            return None if v is None else not v
        if t == "Prefixes":
            return self.peek(k[0], "pos")
        if t == "Repeat":
            m = n.ints[0]
            z = m == 0 if isinstance(m, int) else (None if m.lo() <= 0 < m.hi() else m.hi() <= 0)
            if which == "null":
                return z
            p = self.peek(k[0], "pos")
            if z or p:
                return True
            return None if z is None or p is None else False
        if t == "Lookahead":
            return self.peek(k[0], which)
        raise Undecided("flags of " + t)

    def decide(self, n, which):
        if n.kids is not None and n.tags[0] == "Repeat" and which == "null":
            # the flag is min == 0
            z = self.I.ctx.cmp_int("Eq", n.ints[0], 0)
            self.assign_flag(n, "null", z, [])
            return
        vals = [v for v in (True, False) if self.try_flag(n, which, v)]
        if not vals:
            raise Infeasible()
        v = vals[self.I.ctx.choose(len(vals), n.name + "." + which)]
        self.assign_flag(n, which, v, [])
        if n.kids is not None and n.tags[0] == "Repeat":
            self.repeat_min(n)

    def repeat_min(self, n):
        """min of a Repeat against its nullable flag"""
        m = n.ints[0]
        if isinstance(m, int):
            return
        if n.null is True:
            if not ctx_force(self.I.ctx, "Eq", m, 0):
                raise Infeasible()
        elif n.null is False:
            if m.a.lo + m.o == 0:
                if m.a.hi + m.o == 0:
                    raise Infeasible()
                m.a.lo += 1

    def adopt(self, n):
        """n just got its children"""
        for k in n.kids:
            c = self.nodes.get(k)
            if c is not None:
                c.parents.append(n)
        trail = []
        if n.tags[0] == "Repeat":
            self.repeat_min(n)
        self.check_node(n, trail)
        if n.tags[0] == "Repeat":
            self.repeat_min(n)

    def materialise(self, n):
        """give the node children (structure of a node its constructor can return)"""
        if n.kids is not None:
            return
        if n.sem is not None:
            raise Undecided("structure of the result %r of a summarised call" % n.name)
        ctx = self.I.ctx
        if len(n.tags) > 1:
            ts = list(n.tags)
            self.restrict(self.I, n, [ts[ctx.choose(len(ts), n.name + ".tag")]])
        t = n.tags[0]
        if n.depth >= self.maxdepth:
            raise Undecided("depth of node structure")
        d = n.depth + 1

        def lf(excl=(), name="k", below=None, above=None, low=False):
            return self.leaf(None, [x for x in COMPOSITE if x not in excl], n.name + "." + name, d, low, None, below, above).id

        B = self.tpl.bytes
        S = self.tpl.sets
        if self.kid_gen is not None:
            ks = self.kid_gen(self, n, t, lf)
            if ks is not None:
                n.kids, n.ints = ks
        if n.kids is not None:
            pass
        elif t in ("Or", "And"):
            ex = (t,) + (() if self.allow_look else ("Lookahead",))
            opts = [lambda: [lf(ex, "k0", low=True), lf(ex, "k1")]]
            if self.simple_kids and n.depth < self.rich:
                opts.append(lambda: [B[0], lf(ex, "k1")])
                opts.append(lambda: [lf(ex, "k0", low=True), S[6]])
                if t == "Or":
                    opts.append(lambda: [EMPTY, lf(ex, "k1")])
                else:
                    opts.append(lambda: [NONEMPTY, lf(ex, "k1")])
                opts.append(lambda: [lf(ex, "k0", low=True), lf(ex, "k1", low=True), lf(ex, "k2")])
            for a in self.alias:
                if a != n.id and a != n.depth:
                    an = self.nodes.get(a)
                    if an is not None:
                        if all(x in ex for x in an.tags):
                            continue
                        opts.append(lambda a=a: sorted([a, lf(ex, "k1")]))
            ks = opts[ctx.choose(len(opts), n.name + ".kids")]()
            for x in ks:
                xn = self.nodes.get(x)
                if xn is not None:
                    self.restrict(self.I, xn, [y for y in xn.tags if y not in ex])
            n.kids = sorted(ks)
            n.ints = []
        elif t == "Concat":
            ex = (t,) + (() if self.allow_look else ("Lookahead",))
            ex1 = (t, "Lookahead")
            opts = [lambda: [lf(ex1, "k0"), lf(ex, "k1")]]
            if self.simple_kids and n.depth < self.rich:
                opts.append(lambda: [B[1], lf(ex, "k1")])
                opts.append(lambda: [lf(ex1, "k0"), B[0]])
                opts.append(lambda: [lf(ex1, "k0"), lf(ex1, "k1"), lf(ex, "k2")])
                opts.append(lambda: [S[3], B[0]])
            for a in (self.alias if self.alias_concat else ()):
                if a != n.id:
                    an = self.nodes.get(a)
                    if an is not None and all(x in ex1 for x in an.tags):
                        continue
                    opts.append(lambda a=a: [a, lf(ex, "k1")])
            ks = opts[ctx.choose(len(opts), n.name + ".kids")]()
            for x in ks[:-1]:
                xn = self.nodes.get(x)
                if xn is not None:
                    self.restrict(self.I, xn, [y for y in xn.tags if y not in ex1])
            n.kids = ks
            n.ints = []
        elif t == "Lookahead":
            opts = [lambda: EMPTY, lambda: lf(("Lookahead",), "k")]
            if self.simple_kids and n.depth < self.rich:
                opts.append(lambda: B[0])
            k = opts[ctx.choose(len(opts), n.name + ".kid")]()
            n.kids = [k]
            if k != EMPTY and k in self.nodes:
                self.assign_flag(self.nodes[k], "null", False, [])
            if self.int_gen is not None:
                n.ints = self.int_gen(self, n, t)
            else:
                n.ints = [SInt(Atom(n.name + ".n", 0, 1 << 20))]
        elif t == "Not":
            ex = ("Not", "Lookahead")
            opts = [lambda: lf(ex, "k")]
            if self.simple_kids and n.depth < self.rich:
                opts += [lambda: B[0], lambda: S[3]]
            n.kids = [opts[ctx.choose(len(opts), n.name + ".kid")]()]
            n.ints = []
        elif t == "Prefixes":
            ex = ("Prefixes", "Lookahead")
            opts = [lambda: lf(ex, "k")]
            if self.simple_kids and n.depth < self.rich:
                opts += [lambda: B[0]]
            n.kids = [opts[ctx.choose(len(opts), n.name + ".kid")]()]
            n.ints = []
        elif t == "Repeat":
            ex = ("Lookahead",)
            opts = [lambda: lf(ex, "k")]
            if self.simple_kids and n.depth < self.rich:
                opts += [lambda: B[0], lambda: S[6]]
            n.kids = [opts[ctx.choose(len(opts), n.name + ".kid")]()]
            if self.int_gen is not None:
                n.ints = self.int_gen(self, n, t)
            else:
                mn = SInt(Atom(n.name + ".min", 0, U32MAX))
                mx = SInt(Atom(n.name + ".max", 1, U32MAX))
                ctx.rels.append(("Le", mn, mx))
                n.ints = [mn, mx]
            k = n.kids[0]
            if k in self.nodes:
                if self.null(k):
                    if not ctx_force(ctx, "Eq", n.ints[0], 0):
                        raise Infeasible()
        else:
            raise Undecided("materialise " + t)
        self.adopt(n)

    kid_gen = None
    int_gen = None
    allow_look = False
    rich = 1
    alias_concat = False

    def variant_fields(self, I, n):
        self.materialise(n)
        t = n.tags[0]
        var = [v for v in self.expr_ty["variants"] if v["name"] == t][0]
        out = []
        kids = list(n.kids)
        ints = list(n.ints)
        for name, ty, pub in var["fields"]:
            ft = self.P.types[ty]
            if ty == self.flags_ty:
                out.append(self.flags_of(n))
            elif ty == self.ref_ty:
                out.append(self.ref(kids.pop(0)))
            elif ft["k"] == "int":
                out.append(ints.pop(0))
            elif ft["k"] == "ref":
                l = self.refs(kids)
                out.append(Slice(l, 0, len(l)))
                kids = []
            else:
                raise Undecided("field of Expr::" + t)
        return out

    def flags_of(self, n):
        return Agg("adt", self.flags_ty, 0, [Opaque("flags", n)])

    def flags_int(self, n):
        f = self.fz
        if self.null(n.id):
            f |= self.fnull
        if self.pos(n.id):
            f |= self.fpos
        return f

    # ------------------------------------------------------------ hooks
    def node_of(self, v):
        v = strip(v)
        if isinstance(v, Agg) and v.ty == self.ref_ty:
            return self.nodes.get(v.f[0])
        return None

    def mine(self, v):
        v = strip(v)
        return v is self.es or any(v is x for x in getattr(self, "clones", ()))

    def install(self, I):
        H = I.hooks

        def get(I, body, a):
            n = self.node_of(a[1])
            if n is None or not self.mine(a[0]):
                return NotImplemented
            return SymExpr(self, n, self.expr_tid)

        def get_flags(I, body, a):
            n = self.node_of(a[1])
            if n is None or not self.mine(a[0]):
                return NotImplemented
            return self.flags_of(n)

        def get_tag(I, body, a):
            n = self.node_of(a[1])
            if n is None or not self.mine(a[0]):
                return NotImplemented
            return SymTag(self, n)

        def get_args(I, body, a):
            n = self.node_of(a[1])
            if n is None or not self.mine(a[0]):
                return NotImplemented
            self.materialise(n)
            l = self.refs(n.kids)
            return Slice(l, 0, len(l))

        def is_nullable(I, body, a):
            n = self.node_of(a[1])
            if n is None or not self.mine(a[0]):
                return NotImplemented
            return self.null(n.id)

        def is_positive(I, body, a):
            n = self.node_of(a[1])
            if n is None or not self.mine(a[0]):
                return NotImplemented
            return self.pos(n.id)

        def enullable(I, body, a):
            e = strip(a[0])
            if isinstance(e, SymExpr):
                return self.null(e.n.id)
            return NotImplemented

        def eflags(I, body, a):
            e = strip(a[0])
            if isinstance(e, SymExpr):
                return self.flags_of(e.n)
            return NotImplemented

        def vget(I, body, a):
            if strip(a[0]) is not self.vh:
                return NotImplemented
            n = self.nodes.get(a[1]) if isinstance(a[1], int) else None
            if n is None:
                return NotImplemented
            return self.words(I, n)

        H["ExprSet::get"] = get
        H["ExprSet::get_flags"] = get_flags
        H["ExprSet::get_tag"] = get_tag
        H["ExprSet::get_args"] = get_args
        H["ExprSet::is_nullable"] = is_nullable
        H["ExprSet::is_positive"] = is_positive
        H["Expr::<'a>::nullable"] = enullable
        H["Expr::<'a>::get_flags"] = eflags
        H["VecHashCons::get"] = vget
        H["ExprSet::mk"] = self.mk_hook
        H["opaque_bin"] = self.opaque_bin
        need(self.P, "ExprSet::get", "ExprSet::get_flags", "ExprSet::get_args", "VecHashCons::get", "VecHashCons::insert", "ExprSet::mk")

    def opaque_bin(self, I, op, a, b, t):
        if isinstance(b, Opaque) and b.tag == "flags":
            a, b = b, a
        if isinstance(a, Opaque) and a.tag == "flags":
            n = a.data
            if op == "BitAnd" and isinstance(b, int) and (b & (self.fnull | self.fpos)) == self.fnull:
                return self.fnull if self.null(n.id) else 0
            if op == "BitAnd" and isinstance(b, int) and (b & (self.fnull | self.fpos)) == self.fpos:
                return self.fpos if self.pos(n.id) else 0
            if isinstance(b, Opaque) and b.tag == "flags":
                b = self.flags_int(b.data)
            from interp import conc_bin

            return conc_bin(I, op, self.flags_int(n), b, t)
        return NotImplemented

    def mk_hook(self, I, body, a):
        """ExprSet::mk of a node with symbolic integers: an uninterpreted new node"""
        if not self.mine(a[0]):
            return NotImplemented
        e = strip(a[1])
        if isinstance(e, SymExpr):
            return self.ref(e.n.id)
        sym = False
        for i, x in enumerate(e.f):
            x = strip(x)
            if isinstance(x, Agg) and x.ty == self.flags_ty and isinstance(x.f[0], Opaque):
                e.f[i] = Agg("adt", self.flags_ty, 0, [self.flags_int(x.f[0].data)])
            if isinstance(x, SInt):
                if x.a.lo == x.a.hi:
                    e.f[i] = x.a.lo + x.o
                else:
                    sym = True
        if not sym:
            return NotImplemented
        name = self.expr_ty["variants"][e.v]["name"]
        t = self.term_of_expr(e)
        n = self.fresh(("mk", t), (name,))
        f = self.flags_in(e)
        if f is not None:
            n.null = bool(f & self.fnull)
            n.pos = bool(f & self.fpos)
        n.kids = [x for x in t[1]]
        n.ints = list(t[2])
        return self.ref(n.id)

    def flags_in(self, e):
        for x in e.f:
            x = strip(x)
            if isinstance(x, Agg) and x.ty == self.flags_ty:
                return x.f[0]
        return None

    def words(self, I, n):
        """fully concrete encoding of the node"""
        self.materialise(n)
        f = self.flags_int(n)
        for i, x in enumerate(n.ints):
            if isinstance(x, SInt):
                if x.a.hi - x.a.lo > 8:
                    raise Undecided("encoding of a node with unknown integers")
                n.ints[i] = I.concretize(x)
        vals = self.variant_fields(I, n)
        for i, x in enumerate(vals):
            if isinstance(x, Agg) and x.ty == self.flags_ty:
                vals[i] = Agg("adt", self.flags_ty, 0, [f])
        vi = [i for i, v in enumerate(self.expr_ty["variants"]) if v["name"] == n.tags[0]][0]
        e = Agg("adt", self.expr_tid, vi, vals)
        c = [vclone(I, self.es)]
        r = I.call_path("ExprSet::mk", Ref(c, 0), e)
        return I.call_path("VecHashCons::get", Ref(c[0].f, self.tpl.fi), r.f[0])

    # ------------------------------------------------------------ results
    def term_of_expr(self, e):
        """(tag, kid ids, ints) of a concrete Expr value"""
        name = self.expr_ty["variants"][e.v]["name"]
        kids, ints = [], []
        for x in e.f:
            x = strip(x)
            if isinstance(x, Agg) and x.ty == self.flags_ty:
                continue
            if isinstance(x, Agg) and x.ty == self.ref_ty:
                kids.append(x.f[0])
            elif isinstance(x, (int, SInt)):
                ints.append(x)
            else:
                for y in seq(x):
                    y = strip(y)
                    if isinstance(y, Agg):
                        kids.append(y.f[0])
                    else:
                        ints.append(y)
        return (name, kids, ints)

    def view(self, i):
        """(tag, kids, ints, null, pos) of any node that is not an unexpanded leaf, else None"""
        n = self.nodes.get(i)
        if n is not None:
            if n.kids is None:
                return None
            return (n.tags[0], n.kids, n.ints, n.null, n.pos)
        e = strip(self.I.call_path("ExprSet::get", self.exprs, self.ref(i)))
        t = self.term_of_expr(e)
        f = self.I.call_path("ExprSet::get_flags", self.exprs, self.ref(i)).f[0]
        return t + (bool(f & self.fnull), bool(f & self.fpos))

    def show(self, i, depth=6):
        n = self.nodes.get(i)
        if n is not None and n.kids is None:
            if n.sem is not None and n.sem[0] != "mk":
                if n.sem[0] == "deriv":
                    return "deriv(%s,%d)" % (self.show(n.sem[1][0], depth - 1), n.sem[1][1])
                if not isinstance(n.sem[1], (list, tuple)):
                    return n.name
                return "%s(%s)" % (n.sem[0], ",".join(self.show(x, depth - 1) if isinstance(x, int) else str(x) for x in n.sem[1]))
            fl = {(True, True): "+e", (False, True): "+", (False, False): "-", (None, None): ""}.get((n.null, n.pos), "?")
            return n.name + ("" if len(n.tags) == len(COMPOSITE) else ":" + "|".join(n.tags)) + fl
        if i in (EMPTY, NO_MATCH, ANY, ANYSTR, NONEMPTY):
            return ("", "EMPTY", "NO_MATCH", "ANY_BYTE", "ANY_BYTE_STRING", "NON_EMPTY_BYTE_STRING")[i]
        if depth == 0:
            return "..."
        v = self.view(i)
        if v[0] in ("Byte", "ByteSet"):
            return "[%s%s]" % ("b" if v[0] == "Byte" else "s", ",".join(map(str, v[2])))
        return "%s(%s%s)" % (v[0], ",".join(self.show(x, depth - 1) for x in v[1]), "".join(";%s" % (x,) for x in v[2]))


def ctx_force(ctx, op, a, b):
    """assume a op b without splitting; False if impossible"""
    if isinstance(a, int) and isinstance(b, int):
        from core import _cmp

        return _cmp(op, a, b)
    if isinstance(a, SInt) and isinstance(b, int) and op == "Eq":
        v = b - a.o
        if not a.a.lo <= v <= a.a.hi:
            return False
        a.a.lo = a.a.hi = v
        ctx._tighten()
        return True
    return ctx.cmp_int(op, a, b)
