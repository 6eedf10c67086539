"""Transfer functions of library (std, ahash, hashbrown, bytemuck, anyhow, regex_syntax) calls.

Each model is the documented contract of the callee over the abstract values of core.py.  A callee
without a model and without a MIR body makes the trace `Undecided`.
"""
from core import *
from interp import binop, ShiftedWord, MASK, wrap, SymEnum, copyval, conc_bin
from core import _cmp

MODELS = {}


def model(*names):
    def d(f):
        for n in names:
            MODELS[n] = f
        return f

    return d


def alias(prefixes, name):
    return [p + name for p in prefixes]


INT8 = {"k": "int", "bits": 8, "signed": False}
INT32 = {"k": "int", "bits": 32, "signed": False}
INT64 = {"k": "int", "bits": 64, "signed": False}
INTBIG = {"k": "int", "bits": 128, "signed": True}


# ---------------------------------------------------------------- structural helpers


def strip(v):
    while type(v) in (Ref, Box):
        v = v.c[v.k] if type(v) is Ref else v.f[0]
    return v


def seq(v):
    """python list of the elements of a slice-like value (not a copy for containers)"""
    v = strip(v)
    if type(v) is Slice:
        return v.items()
    if type(v) in (Vec, Agg):
        return v.f
    raise Undecided("not a sequence: %r" % (v,))


def as_slice(v):
    v = strip(v)
    if type(v) is Slice:
        return v
    if type(v) is Vec:
        return Slice(v.f, 0, len(v.f), v.s)
    if type(v) is Agg and v.k == "array":
        return Slice(v.f, 0, len(v.f))
    raise Undecided("not a slice: %r" % (v,))


def veq(I, a, b):
    a = strip(a)
    b = strip(b)
    ta, tb = type(a), type(b)
    if ta in (int, bool) and tb in (int, bool):
        return a == b
    if isinstance(a, SymEnum):
        return a.eq(I, b)
    if isinstance(b, SymEnum):
        return b.eq(I, a)
    if ta is Agg and tb is Agg and a.k != "array" and b.k != "array":
        if a.k != b.k:
            raise Undecided("comparison of different kinds")
        if a.ty is not None:
            t = I.p.types[a.ty]
            if t["k"] == "adt" and t.get("local"):
                im = I.p.eq_impls.get(t["path"])
                if im is not None and not im["derived"]:
                    raise Undecided("hand-written PartialEq of " + t["path"])
        if a.v != b.v:
            return False
        if len(a.f) != len(b.f):
            raise Undecided("aggregate shapes differ")
        return all(veq(I, x, y) for x, y in zip(a.f, b.f))
    if ta in (Vec, Slice, Agg) and tb in (Vec, Slice, Agg):
        x, y = seq(a), seq(b)
        if len(x) != len(y):
            return False
        return all(veq(I, p, q) for p, q in zip(x, y))
    if ta in (SInt, Word, PopCount) or tb in (SInt, Word, PopCount):
        bits = a.bits if ta is Word else (b.bits if tb is Word else 128)
        return binop(I, "Eq", a, b, {"k": "int", "bits": bits, "signed": False})
    if a is b:
        return True
    if isinstance(a, Opaque) and isinstance(b, Opaque):
        h = I.hooks.get("opaque_eq")
        if h:
            return h(I, a, b)
    raise Undecided("equality of %r and %r" % (a, b))


def vcmp(I, a, b):
    a = strip(a)
    b = strip(b)
    ta, tb = type(a), type(b)
    if ta in (int, bool) and tb in (int, bool):
        return (a > b) - (a < b)
    if ta is Agg and tb is Agg and a.k != "array":
        if a.ty is not None:
            t = I.p.types[a.ty]
            if t["k"] == "adt" and t.get("local"):
                im = I.p.ord_impls.get(t["path"])
                if im is not None and not im["derived"]:
                    raise Undecided("hand-written Ord of " + t["path"])
        if a.v != b.v:
            return (a.v > b.v) - (a.v < b.v)
        for x, y in zip(a.f, b.f):
            c = vcmp(I, x, y)
            if c:
                return c
        return 0
    if ta in (Vec, Slice, Agg) and tb in (Vec, Slice, Agg):
        x, y = seq(a), seq(b)
        for p, q in zip(x, y):
            c = vcmp(I, p, q)
            if c:
                return c
        return (len(x) > len(y)) - (len(x) < len(y))
    if ta in (SInt, int) and tb in (SInt, int):
        if I.ctx.cmp_int("Lt", a, b):
            return -1
        return 0 if I.ctx.cmp_int("Eq", a, b) else 1
    raise Undecided("ordering of %r and %r" % (a, b))


def sort_list(I, l, cmp):
    """stable insertion sort (comparisons may split the trace)"""
    import functools

    return sorted(l, key=functools.cmp_to_key(cmp))


def hkey(I, v):
    """canonical python key, or None if not concrete"""
    v = strip(v)
    t = type(v)
    if t in (int, bool):
        return int(v)
    if t is Agg:
        if v.k == "array":
            r = tuple(hkey(I, x) for x in v.f)
            return None if None in r else ("s",) + r
        if v.k not in ("adt", "tuple"):
            return None
        if v.k == "adt" and v.ty is not None:
            ty = I.p.types[v.ty]
            if ty.get("local"):
                im = I.p.hash_impls.get(ty["path"])
                if im is not None and not im["derived"]:
                    raise Undecided("hand-written Hash")
        r = tuple(hkey(I, x) for x in v.f)
        return None if None in r else ("a", v.v) + r
    if t in (Vec, Slice):
        r = tuple(hkey(I, x) for x in seq(v))
        return None if None in r else ("s",) + r
    return None


def vclone(I, v):
    t = type(v)
    if t is Agg:
        if v.k == "closure":
            return Agg(v.k, v.ty, v.v, [vclone(I, x) for x in v.f])
        if v.k == "adt" and v.ty is not None:
            ty = I.p.types[v.ty]
            if ty.get("local"):
                im = I.p.clone_impls.get(ty["path"])
                if im is not None and not im["derived"]:
                    l = [b for b in I.p.d["bodies"] if b.get("implof") == "std::clone::Clone" and b["path"].endswith("::clone") and b["locals"][0] == v.ty]
                    if len(l) != 1:
                        raise Undecided("hand-written Clone of " + ty["path"])
                    return I.run(l[0]["id"], [Ref([v], 0)])
        return Agg(v.k, v.ty, v.v, [vclone(I, x) for x in v.f])
    if t is Vec:
        I.ctx.steps += len(v.f)
        return Vec([vclone(I, x) for x in v.f], v.s)
    if t is Box:
        return Box(vclone(I, v.f[0]))
    if t is HMap:
        m = HMap(v.set)
        m.more = v.more
        m.d = {k: [vclone(I, e[0]), vclone(I, e[1])] for k, e in v.d.items()}
        return m
    if t is Table:
        r = Table()
        r.e = [list(x) for x in v.e]
        return r
    if isinstance(v, It):
        return v.clone(I)
    if t is Opaque and isinstance(v.data, dict):
        return Opaque(v.tag, dict(v.data))
    return v


class Table:
    """hashbrown::HashTable: list of [hash, value]"""

    __slots__ = ("e", "ix")

    def __init__(self):
        self.e = []
        self.ix = None


# ---------------------------------------------------------------- iterators


class It:
    """abstract iterator"""

    def next(self, I):
        raise Undecided("iterator next")

    def back(self, I):
        raise Undecided("iterator next_back")

    def clone(self, I):
        raise Undecided("iterator clone")

    def length(self, I):
        raise Undecided("iterator length")


class ListIt(It):
    def __init__(self, l, i=0, j=None):
        self.l = l
        self.i = i
        self.j = len(l) if j is None else j

    def next(self, I):
        if self.i >= self.j:
            return STOP
        self.i += 1
        return self.l[self.i - 1]

    def back(self, I):
        if self.i >= self.j:
            return STOP
        self.j -= 1
        return self.l[self.j]

    def clone(self, I):
        return ListIt(self.l, self.i, self.j)

    def length(self, I):
        return self.j - self.i


class RangeIt(It):
    """over an int range stored in an Agg (so that the place keeps its value)"""

    def __init__(self, a, incl):
        self.a = a
        self.incl = incl

    def next(self, I):
        f = self.a.f
        if self.incl:
            if len(f) > 2 and f[2]:
                return STOP
            if not I.ctx.cmp_int("Le", f[0], f[1]):
                return STOP
            v = f[0]
            if I.ctx.cmp_int("Lt", f[0], f[1]):
                f[0] = addi(v, 1)
            else:
                f[2] = True
            return v
        if not I.ctx.cmp_int("Lt", f[0], f[1]):
            return STOP
        v = f[0]
        f[0] = addi(v, 1)
        return v

    def back(self, I):
        f = self.a.f
        if self.incl:
            if len(f) > 2 and f[2]:
                return STOP
            if not I.ctx.cmp_int("Le", f[0], f[1]):
                return STOP
            v = f[1]
            if I.ctx.cmp_int("Lt", f[0], f[1]):
                f[1] = addi(v, -1)
            else:
                f[2] = True
            return v
        if not I.ctx.cmp_int("Lt", f[0], f[1]):
            return STOP
        f[1] = addi(f[1], -1)
        return f[1]

    def clone(self, I):
        return RangeIt(copyval(self.a), self.incl)

    def length(self, I):
        f = self.a.f
        a, b = f[0], f[1]
        if type(a) is int and type(b) is int:
            if self.incl:
                return 0 if f[2] else max(0, b - a + 1)
            return max(0, b - a)
        raise Undecided("symbolic range length")


class FromIt(It):
    """start.. ranges"""

    def __init__(self, a):
        self.a = a

    def next(self, I):
        v = self.a.f[0]
        self.a.f[0] = addi(v, 1)
        return v


def addi(v, k):
    if isinstance(v, SInt):
        return SInt(v.a, v.o + k)
    if isinstance(v, (Word, ShiftedWord, PopCount)):
        raise Undecided("symbolic range")
    return v + k


class MapIt(It):
    def __init__(self, it, f):
        self.it = it
        self.f = [f]

    def next(self, I):
        v = self.it.next(I)
        return v if v is STOP else I.call_value(Ref(self.f, 0), [v])

    def back(self, I):
        v = self.it.back(I)
        return v if v is STOP else I.call_value(Ref(self.f, 0), [v])

    def clone(self, I):
        return MapIt(self.it.clone(I), self.f[0])

    def length(self, I):
        return self.it.length(I)


class FilterIt(It):
    def __init__(self, it, f, mapping=False):
        self.it = it
        self.f = [f]
        self.m = mapping

    def step(self, I, nx):
        while True:
            v = nx(I)
            if v is STOP:
                return v
            if self.m:
                r = I.call_value(Ref(self.f, 0), [v])
                if r.v == 1:
                    return r.f[0]
            elif I.truth(I.call_value(Ref(self.f, 0), [Ref([v], 0)])):
                return v

    def next(self, I):
        return self.step(I, self.it.next)

    def back(self, I):
        return self.step(I, self.it.back)

    def clone(self, I):
        return FilterIt(self.it.clone(I), self.f[0], self.m)


class EnumIt(It):
    def __init__(self, it, n=0):
        self.it = it
        self.n = n

    def next(self, I):
        v = self.it.next(I)
        if v is STOP:
            return v
        self.n += 1
        return tup(self.n - 1, v)

    def back(self, I):
        n = self.it.length(I)
        v = self.it.back(I)
        if v is STOP:
            return v
        return tup(self.n + n - 1, v)

    def clone(self, I):
        return EnumIt(self.it.clone(I), self.n)

    def length(self, I):
        return self.it.length(I)


class ZipIt(It):
    def __init__(self, a, b):
        self.a = a
        self.b = b

    def next(self, I):
        x = self.a.next(I)
        if x is STOP:
            return x
        y = self.b.next(I)
        return STOP if y is STOP else tup(x, y)

    def back(self, I):
        la, lb = self.a.length(I), self.b.length(I)
        while la > lb:
            self.a.back(I)
            la -= 1
        while lb > la:
            self.b.back(I)
            lb -= 1
        x = self.a.back(I)
        return STOP if x is STOP else tup(x, self.b.back(I))

    def clone(self, I):
        return ZipIt(self.a.clone(I), self.b.clone(I))

    def length(self, I):
        return min(self.a.length(I), self.b.length(I))


class RevIt(It):
    def __init__(self, it):
        self.it = it

    def next(self, I):
        return self.it.back(I)

    def back(self, I):
        return self.it.next(I)

    def clone(self, I):
        return RevIt(self.it.clone(I))

    def length(self, I):
        return self.it.length(I)


class SkipIt(It):
    def __init__(self, it, n):
        self.it = it
        self.n = n

    def next(self, I):
        while self.n > 0:
            self.n -= 1
            if self.it.next(I) is STOP:
                self.n = 0
                return STOP
        return self.it.next(I)

    def back(self, I):
        return STOP if self.length(I) == 0 else self.it.back(I)

    def clone(self, I):
        return SkipIt(self.it.clone(I), self.n)

    def length(self, I):
        return max(0, self.it.length(I) - self.n)


class TakeIt(It):
    def __init__(self, it, n):
        self.it = it
        self.n = n

    def next(self, I):
        if self.n <= 0:
            return STOP
        self.n -= 1
        return self.it.next(I)

    def back(self, I):
        l = self.it.length(I)
        while l > self.n:
            self.it.back(I)
            l -= 1
        if self.n <= 0 or l == 0:
            return STOP
        self.n = l - 1
        return self.it.back(I)

    def clone(self, I):
        return TakeIt(self.it.clone(I), self.n)

    def length(self, I):
        return min(self.n, self.it.length(I))


class WhileIt(It):
    def __init__(self, it, f, skip, mapping=False):
        self.it = it
        self.f = [f]
        self.skip = skip
        self.done = False
        self.m = mapping

    def next(self, I):
        if self.skip:
            while True:
                v = self.it.next(I)
                if v is STOP or self.done:
                    return v
                if not I.truth(I.call_value(Ref(self.f, 0), [Ref([v], 0)])):
                    self.done = True
                    return v
        if self.done:
            return STOP
        v = self.it.next(I)
        if v is STOP:
            return v
        if self.m:
            r = I.call_value(Ref(self.f, 0), [v])
            if r.v == 1:
                return r.f[0]
        elif I.truth(I.call_value(Ref(self.f, 0), [Ref([v], 0)])):
            return v
        self.done = True
        return STOP


class ChainIt(It):
    def __init__(self, a, b):
        self.a = a
        self.b = b

    def next(self, I):
        v = self.a.next(I)
        return self.b.next(I) if v is STOP else v

    def back(self, I):
        v = self.b.back(I)
        return self.a.back(I) if v is STOP else v

    def clone(self, I):
        return ChainIt(self.a.clone(I), self.b.clone(I))

    def length(self, I):
        return self.a.length(I) + self.b.length(I)


class DerefIt(It):
    def __init__(self, it):
        self.it = it

    def g(self, I, v):
        if v is STOP:
            return v
        return vclone(I, I.deref(v))

    def next(self, I):
        return self.g(I, self.it.next(I))

    def back(self, I):
        return self.g(I, self.it.back(I))

    def clone(self, I):
        return DerefIt(self.it.clone(I))

    def length(self, I):
        return self.it.length(I)


class FlatIt(It):
    def __init__(self, it):
        self.it = it
        self.cur = None

    def next(self, I):
        while True:
            if self.cur is not None:
                v = self.cur.next(I)
                if v is not STOP:
                    return v
                self.cur = None
            v = self.it.next(I)
            if v is STOP:
                return v
            self.cur = to_it(I, v)


class PeekIt(It):
    def __init__(self, it):
        self.it = it
        self.p = None  # [value] when peeked

    def next(self, I):
        if self.p is not None:
            v = self.p[0]
            self.p = None
            return v
        return self.it.next(I)

    def clone(self, I):
        r = PeekIt(self.it.clone(I))
        r.p = list(self.p) if self.p is not None else None
        return r

    def length(self, I):
        n = self.it.length(I)
        if self.p is not None and self.p[0] is not STOP:
            n += 1
        return n


class StepIt(It):
    def __init__(self, it, n):
        self.it = it
        self.n = n
        self.first = True

    def next(self, I):
        if self.first:
            self.first = False
            return self.it.next(I)
        for _ in range(self.n - 1):
            if self.it.next(I) is STOP:
                return STOP
        return self.it.next(I)


class GenIt(It):
    def __init__(self, f, st=None):
        self.f = f

    def next(self, I):
        return self.f(I)


class LocalIt(It):
    """an iterator implemented by the repository itself"""

    def __init__(self, v):
        self.v = [v]

    def next(self, I):
        t = I.p.types[self.v[0].ty]
        for b in I.p.d["bodies"]:
            if b["local"] and b.get("implof") and "Iterator" in str(b.get("implof")) and b["path"].endswith("::next"):
                at = I.p.types[b["args"][0]]
                if at["k"] == "ref" and at["e"] == self.v[0].ty:
                    r = I.run(b["id"], [Ref(self.v, 0)])
                    return STOP if r.v == 0 else r.f[0]
        raise Undecided("iterator " + t["s"])


def refs_of(v, mutable=False):
    s = as_slice(v)
    return ListIt([Ref(s.c, i) for i in range(s.a, s.a + s.n)])


def hash_items(I, m):
    l = list(m.d.values())
    if I.hash_rev:
        l.reverse()
    I.hash_iter = True
    return l


def to_it(I, v):
    if isinstance(v, It):
        return v
    if type(v) is Ref:
        x = v.c[v.k]
        if isinstance(x, It):
            return x
        if type(x) in (Vec, Slice) or (type(x) is Agg and x.k == "array"):
            return refs_of(x)
        if type(x) is HMap:
            if x.set:
                return ListIt([Ref(e, 0) for e in hash_items(I, x)])
            return ListIt([tup(Ref(e, 0), Ref(e, 1)) for e in hash_items(I, x)])
        if type(x) is Agg and x.k == "adt" and x.ty is not None:
            t = I.p.types[x.ty]
            if t.get("path") == "std::option::Option" or (t.get("path") == "std::result::Result"):
                good = 1 if t["path"].endswith("Option") else 0
                return ListIt([Ref(x.f, 0)] if x.v == good else [])
            r = range_it(I, x)
            if r is not None:
                return r
            if x.ty is not None and t.get("local"):
                return LocalRefIt(v)
        if type(x) in (Ref, Box):
            return to_it(I, x)
        if isinstance(x, Opaque):
            return to_it(I, x)
    if type(v) is Slice:
        return refs_of(v)
    if type(v) is Vec:
        return ListIt(v.f, 0)
    if type(v) is HMap:
        if v.set:
            return ListIt([e[0] for e in hash_items(I, v)])
        return ListIt([tup(e[0], e[1]) for e in hash_items(I, v)])
    if type(v) is Agg:
        if v.k == "array":
            return ListIt(v.f)
        r = range_it(I, v)
        if r is not None:
            return r
        if v.ty is None or I.p.types[v.ty].get("path") == "std::option::Option":
            if v.k == "adt" and len(v.f) <= 1:
                return ListIt([v.f[0]] if v.v == 1 else [])
        elif I.p.types[v.ty].get("local"):
            return LocalIt(v)
    if type(v) is Opaque and v.data is not None and isinstance(v.data, It):
        return v.data
    if type(v) is Opaque and v.tag in ("utf8seqs", "utf8seq"):
        return ListIt(v.data)
    raise Undecided("iterate over %r" % (v,))


class LocalRefIt(It):
    def __init__(self, r):
        self.r = r

    def next(self, I):
        li = LocalIt(self.r.c[self.r.k])
        li.v = self.r.c
        t = self.r.c[self.r.k]
        for b in I.p.d["bodies"]:
            if b["local"] and b.get("implof") and "Iterator" in str(b.get("implof")) and b["path"].endswith("::next"):
                at = I.p.types[b["args"][0]]
                if at["k"] == "ref" and at["e"] == t.ty:
                    r = I.run(b["id"], [self.r])
                    return STOP if r.v == 0 else r.f[0]
        raise Undecided("iterator")


def range_it(I, x):
    if x.ty is None:
        return None
    p = I.p.types[x.ty].get("path")
    if p == "std::ops::Range":
        return RangeIt(x, False)
    if p == "std::ops::RangeInclusive":
        return RangeIt(x, True)
    if p == "std::ops::RangeFrom":
        return FromIt(x)
    return None


IT = "std::iter::Iterator::"
DE = "std::iter::DoubleEndedIterator::"


@model("std::iter::IntoIterator::into_iter")
def _(I, a, c, d):
    v = a[0]
    if type(v) is Agg and range_it(I, v) is not None:
        return v
    return to_it(I, v)


@model(IT + "by_ref")
def _(I, a, c, d):
    return a[0]


@model(IT + "next")
def _(I, a, c, d):
    return opt(to_it(I, a[0]).next(I))


@model(DE + "next_back")
def _(I, a, c, d):
    return opt(to_it(I, a[0]).back(I))


@model(IT + "map")
def _(I, a, c, d):
    return MapIt(to_it(I, a[0]), a[1])


@model(IT + "filter")
def _(I, a, c, d):
    return FilterIt(to_it(I, a[0]), a[1])


@model(IT + "filter_map")
def _(I, a, c, d):
    return FilterIt(to_it(I, a[0]), a[1], True)


@model(IT + "enumerate")
def _(I, a, c, d):
    return EnumIt(to_it(I, a[0]))


@model(IT + "zip", "std::iter::zip")
def _(I, a, c, d):
    return ZipIt(to_it(I, a[0]), to_it(I, a[1]))


@model(IT + "rev")
def _(I, a, c, d):
    return RevIt(to_it(I, a[0]))


@model(IT + "skip")
def _(I, a, c, d):
    return SkipIt(to_it(I, a[0]), I.concretize(a[1]))


@model(IT + "take")
def _(I, a, c, d):
    return TakeIt(to_it(I, a[0]), I.concretize(a[1]))


@model(IT + "skip_while")
def _(I, a, c, d):
    return WhileIt(to_it(I, a[0]), a[1], True)


@model(IT + "take_while")
def _(I, a, c, d):
    return WhileIt(to_it(I, a[0]), a[1], False)


@model(IT + "map_while")
def _(I, a, c, d):
    return WhileIt(to_it(I, a[0]), a[1], False, True)


@model(IT + "chain", "std::iter::chain")
def _(I, a, c, d):
    return ChainIt(to_it(I, a[0]), to_it(I, a[1]))


@model(IT + "cloned", IT + "copied")
def _(I, a, c, d):
    return DerefIt(to_it(I, a[0]))


@model(IT + "flatten")
def _(I, a, c, d):
    return FlatIt(to_it(I, a[0]))


@model(IT + "flat_map")
def _(I, a, c, d):
    return FlatIt(MapIt(to_it(I, a[0]), a[1]))


@model(IT + "peekable")
def _(I, a, c, d):
    return PeekIt(to_it(I, a[0]))


@model(IT + "fuse")
def _(I, a, c, d):
    return to_it(I, a[0])


@model(IT + "inspect")
def _(I, a, c, d):
    f = [a[1]]
    it = to_it(I, a[0])

    def g(I):
        v = it.next(I)
        if v is not STOP:
            I.call_value(Ref(f, 0), [Ref([v], 0)])
        return v

    return GenIt(g)


@model(IT + "scan")
def _(I, a, c, d):
    st = [a[1]]
    f = [a[2]]
    it = to_it(I, a[0])
    done = [False]

    def g(I):
        if done[0]:
            return STOP
        v = it.next(I)
        if v is STOP:
            return v
        r = I.call_value(Ref(f, 0), [Ref(st, 0), v])
        if r.v == 0:
            done[0] = True
            return STOP
        return r.f[0]

    return GenIt(g)


@model(IT + "step_by")
def _(I, a, c, d):
    return StepIt(to_it(I, a[0]), I.concretize(a[1]))


@model("std::iter::Peekable::<I>::peek")
def _(I, a, c, d):
    p = I.deref(a[0])
    if p.p is None:
        p.p = [p.it.next(I)]
    return none() if p.p[0] is STOP else some(Ref(p.p, 0))


@model("std::iter::Peekable::<I>::next_if")
def _(I, a, c, d):
    p = I.deref(a[0])
    if p.p is None:
        p.p = [p.it.next(I)]
    if p.p[0] is STOP:
        return none()
    if I.truth(I.call_value(a[1], [Ref(p.p, 0)])):
        return some(p.next(I))
    return none()


@model("std::iter::once")
def _(I, a, c, d):
    return ListIt([a[0]])


@model("std::iter::empty")
def _(I, a, c, d):
    return ListIt([])


@model("std::iter::repeat")
def _(I, a, c, d):
    return GenIt(lambda I: vclone(I, a[0]))


@model("std::iter::repeat_n")
def _(I, a, c, d):
    return ListIt([vclone(I, a[0]) for _ in range(I.concretize(a[1]))])


@model("std::iter::from_fn")
def _(I, a, c, d):
    f = [a[0]]

    def g(I):
        r = I.call_value(Ref(f, 0), [])
        return STOP if r.v == 0 else r.f[0]

    return GenIt(g)


@model("std::iter::successors")
def _(I, a, c, d):
    f = [a[1]]
    cur = [a[0]]

    def g(I):
        if cur[0].v == 0:
            return STOP
        v = cur[0].f[0]
        cur[0] = I.call_value(Ref(f, 0), [Ref([v], 0)])
        return v

    return GenIt(g)


def drain(I, it):
    it = to_it(I, it)
    out = []
    while True:
        v = it.next(I)
        if v is STOP:
            return out
        out.append(v)
        I.ctx.steps += 1
        if I.ctx.steps > I.ctx.budget:
            raise Budget("iterator")


def build_collection(I, items, tid):
    t = I.p.types[tid]
    p = t.get("path", "")
    if p == "std::vec::Vec" or p == "std::collections::VecDeque":
        return Vec(items)
    if p == "std::string::String":
        out = []
        for x in items:
            push_char_or_str(I, out, x)
        return Vec(out, True)
    if p == "std::boxed::Box":
        return Box(Agg("array", None, 0, items))
    if p in ("std::collections::HashMap", "std::collections::BTreeMap"):
        m = HMap()
        for kv in items:
            hm_insert(I, m, kv.f[0], kv.f[1])
        return m
    if p in ("std::collections::HashSet", "std::collections::BTreeSet"):
        m = HMap(True)
        for k in items:
            hs_insert(I, m, k)
        return m
    raise Undecided("collect into " + t["s"])


def push_char_or_str(I, out, x):
    x = strip(x)
    if type(x) is int:
        out.extend(chr(x).encode("utf8"))
    else:
        out.extend(seq(x))


@model(IT + "collect", "std::iter::FromIterator::from_iter")
def _(I, a, c, d):
    t = I.p.types[d]
    p = t.get("path")
    if p in ("std::result::Result", "std::option::Option"):
        it = to_it(I, a[0])
        good = 0 if p.endswith("Result") else 1
        out = []
        while True:
            v = it.next(I)
            if v is STOP:
                break
            if v.v != good:
                return v
            out.append(v.f[0])
        return Agg("adt", d, good, [build_collection(I, out, t["args"][0])])
    return build_collection(I, drain(I, a[0]), d)


@model(IT + "for_each")
def _(I, a, c, d):
    it = to_it(I, a[0])
    f = [a[1]]
    while True:
        v = it.next(I)
        if v is STOP:
            return UNIT
        I.call_value(Ref(f, 0), [v])


@model(IT + "fold", DE + "rfold")
def _(I, a, c, d):
    it = to_it(I, a[0])
    acc = a[1]
    f = [a[2]]
    nx = it.back if c["p"].endswith("rfold") else it.next
    while True:
        v = nx(I)
        if v is STOP:
            return acc
        acc = I.call_value(Ref(f, 0), [acc, v])


@model(IT + "try_fold")
def _(I, a, c, d):
    it = to_it(I, a[0])
    acc = a[1]
    f = [a[2]]
    p = I.p.types[d].get("path", "")
    good = 1 if p.endswith("Option") else 0
    while True:
        v = it.next(I)
        if v is STOP:
            return Agg("adt", d, good, [acc])
        r = I.call_value(Ref(f, 0), [acc, v])
        if r.v != good:
            return r
        acc = r.f[0]


@model(IT + "try_for_each")
def _(I, a, c, d):
    it = to_it(I, a[0])
    f = [a[1]]
    p = I.p.types[d].get("path", "")
    good = 1 if p.endswith("Option") else 0
    while True:
        v = it.next(I)
        if v is STOP:
            return Agg("adt", d, good, [UNIT])
        r = I.call_value(Ref(f, 0), [v])
        if r.v != good:
            return r


@model(IT + "reduce")
def _(I, a, c, d):
    it = to_it(I, a[0])
    acc = it.next(I)
    if acc is STOP:
        return none()
    f = [a[1]]
    while True:
        v = it.next(I)
        if v is STOP:
            return some(acc)
        acc = I.call_value(Ref(f, 0), [acc, v])


@model(IT + "all", IT + "any")
def _(I, a, c, d):
    it = to_it(I, a[0])
    f = [a[1]]
    isall = c["p"].endswith("all")
    while True:
        v = it.next(I)
        if v is STOP:
            return isall
        if I.truth(I.call_value(Ref(f, 0), [v])) != isall:
            return not isall


@model(IT + "position")
def _(I, a, c, d):
    it = to_it(I, a[0])
    f = [a[1]]
    n = 0
    while True:
        v = it.next(I)
        if v is STOP:
            return none()
        if I.truth(I.call_value(Ref(f, 0), [v])):
            return some(n)
        n += 1


@model(IT + "rposition")
def _(I, a, c, d):
    it = to_it(I, a[0])
    f = [a[1]]
    n = it.length(I)
    while True:
        v = it.back(I)
        if v is STOP:
            return none()
        n -= 1
        if I.truth(I.call_value(Ref(f, 0), [v])):
            return some(n)


@model(IT + "find", DE + "rfind")
def _(I, a, c, d):
    it = to_it(I, a[0])
    f = [a[1]]
    nx = it.back if c["p"].endswith("rfind") else it.next
    while True:
        v = nx(I)
        if v is STOP:
            return none()
        if I.truth(I.call_value(Ref(f, 0), [Ref([v], 0)])):
            return some(v)


@model(IT + "find_map")
def _(I, a, c, d):
    it = to_it(I, a[0])
    f = [a[1]]
    while True:
        v = it.next(I)
        if v is STOP:
            return none()
        r = I.call_value(Ref(f, 0), [v])
        if r.v == 1:
            return r


def best(I, items, cmp, want_max):
    """Rust: max returns the last maximum, min the first minimum"""
    if not items:
        return none()
    b = items[0]
    for x in items[1:]:
        r = cmp(b, x)
        if want_max:
            if r <= 0:
                b = x
        elif r > 0:
            b = x
    return some(b)


@model(IT + "max", IT + "min")
def _(I, a, c, d):
    return best(I, drain(I, a[0]), lambda x, y: vcmp(I, x, y), c["p"].endswith("max"))


@model(IT + "max_by_key", IT + "min_by_key")
def _(I, a, c, d):
    f = [a[1]]
    items = [(I.call_value(Ref(f, 0), [Ref([x], 0)]), x) for x in drain(I, a[0])]
    r = best(I, items, lambda x, y: vcmp(I, x[0], y[0]), "max" in c["p"])
    return r if r.v == 0 else some(r.f[0][1])


@model(IT + "max_by", IT + "min_by")
def _(I, a, c, d):
    f = [a[1]]
    return best(
        I,
        drain(I, a[0]),
        lambda x, y: I.call_value(Ref(f, 0), [Ref([x], 0), Ref([y], 0)]).v - 1,
        "max" in c["p"],
    )


@model(IT + "sum", IT + "product")
def _(I, a, c, d):
    t = I.p.types[d]
    if t["k"] != "int":
        raise Undecided("sum of non-integers")
    acc = 0 if c["p"].endswith("sum") else 1
    op = "AddWithOverflow" if c["p"].endswith("sum") else "MulWithOverflow"
    for v in drain(I, a[0]):
        v = strip(v)
        r = binop(I, op, acc, v, t) if acc != 0 or op[0] != "A" else tup(v, False)
        if r.f[1]:
            I.panic("overflow in sum")
        acc = r.f[0]
    return acc


@model(IT + "count")
def _(I, a, c, d):
    return len(drain(I, a[0]))


@model(IT + "last")
def _(I, a, c, d):
    l = drain(I, a[0])
    return some(l[-1]) if l else none()


@model(IT + "nth")
def _(I, a, c, d):
    it = to_it(I, a[0])
    for _ in range(I.concretize(a[1])):
        if it.next(I) is STOP:
            return none()
    return opt(it.next(I))


@model(IT + "unzip")
def _(I, a, c, d):
    items = drain(I, a[0])
    ts = I.p.types[d]["f"]
    return tup(build_collection(I, [x.f[0] for x in items], ts[0]), build_collection(I, [x.f[1] for x in items], ts[1]))


@model(IT + "partition")
def _(I, a, c, d):
    f = [a[1]]
    yes, no = [], []
    for x in drain(I, a[0]):
        (yes if I.truth(I.call_value(Ref(f, 0), [Ref([x], 0)])) else no).append(x)
    ts = I.p.types[d]["f"]
    return tup(build_collection(I, yes, ts[0]), build_collection(I, no, ts[1]))


@model(IT + "eq", IT + "ne")
def _(I, a, c, d):
    x, y = drain(I, a[0]), drain(I, to_it(I, a[1]))
    r = len(x) == len(y) and all(veq(I, p, q) for p, q in zip(x, y))
    return r == c["p"].endswith("eq")


@model(IT + "size_hint")
def _(I, a, c, d):
    n = to_it(I, a[0]).length(I)
    return tup(n, some(n))


@model("std::iter::ExactSizeIterator::len")
def _(I, a, c, d):
    return to_it(I, a[0]).length(I)


# ---------------------------------------------------------------- Vec / slice


V = ["std::vec::Vec::<T, A>::", "std::vec::Vec::<T>::"]
S = "std::slice::<impl [T]>::"


@model("std::vec::Vec::<T>::new", "std::vec::Vec::<T>::with_capacity", "std::collections::VecDeque::<T>::new")
def _(I, a, c, d):
    return Vec([])


@model("std::string::String::new", "std::string::String::with_capacity")
def _(I, a, c, d):
    return Vec([], True)


def vec(I, r):
    v = strip(r)
    if type(v) is not Vec:
        raise Undecided("not a Vec: %r" % (v,))
    return v


@model("std::vec::Vec::<T, A>::push", "std::collections::VecDeque::<T, A>::push_back")
def _(I, a, c, d):
    vec(I, a[0]).f.append(a[1])
    return UNIT


@model("std::vec::Vec::<T, A>::pop", "std::collections::VecDeque::<T, A>::pop_back")
def _(I, a, c, d):
    f = vec(I, a[0]).f
    return some(f.pop()) if f else none()


@model("std::collections::VecDeque::<T, A>::pop_front")
def _(I, a, c, d):
    f = vec(I, a[0]).f
    return some(f.pop(0)) if f else none()


@model("std::collections::VecDeque::<T, A>::push_front")
def _(I, a, c, d):
    vec(I, a[0]).f.insert(0, a[1])
    return UNIT


@model(
    "std::vec::Vec::<T, A>::len",
    S + "len",
    "std::string::String::len",
    "std::str::<impl str>::len",
    "std::collections::VecDeque::<T, A>::len",
)
def _(I, a, c, d):
    v = strip(a[0])
    if type(v) is Slice:
        return v.n
    if isinstance(v, Opaque):
        h = I.hooks.get("opaque_len")
        if h:
            return h(I, v)
        raise Undecided("length of %r" % v)
    return len(seq(v))


@model(
    "std::vec::Vec::<T, A>::is_empty",
    S + "is_empty",
    "std::string::String::is_empty",
    "std::str::<impl str>::is_empty",
    "std::collections::VecDeque::<T, A>::is_empty",
)
def _(I, a, c, d):
    return len(seq(a[0])) == 0


@model("std::vec::Vec::<T, A>::truncate", "std::string::String::truncate")
def _(I, a, c, d):
    v = vec(I, a[0])
    f = v.f
    n = a[1]
    if isinstance(n, SInt) and v.s:
        # which characters survive: the ends of characters, or a panic
        if I.ctx.cmp_int("Ge", n, len(f)):
            return UNIT
        if isinstance(n, SInt):
            for i in range(len(f) - 1, -1, -1):
                if type(f[i]) is int and f[i] & 0xC0 == 0x80 and I.ctx.cmp_int("Eq", n, i):
                    I.panic("truncate inside of a character")
            raise Undecided("truncate to an unknown length")
    n = I.concretize(n)
    if v.s and n < len(f) and type(f[n]) is int and f[n] & 0xC0 == 0x80:
        I.panic("truncate inside of a character")
    del f[n:]
    return UNIT


@model("std::vec::Vec::<T, A>::clear", "std::string::String::clear", "std::collections::VecDeque::<T, A>::clear")
def _(I, a, c, d):
    del vec(I, a[0]).f[:]
    return UNIT


@model("std::vec::Vec::<T, A>::retain", "std::vec::Vec::<T, A>::retain_mut")
def _(I, a, c, d):
    v = vec(I, a[0])
    f = [a[1]]
    old = list(v.f)
    out = []
    for i in range(len(old)):
        if I.truth(I.call_value(Ref(f, 0), [Ref(old, i)])):
            out.append(old[i])
    v.f[:] = out
    return UNIT


@model("std::vec::Vec::<T, A>::dedup")
def _(I, a, c, d):
    v = vec(I, a[0])
    out = []
    for x in v.f:
        if not out or not veq(I, out[-1], x):
            out.append(x)
    v.f[:] = out
    return UNIT


@model("std::vec::Vec::<T, A>::dedup_by_key")
def _(I, a, c, d):
    v = vec(I, a[0])
    f = [a[1]]
    out = []
    pk = None
    for x in v.f:
        k = I.call_value(Ref(f, 0), [Ref([x], 0)])
        if out and veq(I, pk, k):
            continue
        out.append(x)
        pk = k
    v.f[:] = out
    return UNIT


@model("std::vec::Vec::<T, A>::dedup_by")
def _(I, a, c, d):
    v = vec(I, a[0])
    f = [a[1]]
    out = []
    for x in v.f:
        if out:
            cur = [x]
            if I.truth(I.call_value(Ref(f, 0), [Ref(cur, 0), Ref(out, len(out) - 1)])):
                continue
        out.append(x)
    v.f[:] = out
    return UNIT


@model("std::vec::Vec::<T, A>::insert")
def _(I, a, c, d):
    f = vec(I, a[0]).f
    i = I.concretize(a[1])
    if i > len(f):
        I.panic("insertion index out of range")
    f.insert(i, a[2])
    return UNIT


@model("std::vec::Vec::<T, A>::remove")
def _(I, a, c, d):
    f = vec(I, a[0]).f
    i = I.concretize(a[1])
    if i >= len(f):
        I.panic("removal index out of range")
    return f.pop(i)


@model("std::vec::Vec::<T, A>::swap_remove")
def _(I, a, c, d):
    f = vec(I, a[0]).f
    i = I.concretize(a[1])
    if i >= len(f):
        I.panic("swap_remove index out of range")
    x = f[i]
    f[i] = f[-1]
    f.pop()
    return x


@model("std::vec::Vec::<T, A>::append")
def _(I, a, c, d):
    x, y = vec(I, a[0]), vec(I, a[1])
    x.f.extend(y.f)
    del y.f[:]
    return UNIT


@model("std::vec::Vec::<T, A>::extend_from_slice")
def _(I, a, c, d):
    items = list(seq(a[1]))
    vec(I, a[0]).f.extend(vclone(I, x) for x in items)
    return UNIT


@model("std::vec::Vec::<T, A>::split_off")
def _(I, a, c, d):
    f = vec(I, a[0]).f
    n = I.concretize(a[1])
    if n > len(f):
        I.panic("split_off")
    r = Vec(f[n:])
    del f[n:]
    return r


@model("std::iter::Extend::extend")
def _(I, a, c, d):
    v = strip(a[0])
    items = drain(I, a[1])
    if type(v) is HMap:
        for x in items:
            if v.set:
                hs_insert(I, v, x)
            else:
                hm_insert(I, v, x.f[0], x.f[1])
        return UNIT
    if type(v) is not Vec:
        raise Undecided("extend")
    if v.s:
        for x in items:
            push_char_or_str(I, v.f, x)
        return UNIT
    el = I.p.types[c["ra"][0]] if c.get("ra") else None
    for x in items:
        # Extend<&T> copies
        if type(x) is Ref and not (el and el["k"] == "ref"):
            x = copyval(x.c[x.k])
        v.f.append(x)
    return UNIT


@model("std::vec::Vec::<T, A>::resize")
def _(I, a, c, d):
    f = vec(I, a[0]).f
    n = I.concretize(a[1])
    if n > 1 << 20:
        raise Undecided("huge resize")
    if n < len(f):
        del f[n:]
    while len(f) < n:
        f.append(vclone(I, a[2]))
    return UNIT


@model("std::vec::Vec::<T, A>::resize_with")
def _(I, a, c, d):
    f = vec(I, a[0]).f
    n = I.concretize(a[1])
    if n < len(f):
        del f[n:]
    g = [a[2]]
    while len(f) < n:
        f.append(I.call_value(Ref(g, 0), []))
    return UNIT


@model(
    "std::vec::Vec::<T, A>::reserve",
    "std::vec::Vec::<T, A>::shrink_to_fit",
    "std::string::String::reserve",
    "std::vec::Vec::<T, A>::reserve_exact",
    "std::collections::HashMap::<K, V, S, A>::reserve",
    "std::collections::HashSet::<T, S, A>::reserve",
)
def _(I, a, c, d):
    return UNIT


@model("std::vec::Vec::<T, A>::capacity")
def _(I, a, c, d):
    raise Undecided("capacity")


@model("std::vec::Vec::<T, A>::drain", "std::collections::VecDeque::<T, A>::drain")
def _(I, a, c, d):
    v = vec(I, a[0])
    lo, hi = range_bounds(I, a[1], len(v.f))
    out = v.f[lo:hi]
    del v.f[lo:hi]
    return ListIt(out)


@model("std::vec::Vec::<T, A>::into_boxed_slice")
def _(I, a, c, d):
    return Box(Agg("array", None, 0, a[0].f))


@model("std::slice::<impl [T]>::into_vec", "std::vec::Vec::<T, A>::into_iter")
def _(I, a, c, d):
    return Vec(list(seq(a[0])))


@model("std::vec::from_elem")
def _(I, a, c, d):
    n = I.concretize(a[1])
    if n > 1 << 18:
        raise Undecided("huge vec!")
    return Vec([vclone(I, a[0]) for _ in range(n)])


@model(
    "std::vec::Vec::<T, A>::as_slice",
    "std::vec::Vec::<T, A>::as_mut_slice",
    "std::string::String::as_str",
    "std::convert::AsRef::as_ref",
    "std::borrow::Borrow::borrow",
    "std::convert::AsMut::as_mut",
    "std::array::<impl [T; N]>::as_slice",
)
def _(I, a, c, d):
    return as_slice(a[0])


@model("std::ops::Deref::deref", "std::ops::DerefMut::deref_mut")
def _(I, a, c, d):
    v = I.deref(a[0])
    if type(v) is Vec:
        return Slice(v.f, 0, len(v.f), v.s)
    if type(v) is Box:
        return Ref(v.f, 0)
    if type(v) is Slice:
        return v
    if isinstance(v, It):
        return a[0]
    if type(v) in (Ref,):
        return v
    raise Undecided("deref of %r" % (v,))


@model(S + "iter", S + "iter_mut", "std::collections::VecDeque::<T, A>::iter")
def _(I, a, c, d):
    return refs_of(a[0])


def range_bounds(I, r, n):
    """(lo, hi) for a range value; panics when out of bounds"""
    if type(r) is Ref:
        r = I.deref(r)
    p = I.p.types[r.ty].get("path") if r.ty is not None else "std::ops::RangeFull"
    g = lambda x: I.concretize(x)
    if p == "std::ops::Range":
        lo, hi = g(r.f[0]), g(r.f[1])
    elif p == "std::ops::RangeFrom":
        lo, hi = g(r.f[0]), n
    elif p == "std::ops::RangeTo":
        lo, hi = 0, g(r.f[0])
    elif p == "std::ops::RangeFull":
        lo, hi = 0, n
    elif p == "std::ops::RangeInclusive":
        lo, hi = g(r.f[0]), g(r.f[1]) + 1
    elif p == "std::ops::RangeToInclusive":
        lo, hi = 0, g(r.f[0]) + 1
    else:
        raise Undecided("range type " + str(p))
    if lo > hi or hi > n:
        I.panic("slice range out of bounds")
    return lo, hi


@model("std::ops::Index::index", "std::ops::IndexMut::index_mut")
def _(I, a, c, d):
    v = strip(a[0])
    ix = a[1]
    if type(v) is HMap:
        e = hm_find(I, v, ix)
        if e is None:
            I.panic("HashMap index: key not found")
        return Ref(e, 1)
    if isinstance(ix, SInt):
        ix = I.concretize(ix)
    if isinstance(v, Opaque):
        h = I.hooks.get("opaque_index")
        if h:
            return h(I, v, ix)
    s = as_slice(v)
    if type(ix) is int:
        if not 0 <= ix < s.n:
            I.panic("index out of bounds")
        return Ref(s.c, s.a + ix)
    if isinstance(ix, (Word, PopCount)):
        raise Undecided("symbolic index")
    lo, hi = range_bounds(I, ix, s.n)
    return Slice(s.c, s.a + lo, hi - lo, s.s)


@model(S + "get", S + "get_mut", "std::str::<impl str>::get")
def _(I, a, c, d):
    s = as_slice(a[0])
    ix = I.concretize(a[1])
    if type(ix) is int:
        return some(Ref(s.c, s.a + ix)) if 0 <= ix < s.n else none()
    try:
        lo, hi = range_bounds(I, ix, s.n)
    except Panic:
        return none()
    return some(Slice(s.c, s.a + lo, hi - lo, s.s))


@model(S + "first", S + "first_mut")
def _(I, a, c, d):
    s = as_slice(a[0])
    return some(Ref(s.c, s.a)) if s.n else none()


@model(S + "last", S + "last_mut")
def _(I, a, c, d):
    s = as_slice(a[0])
    return some(Ref(s.c, s.a + s.n - 1)) if s.n else none()


@model(S + "split_first")
def _(I, a, c, d):
    s = as_slice(a[0])
    return some(tup(Ref(s.c, s.a), Slice(s.c, s.a + 1, s.n - 1))) if s.n else none()


@model(S + "split_last")
def _(I, a, c, d):
    s = as_slice(a[0])
    return some(tup(Ref(s.c, s.a + s.n - 1), Slice(s.c, s.a, s.n - 1))) if s.n else none()


@model(S + "split_at", S + "split_at_mut")
def _(I, a, c, d):
    s = as_slice(a[0])
    n = I.concretize(a[1])
    if n > s.n:
        I.panic("split_at")
    return tup(Slice(s.c, s.a, n, s.s), Slice(s.c, s.a + n, s.n - n, s.s))


@model(S + "contains")
def _(I, a, c, d):
    return any(veq(I, x, a[1]) for x in seq(a[0]))


@model(S + "starts_with", S + "ends_with", "std::str::<impl str>::starts_with", "std::str::<impl str>::ends_with")
def _(I, a, c, d):
    x, y = list(seq(a[0])), strip(a[1])
    if type(y) is int:
        y = list(chr(y).encode())
    else:
        y = list(seq(y))
    if len(y) > len(x):
        return False
    x = x[: len(y)] if "starts" in c["p"] else x[len(x) - len(y) :]
    return all(veq(I, p, q) for p, q in zip(x, y))


@model("std::str::<impl str>::contains")
def _(I, a, c, d):
    x, y = strip(a[0]), strip(a[1])
    if type(y) is int:
        return chr(y).encode() in bytes(seq(x))
    if type(y) in (Slice, Vec):
        return bytes(seq(y)) in bytes(seq(x))
    raise Undecided("str::contains")


@model("std::str::<impl str>::chars")
def _(I, a, c, d):
    s = seq(a[0])
    return ListIt([ord(ch) for ch in bytes(s).decode("utf8")])


@model("std::str::<impl str>::bytes")
def _(I, a, c, d):
    return ListIt(list(seq(a[0])))


@model(S + "to_vec", S + "into_vec", "std::borrow::ToOwned::to_owned", "std::str::<impl str>::to_owned")
def _(I, a, c, d):
    v = strip(a[0])
    if type(v) in (Slice, Vec) or (type(v) is Agg and v.k == "array"):
        return Vec([vclone(I, x) for x in seq(v)], getattr(v, "s", False))
    return vclone(I, v)


@model(S + "concat", S + "join")
def _(I, a, c, d):
    out = []
    st = False
    parts = seq(a[0])
    for i, x in enumerate(parts):
        x = strip(x)
        st = st or getattr(x, "s", False)
        if i and len(a) > 1:
            y = strip(a[1])
            out.extend(seq(y) if type(y) in (Slice, Vec) else [y])
        out.extend(vclone(I, y) for y in seq(x))
    return Vec(out, st)


@model(S + "copy_from_slice", S + "clone_from_slice")
def _(I, a, c, d):
    s = as_slice(a[0])
    items = list(seq(a[1]))
    if len(items) != s.n:
        I.panic("copy_from_slice: lengths differ")
    for i, x in enumerate(items):
        s.c[s.a + i] = vclone(I, x)
    return UNIT


@model(S + "fill")
def _(I, a, c, d):
    s = as_slice(a[0])
    for i in range(s.n):
        s.c[s.a + i] = vclone(I, a[1])
    return UNIT


@model(S + "swap")
def _(I, a, c, d):
    s = as_slice(a[0])
    i, j = I.concretize(a[1]), I.concretize(a[2])
    if i >= s.n or j >= s.n:
        I.panic("swap out of bounds")
    s.c[s.a + i], s.c[s.a + j] = s.c[s.a + j], s.c[s.a + i]
    return UNIT


@model(S + "reverse")
def _(I, a, c, d):
    s = as_slice(a[0])
    s.c[s.a : s.a + s.n] = s.items()[::-1]
    return UNIT


@model(S + "sort_unstable", S + "sort")
def _(I, a, c, d):
    s = as_slice(a[0])
    s.c[s.a : s.a + s.n] = sort_list(I, s.items(), lambda x, y: vcmp(I, x, y))
    return UNIT


@model(S + "sort_by_key", S + "sort_unstable_by_key", S + "sort_by_cached_key")
def _(I, a, c, d):
    s = as_slice(a[0])
    f = [a[1]]
    keyed = [(I.call_value(Ref(f, 0), [Ref([x], 0)]), x) for x in s.items()]
    if "unstable" in c["p"]:
        I.unstable_sort = True
    s.c[s.a : s.a + s.n] = [x for _, x in sort_list(I, keyed, lambda x, y: vcmp(I, x[0], y[0]))]
    return UNIT


@model(S + "sort_by", S + "sort_unstable_by")
def _(I, a, c, d):
    s = as_slice(a[0])
    f = [a[1]]
    s.c[s.a : s.a + s.n] = sort_list(
        I, s.items(), lambda x, y: I.call_value(Ref(f, 0), [Ref([x], 0), Ref([y], 0)]).v - 1
    )
    return UNIT


@model(S + "binary_search")
def _(I, a, c, d):
    l = seq(a[0])
    lo, hi = 0, len(l)
    while lo < hi:
        m = (lo + hi) // 2
        r = vcmp(I, l[m], a[1])
        if r == 0:
            return ok(m)
        if r < 0:
            lo = m + 1
        else:
            hi = m
    return err(lo)


@model(S + "partition_point")
def _(I, a, c, d):
    l = seq(a[0])
    f = [a[1]]
    lo, hi = 0, len(l)
    while lo < hi:
        m = (lo + hi) // 2
        if I.truth(I.call_value(Ref(f, 0), [Ref(l, m)])):
            lo = m + 1
        else:
            hi = m
    return lo


@model(S + "binary_search_by", S + "binary_search_by_key")
def _(I, a, c, d):
    l = seq(a[0])
    key = c["p"].endswith("key")
    f = [a[2] if key else a[1]]
    lo, hi = 0, len(l)
    while lo < hi:
        m = (lo + hi) // 2
        if key:
            r = vcmp(I, I.call_value(Ref(f, 0), [Ref(l, m)]), a[1])
        else:
            r = I.call_value(Ref(f, 0), [Ref(l, m)]).v - 1
        if r == 0:
            return ok(m)
        if r < 0:
            lo = m + 1
        else:
            hi = m
    return err(lo)


@model(S + "chunks", S + "chunks_exact", S + "windows")
def _(I, a, c, d):
    s = as_slice(a[0])
    n = I.concretize(a[1])
    if n == 0:
        I.panic("chunk size is zero")
    out = []
    if c["p"].endswith("windows"):
        for i in range(0, s.n - n + 1):
            out.append(Slice(s.c, s.a + i, n))
    else:
        for i in range(0, s.n, n):
            k = min(n, s.n - i)
            if k == n or c["p"].endswith("chunks"):
                out.append(Slice(s.c, s.a + i, k))
    return ListIt(out)


@model("std::slice::from_ref")
def _(I, a, c, d):
    r = a[0]
    if type(r) is Ref and type(r.k) is int and isinstance(r.c, list):
        return Slice(r.c, r.k, 1)
    if type(r) is Ref:
        return Slice([r.c[r.k]], 0, 1)
    raise Undecided("from_ref")


@model("bytemuck::cast_slice", "bytemuck::cast_slice_mut")
def _(I, a, c, d):
    s = as_slice(a[0])
    t = I.p.types[d]
    et = I.p.types[t["e"]]
    et = I.p.types[et["e"]] if et["k"] == "slice" else et
    out = []
    for x in s.items():
        if et["k"] == "int":
            out.append(x.f[0] if type(x) is Agg else x)
        elif et["k"] == "adt" and len(et["variants"]) == 1 and len(et["variants"][0]["fields"]) == 1:
            out.append(x if type(x) is Agg else Agg("adt", I.p.types[t["e"]]["e"], 0, [x]))
        else:
            raise Undecided("cast_slice to " + et["s"])
    return Slice(out, 0, len(out))


# ---------------------------------------------------------------- strings


@model("std::string::String::push_str")
def _(I, a, c, d):
    v = strip(a[0])
    x = strip(a[1])
    if type(v) is not Vec or isinstance(x, Opaque):
        return UNIT if isinstance(v, Opaque) or isinstance(x, Opaque) else _und("push_str")
    v.f.extend(seq(x))
    return UNIT


def _und(s):
    raise Undecided(s)


@model("std::string::String::push")
def _(I, a, c, d):
    v = strip(a[0])
    if isinstance(v, Opaque):
        return UNIT
    v.f.extend(chr(I.concretize(a[1])).encode("utf8"))
    return UNIT


@model("std::str::<impl str>::as_bytes", "std::string::String::as_bytes", "std::string::String::into_bytes")
def _(I, a, c, d):
    s = as_slice(a[0])
    if c["p"].endswith("into_bytes"):
        return Vec(list(s.items()))
    return Slice(s.c, s.a, s.n)


@model("std::string::ToString::to_string", "std::convert::From::from", "std::convert::Into::into", "std::str::<impl str>::to_string", "std::str::<impl str>::into")
def _(I, a, c, d):
    v = a[0]
    t = I.p.types[d]
    p = t.get("path", "")
    x = strip(v) if type(v) in (Ref,) else v
    if c["p"].endswith("to_string"):
        if type(x) in (Slice, Vec) and getattr(x, "s", False):
            return Vec(list(seq(x)), True)
        if type(x) is int and I.p.types[strip_ty(I, c["self"])]["k"] == "int":
            return Vec(list(str(x).encode()), True)
        if type(x) is int:
            return Vec(list(chr(x).encode("utf8")), True)
        return Opaque("string")
    if t["k"] == "int":
        if type(x) is bool:
            return int(x)
        return x
    if t["k"] == "char":
        return x
    if p == "std::string::String" and type(x) in (Slice, Vec):
        return Vec(list(seq(x)), True)
    if p == "std::vec::Vec" and type(x) in (Slice, Vec, Agg, Box):
        return Vec([vclone(I, y) for y in seq(x)])
    if p == "std::boxed::Box":
        return Box(v)
    if p == "std::option::Option" and (type(v) is not Agg or v.ty != d):
        return some(v)
    if p == "anyhow::Error":
        return Opaque("anyhow", x)
    if c["p"].endswith("into") or c["p"].endswith("from"):
        if c.get("a") and len(c["a"]) == 2 and c["a"][0] == c["a"][1]:
            return v
    return NotImplemented


def strip_ty(I, t):
    while I.p.types[t]["k"] == "ref":
        t = I.p.types[t]["e"]
    return t


@model("std::string::String::from_utf8", "std::str::from_utf8")
def _(I, a, c, d):
    l = list(seq(a[0]))
    try:
        bytes(l).decode("utf8")
    except UnicodeDecodeError:
        return err(Opaque("utf8err"))
    return ok(Vec(l, True) if type(a[0]) is Vec else Slice(l, 0, len(l), True))


@model("std::string::String::from_utf8_lossy")
def _(I, a, c, d):
    l = list(seq(a[0]))
    if any(type(x) is not int for x in l):
        return Opaque("string")
    return Vec(list(bytes(l).decode("utf8", "replace").encode()), True)


# ---------------------------------------------------------------- formatting


class FmtArg:
    __slots__ = ("kind", "v", "ty")

    def __init__(self, kind, v, ty):
        self.kind = kind
        self.v = v
        self.ty = ty


def _fmtarg(kind):
    def f(I, a, c, d):
        return FmtArg(kind, a[0], c["a"][-1] if c.get("a") else None)

    return f


for _k in ("display", "debug", "lower_hex", "upper_hex", "octal", "binary"):
    MODELS["std::fmt::rt::Argument::<'_>::new_" + _k] = _fmtarg(_k)


@model("std::fmt::Arguments::<'a>::from_str", "std::fmt::Arguments::<'a>::from_str_nonconst")
def _(I, a, c, d):
    return Opaque("fmt", {"lit": list(seq(a[0])), "args": None})


@model("std::fmt::Arguments::<'a>::new")
def _(I, a, c, d):
    return Opaque("fmt", {"tpl": list(seq(a[0])), "args": list(seq(a[1]))})


def render(I, f):
    """bytes of the formatted string or None"""
    if f.data.get("args") is None:
        return f.data["lit"]
    t = f.data["tpl"]
    args = f.data["args"]
    out = []
    i = 0
    na = 0
    while i < len(t):
        b = t[i]
        i += 1
        if b == 0:
            break
        if b < 0x80:
            out += t[i : i + b]
            i += b
        elif b == 0x80:
            n = t[i] | t[i + 1] << 8
            i += 2
            out += t[i : i + n]
            i += n
        elif b >= 0xC0:
            flags = width = prec = None
            wi = b & 0x10
            pi = b & 0x20
            if b & 1:
                flags = t[i] | t[i + 1] << 8 | t[i + 2] << 16 | t[i + 3] << 24
                i += 4
            if b & 2:
                width = t[i] | t[i + 1] << 8
                i += 2
            if b & 4:
                prec = t[i] | t[i + 1] << 8
                i += 2
            if b & 8:
                na = t[i] | t[i + 1] << 8
                i += 2
            if wi or pi:
                return None
            s = render_arg(I, args[na], flags, width, prec)
            na += 1
            if s is None:
                return None
            out += s
        else:
            return None
    return out


def rust_escape(ch, quote):
    """one character as `{:?}` shows it"""
    if ch in "\\" + quote:
        return "\\" + ch
    x = {"\n": "\\n", "\t": "\\t", "\r": "\\r", "\0": "\\0"}.get(ch)
    if x is not None:
        return x
    return ch if ch.isprintable() else "\\u{%x}" % ord(ch)


def render_arg(I, a, flags, width, prec):
    if not isinstance(a, FmtArg):
        return None
    v = strip(a.v)
    if a.kind == "display" and type(v) in (Vec, Slice) and v.s:
        s = list(seq(v))
        if any(type(x) is not int for x in s):
            return None
        s = bytes(s)
    elif a.kind == "debug" and type(v) in (Vec, Slice) and v.s:
        s = list(seq(v))
        if any(type(x) is not int for x in s):
            return None
        s = b'"' + "".join(rust_escape(x, '"') for x in bytes(s).decode("utf8")).encode() + b'"'
    elif isinstance(v, SInt) and a.kind in ("display", "debug"):
        # only the length of the text is meaningful: the longest
        ty = I.p.types[strip_ty(I, a.ty)] if a.ty is not None else None
        if ty is None or ty["k"] != "int" or not I.hooks.get("print_unknown") or v.hi() > (1 << 64) - 1:
            return None
        s = b"9" * len(str(v.hi()))
    elif type(v) is int and a.kind in ("display", "debug", "lower_hex", "upper_hex"):
        ty = I.p.types[strip_ty(I, a.ty)] if a.ty is not None else None
        if ty is not None and ty["k"] == "char":
            if a.kind not in ("display", "debug"):
                return None
            s = chr(v).encode() if a.kind == "display" else ("'" + rust_escape(chr(v), "'") + "'").encode()
        elif ty is not None and ty["k"] != "int":
            return None
        elif a.kind in ("display", "debug"):
            s = str(v).encode()
        else:
            s = (("%x" if a.kind == "lower_hex" else "%X") % v).encode()
            if flags is not None and flags >> 23 & 1:
                s = b"0x" + s
    else:
        return None
    if width is not None and len(s) < width:
        zero = flags is not None and flags >> 24 & 1
        fill = b"0" if zero else (chr(flags & 0x1FFFFF).encode() if flags is not None and flags & 0x1FFFFF else b" ")
        al = (flags >> 29) & 3 if flags is not None else 3
        pad = width - len(s)
        if zero or al == 1 or (al == 3 and type(v) is int):
            s = fill * pad + s
        elif al == 0 or al == 3:
            s = s + fill * pad
        else:
            return None
    return list(s)


@model("std::fmt::format", "std::fmt::format::format_inner")
def _(I, a, c, d):
    r = render(I, a[0]) if isinstance(a[0], Opaque) and a[0].tag == "fmt" else None
    return Opaque("string") if r is None else Vec(r, True)


@model("std::fmt::Write::write_fmt", "std::fmt::Formatter::<'a>::write_fmt")
def _(I, a, c, d):
    t = strip(a[0])
    if type(t) is Vec and t.s:
        r = render(I, a[1])
        if r is None:
            raise Undecided("write_fmt into a tracked string")
        t.f.extend(r)
    return ok(UNIT)


@model("std::fmt::Write::write_str", "std::fmt::Formatter::<'a>::write_str")
def _(I, a, c, d):
    t = strip(a[0])
    if type(t) is Vec and t.s:
        t.f.extend(seq(a[1]))
    return ok(UNIT)


@model("std::io::_print", "std::io::_eprint")
def _(I, a, c, d):
    return UNIT


@model("std::hint::must_use", "anyhow::__private::must_use", "std::hint::black_box", "std::convert::identity")
def _(I, a, c, d):
    return a[0]


@model("anyhow::__private::format_err", "anyhow::error::<impl anyhow::Error>::msg", "anyhow::error::<impl anyhow::Error>::new")
def _(I, a, c, d):
    return Opaque("anyhow", None)


@model("anyhow::__private::not")
def _(I, a, c, d):
    return not I.truth(a[0])


@model("anyhow::Context::context", "anyhow::Context::with_context")
def _(I, a, c, d):
    v = a[0]
    if I.p.types[c["self"]].get("path", "").endswith("Option"):
        return ok(v.f[0]) if v.v == 1 else err(Opaque("anyhow"))
    return v if v.v == 0 else err(Opaque("anyhow"))


# ---------------------------------------------------------------- Option / Result

O = "std::option::Option::<T>::"
R = "std::result::Result::<T, E>::"


def isopt(c):
    return "Option" in c["p"]


@model(O + "is_some", R + "is_err")
def _(I, a, c, d):
    return I.deref(a[0]).v == 1


@model(O + "is_none", R + "is_ok")
def _(I, a, c, d):
    return I.deref(a[0]).v == 0


@model(O + "is_some_and", R + "is_ok_and", O + "is_none_or")
def _(I, a, c, d):
    v = a[0]
    good = 1 if isopt(c) else 0
    if c["p"].endswith("is_none_or"):
        return True if v.v == 0 else I.call_value(a[1], [v.f[0]])
    return I.call_value(a[1], [v.f[0]]) if v.v == good else False


@model(O + "unwrap", O + "expect", O + "unwrap_unchecked")
def _(I, a, c, d):
    if a[0].v == 1:
        return a[0].f[0]
    I.panic("unwrap on None")


@model(R + "unwrap", R + "expect")
def _(I, a, c, d):
    if a[0].v == 0:
        return a[0].f[0]
    I.panic("unwrap on Err")


@model(R + "unwrap_err", R + "expect_err")
def _(I, a, c, d):
    if a[0].v == 1:
        return a[0].f[0]
    I.panic("unwrap_err on Ok")


@model(O + "unwrap_or", R + "unwrap_or")
def _(I, a, c, d):
    return a[0].f[0] if a[0].v == (1 if isopt(c) else 0) else a[1]


@model(O + "unwrap_or_else", R + "unwrap_or_else")
def _(I, a, c, d):
    if a[0].v == (1 if isopt(c) else 0):
        return a[0].f[0]
    return I.call_value(a[1], [] if isopt(c) else [a[0].f[0]])


@model(O + "unwrap_or_default", R + "unwrap_or_default")
def _(I, a, c, d):
    if a[0].v == (1 if isopt(c) else 0):
        return a[0].f[0]
    return default(I, d)


@model(O + "map", R + "map")
def _(I, a, c, d):
    g = 1 if isopt(c) else 0
    if a[0].v == g:
        return Agg("adt", d, g, [I.call_value(a[1], [a[0].f[0]])])
    return a[0]


@model(R + "map_err")
def _(I, a, c, d):
    if a[0].v == 1:
        return err(I.call_value(a[1], [a[0].f[0]]))
    return a[0]


@model(O + "map_or", R + "map_or")
def _(I, a, c, d):
    if a[0].v == (1 if isopt(c) else 0):
        return I.call_value(a[2], [a[0].f[0]])
    return a[1]


@model(O + "map_or_else", R + "map_or_else")
def _(I, a, c, d):
    if a[0].v == (1 if isopt(c) else 0):
        return I.call_value(a[2], [a[0].f[0]])
    return I.call_value(a[1], [] if isopt(c) else [a[0].f[0]])


@model(O + "and_then", R + "and_then")
def _(I, a, c, d):
    if a[0].v == (1 if isopt(c) else 0):
        return I.call_value(a[1], [a[0].f[0]])
    return a[0]


@model(O + "and", R + "and")
def _(I, a, c, d):
    return a[1] if a[0].v == (1 if isopt(c) else 0) else a[0]


@model(O + "or", R + "or")
def _(I, a, c, d):
    return a[0] if a[0].v == (1 if isopt(c) else 0) else a[1]


@model(O + "or_else", R + "or_else")
def _(I, a, c, d):
    if a[0].v == (1 if isopt(c) else 0):
        return a[0]
    return I.call_value(a[1], [] if isopt(c) else [a[0].f[0]])


@model(O + "filter")
def _(I, a, c, d):
    if a[0].v == 1 and I.truth(I.call_value(a[1], [Ref(a[0].f, 0)])):
        return a[0]
    return none()


@model(O + "xor")
def _(I, a, c, d):
    if a[0].v != a[1].v:
        return a[0] if a[0].v else a[1]
    return none()


@model(O + "zip")
def _(I, a, c, d):
    if a[0].v and a[1].v:
        return some(tup(a[0].f[0], a[1].f[0]))
    return none()


@model(O + "ok_or", O + "ok_or_else")
def _(I, a, c, d):
    if a[0].v == 1:
        return ok(a[0].f[0])
    return err(a[1] if c["p"].endswith("ok_or") else I.call_value(a[1], []))


@model(R + "ok")
def _(I, a, c, d):
    return some(a[0].f[0]) if a[0].v == 0 else none()


@model(R + "err")
def _(I, a, c, d):
    return some(a[0].f[0]) if a[0].v == 1 else none()


@model(O + "take")
def _(I, a, c, d):
    r = a[0]
    v = r.c[r.k]
    r.c[r.k] = none(v.ty)
    return v


@model(O + "replace", O + "insert", O + "get_or_insert_with", O + "get_or_insert")
def _(I, a, c, d):
    r = a[0]
    v = r.c[r.k]
    n = c["p"].rsplit("::", 1)[1]
    if n == "replace":
        r.c[r.k] = some(a[1], v.ty)
        return v
    if n == "insert" or v.v == 0:
        r.c[r.k] = some(I.call_value(a[1], []) if n == "get_or_insert_with" else a[1], v.ty)
    return Ref(r.c[r.k].f, 0)


@model(O + "as_ref", O + "as_mut", R + "as_ref", R + "as_mut")
def _(I, a, c, d):
    v = I.deref(a[0])
    if isopt(c):
        return some(Ref(v.f, 0)) if v.v == 1 else none()
    return Agg("adt", d, v.v, [Ref(v.f, 0)])


@model(O + "as_deref", O + "as_deref_mut")
def _(I, a, c, d):
    v = I.deref(a[0])
    if v.v == 0:
        return none()
    x = v.f[0]
    if type(x) is Box:
        b = x.f[0]
        return some(as_slice(b) if type(b) in (Vec, Slice) or (type(b) is Agg and b.k == "array") else Ref(x.f, 0))
    if type(x) is Vec:
        return some(as_slice(x))
    raise Undecided("as_deref")


@model("std::option::Option::<&T>::copied", "std::option::Option::<&T>::cloned", "std::option::Option::<&mut T>::copied")
def _(I, a, c, d):
    return some(vclone(I, I.deref(a[0].f[0]))) if a[0].v == 1 else none()


@model(O + "iter")
def _(I, a, c, d):
    v = I.deref(a[0])
    return ListIt([Ref(v.f, 0)] if v.v == 1 else [])


@model("std::ops::Try::branch")
def _(I, a, c, d):
    v = a[0]
    p = I.p.types[c["self"]].get("path", "")
    if p.endswith("Result"):
        return Agg("adt", d, 0, [v.f[0]]) if v.v == 0 else Agg("adt", d, 1, [err(v.f[0])])
    if p.endswith("Option"):
        return Agg("adt", d, 0, [v.f[0]]) if v.v == 1 else Agg("adt", d, 1, [none()])
    return NotImplemented


@model("std::ops::FromResidual::from_residual")
def _(I, a, c, d):
    v = a[0]
    p = I.p.types[d].get("path", "")
    if p.endswith("Result"):
        return Agg("adt", d, 1, [v.f[0]])
    if p.endswith("Option"):
        return none(d)
    return NotImplemented


@model("std::ops::Try::from_output")
def _(I, a, c, d):
    p = I.p.types[d].get("path", "")
    return Agg("adt", d, 0 if p.endswith("Result") else 1, [a[0]])


# ---------------------------------------------------------------- HashMap / HashSet


def hm_find(I, m, k):
    key = hkey(I, k)
    if key is not None:
        e = m.d.get(key)
        if e is not None:
            return e
        for kk, e in m.d.items():
            if type(kk) is tuple and kk and kk[0] == "?sym":
                if veq(I, e[0], k):
                    return e
        return None
    for kk, e in list(m.d.items()):
        if veq(I, e[0], k):
            return e
    return None


SYMCTR = [0]


def hm_put(I, m, k, v):
    key = hkey(I, k)
    if key is None:
        SYMCTR[0] += 1
        key = ("?sym", SYMCTR[0])
    e = [k, v]
    m.d[key] = e
    return e


def hm_insert(I, m, k, v):
    e = hm_find(I, m, k)
    if e is not None:
        old = e[1]
        e[1] = v
        return some(old)
    hm_put(I, m, k, v)
    return none()


def hs_insert(I, m, k):
    if hm_find(I, m, k) is not None:
        return False
    hm_put(I, m, k, UNIT)
    return True


def hm_remove(I, m, k):
    e = hm_find(I, m, k)
    if e is None:
        return None
    for kk, x in m.d.items():
        if x is e:
            del m.d[kk]
            break
    return e


HM = ["std::collections::HashMap::<K, V, S, A>::", "std::collections::HashMap::<K, V, S>::", "std::collections::HashMap::<K, V>::", "std::collections::BTreeMap::<K, V, A>::", "std::collections::BTreeMap::<K, V>::", "std::collections::HashMap::<K, V, std::hash::RandomState>::"]
HS = ["std::collections::HashSet::<T, S, A>::", "std::collections::HashSet::<T, S>::", "std::collections::HashSet::<T>::", "std::collections::BTreeSet::<T, A>::", "std::collections::BTreeSet::<T>::", "std::collections::HashSet::<T, std::hash::RandomState>::"]


@model(*alias(HM, "new"), *alias(HM, "with_capacity"))
def _(I, a, c, d):
    return HMap()


@model(*alias(HS, "new"), *alias(HS, "with_capacity"))
def _(I, a, c, d):
    return HMap(True)


@model(*alias(HM, "get"), *alias(HM, "get_mut"))
def _(I, a, c, d):
    e = hm_find(I, strip(a[0]), a[1])
    return none() if e is None else some(Ref(e, 1))


@model(*alias(HM, "get_key_value"))
def _(I, a, c, d):
    e = hm_find(I, strip(a[0]), a[1])
    return none() if e is None else some(tup(Ref(e, 0), Ref(e, 1)))


@model(*alias(HS, "get"))
def _(I, a, c, d):
    e = hm_find(I, strip(a[0]), a[1])
    return none() if e is None else some(Ref(e, 0))


@model(*alias(HM, "contains_key"), *alias(HS, "contains"))
def _(I, a, c, d):
    return hm_find(I, strip(a[0]), a[1]) is not None


@model(*alias(HM, "insert"))
def _(I, a, c, d):
    return hm_insert(I, strip(a[0]), a[1], a[2])


@model(*alias(HS, "insert"))
def _(I, a, c, d):
    return hs_insert(I, strip(a[0]), a[1])


@model(*alias(HM, "remove"))
def _(I, a, c, d):
    e = hm_remove(I, strip(a[0]), a[1])
    return none() if e is None else some(e[1])


@model(*alias(HS, "remove"))
def _(I, a, c, d):
    return hm_remove(I, strip(a[0]), a[1]) is not None


@model(*alias(HM, "len"), *alias(HS, "len"))
def _(I, a, c, d):
    m = strip(a[0])
    return len(m.d) if m.more is None else SInt(m.more, len(m.d))


@model(*alias(HM, "is_empty"), *alias(HS, "is_empty"))
def _(I, a, c, d):
    return not strip(a[0]).d


@model(*alias(HM, "clear"), *alias(HS, "clear"))
def _(I, a, c, d):
    strip(a[0]).d.clear()
    strip(a[0]).more = None
    return UNIT


@model(*alias(HM, "keys"), *alias(HS, "iter"), *alias(HM, "into_keys"))
def _(I, a, c, d):
    m = strip(a[0])
    if c["p"].endswith("into_keys"):
        return ListIt([e[0] for e in hash_items(I, m)])
    return ListIt([Ref(e, 0) for e in hash_items(I, m)])


@model(*alias(HM, "values"), *alias(HM, "values_mut"), *alias(HM, "into_values"))
def _(I, a, c, d):
    m = strip(a[0])
    if c["p"].endswith("into_values"):
        return ListIt([e[1] for e in hash_items(I, m)])
    return ListIt([Ref(e, 1) for e in hash_items(I, m)])


@model(*alias(HM, "iter"), *alias(HM, "iter_mut"))
def _(I, a, c, d):
    return ListIt([tup(Ref(e, 0), Ref(e, 1)) for e in hash_items(I, strip(a[0]))])


@model(*alias(HM, "drain"), *alias(HS, "drain"))
def _(I, a, c, d):
    m = strip(a[0])
    l = hash_items(I, m)
    m.d.clear()
    return ListIt([e[0] if m.set else tup(e[0], e[1]) for e in l])


@model(*alias(HM, "retain"))
def _(I, a, c, d):
    m = strip(a[0])
    f = [a[1]]
    for k, e in list(m.d.items()):
        if not I.truth(I.call_value(Ref(f, 0), [Ref(e, 0), Ref(e, 1)])):
            del m.d[k]
    return UNIT


class HEntry:
    __slots__ = ("m", "k", "e")

    def __init__(self, m, k, e):
        self.m = m
        self.k = k
        self.e = e


@model(*alias(HM, "entry"))
def _(I, a, c, d):
    m = strip(a[0])
    e = hm_find(I, m, a[1])
    # std Entry: Occupied = 0, Vacant = 1
    return Agg("adt", d, 0 if e is not None else 1, [HEntry(m, a[1], e)])


EN = "std::collections::hash_map::Entry::<'a, K, V, A>::"


@model(EN + "or_insert_with", EN + "or_insert", EN + "or_default", EN + "or_insert_with_key")
def _(I, a, c, d):
    h = a[0].f[0]
    if h.e is None:
        n = c["p"].rsplit("::", 1)[1]
        if n == "or_insert":
            v = a[1]
        elif n == "or_insert_with":
            v = I.call_value(a[1], [])
        elif n == "or_default":
            v = default(I, I.p.types[d]["e"])
        else:
            v = I.call_value(a[1], [Ref([h.k], 0)])
        h.e = hm_put(I, h.m, h.k, v)
    return Ref(h.e, 1)


@model(EN + "and_modify")
def _(I, a, c, d):
    h = a[0].f[0]
    if h.e is not None:
        I.call_value(a[1], [Ref(h.e, 1)])
    return a[0]


OE = "std::collections::hash_map::OccupiedEntry::<'a, K, V, A>::"
VE = "std::collections::hash_map::VacantEntry::<'a, K, V, A>::"


@model(OE + "get", OE + "get_mut", OE + "into_mut")
def _(I, a, c, d):
    h = strip(a[0])
    return Ref(h.e, 1)


@model(OE + "insert")
def _(I, a, c, d):
    h = strip(a[0])
    old = h.e[1]
    h.e[1] = a[1]
    return old


@model(OE + "key", VE + "key")
def _(I, a, c, d):
    h = strip(a[0])
    return Ref([h.k], 0)


@model(VE + "insert")
def _(I, a, c, d):
    h = strip(a[0])
    h.e = hm_put(I, h.m, h.k, a[1])
    return Ref(h.e, 1)


# ---------------------------------------------------------------- ahash / hashbrown table


@model("ahash::RandomState::new", "ahash::RandomState::with_seeds", "std::hash::RandomState::new")
def _(I, a, c, d):
    SYMCTR[0] += 1
    return Opaque("hasher", ("seeds", str(a)) if a else SYMCTR[0])


@model("ahash::RandomState::hash_one", "std::hash::BuildHasher::hash_one")
def _(I, a, c, d):
    k = hkey(I, a[1])
    h = strip(a[0])
    h = h.data if isinstance(h, Opaque) else None
    return Opaque("hash", ("h", h, k) if k is not None else None)


@model("hashbrown::HashTable::<T>::new", "hashbrown::HashTable::<T>::with_capacity")
def _(I, a, c, d):
    return Table()


def indexed(t, h):
    """entries that can have this hash value (those present are only ever added to between two calls)"""
    n, ix, loose = getattr(t, "ix", None) or (0, {}, [])
    if n > len(t.e):
        n, ix, loose = 0, {}, []
    try:
        for k in range(n, len(t.e)):
            e = t.e[k]
            if e[0].data is None:
                loose.append((k, e))
            else:
                ix.setdefault(e[0].data, []).append((k, e))
        t.ix = len(t.e), ix, loose
        l = ix.get(h, ())
    except TypeError:
        t.ix = None
        return t.e
    return [e for k, e in sorted(list(l) + loose, key=lambda x: x[0])] if loose else [e for k, e in l]


def tfind(I, t, h, eq):
    f = [eq]
    l = t.e
    if h.data is not None and not getattr(I, "collide", False) and not getattr(I, "rehash", False) and len(l) > 64:
        l = indexed(t, h.data)
    for e in l:
        # a table may present entries of other hash values to the comparison as well
        if h.data is not None and e[0].data is not None and e[0].data != h.data and not getattr(I, "collide", False):
            continue
        if I.truth(I.call_value(Ref(f, 0), [Ref(e, 1)])):
            return e
    return None


@model("hashbrown::HashTable::<T, A>::entry")
def _(I, a, c, d):
    t = strip(a[0])
    h = a[1]
    if not isinstance(h, Opaque) or h.tag != "hash":
        raise Undecided("hash value")
    e = tfind(I, t, h, a[2])
    if getattr(I, "rehash", False):
        # the table may grow at any insertion: entries are then re-hashed
        f = [a[3]]
        for x in t.e:
            x[0] = I.call_value(Ref(f, 0), [Ref(x, 1)])
    return Agg("adt", d, 0 if e is not None else 1, [(t, h, e)])


@model("hashbrown::HashTable::<T, A>::find", "hashbrown::HashTable::<T, A>::find_mut")
def _(I, a, c, d):
    t = strip(a[0])
    e = tfind(I, t, a[1], a[2])
    return none() if e is None else some(Ref(e, 1))


@model("hashbrown::HashTable::<T, A>::insert_unique")
def _(I, a, c, d):
    t = strip(a[0])
    if getattr(I, "rehash", False):
        f = [a[3]]
        for x in t.e:
            x[0] = I.call_value(Ref(f, 0), [Ref(x, 1)])
    e = [a[1], a[2]]
    t.e.append(e)
    return Opaque("occ", e)


@model("hashbrown::HashTable::<T, A>::len")
def _(I, a, c, d):
    return len(strip(a[0]).e)


@model("hashbrown::HashTable::<T, A>::clear")
def _(I, a, c, d):
    del strip(a[0]).e[:]
    strip(a[0]).ix = None
    return UNIT


@model("hashbrown::hash_table::OccupiedEntry::<'a, T, A>::get", "hashbrown::hash_table::OccupiedEntry::<'a, T, A>::into_mut", "hashbrown::hash_table::OccupiedEntry::<'a, T, A>::get_mut")
def _(I, a, c, d):
    return Ref(strip(a[0])[2], 1)


@model("hashbrown::hash_table::VacantEntry::<'a, T, A>::insert")
def _(I, a, c, d):
    t, h, _e = a[0]
    e = [h, a[1]]
    t.e.append(e)
    return Opaque("occ", e)


# ---------------------------------------------------------------- core traits


@model("std::clone::Clone::clone", S + "to_owned")
def _(I, a, c, d):
    return vclone(I, I.deref(a[0]) if type(a[0]) is Ref else a[0])


@model("std::clone::Clone::clone_from")
def _(I, a, c, d):
    a[0].c[a[0].k] = vclone(I, I.deref(a[1]))
    return UNIT


@model("std::cmp::PartialEq::eq")
def _(I, a, c, d):
    return veq(I, a[0], a[1])


@model("std::cmp::PartialEq::ne")
def _(I, a, c, d):
    # a trait default: may resolve to a hand-written eq
    return not veq(I, a[0], a[1])


for _n, _o in (("lt", lambda r: r < 0), ("le", lambda r: r <= 0), ("gt", lambda r: r > 0), ("ge", lambda r: r >= 0)):
    MODELS["std::cmp::PartialOrd::" + _n] = lambda I, a, c, d, _o=_o: _o(vcmp(I, a[0], a[1]))


@model("std::cmp::Ord::cmp")
def _(I, a, c, d):
    return Agg("adt", d, vcmp(I, a[0], a[1]) + 1, [])


@model("std::cmp::PartialOrd::partial_cmp")
def _(I, a, c, d):
    return some(Agg("adt", I.p.types[d]["args"][0], vcmp(I, a[0], a[1]) + 1, []))


CO = "std::cmp::Ordering::"


@model(CO + "reverse")
def _(I, a, c, d):
    return Agg("adt", a[0].ty, 2 - a[0].v, [])


@model(CO + "then")
def _(I, a, c, d):
    return a[1] if a[0].v == 1 else a[0]


@model(CO + "then_with")
def _(I, a, c, d):
    return I.call_value(a[1], []) if a[0].v == 1 else a[0]


for _n, _o in (("is_lt", (0,)), ("is_le", (0, 1)), ("is_gt", (2,)), ("is_ge", (1, 2)), ("is_eq", (1,)), ("is_ne", (0, 2))):
    MODELS[CO + _n] = lambda I, a, c, d, _o=_o: a[0].v in _o


@model("std::cmp::min", "std::cmp::Ord::min")
def _(I, a, c, d):
    return a[0] if vcmp(I, a[0], a[1]) <= 0 else a[1]


@model("std::cmp::max", "std::cmp::Ord::max")
def _(I, a, c, d):
    return a[1] if vcmp(I, a[0], a[1]) <= 0 else a[0]


@model("std::cmp::Ord::clamp")
def _(I, a, c, d):
    if vcmp(I, a[0], a[1]) < 0:
        return a[1]
    return a[2] if vcmp(I, a[0], a[2]) > 0 else a[0]


def default(I, tid):
    t = I.p.types[tid]
    k = t["k"]
    if k == "int":
        return 0
    if k == "bool":
        return False
    if k == "tuple":
        return Agg("tuple", None, 0, [default(I, x) for x in t["f"]])
    if k == "array":
        return Agg("array", None, 0, [default(I, t["e"]) for _ in range(t["len"])])
    p = t.get("path", "")
    if p in ("std::vec::Vec", "std::collections::VecDeque"):
        return Vec([])
    if p == "std::string::String":
        return Vec([], True)
    if p in ("std::collections::HashMap", "std::collections::BTreeMap"):
        return HMap()
    if p in ("std::collections::HashSet", "std::collections::BTreeSet"):
        return HMap(True)
    if p == "std::option::Option":
        return none(tid)
    if p in ("std::hash::RandomState", "ahash::RandomState"):
        SYMCTR[0] += 1
        return Opaque("hasher", SYMCTR[0])
    if p == "hashbrown::HashTable":
        return Table()
    if p == "std::boxed::Box":
        return Box(default(I, t["args"][0]))
    for b in I.p.d["bodies"]:
        if b["local"] and b["path"].endswith("::default") and b["argc"] == 0 and b["locals"][0] == tid:
            return I.run(b["id"], [])
    raise Undecided("default of " + t["s"])


@model("std::default::Default::default")
def _(I, a, c, d):
    t = I.p.types[d]
    if t["k"] == "adt" and t.get("local"):
        return NotImplemented
    return default(I, d)


@model("std::mem::swap")
def _(I, a, c, d):
    x, y = a
    x.c[x.k], y.c[y.k] = y.c[y.k], x.c[x.k]
    return UNIT


@model("std::mem::replace")
def _(I, a, c, d):
    x = a[0]
    old = x.c[x.k]
    x.c[x.k] = a[1]
    return old


@model("std::mem::take")
def _(I, a, c, d):
    x = a[0]
    old = x.c[x.k]
    x.c[x.k] = default(I, d)
    return old


@model("std::mem::drop", "std::mem::forget")
def _(I, a, c, d):
    return UNIT


def size_of(I, tid):
    t = I.p.types[tid]
    k = t["k"]
    if k == "int":
        return t["bits"] // 8
    if k == "bool":
        return 1
    if k == "char":
        return 4
    if k in ("ref", "ptr"):
        e = I.p.types[t["e"]]
        return 16 if e["k"] in ("slice", "str", "dyn") else 8
    if k == "tuple":
        fs = t["f"]
    elif k == "array":
        return size_of(I, t["e"]) * t["len"]
    elif k == "adt" and len(t["variants"]) == 1:
        fs = [f[1] for f in t["variants"][0]["fields"]]
    else:
        raise Undecided("size of " + t["s"])
    ss = [size_of(I, x) for x in fs]
    al = max([align_of(I, x) for x in fs] + [1])
    n = sum(ss)
    return (n + al - 1) // al * al


def align_of(I, tid):
    t = I.p.types[tid]
    k = t["k"]
    if k in ("int",):
        return t["bits"] // 8
    if k == "bool":
        return 1
    if k == "char":
        return 4
    if k == "array":
        return align_of(I, t["e"])
    if k == "tuple":
        return max([align_of(I, x) for x in t["f"]] + [1])
    if k == "adt" and len(t["variants"]) == 1:
        return max([align_of(I, f[1]) for f in t["variants"][0]["fields"]] + [1])
    return 8


@model("std::mem::size_of")
def _(I, a, c, d):
    return size_of(I, c["a"][0])


@model("std::boxed::Box::<T>::new")
def _(I, a, c, d):
    return Box(a[0])


@model("std::boxed::Box::<T>::new_uninit")
def _(I, a, c, d):
    return Box(None)


@model("std::boxed::box_assume_init_into_vec_unsafe", "std::boxed::box_assume_init_into_vec")
def _(I, a, c, d):
    v = a[0].f[0]
    # MaybeUninit / ManuallyDrop wrappers around the array
    while type(v) is Agg and v.k != "array":
        nn = [x for x in v.f if x is not None]
        if len(nn) != 1:
            raise Undecided("vec! layout")
        v = nn[0]
    if type(v) is not Agg:
        raise Undecided("vec! layout")
    return Vec(v.f)


@model("std::ops::RangeInclusive::<Idx>::new")
def _(I, a, c, d):
    return Agg("adt", d, 0, [a[0], a[1], False])


@model("std::ops::RangeInclusive::<Idx>::start", "std::ops::RangeInclusive::<Idx>::end")
def _(I, a, c, d):
    v = I.deref(a[0])
    return Ref(v.f, 0 if c["p"].endswith("start") else 1)


@model("std::ops::RangeInclusive::<Idx>::contains", "std::ops::Range::<Idx>::contains")
def _(I, a, c, d):
    v = I.deref(a[0])
    if vcmp(I, v.f[0], a[1]) > 0:
        return False
    r = vcmp(I, a[1], v.f[1])
    return r <= 0 if "Inclusive" in c["p"] else r < 0


@model("std::ops::Range::<Idx>::is_empty")
def _(I, a, c, d):
    v = I.deref(a[0])
    return vcmp(I, v.f[0], v.f[1]) >= 0


@model("std::convert::TryInto::try_into", "std::convert::TryFrom::try_from")
def _(I, a, c, d):
    rt = I.p.types[d]
    t = I.p.types[rt["args"][0]]
    v = a[0]
    if t["k"] == "int":
        lo, hi = (0, MASK[t["bits"]]) if not t["signed"] else (-(1 << (t["bits"] - 1)), (1 << (t["bits"] - 1)) - 1)
        if isinstance(v, SInt):
            if not (I.ctx.cmp_int("Le", v, hi) and I.ctx.cmp_int("Ge", v, lo)):
                return err(Opaque("tryfromint"))
            return ok(v)
        v = I.concretize(v)
        return ok(v) if lo <= v <= hi else err(Opaque("tryfromint"))
    if t["k"] == "array":
        l = seq(v)
        if len(l) != t["len"]:
            return err(v)
        return ok(Agg("array", None, 0, [vclone(I, x) for x in l]))
    return NotImplemented


@model("std::intrinsics::cold_path", "std::intrinsics::assert_inhabited")
def _(I, a, c, d):
    return UNIT


# ---------------------------------------------------------------- integers

INTS = ["u8", "u16", "u32", "u64", "u128", "usize", "i8", "i16", "i32", "i64", "i128", "isize"]


def tyof(name):
    b = 64 if name.endswith("size") else int(name[1:])
    return {"k": "int", "bits": b, "signed": name[0] == "i", "s": name}


def _intmodel(ty, n):
    p = "std::num::<impl %s>::" % n
    lo, hi = (0, MASK[ty["bits"]]) if not ty["signed"] else (-(1 << (ty["bits"] - 1)), (1 << (ty["bits"] - 1)) - 1)

    def ov(I, op, x, y):
        r = binop(I, op + "WithOverflow", x, y, ty)
        return r.f[0], r.f[1]

    def sat(op):
        def f(I, a, c, d):
            x, y = a
            if isinstance(x, SInt) and op == "Sub" and not ty["signed"]:
                y = I.concretize(y) if isinstance(y, SInt) and not (y.a is x.a) else y
                if I.ctx.cmp_int("Lt", x, y):
                    return 0
                return binop(I, "Sub", x, y, ty)
            if isinstance(x, SInt) and op == "Add":
                y = I.concretize(y)
                if I.ctx.cmp_int("Gt", x, hi - y):
                    return hi
                return binop(I, "Add", x, y, ty)
            if op == "Sub" and isinstance(y, SInt):
                y = I.concretize(y)
            if not isinstance(x, int) or not isinstance(y, int):
                x, y = I.concretize(x), I.concretize(y)
            r = x + y if op == "Add" else (x - y if op == "Sub" else x * y)
            return max(lo, min(hi, r))

        return f

    MODELS[p + "saturating_sub"] = sat("Sub")
    MODELS[p + "saturating_add"] = sat("Add")
    MODELS[p + "saturating_mul"] = sat("Mul")

    for op in ("Add", "Sub", "Mul"):
        MODELS[p + "wrapping_" + op.lower()] = lambda I, a, c, d, op=op: ov(I, op, a[0], a[1])[0]
        MODELS[p + "overflowing_" + op.lower()] = lambda I, a, c, d, op=op: tup(*ov(I, op, a[0], a[1]))

        def chk(I, a, c, d, op=op):
            r, o = ov(I, op, a[0], a[1])
            return none() if o else some(r)

        MODELS[p + "checked_" + op.lower()] = chk

    def cdiv(I, a, c, d):
        x, y = I.concretize(a[0]), I.concretize(a[1])
        if y == 0:
            return none()
        return some(conc_bin(I, "Div" if "div" in c["p"] else "Rem", x, y, ty))

    MODELS[p + "checked_div"] = cdiv
    MODELS[p + "checked_rem"] = cdiv

    def divc(I, a, c, d):
        x, y = I.concretize(a[0]), I.concretize(a[1])
        if y == 0:
            I.panic("division by zero")
        return -(-x // y)

    MODELS[p + "div_ceil"] = divc

    def nmo(I, a, c, d):
        x, y = I.concretize(a[0]), I.concretize(a[1])
        return -(-x // y) * y

    MODELS[p + "next_multiple_of"] = nmo

    def absd(I, a, c, d):
        return abs(I.concretize(a[0]) - I.concretize(a[1]))

    MODELS[p + "abs_diff"] = absd

    def pw(I, a, c, d):
        r = I.concretize(a[0]) ** I.concretize(a[1])
        if r > hi:
            I.panic("pow overflow")
        return r

    MODELS[p + "pow"] = pw

    def cnt(I, a, c, d):
        x = a[0]
        if isinstance(x, ShiftedWord):
            x = x.w
        if isinstance(x, Word):
            return PopCount((x,), 0)
        x = I.concretize(x) & MASK[ty["bits"]]
        return bin(x).count("1")

    MODELS[p + "count_ones"] = cnt

    def cntz(I, a, c, d):
        x = a[0]
        if isinstance(x, Word):
            full = MASK[ty["bits"]]
            return PopCount((w_norm(Word(x.vars, tuple(full & ~t for t in x.tab), x.bits)),), 0)
        return ty["bits"] - bin(x & MASK[ty["bits"]]).count("1")

    MODELS[p + "count_zeros"] = cntz

    def tz(I, a, c, d):
        x = a[0]
        if isinstance(x, Word):
            # find lowest set lane, splitting lane by lane
            for l in range(x.bits):
                if lane_truth(I, x, l):
                    return l
            return x.bits
        x &= MASK[ty["bits"]]
        return (x & -x).bit_length() - 1 if x else ty["bits"]

    MODELS[p + "trailing_zeros"] = tz

    def lz(I, a, c, d):
        x = I.concretize(a[0]) & MASK[ty["bits"]]
        return ty["bits"] - x.bit_length()

    MODELS[p + "leading_zeros"] = lz

    def ispow2(I, a, c, d):
        x = a[0]
        if isinstance(x, Word):
            return I.ctx.decide_pop(PopCount((x,), 0), "Eq", 1)
        return x > 0 and x & (x - 1) == 0

    MODELS[p + "is_power_of_two"] = ispow2

    def shl(I, a, c, d):
        return binop(I, "Shl" if c["p"].endswith("shl") else "Shr", a[0], a[1], ty)

    MODELS[p + "wrapping_shl"] = shl
    MODELS[p + "wrapping_shr"] = shl

    def toasc(I, a, c, d):
        x = I.concretize(strip(a[0]))
        ch = chr(x) if x < 128 else None
        if ch is None:
            return x
        return ord(ch.upper() if "upper" in c["p"] else ch.lower())

    if n == "u8":
        for nm, fn in (
            ("is_ascii", lambda x: x < 128),
            ("is_ascii_control", lambda x: x < 32 or x == 127),
            ("is_ascii_digit", lambda x: 48 <= x <= 57),
            ("is_ascii_alphabetic", lambda x: chr(x).isalpha() and x < 128),
            ("is_ascii_alphanumeric", lambda x: x < 128 and chr(x).isalnum()),
            ("is_ascii_graphic", lambda x: 33 <= x <= 126),
            ("is_ascii_hexdigit", lambda x: x < 128 and chr(x) in "0123456789abcdefABCDEF"),
            ("is_ascii_punctuation", lambda x: 33 <= x <= 126 and not chr(x).isalnum()),
            ("is_ascii_whitespace", lambda x: x in (32, 9, 10, 12, 13)),
            ("is_ascii_uppercase", lambda x: 65 <= x <= 90),
            ("is_ascii_lowercase", lambda x: 97 <= x <= 122),
        ):
            MODELS[p + nm] = lambda I, a, c, d, fn=fn: fn(I.concretize(strip(a[0])))
        MODELS[p + "to_ascii_uppercase"] = toasc
        MODELS[p + "to_ascii_lowercase"] = toasc


for _n in INTS:
    _intmodel(tyof(_n), _n)


def lane_truth(I, w, lane):
    """decide one lane of a word"""
    if not isinstance(w, Word):
        return bool(w >> lane & 1)
    m = 1 << lane
    c0, c1 = I.ctx.lane_feasible(w, 1)
    if not c1 & m:
        return False
    if not c0 & m:
        return True
    if I.ctx.choose(2, "lane") == 0:
        I.ctx.assume_lanes(w, m, 1)
        I.ctx.check_pop()
        return True
    I.ctx.assume_lanes(w, m, 0)
    I.ctx.check_pop()
    return False


@model("std::ops::BitAnd::bitand", "std::ops::BitOr::bitor", "std::ops::BitXor::bitxor", "std::ops::Add::add", "std::ops::Sub::sub", "std::ops::Shl::shl", "std::ops::Shr::shr", "std::ops::Mul::mul")
def _(I, a, c, d):
    x, y = strip(a[0]), strip(a[1])
    t = I.p.types[d]
    if t["k"] not in ("int", "bool"):
        return NotImplemented
    n = c["p"].rsplit("::", 1)[1]
    op = {"bitand": "BitAnd", "bitor": "BitOr", "bitxor": "BitXor", "add": "Add", "sub": "Sub", "shl": "Shl", "shr": "Shr", "mul": "Mul"}[n]
    if op in ("Add", "Sub", "Mul"):
        r = binop(I, op + "WithOverflow", x, y, t)
        if r.f[1]:
            I.panic("overflow")
        return r.f[0]
    return binop(I, op, x, y, t)


@model(*["std::ops::%sAssign::%s_assign" % (x, y) for x, y in (("BitAnd", "bitand"), ("BitOr", "bitor"), ("BitXor", "bitxor"), ("Add", "add"), ("Sub", "sub"))])
def _(I, a, c, d):
    r = a[0]
    x, y = r.c[r.k], strip(a[1])
    if not isinstance(x, (int, Word, SInt, PopCount)) or not isinstance(y, (int, Word, SInt, PopCount)):
        if type(x) is Vec and x.s:
            x.f.extend(seq(y))
            return UNIT
        return NotImplemented
    n = c["p"].rsplit("::", 1)[1][:-7]
    t = I.p.types[strip_ty(I, c["self"])]
    op = {"bitand": "BitAnd", "bitor": "BitOr", "bitxor": "BitXor", "add": "Add", "sub": "Sub"}[n]
    if op in ("Add", "Sub"):
        q = binop(I, op + "WithOverflow", x, y, t)
        if q.f[1]:
            I.panic("overflow")
        r.c[r.k] = q.f[0]
    else:
        r.c[r.k] = binop(I, op, x, y, t)
    return UNIT


@model("std::ops::Not::not")
def _(I, a, c, d):
    from interp import unop

    x = strip(a[0])
    if I.p.types[d]["k"] not in ("int", "bool"):
        return NotImplemented
    return unop(I, "Not", x, I.p.types[d])


# ---------------------------------------------------------------- panics


@model(
    "std::panicking::panic",
    "std::panicking::panic_fmt",
    "std::panicking::panic_default_msg",
    "std::panicking::unreachable_default_msg",
    "std::panicking::unreachable_display",
    "std::panicking::panic_display",
    "std::panicking::panic_explicit",
    "std::panicking::panic_str_2015",
    "std::panicking::assert_failed",
    "std::panicking::panic_bounds_check",
    "std::rt::begin_panic",
    "std::option::unwrap_failed",
    "std::option::expect_failed",
    "std::result::unwrap_failed",
    "std::panicking::panic_nounwind",
)
def _(I, a, c, d):
    m = c["p"]
    if a:
        x = strip(a[0])
        if type(x) is Slice:
            m += ": " + bytes(x.items()).decode("utf8", "replace")
        elif isinstance(x, Opaque) and x.tag == "fmt":
            if x.data.get("args") is None:
                m += ": " + bytes(x.data["lit"]).decode("utf8", "replace")
    I.panic(m)


# ---------------------------------------------------------------- regex_syntax

PB = "regex_syntax::ParserBuilder::"


@model(PB + "new", "regex_syntax::Parser::new")
def _(I, a, c, d):
    return Opaque("parserbuilder" if "Builder" in c["p"] else "parser", {})


@model(PB + "build")
def _(I, a, c, d):
    return Opaque("parser", dict(strip(a[0]).data))


def _pbopt(n):
    def f(I, a, c, d):
        strip(a[0]).data[n] = a[1]
        return a[0]

    return f


for _n in ("unicode", "utf8", "ignore_whitespace", "case_insensitive", "dot_matches_new_line", "multi_line", "crlf", "swap_greed", "nest_limit", "octal", "line_terminator"):
    MODELS[PB + _n] = _pbopt(_n)


@model("regex_syntax::Parser::parse")
def _(I, a, c, d):
    h = I.hooks.get("parse")
    if h:
        return h(I, strip(a[0]), a[1])
    raise Undecided("regex_syntax::Parser::parse")


@model("regex_syntax::hir::Hir::kind")
def _(I, a, c, d):
    v = strip(a[0])
    if isinstance(v, Opaque) and v.tag == "hir":
        return Ref(v.data, 0)
    raise Undecided("Hir::kind")


@model("regex_syntax::hir::Hir::into_kind")
def _(I, a, c, d):
    v = strip(a[0])
    return v.data[0]


@model("regex_syntax::hir::HirKind::subs")
def _(I, a, c, d):
    k = strip(a[0])
    n = I.p.types[k.ty]["variants"][k.v]["name"]
    if n in ("Concat", "Alternation"):
        return Slice(k.f[0].f, 0, len(k.f[0].f))
    if n in ("Repetition", "Capture"):
        st = k.f[0]
        t = I.p.types[st.ty]
        for i, fl in enumerate(t["variants"][0]["fields"]):
            if fl[0] == "sub":
                b = st.f[i]
                return Slice(b.f, 0, 1)
        raise Undecided("subs")
    return Slice([], 0, 0)


@model("regex_syntax::hir::ClassUnicode::ranges", "regex_syntax::hir::ClassBytes::ranges")
def _(I, a, c, d):
    v = strip(a[0])
    return Slice(v.data, 0, len(v.data))


@model("regex_syntax::hir::ClassUnicode::iter", "regex_syntax::hir::ClassBytes::iter")
def _(I, a, c, d):
    v = strip(a[0])
    return MODELS["std::slice::<impl [T]>::iter"](I, [Slice(v.data, 0, len(v.data))], c, d)


@model(*["regex_syntax::hir::Class%sRange::%s" % (x, y) for x in ("Unicode", "Bytes") for y in ("start", "end")])
def _(I, a, c, d):
    v = strip(a[0])
    return v.data[0 if c["p"].endswith("start") else 1]


@model("regex_syntax::utf8::Utf8Sequences::new")
def _(I, a, c, d):
    h = I.hooks.get("utf8seqs")
    if h:
        return h(I, a[0], a[1])
    raise Undecided("Utf8Sequences")


def model_paths():
    return sorted(MODELS)


if __name__ == "__main__":
    print("\n".join(model_paths()))
