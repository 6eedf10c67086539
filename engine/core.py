"""Abstract interpreter core: values, abstract domains, trace partitioning, MIR transfer functions.

The program analysed is the monomorphised MIR of /repo's library, extracted by driver/driver.rs.
Nothing of it is compiled or run: each MIR statement is a transfer function over abstract values.
Undecided branch conditions split the abstract trace (both sides are explored, the condition is
recorded as a refinement); anything outside the domains aborts the trace as `Undecided`, which is
never reported as a violation.
"""
import time
import sys

sys.setrecursionlimit(20000)


class Undecided(Exception):
    """The abstract domain cannot represent what the code does on this trace."""


class Infeasible(Exception):
    """The current trace has contradictory refinements."""


class Panic(Exception):
    """Every concretisation of this trace reaches a panic."""

    def __init__(self, msg, where):
        Exception.__init__(self, msg)
        self.msg = msg
        self.where = where


class NotMine(Exception):
    """trace belongs to another slice of the same job"""


class Budget(Undecided):
    pass


# ---------------------------------------------------------------- values


class Agg:
    """struct / enum variant / tuple / array / closure"""

    __slots__ = ("k", "ty", "v", "f")

    def __init__(self, k, ty, v, f):
        self.k = k
        self.ty = ty
        self.v = v
        self.f = f

    def __repr__(self):
        return "%s%s%s" % (self.k, "" if self.v in (None, 0) else "#%d" % self.v, self.f)


class Vec:
    __slots__ = ("f", "s")

    def __init__(self, f, s=False):
        self.f = f
        self.s = s  # is a String

    def __repr__(self):
        if self.s:
            try:
                return repr(bytes(self.f).decode("utf8", "replace"))
            except Exception:
                pass
        return "Vec%s" % (self.f,)


class Box:
    __slots__ = ("f",)

    def __init__(self, v):
        self.f = [v]

    def __repr__(self):
        return "Box(%r)" % self.f[0]


class Ref:
    __slots__ = ("c", "k")

    def __init__(self, c, k):
        self.c = c
        self.k = k

    def __repr__(self):
        try:
            return "&%r" % (self.c[self.k],)
        except Exception:
            return "&?"


class Slice:
    """&[T] or &str"""

    __slots__ = ("c", "a", "n", "s")

    def __init__(self, c, a, n, s=False):
        self.c = c
        self.a = a
        self.n = n
        self.s = s

    def items(self):
        return self.c[self.a : self.a + self.n]

    def __repr__(self):
        if self.s:
            try:
                return "&" + repr(bytes(self.items()).decode("utf8", "replace"))
            except Exception:
                pass
        return "&%r" % (self.items(),)


class Fn:
    """a function item used as a value"""

    __slots__ = ("callee",)

    def __init__(self, callee):
        self.callee = callee


PERSIST = [False]


class HMap:
    """more: number of entries that are not looked at (a table that has been used before)"""

    __slots__ = ("d", "set", "more")

    def __init__(self, isset=False):
        self.d = {}
        self.set = isset
        self.more = Atom("entries", 0, 1 << 40) if PERSIST[0] else None

    def __repr__(self):
        return "HMap%r" % (list(self.d.values()),)


class Opaque:
    """a value of an external type about which nothing is known"""

    __slots__ = ("tag", "data")

    def __init__(self, tag, data=None):
        self.tag = tag
        self.data = data

    def __repr__(self):
        return "<%s>" % self.tag


UNIT = Agg("tuple", None, 0, [])


def tup(*a):
    return Agg("tuple", None, 0, list(a))


NONE_V = 0
SOME_V = 1


def none(ty=None):
    return Agg("adt", ty, 0, [])


def some(v, ty=None):
    return Agg("adt", ty, 1, [v])


def ok(v, ty=None):
    return Agg("adt", ty, 0, [v])


def err(v, ty=None):
    return Agg("adt", ty, 1, [v])


def opt(v):
    return none() if v is STOP else some(v)


STOP = object()


# ---------------------------------------------------------------- symbolic integers


class Atom:
    """unknown integer with an interval"""

    __slots__ = ("name", "lo", "hi", "vals")

    def __init__(self, name, lo, hi):
        self.name = name
        self.lo = lo
        self.hi = hi

    def __repr__(self):
        return "%s[%d..%d]" % (self.name, self.lo, self.hi)


class SInt:
    __slots__ = ("a", "o")

    def __init__(self, a, o=0):
        self.a = a
        self.o = o

    def lo(self):
        return self.a.lo + self.o

    def hi(self):
        return self.a.hi + self.o

    def __repr__(self):
        return "%s%+d" % (self.a.name, self.o) if self.o else self.a.name


class Word:
    """Machine word as a vector of lanes; each lane is a Boolean function of membership variables.
    vars: sorted tuple of LaneVar; tab[m] = word value on the lanes whose variables take minterm m."""

    __slots__ = ("vars", "tab", "bits")

    def __init__(self, vars, tab, bits):
        self.vars = vars
        self.tab = tab
        self.bits = bits

    def __repr__(self):
        return "W(%s)" % ",".join(
            "%s:%x" % ("".join(v.name if m >> i & 1 else "!" + v.name for i, v in enumerate(self.vars)), t)
            for m, t in enumerate(self.tab)
        )


class LaneVar:
    """one unknown 32-bit (or 64-bit) vector of membership bits"""

    __slots__ = ("name", "idx", "bits")
    counter = [0]

    def __init__(self, name, bits=32):
        LaneVar.counter[0] += 1
        self.idx = LaneVar.counter[0]
        self.name = name
        self.bits = bits

    def __lt__(self, o):
        return self.idx < o.idx

    def __repr__(self):
        return self.name


def word_var(v):
    m = (1 << v.bits) - 1
    return Word((v,), (0, m), v.bits)


def w_align(a, vars, bits):
    if not isinstance(a, Word):
        return [a] * (1 << len(vars))
    if a.vars == vars:
        return a.tab
    pos = [vars.index(v) for v in a.vars]
    out = []
    for m in range(1 << len(vars)):
        k = 0
        for i, p in enumerate(pos):
            k |= ((m >> p) & 1) << i
        out.append(a.tab[k])
    return out


def w_norm(w):
    """drop variables the word does not depend on; plain int when constant"""
    vars, tab = w.vars, list(w.tab)
    i = 0
    while i < len(vars):
        same = all(tab[m] == tab[m | (1 << i)] for m in range(len(tab)) if not m >> i & 1)
        if same:
            nt = []
            for m in range(len(tab) // 2):
                lowm = m & ((1 << i) - 1)
                high = (m >> i) << (i + 1)
                nt.append(tab[high | lowm])
            tab = nt
            vars = vars[:i] + vars[i + 1 :]
        else:
            i += 1
    if not vars:
        return tab[0]
    return Word(tuple(vars), tuple(tab), w.bits)


def w_op(f, a, b, bits):
    va = a.vars if isinstance(a, Word) else ()
    vb = b.vars if isinstance(b, Word) else ()
    vars = tuple(sorted(set(va) | set(vb)))
    if len(vars) > 10:
        raise Undecided("too many lane variables")
    ta = w_align(a, vars, bits)
    tb = w_align(b, vars, bits)
    return w_norm(Word(vars, tuple(f(x, y) for x, y in zip(ta, tb)), bits))


class PopCount:
    """symbolic sum of population counts of words, plus a constant"""

    __slots__ = ("ws", "c")

    def __init__(self, ws, c):
        self.ws = ws
        self.c = c

    def __repr__(self):
        return "popcount%r+%d" % (self.ws, self.c)


class SBool:
    """unused placeholder kept for isinstance checks"""


# ---------------------------------------------------------------- trace partitioning


class Ctx:
    def __init__(self, decisions, budget=3_000_000):
        self.dec = decisions
        self.pos = 0
        self.labels = []
        self.steps = 0
        self.budget = budget
        # lane refinements: list of (word, 0) meaning every lane of word is 0
        self.feas = {}  # vars tuple -> per-minterm mask of feasible lanes
        self.ones = []  # PopCount facts: [words], 'eq1' / 'ge2' / 'ge1'
        self.rels = []  # (op, SInt, SInt) facts
        self.split = None

    def choose(self, n, label=""):
        if n <= 0:
            raise Infeasible()
        if n == 1:
            return 0
        if self.pos < len(self.dec):
            d = self.dec[self.pos][0]
        else:
            d = 0
            self.dec.append([0, n])
        self.pos += 1
        self.labels.append("%s=%d/%d" % (label, d, n))
        if self.split and self.pos == 4:
            h = 0
            for x in self.dec[:4]:
                h = h * 31 + x[0]
            if h % self.split[1] != self.split[0]:
                raise NotMine()
        return d

    # ---- lanes
    def lane_feasible(self, w, val):
        """(some concretisation has lane bit set) per lane: returns (can0, can1) lane masks for word w"""
        full = (1 << w.bits) - 1
        can1 = 0
        can0 = 0
        f = self.feas_for(w.vars, w.bits)
        for m, t in enumerate(w.tab):
            can1 |= t & f[m]
            can0 |= (full & ~t) & f[m]
        return can0, can1

    def feas_for(self, vars, bits):
        full = (1 << bits) - 1
        f = [full] * (1 << len(vars))
        for fv, ft in self.feas.items():
            if set(fv) & set(vars):
                if set(fv) <= set(vars):
                    pos = [vars.index(v) for v in fv]
                    for m in range(len(f)):
                        k = 0
                        for i, p in enumerate(pos):
                            k |= ((m >> p) & 1) << i
                        f[m] &= ft[k]
                else:
                    # project: minterm feasible on a lane if some extension is
                    allv = tuple(sorted(set(fv) | set(vars)))
                    posf = [allv.index(v) for v in fv]
                    posv = [allv.index(v) for v in vars]
                    g = [0] * len(f)
                    for m in range(1 << len(allv)):
                        k = 0
                        for i, p in enumerate(posf):
                            k |= ((m >> p) & 1) << i
                        j = 0
                        for i, p in enumerate(posv):
                            j |= ((m >> p) & 1) << i
                        g[j] |= ft[k]
                    for m in range(len(f)):
                        f[m] &= g[m]
        return f

    def assume_lanes(self, w, mask, val):
        """assume that on lanes in `mask` word w has bit `val`"""
        if not isinstance(w, Word):
            want = mask if val else 0
            if (w & mask) != want:
                raise Infeasible()
            return
        # merge with overlapping facts to stay relational
        vars = set(w.vars)
        changed = True
        while changed:
            changed = False
            for fv in list(self.feas):
                if set(fv) & vars and not set(fv) <= vars:
                    vars |= set(fv)
                    changed = True
        vars = tuple(sorted(vars))
        if len(vars) > 10:
            raise Undecided("too many related lane variables")
        f = self.feas_for(vars, w.bits)
        for fv in list(self.feas):
            if set(fv) <= set(vars):
                del self.feas[fv]
        ta = w_align(w, vars, w.bits)
        full = (1 << w.bits) - 1
        for m in range(len(f)):
            bad = (~ta[m] & full if val else ta[m]) & mask
            f[m] &= ~bad
        for lane in range(w.bits):
            if not any(x >> lane & 1 for x in f):
                raise Infeasible()
        self.feas[vars] = f

    def check_pop(self):
        """propagate popcount facts"""
        changed = True
        while changed:
            changed = False
            for ws, kind in self.ones:
                must = 0
                may = []
                for i, w in enumerate(ws):
                    if isinstance(w, Word):
                        c0, c1 = self.lane_feasible(w, 1)
                        for lane in range(w.bits):
                            if c1 >> lane & 1:
                                if not c0 >> lane & 1:
                                    must += 1
                                else:
                                    may.append((w, lane))
                    else:
                        must += bin(w).count("1")
                if kind == "eq1":
                    if must > 1 or must + len(may) < 1:
                        raise Infeasible()
                    if must == 1 and may:
                        for w, lane in may:
                            self.assume_lanes(w, 1 << lane, 0)
                        changed = True
                    elif must == 0 and len(may) == 1:
                        self.assume_lanes(may[0][0], 1 << may[0][1], 1)
                        changed = True
                elif kind == "ge2":
                    if must + len(may) < 2:
                        raise Infeasible()
                    if must + len(may) == 2 and may:
                        for w, lane in may:
                            self.assume_lanes(w, 1 << lane, 1)
                        changed = True
                elif kind == "ge1":
                    if must + len(may) < 1:
                        raise Infeasible()
                    if must == 0 and len(may) == 1:
                        self.assume_lanes(may[0][0], 1 << may[0][1], 1)
                        changed = True

    def word_is_zero(self, w):
        """decide w == 0, splitting when both are possible"""
        if not isinstance(w, Word):
            return w == 0
        c0, c1 = self.lane_feasible(w, 1)
        if c1 == 0:
            return True
        full = (1 << w.bits) - 1
        if c0 != full:
            return False
        if self.choose(2, "zero?") == 0:
            self.assume_lanes(w, full, 0)
            self.check_pop()
            return True
        if bin(c1).count("1") == 1:
            self.assume_lanes(w, c1, 1)
        else:
            self.ones.append(((w,), "ge1"))
        self.check_pop()
        return False

    def decide_pop(self, p, op, k):
        """popcount comparison p op k"""
        k = k - p.c
        lo = hi = 0
        for w in p.ws:
            if isinstance(w, Word):
                c0, c1 = self.lane_feasible(w, 1)
                hi += bin(c1).count("1")
                lo += bin(c1 & ~c0).count("1")
            else:
                n = bin(w).count("1")
                lo += n
                hi += n
        for ws, kind in self.ones:
            if set(map(id, ws)) == set(map(id, p.ws)):
                if kind == "eq1":
                    lo = max(lo, 1)
                    hi = min(hi, 1)
                elif kind == "ge2":
                    lo = max(lo, 2)
                elif kind == "ge1":
                    lo = max(lo, 1)
        # classes 0, 1, >=2
        classes = []
        if lo <= 0 <= hi:
            classes.append(0)
        if lo <= 1 <= hi:
            classes.append(1)
        if hi >= 2:
            classes.append(2)

        def truth(c):
            if c == 2:
                if op == "Eq":
                    return False if k < 2 else None
                if op == "Ne":
                    return True if k < 2 else None
                if op == "Gt":
                    return True if k < 2 else None
                if op == "Ge":
                    return True if k <= 2 else None
                if op == "Lt":
                    return False if k <= 2 else None
                if op == "Le":
                    return False if k < 2 else None
            return {"Eq": c == k, "Ne": c != k, "Gt": c > k, "Ge": c >= k, "Lt": c < k, "Le": c <= k}[op]

        ts = {truth(c) for c in classes}
        if None in ts:
            raise Undecided("popcount compared with %d" % k)
        if len(ts) == 1:
            return ts.pop()
        c = classes[self.choose(len(classes), "count")]
        if c == 0:
            for w in p.ws:
                self.assume_lanes(w, (1 << 64) - 1 if not isinstance(w, Word) else (1 << w.bits) - 1, 0)
        else:
            self.ones.append((tuple(p.ws), "eq1" if c == 1 else "ge2"))
        self.check_pop()
        return truth(c)

    # ---- symbolic ints
    def cmp_int(self, op, a, b):
        """decide a op b for SInt/int operands, refining intervals"""
        if isinstance(a, SInt) and isinstance(b, SInt):
            if a.a is b.a:
                return _cmp(op, a.o, b.o)
            if a.a.lo == a.a.hi:
                return self.cmp_int(op, a.a.lo + a.o, b)
            if b.a.lo == b.a.hi:
                return self.cmp_int(op, a, b.a.lo + b.o)
            r = self._iv(op, a.lo(), a.hi(), b.lo(), b.hi())
            if r is not None:
                return r
            for rop, x, y in self.rels:
                # facts are about atoms: x.a + x.o  rop  y.a + y.o
                if x.a is a.a and y.a is b.a:
                    r = _implied(rop, y.o - x.o, op, b.o - a.o)
                    if r is not None:
                        return r
                if x.a is b.a and y.a is a.a:
                    r = _implied(_flip(rop), x.o - y.o, op, b.o - a.o)
                    if r is not None:
                        return r
            if self.choose(2, "rel") == 0:
                self._relate(op, a, b)
                return True
            self._relate(_neg(op), a, b)
            return False
        if isinstance(b, SInt):
            return self.cmp_int(_flip(op), b, a)
        if not isinstance(a, SInt):
            return _cmp(op, a, b)
        r = self._iv(op, a.lo(), a.hi(), b, b)
        if r is not None:
            return r
        c = b - a.o
        at = a.a
        # split the interval
        if op in ("Eq", "Ne"):
            if c == at.lo or c == at.hi:
                parts = [(c, c), (at.lo + 1, at.hi) if c == at.lo else (at.lo, at.hi - 1)]
            else:
                parts = [(c, c), (at.lo, c - 1), (c + 1, at.hi)]
            i = self.choose(len(parts), at.name)
            at.lo, at.hi = parts[i]
            self._tighten()
            return (i == 0) == (op == "Eq")
        if op == "Lt":
            t, f = (at.lo, c - 1), (c, at.hi)
        elif op == "Le":
            t, f = (at.lo, c), (c + 1, at.hi)
        elif op == "Gt":
            t, f = (c + 1, at.hi), (at.lo, c)
        else:
            t, f = (c, at.hi), (at.lo, c - 1)
        if self.choose(2, at.name) == 0:
            at.lo, at.hi = t
            self._tighten()
            return True
        at.lo, at.hi = f
        self._tighten()
        return False

    def _relate(self, op, a, b):
        """add a fact and what it gives with another one about the same difference"""
        for rop, x, y in list(self.rels):
            if x.a is b.a and y.a is a.a:
                rop, x, y = _flip(rop), y, x
            if x.a is a.a and y.a is b.a and x.o - y.o == a.o - b.o:
                k = {rop, op}
                for two, one in (({"Ge", "Ne"}, "Gt"), ({"Le", "Ne"}, "Lt"), ({"Le", "Ge"}, "Eq")):
                    if k == two:
                        self.rels.append((one, a, b))
        self.rels.append((op, a, b))
        self._tighten()

    def _tighten(self):
        for _ in range(4):
            for op, x, y in self.rels:
                if op == "Le" or op == "Lt":
                    d = 1 if op == "Lt" else 0
                    x.a.hi = min(x.a.hi, y.a.hi + y.o - x.o - d)
                    y.a.lo = max(y.a.lo, x.a.lo + x.o - y.o + d)
                elif op == "Ge" or op == "Gt":
                    d = 1 if op == "Gt" else 0
                    y.a.hi = min(y.a.hi, x.a.hi + x.o - y.o - d)
                    x.a.lo = max(x.a.lo, y.a.lo + y.o - x.o + d)
                elif op == "Eq":
                    d = y.o - x.o
                    lo = max(x.a.lo, y.a.lo + d)
                    hi = min(x.a.hi, y.a.hi + d)
                    x.a.lo, x.a.hi = lo, hi
                    y.a.lo, y.a.hi = lo - d, hi - d
                if x.a.lo > x.a.hi or y.a.lo > y.a.hi:
                    raise Infeasible()

    @staticmethod
    def _iv(op, al, ah, bl, bh):
        if op == "Lt":
            if ah < bl:
                return True
            if al >= bh:
                return False
        elif op == "Le":
            if ah <= bl:
                return True
            if al > bh:
                return False
        elif op == "Gt":
            if al > bh:
                return True
            if ah <= bl:
                return False
        elif op == "Ge":
            if al >= bh:
                return True
            if ah < bl:
                return False
        elif op in ("Eq", "Ne"):
            r = None
            if ah < bl or al > bh:
                r = False
            elif al == ah == bl == bh:
                r = True
            if r is not None:
                return r if op == "Eq" else not r
        return None


def _cmp(op, a, b):
    return {"Eq": a == b, "Ne": a != b, "Lt": a < b, "Le": a <= b, "Gt": a > b, "Ge": a >= b}[op]


def _neg(op):
    return {"Eq": "Ne", "Ne": "Eq", "Lt": "Ge", "Ge": "Lt", "Gt": "Le", "Le": "Gt"}[op]


def _flip(op):
    return {"Eq": "Eq", "Ne": "Ne", "Lt": "Gt", "Gt": "Lt", "Le": "Ge", "Ge": "Le"}[op]


def _implied(rop, rd, op, d):
    """fact: X rop Y+rd ; query: X op Y+d"""
    if rop in ("Lt", "Le"):
        m = rd - (1 if rop == "Lt" else 0)  # X <= Y+m
        if op == "Le" and d >= m:
            return True
        if op == "Lt" and d > m:
            return True
        if op == "Gt" and d >= m:
            return False
        if op == "Ge" and d > m:
            return False
        if op == "Eq" and d > m:
            return False
        if op == "Ne" and d > m:
            return True
    elif rop in ("Gt", "Ge"):
        m = rd + (1 if rop == "Gt" else 0)  # X >= Y+m
        if op == "Ge" and d <= m:
            return True
        if op == "Gt" and d < m:
            return True
        if op == "Lt" and d <= m:
            return False
        if op == "Le" and d < m:
            return False
        if op == "Eq" and d < m:
            return False
        if op == "Ne" and d < m:
            return True
    elif rop == "Eq":
        return _cmp(op, rd, d)
    elif rop == "Ne":
        if op == "Eq" and rd == d:
            return False
        if op == "Ne" and rd == d:
            return True
    return None


def explore(fn, limit=200000, budget=3_000_000, split=None, deadline=None):
    """run fn(ctx) over every trace; yields (ctx, outcome) with outcome = fn's value or exception"""
    dec = []
    n = 0
    while True:
        n += 1
        ctx = Ctx(dec, budget)
        ctx.split = split
        try:
            out = fn(ctx)
        except NotMine as e:
            out = e
            n -= 1
        except (Undecided, Infeasible, Panic) as e:
            out = e
        if type(out) is not NotMine:
            yield ctx, out
        del dec[ctx.pos :]
        while dec and dec[-1][0] + 1 >= dec[-1][1]:
            dec.pop()
        if not dec:
            return
        dec[-1][0] += 1
        if n >= limit or (deadline is not None and time.time() > deadline):
            yield None, Undecided("trace limit")
            return
