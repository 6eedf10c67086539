"""Reference semantics: languages over k=3 letters observed on all words of length <= 3 (40-bit masks).

den = (mask, tail, ne): exact membership of the short words; tail: 0 no longer words, 1 all longer
words, 2 unknown; ne: language non-empty (True/False/None unknown).
"""
import random

K = 3
N = 3
OFF = [0]
for _l in range(N + 2):
    OFF.append(OFF[-1] + K**_l)
SIZE = OFF[N + 1]
FULL = (1 << SIZE) - 1
BLK = [(1 << (K**l)) - 1 for l in range(N + 1)]
WORDS = []


def _mk():
    for l in range(N + 1):
        for v in range(K**l):
            w = []
            x = v
            for _ in range(l):
                w.append(x % K)
                x //= K
            WORDS.append(tuple(reversed(w)))


_mk()
IDX = {w: i for i, w in enumerate(WORDS)}
LEN = [len(w) for w in WORDS]
VAL = [i - OFF[len(w)] for i, w in enumerate(WORDS)]
LMASK = [0] * (N + 1)
for _i, _w in enumerate(WORDS):
    LMASK[len(_w)] |= 1 << _i
UPTO = [0] * (N + 1)
for _l in range(N + 1):
    UPTO[_l] = (UPTO[_l - 1] if _l else 0) | LMASK[_l]
EXT = [0] * SIZE  # EXT[w] = all words having w as a prefix
for _i, _w in enumerate(WORDS):
    for _p in range(len(_w) + 1):
        EXT[IDX[_w[:_p]]] |= 1 << _i


def bits(m):
    while m:
        b = m & -m
        yield b.bit_length() - 1
        m ^= b


def maxlen(m):
    for l in range(N, -1, -1):
        if m & LMASK[l]:
            return l
    return -1


def D(mask, tail=0, ne=None):
    if mask:
        ne = True
    elif tail == 1:
        ne = True
    elif tail == 0:
        ne = False
    return (mask, tail, ne)


EMPTYSET = D(0, 0)
EPS = D(1, 0)
ALL = D(FULL, 1)
PLUS = D(FULL & ~1, 1)
SIGMA = D(LMASK[1], 0)


def letters(s):
    return D(sum(1 << (1 + b) for b in s), 0)


def union(ds):
    m, t, ne = 0, 0, False
    for d in ds:
        m |= d[0]
        t = 1 if (t == 1 or d[1] == 1) else (2 if t == 2 or d[1] == 2 else 0)
        if d[2]:
            ne = True
        elif d[2] is None and ne is False:
            ne = None
    return D(m, t, ne)


def inter(ds):
    m, t = FULL, 1
    ne = None
    for d in ds:
        m &= d[0]
        t = 0 if (t == 0 or d[1] == 0) else (2 if t == 2 or d[1] == 2 else 1)
        if d[2] is False:
            ne = False
    if ne is False:
        return EMPTYSET
    return D(m, t, None)


def compl(d):
    return D(FULL & ~d[0], {0: 1, 1: 0, 2: 2}[d[1]], None)


def cat2(a, b):
    r = 0
    bm = b[0]
    for u in bits(a[0]):
        l = LEN[u]
        v = VAL[u]
        for m in range(N - l + 1):
            blk = (bm >> OFF[m]) & BLK[m]
            if blk:
                r |= blk << (OFF[l + m] + v * K**m)
    if a[2] is False or b[2] is False:
        return EMPTYSET
    ne = True if a[2] and b[2] else None
    if a[1] == 0 and b[1] == 0 and maxlen(a[0]) + maxlen(bm) <= N:
        t = 0
    elif (a[1] == 1 and b[0] & 1) or (b[1] == 1 and a[0] & 1):
        t = 1
    else:
        t = 2
    return D(r, t, ne)


def cat(ds):
    r = EPS
    for d in ds:
        r = cat2(r, d)
    return r


def repeat(d, mn, mx):
    """mx = 0xFFFFFFFF: unbounded"""
    lo = min(mn, N + 1)
    hi = min(mx, N + 1)
    p = EPS
    r = 0
    for i in range(hi + 1):
        if i >= lo:
            r |= p[0]
        if i < hi:
            p = (cat2(p, d)[0], 2, None)
    if mn == 0:
        ne = True
    elif mx == 0 or mn > mx:
        ne = mn == 0
    else:
        ne = d[2]
    if d[2] is False:
        return EPS if mn == 0 else EMPTYSET
    if d[0] == 1 and d[1] == 0:
        return EPS
    if d[1] == 0 and mx * max(maxlen(d[0]), 0) <= N:
        t = 0
    elif d[1] == 1 and mn <= 1 and mx >= 1:
        t = 1
    elif mx == 0xFFFFFFFF and mn <= N + 1 and (d[0] & LMASK[1]) == LMASK[1]:
        t = 1
    else:
        t = 2
    if t == 0:
        return D(r, 0)
    return (r, t, True if r or t == 1 else ne)


def prefixes(d):
    if d[2] is False:
        return EMPTYSET
    if d[1] == 1:
        return ALL
    r = 0
    m = d[0]
    for i in range(SIZE):
        if EXT[i] & m:
            r |= 1 << i
    if d[1] == 2:
        return None
    return D(r, 0)


def short(d):
    """words with no proper prefix in the language"""
    m = d[0]
    r = m
    for i in bits(m):
        r &= ~(EXT[i] & ~(1 << i))
    if m & 1:
        return EPS
    if d[1] == 0:
        return D(r, 0)
    if m == 0 and d[2] is False:
        return EMPTYSET
    return (r, 2, True if r else d[2])


def deriv(d, a):
    """exact for words up to length N-1"""
    r = 0
    m = d[0]
    for l in range(N):
        blk = (m >> (OFF[l + 1] + a * K**l)) & BLK[l]
        r |= blk << OFF[l]
    if d[1] == 0:
        return D(r, 0)
    if d[1] == 1:
        return (r | LMASK[N], 1, True)
    return (r, 2, True if r else None)


def closed(m):
    """prefix-closed?"""
    for i in bits(m):
        w = WORDS[i]
        if w and not m >> IDX[w[:-1]] & 1:
            return False
    return True


def wstr(i):
    w = WORDS[i]
    return '"' + "".join("abc"[x] for x in w) + '"'


# ---------------------------------------------------------------- pool of leaf languages


def make_pool(rng, extra=60):
    P = [EMPTYSET, EPS, ALL, PLUS, SIGMA, letters([0]), letters([1]), letters([2]), letters([0, 1]), D(1 | 1 << 1), D(1 | 1 << 2)]
    st = lambda s: D(sum(1 << i for i, w in enumerate(WORDS) if all(x in s for x in w)), 0)
    P += [st([0]), st([0, 1]), D(st([0])[0] & ~1), D(FULL & ~st([0])[0], 1), D(FULL, 0), D(0, 1), D(1, 1), D(LMASK[2], 0), D(1 | LMASK[2], 0)]
    P += [D(1 << IDX[(0, 1)]), D(1 << IDX[(1, 0)]), D(1 << IDX[(0, 0, 1)] | 1 << IDX[(1,)]), D(1 << IDX[(2, 1, 0)])]
    for i in range(extra):
        k = i % 4
        m = rng.getrandbits(SIZE)
        if k == 1:
            m &= rng.getrandbits(SIZE)
        elif k == 2:
            m &= rng.getrandbits(SIZE) & rng.getrandbits(SIZE)
        elif k == 3:
            m |= rng.getrandbits(SIZE)
        P.append(D(m, 1 if rng.random() < 0.3 else 0))
    seen = set()
    return [x for x in P if not (x in seen or seen.add(x))]


class Pools:
    def __init__(self, seed):
        self.rng = random.Random(seed)
        self.all = make_pool(self.rng)
        self.by = {}

    def pick(self, null, pos, rng, prefix_closed=False):
        k = (null, pos, prefix_closed)
        l = self.by.get(k)
        if l is None:
            l = [
                d
                for d in self.all
                if (null is None or bool(d[0] & 1) == null) and (not pos or d[2]) and (not prefix_closed or (closed(d[0]) and (d[1] == 0 or d[0] == FULL)))
            ]
            if prefix_closed:
                for i in range(40):
                    x = prefixes((rng.getrandbits(SIZE) & rng.getrandbits(SIZE) & rng.getrandbits(SIZE), 0, None))
                    if x and (null is None or bool(x[0] & 1) == null) and (not pos or x[2]):
                        l.append(x)
            self.by[k] = l
        if not l:
            return None
        # special languages half of the time
        if rng.random() < 0.5:
            return l[rng.randrange(min(len(l), 14))]
        return l[rng.randrange(len(l))]


class Assign:
    """one choice of languages for the leaves and integers of a trace; evaluates nodes"""

    def __init__(self, uni, pools, rng, views):
        self.uni = uni
        self.pools = pools
        self.rng = rng
        self.views = views
        self.memo = {}
        self.atoms = {}
        self.bad = False
        rels = uni.I.ctx.rels
        if rels:
            for _ in range(60):
                self.atoms = {}
                if all(_cmp(op, self.int(x), self.int(y)) for op, x, y in rels):
                    break
            else:
                self.bad = True
        self.flags = {}
        if not self.bad:
            self.complete_flags()

    def complete_flags(self):
        """choose the undecided flags of children so that they agree with their parents"""
        u = self.uni
        par = [n for n in u.nodes.values() if n.kids is not None]
        if not par:
            return
        trail = []
        from core import Infeasible

        try:
            for n in par:
                for k in n.kids:
                    c = u.nodes.get(k)
                    if c is None or c.kids is not None:
                        continue
                    for w in ("null", "pos"):
                        if getattr(c, w) is None:
                            v = self.rng.random() < 0.5
                            if not u.try_flag(c, w, v):
                                v = not v
                            u.assign_flag(c, w, v, trail)
            for n in u.nodes.values():
                self.flags[n.id] = (n.null, n.pos)
        except Infeasible:
            self.bad = True
        finally:
            for m, w in trail:
                setattr(m, w, None)

    near = ()

    def int(self, x):
        if isinstance(x, int):
            return x
        a = x.a
        v = self.atoms.get(a)
        if v is None:
            c = [a.lo, a.hi, min(a.lo + 1, a.hi), min(a.lo + 2, a.hi), max(a.hi - 1, a.lo), min(a.lo + 3, a.hi)]
            if a.hi - a.lo > 8:
                c.append(self.rng.randrange(a.lo, a.hi + 1))
                c.append(min(a.hi, self.rng.randrange(a.lo, a.lo + 6)))
            v = c[self.rng.randrange(len(c))]
            self.atoms[a] = v
        return v + x.o

    def den(self, i):
        d = self.memo.get(i)
        if d is None:
            d = self._den(i)
            if d is None:
                raise Skip()
            self.memo[i] = d
        return d

    def _den(self, i):
        if i == 1:
            return EPS
        if i == 2:
            return EMPTYSET
        if i == 4:
            return ALL
        if i == 5:
            return PLUS
        n = self.uni.nodes.get(i)
        if n is not None and n.kids is None:
            if n.sem is not None and n.sem[0] != "mk":
                return self.sem(n.sem)
            return self.leafden(n)
        v = self.views.get(i)
        if v is None:
            v = self.views[i] = self.uni.view(i)
        t, kids, ints = v[0], v[1], v[2]
        # what such a node does, whatever it was built for
        if t == "Repeat" and self.int(ints[1]) == 0:
            # one round less than none is none: the derivative never leaves it
            return self.op(t, [self.den(kids[0])], [0, 0xFFFFFFFF])
        if t == "Lookahead" and kids[0] != 1:
            d = self.den(kids[0])
            if self.has_empty(d):
                # only the empty operand ends it
                return d
        return self.op(t, [self.den(k) for k in kids] if t not in ("Byte", "ByteSet") else None, ints)

    def has_empty(self, d):
        return d[0] & 1

    def op(self, t, ds, ints):
        if t == "EmptyString":
            return EPS
        if t == "NoMatch":
            return EMPTYSET
        if t == "Byte":
            return letters([ints[0]])
        if t == "ByteSet":
            return letters([b for b in range(K) if ints[0] >> b & 1])
        if t == "Or":
            return union(ds)
        if t == "And":
            return inter(ds)
        if t == "Concat":
            return cat(ds)
        if t == "Not":
            return compl(ds[0])
        if t == "Prefixes":
            return prefixes(ds[0])
        if t == "Repeat":
            return repeat(ds[0], self.int(ints[0]), self.int(ints[1]))
        if t == "Lookahead":
            return short(ds[0])
        raise Skip()

    def sem(self, s):
        op = s[0]
        if op == "deriv":
            return deriv(self.den(s[1][0]), s[1][1])
        return self.op(op, [self.den(k) for k in s[1]], s[2] if len(s) > 2 else [])

    def leafden(self, n):
        rng = self.rng
        null, pos = self.flags.get(n.id) or (n.null, n.pos)
        gen = [t for t in n.tags if t in ("Or", "Concat", "And", "Not")]
        if gen:
            if not any(t in ("Or", "Concat") for t in gen):
                if null is None:
                    null = pos
                # And/Not: positive iff nullable
            return self.pools.pick(null, pos, rng)
        t = n.tags[rng.randrange(len(n.tags))]
        if t == "Prefixes":
            if null is False or pos is False:
                return EMPTYSET  # consistent only for an empty operand, see known finding
            return self.pools.pick(True if (null or pos) else None, None, rng, True)
        if t == "Lookahead":
            if null:
                return EPS
            d = self.pools.pick(False if (null is False or pos is False) else None, pos, rng)
            return short(d) if d else None
        if t == "Repeat":
            mn, mx = rng.choice([(0, 1), (0, 0xFFFFFFFF), (0, 2), (2, 2), (2, 3), (1, 0xFFFFFFFF), (2, 0xFFFFFFFF), (1, 3)])
            if null is True and mn != 0:
                mn = 0
            if null is False or pos is False:
                if mn == 0:
                    mn, mx = 2, 3
                d = self.pools.pick(False, pos, rng)
            elif mn == 0:
                d = self.pools.pick(None, None, rng)
            else:
                d = self.pools.pick(False, pos, rng)
            if d is None:
                return None
            return repeat(d, mn, mx)
        return None


INF = 1 << 64


def iv(xs):
    """normal form of a union of closed intervals of lengths"""
    xs = sorted((a, min(b, INF)) for a, b in xs if a <= b)
    out = []
    for a, b in xs:
        if out and a <= out[-1][1] + 1:
            out[-1] = (out[-1][0], max(out[-1][1], b))
        else:
            out.append((a, b))
    if len(out) > 40:
        raise Skip()
    return tuple(out)


def iv_compl(x):
    out, p = [], 0
    for a, b in x:
        if p < a:
            out.append((p, a - 1))
        p = b + 1
    if p <= INF:
        out.append((p, INF))
    return iv(out)


def iv_inter(x, y):
    return iv([(max(a, c), min(b, d)) for a, b in x for c, d in y])


def iv_deriv(x):
    return iv([(max(a, 1) - 1, b if b == INF else b - 1) for a, b in x if b >= 1])


class UAssign(Assign):
    """the same, over the one-letter alphabet: a language is a set of lengths, exact at any length"""

    def _den(self, i):
        c = {1: ((0, 0),), 2: (), 3: ((1, 1),), 4: ((0, INF),), 5: ((1, INF),)}.get(i)
        if c is not None:
            return c
        return Assign._den(self, i)

    def has_empty(self, d):
        return bool(d) and d[0][0] == 0

    def op(self, t, ds, ints):
        if t == "EmptyString":
            return ((0, 0),)
        if t == "NoMatch":
            return ()
        if t == "Byte":
            return ((1, 1),) if ints[0] == 0 else ()
        if t == "ByteSet":
            return ((1, 1),) if ints[0] & 1 else ()
        if t == "Or":
            return iv([x for d in ds for x in d])
        if t == "And":
            r = ((0, INF),)
            for d in ds:
                r = iv_inter(r, d)
            return r
        if t == "Not":
            return iv_compl(ds[0])
        if t == "Concat":
            r = ((0, 0),)
            for d in ds:
                r = iv([(a + c, INF if b == INF or e == INF else b + e) for a, b in r for c, e in d])
            return r
        if t == "Prefixes":
            return ((0, ds[0][-1][1]),) if ds[0] else ()
        if t == "Repeat":
            m, n = self.int(ints[0]), self.int(ints[1])
            if n == 0xFFFFFFFF:
                n = INF
            d = ds[0]
            if n == 0:
                return ((0, 0),)
            if not d:
                return ((0, 0),) if m == 0 else ()
            if d == ((0, 0),):
                return ((0, 0),)
            if len(d) == 1 and d[0][0] == 0:
                return ((0, INF if INF in (n, d[0][1]) else n * d[0][1]),)
            if len(d) == 1 and d[0][0] == 1:
                # [1,h]^k = [k, kh]
                h = d[0][1]
                return iv(([(0, 0)] if m == 0 else []) + [(max(m, 1), INF if INF in (n, h) else n * h)])
            raise Skip()
        raise Skip()

    def sem(self, s):
        if s[0] == "deriv":
            d = self.den(s[1][0])
            return iv_deriv(d) if s[1][1] == 0 else ()
        return self.op(s[0], [self.den(k) for k in s[1]], s[2] if len(s) > 2 else [])

    def leafden(self, n):
        null, pos = self.flags.get(n.id) or (n.null, n.pos)
        if null is None and all(t in ("And", "Not", "Prefixes") for t in n.tags):
            null = pos
        if pos is False and null is None:
            null = False
        if not any(t in ("Or", "And", "Concat", "Not", "Repeat") for t in n.tags):
            if n.tags != ("Prefixes",) and n.tags != ["Prefixes"]:
                raise Skip()
            return () if null is False else self.rng.choice([((0, 1),), ((0, INF),), ((0, 0),)])
        c = []
        if null is not False:
            c += [((0, 1),), ((0, INF),), ((0, 0),)]
        if null is not True:
            c += [((1, 1),)] * 3 + [((1, INF),), ((1, 2),)]
            if not pos:
                c.append(())
        return self.rng.choice(c)


class Skip(Exception):
    pass


def _cmp(op, a, b):
    return {"Eq": a == b, "Ne": a != b, "Lt": a < b, "Le": a <= b, "Gt": a > b, "Ge": a >= b}[op]
