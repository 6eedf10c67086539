"""The lazily built automaton over an abstract derivative graph: states, answers, dead state, export"""
from framework import *
from g_mk import no
from g_next import nb_name

W = "Regex"
MAXFUEL = (1 << 64) - 1


STD = (97, 98, 99, 122)


def alpha_template(env, ab=STD):
    """the alphabet of a regex that tells 'a', {'b','c'} and the rest apart, as the code computes it"""
    a = env.__dict__.setdefault("_alpha", {}).get(ab)
    if a is None:
        I = env.interp(Ctx([]))
        es = [I.call_path("ExprSet::new", 256)]

        def c(n, *x):
            return I.call_path("ExprSet::mk_" + n, Ref(es, 0), *x)

        w = [0] * 8
        for b in ab[1:3]:
            w[b // 32] |= 1 << (b % 32)
        s = c("byte_set", Slice(w, 0, 8))
        e = c("concat", Vec([c("byte", ab[0]), s]))
        rl = [e]
        out = I.call_path("AlphabetInfo::from_exprset", Ref(es, 0), Slice(rl, 0, 1))
        al = [out.f[0]]
        mp = [I.call_path("AlphabetInfo::map", Ref(al, 0), b) for b in range(256)]
        n = I.call_path("AlphabetInfo::len", Ref(al, 0))
        a = env._alpha[ab] = (out.f[0], mp, n)
    return a


def any_arity(u, n, t, lf):
    """the automaton does not look at the structure of a regex; if it does, there are any number of parts"""
    if t not in ("Or", "And", "Concat"):
        return None
    k = (2, 3, 20)[u.I.ctx.choose(3, n.name + ".parts")]
    no_ = (t, "Lookahead") + (("Concat",) if t == "Concat" else ())
    l = [lf(no_, "k%d" % i) for i in range(k)]
    return (l if t == "Concat" else sorted(l)), []


class Auto:
    def __init__(self, env, I, nmax, fail=False, dead=True, bytes=STD):
        self.I = I
        self.ctx = I.ctx
        al, self.mp, self.n = alpha_template(env, bytes)
        if self.n != 3:
            raise Undecided("alphabet of the sample regex")
        T = env.template(3)
        u = self.u = Uni(I, T, True, 1)
        u.kid_gen = any_arity
        self.P = env.P
        self.nmax = nmax
        self.ids = []
        self.d = {}
        self.verd = {}
        self.nb = {}
        self.lk = {}
        self.fail = fail
        self.allow_dead = dead
        self.failed = False
        top = self.node()
        nbt = None
        for t, x in enumerate(env.P.types):
            if x["k"] == "adt" and (x.get("path") or "").endswith("::NextByte"):
                nbt = t
        if nbt is None:
            raise Undecided("no type NextByte")
        self.nbt = nbt
        vs = [v["name"] for v in env.P.types[nbt]["variants"]]
        H = I.hooks

        def from_es(I, body, a):
            l = seq(a[1])
            if len(l) != 1 or strip(l[0]).f[0] != top:
                raise Undecided("several regexes")
            return tup(vclone(I, al), u.es, Vec([u.ref(top)]))

        def deriv(I, body, a):
            if not u.mine(a[1]):
                return NotImplemented
            self.ncalls += 1
            return u.ref(self.succ(strip(a[2]).f[0], a[3]))

        def ne(I, body, a):
            if not u.mine(a[1]):
                return NotImplemented
            self.ncalls += 1
            return self.alive(strip(a[2]).f[0])

        def nel(I, body, a):
            if not u.mine(a[1]):
                return NotImplemented
            if a[3] != MAXFUEL and self.fail and self.ctx.choose(2, "fuel") == 1:
                self.failed = True
                return err(Opaque("error", None), None)
            return ok(self.alive(strip(a[2]).f[0]), None)

        def nexb(I, body, a):
            if not u.mine(a[1]):
                return NotImplemented
            self.ncalls += 1
            name, b = self.next(strip(a[2]).f[0])
            return Agg("adt", nbt, vs.index(name), [b] if b is not None else [])

        def lklen(I, body, a):
            if not u.mine(a[0]):
                return NotImplemented
            self.ncalls += 1
            v = self.look(strip(a[1]).f[0])
            return none() if v is None else some(v)

        need(env.P, "AlphabetInfo::from_exprset", "DerivCache::derivative", "RelevanceCache::is_non_empty", "RelevanceCache::is_non_empty_limited", "NextByteCache::next_byte", "ExprSet::lookahead_len", "Regex::new_with_exprset", "Regex::transition")
        H["AlphabetInfo::from_exprset"] = from_es
        H["DerivCache::derivative"] = deriv
        H["RelevanceCache::is_non_empty"] = ne
        H["RelevanceCache::is_non_empty_limited"] = nel
        H["NextByteCache::next_byte"] = nexb
        H["ExprSet::lookahead_len"] = lklen
        self.top = top
        self.other, self.forks = None, []
        self.ncalls = 0
        self.state = {}  # node -> StateID value
        self.node_of = {}

    def node(self):
        n = self.u.leaf([20, 12, 28, 8, 33][len(self.ids)], no("Prefixes"), "n%d" % len(self.ids), 0)
        self.ids.append(n.id)
        return n.id

    # the abstract graph, decided on demand
    def succ(self, e, s):
        if not isinstance(s, int):
            raise Undecided("symbol")
        if e == NO_MATCH:
            return NO_MATCH
        k = (e, s)
        if k not in self.d:
            if not 0 <= s < 3:
                self.bad = ("derivative by something that is not a symbol", s)
                return NO_MATCH
            opts = list(self.ids) + [NO_MATCH] + ([None] if len(self.ids) < self.nmax else [])
            x = opts[self.ctx.choose(len(opts), "%s by %d" % (self.u.nodes[e].name, s))]
            self.d[k] = self.node() if x is None else x
        return self.d[k]

    bad = None

    def alive(self, e):
        if e == NO_MATCH:
            return False
        n = self.u.nodes[e]
        if e not in self.verd:
            if n.pos or n.null or not self.allow_dead:
                v = True
            else:
                v = self.ctx.choose(2, "alive " + n.name) == 0
            self.verd[e] = v
            if not v:
                self.u.assign_flag(n, "pos", False, [])
        return self.verd[e]

    def next(self, e):
        if e not in self.nb:
            self.nb[e] = [("Dead", None), ("ForcedEOI", None), ("ForcedByte", self.mp[97]), ("ForcedByte", self.mp[98]), ("SomeBytes", None)][self.ctx.choose(5, "next " + self.u.nodes[e].name)]
        return self.nb[e]

    def look(self, e):
        if e not in self.lk:
            self.lk[e] = [None, 0, 2][self.ctx.choose(3, "length " + self.u.nodes[e].name)]
        return self.lk[e]

    # ---- the automaton under analysis
    def build(self, fuel):
        PERSIST[0] = True
        try:
            r = self.I.call_path("Regex::new_with_exprset", self.u.exprs, self.u.ref(self.top), fuel)
        finally:
            PERSIST[0] = False
        if self.P.types[r.ty]["variants"][r.v]["name"] != "Ok" if r.ty is not None and self.P.types[r.ty]["k"] == "adt" else r.v != 0:
            return None
        self.rx = [r.f[0]]
        return self.rx

    def call(self, m, *a):
        return self.I.call_path("Regex::" + m, Ref(self.rx, 0), *a)

    def sid(self, v):
        return Agg("adt", self.sty, 0, [v])

    def note(self, s):
        self.sty = s.ty
        return s.f[0]


class Checker:
    def __init__(self, A, res):
        self.A, self.res = A, res
        self.log = []
        self.ok = True

    def fail(self, rule, what, detail=""):
        A = self.A
        if self.ok:
            g = ", ".join("%s-%d->%s" % (A.u.nodes[e].name, s, A.u.nodes[x].name if x in A.u.nodes else "NO_MATCH") for (e, s), x in list(A.d.items())[:12])
            dead = [A.u.nodes[e].name for e, v in A.verd.items() if not v]
            self.res.violate(rule, self.where, what, "%s; queries: %s; graph %s; empty: %s; nullable %s" % (detail, ", ".join(self.log), g, dead, [A.u.nodes[e].name for e in A.ids[:12] if A.u.nodes[e].null]))
        self.ok = False

    where = "Regex"

    def name(self, v):
        if v == self.DEAD:
            return "DEAD"
        e = self.A.node_of.get(v)
        return "[%s]" % self.A.u.nodes[e].name if e is not None else "?%d" % v

    DEAD, MISSING = 0, 2

    def expect_state(self, v, e, what):
        """v must be the state of node e"""
        A = self.A
        if e == NO_MATCH or not A.alive(e):
            if v != self.DEAD:
                self.fail("dfa.dead", what + " is not the dead state although nothing can match", "state %s" % v)
            return
        if v == self.DEAD:
            self.fail("dfa.dead", what + " is the dead state although a match is possible", "")
            return
        if v == self.MISSING:
            self.fail("dfa.state", what + " is not a state", "")
            return
        if e in A.state:
            if A.state[e] != v:
                self.fail("dfa.state", what + " is another state than before", "%s, before %s" % (v, A.state[e]))
        elif v in A.node_of:
            self.fail("dfa.state", what + " is the state of a different regex", self.name(v))
        else:
            A.state[e] = v
            A.node_of[v] = e

    # queries
    def initial(self):
        self.log.append("initial")
        self.where = "Regex::initial_state"
        s = self.A.note(self.A.call("initial_state"))
        self.expect_state(s, self.A.top, "the initial state")
        return s

    def node(self, v):
        return NO_MATCH if v == self.DEAD else self.A.node_of[v]

    def transition(self, v, b):
        A = self.A
        self.log.append("%s by %r" % (self.name(v), chr(b)))
        self.where = "Regex::transition"
        r = A.note(A.call("transition", A.sid(v), b))
        if A.bad:
            self.fail("dfa.state", A.bad[0], A.bad[1])
            return None
        if v == self.MISSING:
            e = NO_MATCH
        else:
            e = A.succ(self.node(v), A.mp[b]) if v != self.DEAD else NO_MATCH
        self.expect_state(r, e, "the transition")
        return r

    def expected_len(self, e):
        A = self.A
        if e == NO_MATCH or not A.u.null(e):
            return None
        l = A.look(e)
        return 0 if l is None else l

    def opt(self, r):
        return strip(r.f[0]) if r.v == 1 else None

    def length(self, v):
        A = self.A
        self.log.append("length %s" % self.name(v))
        self.where = "Regex::lookahead_len_for_state"
        r = self.opt(A.call("lookahead_len_for_state", A.sid(v)))
        e = NO_MATCH if v in (self.DEAD, self.MISSING) else self.node(v)
        x = self.expected_len(e)
        if r != x:
            self.fail("dfa.length", "wrong length or acceptance of a state", "%s: %s instead of %s" % (self.name(v), r, x))

    def accepting(self, v):
        A = self.A
        self.log.append("accepting %s" % self.name(v))
        self.where = "Regex::is_accepting"
        r = A.I.truth(A.call("is_accepting", A.sid(v)))
        e = NO_MATCH if v in (self.DEAD, self.MISSING) else self.node(v)
        x = e != NO_MATCH and A.u.null(e)
        if r != x:
            self.fail("dfa.length", "wrong acceptance of a state", "%s: %s" % (self.name(v), r))

    def nextb(self, v):
        A = self.A
        self.log.append("next %s" % self.name(v))
        self.where = "Regex::next_byte"
        r = A.call("next_byte", A.sid(v))
        n = nb_name(A.P, r)
        b = strip(r.f[0]) if n == "ForcedByte" else None
        prev = self.nbs.setdefault(v, (n, b))
        if prev != (n, b):
            self.fail("dfa.answer", "the next byte of a state changed", "%s, before %s" % ((n, b), prev))
        if v in (self.DEAD, self.MISSING):
            if n not in ("Dead", "SomeBytes"):
                self.fail("dfa.next", "a next byte is reported for the dead state", n)
            return
        if n == "SomeBytes":
            return
        en, es = A.next(self.node(v))
        good = en == "Dead" or (n == "ForcedEOI" and en == "ForcedEOI")
        if n == "ForcedByte" and en == "ForcedByte":
            good = [x for x in range(256) if A.mp[x] == es] == [b]
        if n == "Dead":
            good = en == "Dead"
        if not good:
            self.fail("dfa.next", "the forced next byte is not forced", "%s: %s %s although the regex says %s %s" % (self.name(v), n, b, en, es))

    def text(self, t, which):
        A = self.A
        self.log.append("%s %r" % (which, bytes(t)))
        self.where = "Regex::" + which
        e = A.top
        sl = list(t)
        r = A.call(which, Slice(sl, 0, len(sl)))
        if not A.alive(e):
            e = NO_MATCH
        for b in t:
            e = A.succ(e, A.mp[b]) if e != NO_MATCH else NO_MATCH
            if e != NO_MATCH and not A.alive(e):
                e = NO_MATCH
        x = self.expected_len(e)
        if which == "is_match_bytes":
            if A.I.truth(r) != (x is not None):
                self.fail("dfa.match", "wrong match verdict", "%s" % (x is None))
        else:
            r = self.opt(r)
            if r != x:
                self.fail("dfa.match", "wrong match length", "%s instead of %s" % (r, x))

    def always(self):
        self.log.append("always_empty")
        self.where = "Regex::always_empty"
        r = self.A.I.truth(self.A.call("always_empty"))
        if r != (not self.A.alive(self.A.top)):
            self.fail("dfa.dead", "wrong answer to being always empty", str(r))

    def steps(self, v, t):
        A = self.A
        self.log.append("%s by %r" % (self.name(v), bytes(t)))
        self.where = "Regex::transition_bytes"
        sl = list(t)
        r = A.note(A.call("transition_bytes", A.sid(v), Slice(sl, 0, len(sl))))
        e = self.node(v)
        for b in t:
            e = A.succ(e, A.mp[b]) if e != NO_MATCH else NO_MATCH
            if e != NO_MATCH and not A.alive(e):
                e = NO_MATCH
        self.expect_state(r, e, "the state after several bytes")
        return r


def dfa_job(nmax, script, fail=False, dead=True):
    """script: list of lists of query kinds to choose from"""

    def run(env, res, split, job):
        need(env.P, "Regex::new_with_exprset", "Regex::transition", "Regex::initial_state", "Regex::is_accepting", "Regex::lookahead_len_for_state", "Regex::next_byte")

        def f(I, ctx):
            A = Auto(env, I, nmax, fail, dead)
            C = Checker(A, res)
            C.nbs = {}
            if A.build(10 if fail else MAXFUEL) is None:
                if not A.failed:
                    C.fail("dfa.new", "construction fails without reason")
                else:
                    res.ok("dfa")
                return
            if A.failed:
                C.fail("dfa.new", "construction succeeds although the emptiness check ran out of fuel")
                return
            known = [C.initial()]
            for opts in script:
                if not C.ok:
                    return
                k = opts[ctx.choose(len(opts), "query")] if len(opts) > 1 else opts[0]
                if k in ("t", "l", "a", "n", "T"):
                    cand = sorted(set(known))
                    v = cand[ctx.choose(len(cand), "state")]
                if k == "t":
                    r = C.transition(v, [97, 98, 99, 122][ctx.choose(4, "byte")])
                    if r is not None:
                        known.append(r)
                elif k == "t2":
                    r = C.transition(known[-1], [97, 98][ctx.choose(2, "byte")])
                    if r is not None:
                        known.append(r)
                elif k == "tm":
                    C.transition([C.DEAD, C.MISSING][ctx.choose(2, "state")], [97, 122][ctx.choose(2, "byte")])
                elif k == "l":
                    C.length(v)
                elif k == "lm":
                    C.length([C.DEAD, C.MISSING][ctx.choose(2, "state")])
                elif k == "a":
                    C.accepting(v)
                elif k == "n":
                    C.nextb(v)
                elif k == "nm":
                    C.nextb([C.DEAD, C.MISSING][ctx.choose(2, "state")])
                elif k == "i":
                    known.append(C.initial())
                elif k == "e":
                    C.always()
                elif k == "C":
                    # go on with a clone, or with the other of the two
                    if A.other is None:
                        A.other = ([vclone(I, A.rx[0])], dict(A.state), dict(A.node_of), list(known), dict(C.nbs))
                        es = [x for x in A.other[0][0].f if isinstance(x, Agg) and x.ty == A.u.es.ty]
                        if len(es) != 1:
                            raise Undecided("no expression set in the clone")
                        A.u.clones = es
                    (A.rx, A.state, A.node_of, known, C.nbs), A.other = A.other, (A.rx, A.state, A.node_of, known, C.nbs)
                    C.log.append("switch to the clone" if len(A.forks) % 2 == 0 else "switch to the original")
                    A.forks.append(1)
                elif k == "T":
                    known.append(C.steps(v, [[97, 98], [98, 99], [], [122, 97, 97]][ctx.choose(4, "bytes")]))
                elif k in ("is_match_bytes", "lookahead_len_bytes"):
                    C.text([[], [97], [97, 98], [98, 97, 99]][ctx.choose(4, "text")], k)
            if C.ok:
                res.ok("dfa", len(C.log))
                if len(res.samples) < 3:
                    res.samples.append(", ".join(C.log))

        for _ in traces(env, res, split, job, f, panics=("dfa.panic", lambda I: " ".join(I.ctx.labels))):
            pass

    return run


class Chain(Auto):
    """a long chain of regexes, every answer fixed by the position"""

    long = 0
    step = 1

    def node(self):
        k = len(self.ids)
        n = self.u.leaf(20 if k == 0 else (20, k * self.step), ("Or", "Concat"), "n%d" % k, 0)
        self.u.assign_flag(n, "pos", True, [])
        self.u.assign_flag(n, "null", k % 3 == 1, [])
        self.ids.append(n.id)
        self.pos = getattr(self, "pos", {})
        self.pos[n.id] = k
        return n.id

    def succ(self, e, s):
        if e == NO_MATCH:
            return NO_MATCH
        k = self.pos[e]
        if (e, s) not in self.d:
            if s == 0:
                r = self.ids[k + 1] if k + 1 < len(self.ids) else self.node() if k + 1 < self.long else NO_MATCH
            elif s == 1:
                r = self.ids[k * 7 // 8]
            else:
                r = NO_MATCH if k % 2 else self.ids[k // 2]
            self.d[e, s] = r
        return self.d[e, s]

    def alive(self, e):
        return e != NO_MATCH

    def next(self, e):
        k = self.pos[e]
        return [("ForcedEOI", None), ("ForcedByte", self.mp[97]), ("ForcedByte", self.mp[98]), ("SomeBytes", None)][k // 3 % 4]

    def look(self, e):
        k = self.pos[e]
        return k % 1000 if k % 3 == 1 else None


def many_job(n, step=1, answers=True):
    """very many states: none is taken for another, every answer is that of its own regex"""

    def run(env, res, split, job):
        need(env.P, "Regex::new_with_exprset", "Regex::transition", "Regex::initial_state", "Regex::is_accepting", "Regex::lookahead_len_for_state", "Regex::next_byte")

        def f(I, ctx):
            Chain.long, Chain.step = n, step
            A = Chain(env, I, n, False, False)
            C = Checker(A, res)
            C.log = Last()
            C.nbs = {}
            if A.build(MAXFUEL) is None:
                C.fail("dfa.new", "construction fails without reason")
                return
            vs = [C.initial()]
            while len(vs) < n and C.ok:
                vs.append(C.transition(vs[-1], 97))
            for rnd in range(2):
                for k, v in enumerate(vs):
                    if not C.ok:
                        return
                    C.transition(v, 97)
                    if answers:
                        C.transition(v, 98)
                        C.transition(v, 99)
                        C.accepting(v)
                        C.length(v)
                        C.nextb(v)
            if C.ok:
                res.ok("dfa", n)

        for _ in traces(env, res, split, job, f, budget=10**10, panics=("dfa.panic", lambda I: "a chain of %d states" % n)):
            pass

    return run


class Last(list):
    def append(self, x):
        if len(self) > 8:
            del self[0]
        list.append(self, x)


def count_job():
    """a regex reports the counter of its expressions"""

    def run(env, res, split, job):
        need(env.P, "Regex::new_with_exprset", "Regex::cost", "ExprSet::cost")

        def f(I, ctx):
            A = Auto(env, I, 1, False, True)
            if A.build(MAXFUEL) is None:
                raise Undecided("construction fails")
            k = [k for k, fd in enumerate(env.P.types[env.P.adt("ExprSet")]["variants"][0]["fields"]) if fd[0] == "cost"]
            if not k or type(A.u.es.f[k[0]]) is not int:
                raise Undecided("no counter")
            out = []
            for add in (0, 1, 7, 1000, 1 << 33):
                A.u.es.f[k[0]] += add
                out.append((A.call("cost"), I.call_path("ExprSet::cost", A.u.exprs)))
            return out

        for I, ctx, out in traces(env, res, split, job, f, panics=("count.panic", None)):
            if any(a - out[0][0] != b - out[0][1] for a, b in out):
                res.violate("count", "Regex::cost", "work on nodes is not counted by the regex", "%s" % (out,))
            else:
                res.ok("count")

    return run


def cost_job(nmax, more):
    """what was computed once is not computed again, and costs the same whatever else was built"""

    def run(env, res, split, job):
        need(env.P, "Regex::new_with_exprset", "Regex::transition", "Regex::initial_state", "Regex::lookahead_len_bytes")

        def f(I, ctx):
            A = Auto(env, I, nmax, False, True)
            C = Checker(A, res)
            C.nbs = {}
            if A.build(MAXFUEL) is None:
                raise Undecided("construction fails")
            v0 = C.initial()

            def meas(g):
                n, s = A.ncalls, ctx.steps
                g()
                return A.ncalls - n, ctx.steps - s

            def again(what, where, g):
                n, s = meas(g)
                C.where = where
                if n:
                    C.fail("dfa.cost", "computed again: " + what, "%d computations on nodes" % n)
                return s

            b = [97, 98, 99, 122][ctx.choose(4, "byte")]
            r = C.transition(v0, b)
            if r is None or not C.ok:
                return
            qs = [
                ("a transition", "Regex::transition", lambda: C.transition(v0, b)),
                ("the length of a state", "Regex::lookahead_len_for_state", lambda: C.length(v0)),
                ("the next byte of a state", "Regex::next_byte", lambda: C.nextb(v0)),
            ]
            s1 = []
            for w, p, g in qs:
                g()
                s1.append(again(w, p, g))
            known = [v0, r]
            for i in range(more):
                if not C.ok:
                    return
                x = C.transition(known[-1], [97, 98][ctx.choose(2, "next byte")])
                if x is None or not C.ok:
                    return
                known.append(x)
                if x != C.DEAD:
                    C.length(x)
            for (w, p, g), s in zip(qs, s1):
                t = again(w, p, g)
                if t - s > 4 * len(set(known)):
                    C.where = p
                    C.fail("dfa.cost", w + " costs more after others were computed", "%d steps, before %d" % (t, s))
            # a text over states that exist
            if not C.ok or not A.alive(A.top):
                return
            loop = [x for x in (97, 98, 99) if A.d.get((A.top, A.mp[x])) == A.top]
            if loop:
                cs = []
                for n in (1, 9, 17):
                    t = [loop[0]] * n
                    cs.append(again("a text", "Regex::lookahead_len_bytes", lambda: C.text(t, "lookahead_len_bytes")))
                if cs[2] - cs[1] > 1.5 * (cs[1] - cs[0]) + 40:
                    C.where = "Regex::lookahead_len_bytes"
                    C.fail("dfa.cost", "the cost of a text grows faster than its length", "steps %s for 1, 9, 17 bytes" % cs)
            if C.ok:
                res.ok("dfa.cost", len(C.log))
                if len(res.samples) < 3:
                    res.samples.append(", ".join(C.log))

        for _ in traces(env, res, split, job, f, panics=("dfa.panic", lambda I: " ".join(I.ctx.labels))):
            pass

    return run


def export_job(nmax, pre, dead=True, al=STD, chain=False):
    def run(env, res, split, job):
        need(env.P, "Regex::dfa", "Regex::transition", "Regex::initial_state")

        def f(I, ctx):
            Chain.long, Chain.step = nmax, 1
            A = (Chain if chain else Auto)(env, I, nmax, False, dead, al)
            C = Checker(A, res)
            C.nbs = {}
            if A.build(MAXFUEL) is None:
                return
            known = [C.initial()]
            for k in range(pre):
                r = C.transition(known[-1], [al[0], al[1], al[3]][ctx.choose(3, "byte")])
                if r is not None:
                    known.append(r)
            C.where = "Regex::dfa"
            C.log.append("dfa")
            t = [strip(x) for x in seq(A.call("dfa"))]
            if t[:256] != A.mp:
                C.fail("export.map", "the exported symbol of a byte is wrong", str([b for b in range(256) if b >= len(t) or t[b] != A.mp[b]][:3]))
                return
            tab = t[256:]
            if len(tab) % A.n:
                C.fail("export.table", "the exported table has an incomplete row", str(len(tab)))
                return
            nst = len(tab) // A.n
            # everything reachable
            todo, seen = [known[0]], {known[0]}
            byte = {A.mp[b]: b for b in (al[0], al[1], al[3])}
            while todo and C.ok:
                v = todo.pop()
                for s in range(A.n):
                    ix = (v >> 1) * A.n + s
                    if (v >> 1) >= nst:
                        C.fail("export.table", "a reachable state is missing in the exported table", C.name(v))
                        break
                    w = C.transition(v, byte[s])
                    C.where = "Regex::dfa"
                    if w is None:
                        break
                    if tab[ix] != w >> 1:
                        C.fail("export.table", "the exported successor differs from the transition", "%s by symbol %d: %d, transition gives %s" % (C.name(v), s, tab[ix], w >> 1))
                        break
                    if w not in seen:
                        seen.add(w)
                        todo.append(w)
            for s in range(A.n):
                if C.ok and tab[s] != 0:
                    C.fail("export.table", "the dead state has a successor", str(tab[s]))
            if C.ok:
                res.ok("export", len(tab) + 256)
                if len(res.samples) < 2:
                    res.samples.append("export of %d states" % nst)

        for _ in traces(env, res, split, job, f, budget=10**8, panics=("export.panic", lambda I: " ".join(I.ctx.labels))):
            pass

    return run


def all_jobs(tier):
    J = []
    th = tier == "thorough"
    t, q = ["t"], ["t", "l", "n", "a"]
    J.append(Job("dfa", "66000 states", many_job(66000, 1, False), secs=600))
    J.append(Job("dfa", "transitions, 3 regexes", dfa_job(3, [t, t, t]), split=8, limit=60000))
    J.append(Job("dfa", "four transitions in a row, 4 regexes", dfa_job(4, [["t2"]] * 4), split=8, limit=60000))
    J.append(Job("dfa", "transitions and answers", dfa_job(2, [q, q, q]), split=8, limit=60000))
    J.append(Job("dfa", "answer, transition, answers again", dfa_job(2, [["l", "n", "a"], t, ["l", "n", "a"], ["l", "n"]]), split=8, limit=60000))
    J.append(Job("dfa", "texts", dfa_job(3, [["is_match_bytes", "lookahead_len_bytes"]] * 2, dead=True), split=8, limit=60000))
    J.append(Job("dfa", "text between transitions", dfa_job(3, [["t"], ["lookahead_len_bytes"], ["t", "l"]]), split=8, limit=60000))
    J.append(Job("dfa", "several bytes at once", dfa_job(3, [["T"], ["t", "T"]]), split=8, limit=60000))
    J.append(Job("dfa", "dead and missing", dfa_job(2, [["t", "e", "i"], ["tm", "lm", "nm"], ["tm", "lm", "nm", "t"], ["e", "i", "l", "n"]]), split=4))
    J.append(Job("dfa", "construction with fuel", dfa_job(2, [["e"], ["t"]], fail=True)))
    J.append(Job("dfa", "600 states", many_job(600), secs=300))
    J.append(Job("dfa", "300 states, ids far apart", many_job(300, 1 << 16), secs=300))
    J.append(Job("count", "the counter of a regex", count_job()))
    J.append(Job("dfacost", "repeated queries", cost_job(3, 3 if th else 2), split=8, limit=60000, secs=300))
    J.append(Job("dfacost", "repeated queries, more states", cost_job(4, 3), split=8, limit=3000, secs=300))
    J.append(Job("dfaclone", "clone between transitions", dfa_job(3, [["t2"], ["C"], t, ["C"], ["t2"], ["C"], ["t", "l", "n"]]), split=8, limit=6000, secs=200))
    J.append(Job("dfaclone", "clone before the first transition", dfa_job(2, [["C"], ["t", "is_match_bytes"], ["C"], t, ["l", "n", "a"]]), split=8, limit=20000, secs=300))
    J.append(Job("export", "export, 2 regexes", export_job(2, 0), split=4, secs=200))
    for n in (40, 130, 240):
        J.append(Job("export", "export of %d states" % n, export_job(n, 0, False, STD, True), secs=200))
    J.append(Job("export", "export after a transition", export_job(2, 1), split=8, secs=200))
    J.append(Job("export", "export, 3 regexes without empty ones", export_job(3, 0, False), split=8, limit=1500, secs=200))
    for al in ((255, 98, 99, 7), (7, 254, 255, 100), (98, 0, 1, 255), (0, 128, 255, 64), (254, 0, 255, 31)):
        J.append(Job("export", "export, bytes %s" % (al,), export_job(2, 0, True, al), limit=400, secs=200))
    if th:
        J.append(Job("dfa", "transitions and answers, 3 regexes", dfa_job(3, [q, q, q, q]), split=16, limit=200000, secs=400))
        J.append(Job("export", "export, 4 regexes", export_job(4, 1), split=16, limit=20000, secs=400))
    return J
