"""The emptiness search over an abstract successor graph: verdicts, memory between queries, fuel"""
from framework import *
from g_mk import no
from g_sym import sym_body

MAX = (1 << 64) - 1


class Graph:
    def __init__(self, u, T, nmax, outmax, costs, far=None):
        self.slots = [20, 12, 28, 8, 33] if far is None else [20, (20, far), (20, 2 * far), 12, (12, far)]
        self.u, self.T, self.nmax, self.outmax, self.costs = u, T, nmax, outmax, costs
        self.ids = []
        self.succ = {}
        self.cost_end = {}  # cost when the expansion of a node (last) ended, in this query
        self.found_by = {}
        self.late = None

    def node(self):
        n = self.u.leaf(self.slots[len(self.ids)], no("Lookahead"), "n%d" % len(self.ids), 0)
        self.ids.append(n.id)
        return n.id

    def cost(self):
        return self.u.I.call_path("ExprSet::cost", self.u.exprs)

    def pay(self, n):
        if n:
            self.u.I.call_path("ExprSet::pay", self.u.exprs, n)

    def pick(self, what, fresh=True):
        opts = list(self.ids)
        m = len(opts) + (1 if fresh and len(self.ids) < self.nmax else 0)
        c = self.u.I.ctx.choose(m, what)
        return opts[c] if c < len(opts) else self.node()

    def expand(self, e):
        if e == NO_MATCH:
            return []
        if e not in self.succ:
            ctx = self.u.I.ctx
            name = self.u.nodes[e].name
            k = ctx.choose(self.outmax + 2, "out " + name)
            if k == self.outmax + 1:
                l = [NO_MATCH]
            else:
                l = []
                for j in range(k):
                    x = self.pick("succ %s.%d" % (name, j))
                    if x in l:
                        raise Infeasible()
                    l.append(x)
            self.succ[e] = l
            self.cc = getattr(self, "cc", {})
            self.cc[e] = self.costs[ctx.choose(len(self.costs), "cost " + name)] if len(self.costs) > 1 else self.costs[0]
        return self.succ[e]

    def reach(self, top):
        seen, todo = {top}, [top]
        while todo:
            x = todo.pop()
            for y in self.succ.get(x, ()):
                if y not in seen:
                    seen.add(y)
                    todo.append(y)
        return seen


def seen_by(o):
    seen, todo = {o[0]}, [o[0]]
    while todo:
        for y in o[5].get(todo.pop(), ()):
            if y not in seen:
                seen.add(y)
                todo.append(y)
    return seen


def search_job(nmax, outmax, costs, fuels, nq, plain=False, old=False, far=None):
    free = 0 in costs and len(costs) == 1

    def run(env, res, split, job):
        body = sym_body(env.P)
        need(env.P, "RelevanceCache::new", "ExprSet::cost", "ExprSet::pay", "RelevanceCache::is_non_empty_limited", "RelevanceCache::is_non_empty")

        def f(I, ctx):
            T = env.template()
            u = Uni(I, T, True, 3)
            g = Graph(u, T, nmax, outmax, costs, far)
            g.cc = {}

            def hook(I, b, a):
                if not u.mine(a[1]):
                    return NotImplemented
                e = strip(a[2]).f[0]
                c = g.cost()
                p = g.found_by.get(e)
                if p is not None and g.cost_end.get(p, 0) - g.c0 > g.fuel and g.late is None:
                    g.late = (e, p)
                l = g.expand(e)
                g.pay(g.cc.get(e, 0) if e != NO_MATCH else 0)
                g.cost_end[e] = g.cost()
                for y in l:
                    g.found_by.setdefault(y, e)
                g.expanded.add(e)
                return Vec([tup(u.ref(T.sets[7]), u.ref(y)) for y in l])

            I.hooks[body["key"]] = hook
            rc = [used(I, "RelevanceCache::new")]
            out = []
            for q in range(nq):
                top = g.node() if q == 0 else g.pick("query %d" % q, not old)
                fuel = fuels[ctx.choose(len(fuels), "fuel %d" % q)] if q == 0 or not plain else MAX
                g.fuel, g.c0 = fuel, g.cost()
                g.found_by, g.cost_end, g.expanded, g.late = {}, {}, set(), None
                if plain and fuel == MAX:
                    r = I.call_path("RelevanceCache::is_non_empty", Ref(rc, 0), u.exprs, u.ref(top))
                    v = r
                else:
                    r = I.call_path("RelevanceCache::is_non_empty_limited", Ref(rc, 0), u.exprs, u.ref(top), fuel)
                    v = r.f[0] if r.v == 0 else None
                out.append((top, fuel, v, g.cost() - g.c0, (g.late, len(g.expanded)), {k: list(x) for k, x in g.succ.items()}, {i: u.nodes[i].pos for i in g.ids}))
            return u, g, out

        def desc(u, g, out):
            s = "graph " + ", ".join("%s->%s%s" % (u.nodes[a].name, [u.nodes[x].name if x != NO_MATCH else "NO_MATCH" for x in b], "+" if u.nodes[a].pos else "") for a, b in g.succ.items())
            return s + "; queries " + ", ".join("%s fuel %s = %s" % (u.nodes[o[0]].name, "max" if o[1] == MAX else o[1], o[2]) for o in out)

        def show(I):
            return "during a search; " + " ".join(I.ctx.labels)

        for I, ctx, (u, g, out) in traces(env, res, split, job, f, panics=("search.panic", show)):
            W = "RelevanceCache::is_non_empty_limited"
            bad = False
            for q, (top, fuel, v, spent, (late, nexp), _, _) in enumerate(out):
                if nexp and any(o[0] == top and o[2] is not None for o in out[:q]):
                    bad = True
                    res.violate("memo.search", W, "a node whose answer was found is examined again", desc(u, g, out) + " | query %d" % q)
                for o in out[:q]:
                    # a search that ended without a match has found the answer of everything it saw
                    if nexp and o[2] is False and top in seen_by(o):
                        bad = True
                        res.violate("memo.search", W, "a node found to accept nothing is examined again", desc(u, g, out) + " | query %d" % q)
                        break
                R = g.reach(top)
                haspos = any(u.nodes[x].pos for x in R if x != NO_MATCH)
                if v is True and not haspos:
                    bad = True
                    res.violate("search.yes", W, "reports non-empty although no node known to accept is reachable", desc(u, g, out) + " | query %d" % q)
                if v is False:
                    un = [x for x in R if x != NO_MATCH and (x not in g.succ or u.nodes[x].pos is not False)]
                    if un:
                        bad = True
                        n = u.nodes[un[0]]
                        res.violate(
                            "search.no",
                            W,
                            "reports empty although " + ("a node that accepts is reachable" if n.pos else "a reachable node was never examined"),
                            "node %s; " % n.name + desc(u, g, out) + " | query %d" % q,
                        )
                if v is None:
                    if fuel == MAX:
                        bad = True
                        res.violate("search.fuel", W, "fails although fuel is unlimited", desc(u, g, out))
                    elif spent <= fuel:
                        bad = True
                        res.violate("search.fuel", W, "fails although the cost spent (%s) does not exceed the fuel" % ("its limit" if False else "see detail"), "spent %d; " % spent + desc(u, g, out))
                if v is False and q == 0 and plain is False and free:
                    edges = sum(len(g.succ[x]) for x in R if x in g.succ)
                    if spent < edges:
                        bad = True
                        res.violate("search.cost", W, "an exhaustive search of %d successors is charged %d" % (edges, spent), desc(u, g, out))
                if late is not None:
                    bad = True
                    res.violate("search.fuel", W, "goes on to the successors of an examined node after the cost spent exceeded the fuel", desc(u, g, out))
            if not bad:
                res.ok("search", len(out))
                if len(res.samples) < 3:
                    res.samples.append(desc(u, g, out))

    return run


def all_jobs(tier):
    J = []
    th = tier == "thorough"
    J.append(Job("search", "one query, 4 nodes", search_job(4, 2, [0], [MAX], 1), split=8, limit=200000))
    J.append(Job("search", "two queries, 3 nodes", search_job(3, 2, [1], [MAX], 2), split=8, limit=200000))
    J.append(Job("search", "a query, then one for a node seen by it, 4 nodes", search_job(4, 2, [1], [MAX], 2, old=True), split=16, limit=200000))
    J.append(Job("search", "one query with fuel, 3 nodes", search_job(3, 2, [0, 2], [0, 1, 2, 3, 5, 8], 1), split=8, limit=200000))
    J.append(Job("search", "out of fuel, then again", search_job(3, 2, [1], [0, 1, 2, 3, 4], 2, True), split=8, limit=200000))
    J.append(Job("search", "three queries, chains", search_job(4, 1, [1], [MAX], 3), split=8, limit=200000))
    for d in (1 << 8, 1 << 16, 1 << 24):
        J.append(Job("search", "two queries, nodes far apart %d" % d, search_job(3, 1, [1], [MAX], 2, far=d), split=2, limit=200000))
    if th:
        J.append(Job("search", "one query, 5 nodes", search_job(5, 2, [1], [MAX], 1), split=16, limit=300000, secs=500))
        J.append(Job("search", "two queries, 4 nodes", search_job(4, 2, [1], [MAX], 2), split=16, limit=300000, secs=500))
        J.append(Job("search", "three queries with fuel", search_job(3, 2, [1], [1, 3, MAX], 3), split=16, limit=300000, secs=500))
    return J
