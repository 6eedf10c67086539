"""Whole-program structural analyses: recursion in the call graph, order of hash tables, sharing, unsafe code.

They read the exported MIR of every local function (and of the library functions it was specialised with).
"""
import ast
import re
from framework import *



# ---------------------------------------------------------------- the program


def locals_of(P):
    return [b for b in P.bodies.values() if b["local"]]


def calls(b):
    for i, bl in enumerate(b["blocks"]):
        if bl["t"][0] == "call" and not bl["cl"]:
            yield i, bl["t"]


def strip_ref(P, t):
    while t is not None and P.types[t]["k"] in ("ref", "ptr"):
        t = P.types[t]["e"]
    return t


def inner_types(x):
    """component types of a type, without the fields of structures"""
    for k in ("e",):
        if isinstance(x.get(k), int):
            yield x[k]
    for k in ("f", "ups"):
        for y in x.get(k, []):
            yield y


def callgraph(P):
    """caller -> callees; creating a closure counts as calling it"""
    G = {}
    for b in P.bodies.values():
        out = set()
        for i, t in calls(b):
            if "i" in t[1]:
                out.add(t[1]["i"])
        for bl in b["blocks"]:
            for st in bl["s"]:
                if st[0] == "=" and st[2][0] == "agg":
                    for x in st[2][1:]:
                        if isinstance(x, list) and x and x[0] == "closure":
                            c = P.types[x[1]].get("call") if isinstance(x[1], int) else None
                            if c in P.bodies:
                                out.add(c)
        for n, l in enumerate(b["locals"]):
            ty = P.types[l]
            if n > b["argc"] and ty["k"] == "closure" and ty.get("call") in P.bodies and ty["call"] != b["id"]:
                out.add(ty["call"])
        G[b["id"]] = out
    return G


def sccs(G):
    """strongly connected components with a cycle"""
    index, low, on, st, out = {}, {}, set(), [], []
    for root in G:
        if root in index:
            continue
        work = [(root, iter(G[root]))]
        index[root] = low[root] = len(index)
        st.append(root)
        on.add(root)
        while work:
            v, it = work[-1]
            for w in it:
                if w not in G:
                    continue
                if w not in index:
                    index[w] = low[w] = len(index)
                    st.append(w)
                    on.add(w)
                    work.append((w, iter(G[w])))
                    break
                if w in on:
                    low[v] = min(low[v], index[w])
            else:
                work.pop()
                if work:
                    low[work[-1][0]] = min(low[work[-1][0]], low[v])
                if low[v] == index[v]:
                    c = []
                    while True:
                        w = st.pop()
                        on.discard(w)
                        c.append(w)
                        if w == v:
                            break
                    if len(c) > 1 or v in G[v]:
                        out.append(c)
    return out


# ---------------------------------------------------------------- recursion


def known_recursive(b):
    """recursion with a bound of its own: prefix sharing (explicit depth), classes (at most four bytes),
    printing (requested length), and cloning / dropping / printing of syntax trees"""
    k = b["key"]
    return "trie_rec" in k or k.startswith("TrieNode::") or k.startswith("PrettyPrinter::") or "RegexAst" in k and ("Clone" in k or "Debug" in k or "write" in k)


def own_bound(P, l, c, rt):
    """reasons for which a cycle of calls is not judged by its shape: a counter, printed text, a tree of its own"""
    for b in l:
        for t in b["locals"][: b["argc"] + 1]:
            x = strip_ref(P, t)
            if x in rt or P.types[x]["k"] == "adt" and any(a in rt for a in P.types[x]["args"]):
                return "follows a tree of the crate's own"
            if P.types[x].get("path") in ("std::string::String", "std::fmt::Formatter") and P.types[t].get("mut"):
                return "prints"
        for p in range(1, b["argc"] + 1):
            if P.types[b["locals"][p]]["k"] != "int":
                continue
            # compared in the function, and passed on changed by a constant
            al = {p}
            cmp = False
            step = False
            der = set()
            for _ in range(6):
                for bl in b["blocks"]:
                    for st in bl["s"]:
                        if st[0] == "=" and not st[1][1]:
                            s = rvlocals(st[2])
                            if st[2][0] == "use" and s & al and not places_in(st[2][1:])[0][1]:
                                al.add(st[1][0])
                            if st[2][0] == "bin" and s & al:
                                if st[2][1] in ("Lt", "Le", "Gt", "Ge", "Eq", "Ne"):
                                    cmp = True
                                elif st[2][1].startswith(("Add", "Sub")) and (st[2][2][0] == "k" or st[2][3][0] == "k"):
                                    der.add(st[1][0])
                            if st[2][0] == "use" and s & der:
                                der.add(st[1][0])
                    t = bl["t"]
                    if t[0] == "call" and any(oplocals(o) & der for o in t[2]) and (t[1].get("i") in c):
                        step = True
            if cmp and step:
                return "counts its depth"
    return None


def rec_job():
    def run(env, res, split, job):
        P = env.P
        G = callgraph(P)
        loc = {b["id"] for b in locals_of(P)}
        n = sum(len(G[x]) for x in loc)
        H = {x: {y for y in G[x] if not (y in P.bodies and known_recursive(P.bodies[y]))} for x in G if not known_recursive(P.bodies[x])}
        rt = {i for c in sccs(typegraph(P)) for i in c if P.types[i]["k"] == "adt" and P.types[i].get("local") and not P.types[i]["path"].endswith("::RegexAst")}
        for c in sccs(H):
            l = [P.bodies[x] for x in c if x in loc]
            if not l:
                continue
            why = own_bound(P, l, set(c), rt)
            if why:
                res.undec("%s: %s" % (l[0]["key"], why))
                continue
            l.sort(key=lambda b: (b["file"], b["line"]))
            # a call that goes through a function value of unknown target is not in the graph
            res.violate(
                "rec.cycle",
                l[0]["key"],
                "recursion without a bound of its own: " + " -> ".join(b["key"] for b in l),
                "; ".join("%s:%d" % (b["file"], b["line"]) for b in l),
            )
        for x in loc:
            res.touched.add(P.bodies[x]["path"])
            TOUCHED.add(P.bodies[x]["path"])
            for i, t in calls(P.bodies[x]):
                if "ptr" in t[1]:
                    res.undec("call through a function pointer in " + P.bodies[x]["key"])
        res.traces += len(loc)
        res.ok("rec.cycle", n)
        res.samples.append("%d local functions, %d call edges" % (len(loc), n))

    return run


def typegraph(P):
    """type -> types of which it owns values"""
    G = {}
    for i, t in enumerate(P.types):
        if t["k"] in ("ref", "ptr", "fnptr", "fndef", "dyn"):
            G[i] = set()
            continue
        out = set()
        if t["k"] == "adt":
            if t.get("local"):
                for v in t["variants"]:
                    for f in v["fields"]:
                        out.add(f[1])
            else:
                out |= {a for a in t.get("args", []) if isinstance(a, int)}
        else:
            out |= set(inner_types(t))
        G[i] = out
    return G


def utf8_tree(P, ids):
    """the tree of a Unicode class: some function grows it along `Utf8Sequence`s, of at most four bytes each, and no other type holds one"""

    def mentions(t, seen):
        x = P.types[t]
        if t in ids:
            return {"own"}
        if t in seen:
            return set()
        seen.add(t)
        out = {"utf8"} if x.get("path", "").startswith("regex_syntax::utf8::") else set()
        for y in list(inner_types(x)) + [a for a in x.get("args", []) if isinstance(a, int)]:
            out |= mentions(y, seen)
        return out

    G = typegraph(P)
    for i, t in enumerate(P.types):
        if t["k"] == "adt" and t.get("local") and i not in ids and any("own" in mentions(y, set()) for y in G[i]):
            return False
    for b in locals_of(P):
        m = set()
        for t in set(b["locals"]):
            m |= mentions(t, set())
        if {"own", "utf8"} <= m:
            return True
    return False


def rectype_job():
    """types that own values of the same type: dropping and cloning them recurses"""

    def run(env, res, split, job):
        P = env.P
        G = typegraph(P)
        for c in sccs(G):
            l = [P.types[x]["path"].split("::", 1)[1] for x in c if P.types[x]["k"] == "adt" and P.types[x].get("local")]
            ids = {x for x in c if P.types[x]["k"] == "adt" and P.types[x].get("local")}
            bad = [x for x in l if x.rsplit("::", 1)[-1] != "RegexAst"]
            if bad and utf8_tree(P, ids):
                continue
            if bad:
                res.violate("rec.type", bad[0], "values of %s nest without bound and are dropped recursively" % bad[0], ", ".join(l))
        res.traces += 1
        res.ok("rec.type", sum(1 for t in P.types if t["k"] == "adt" and t.get("local")))

    return run


def depth_job(n1, n2):
    """call depth when prefixes are shared: must not follow the length of the words"""

    def run(env, res, split, job):
        need(env.P, "ExprSet::mk_or", "ExprSet::mk_concat")

        def comb(n):
            def f(I, ctx):
                I.maxcalls = 700
                es = [I.call_path("ExprSet::new", 3)]
                ty = env.P.adt("ExprRef")
                ref = lambda i: Agg("adt", ty, 0, [i])
                b = [I.call_path("ExprSet::mk_byte", Ref(es, 0), x) for x in range(2)]
                l = []
                for i in range(n):
                    l.append(I.call_path("ExprSet::mk_concat", Ref(es, 0), Vec([ref(b[0].f[0]) for _ in range(i)] + [ref(b[1].f[0])])))
                best = {}
                st = I.stack

                class S(list):
                    def append(self, x):
                        list.append(self, x)
                        if x.startswith("crate::"):
                            c = self.count(x)
                            if c > best.get(x, 0):
                                best[x] = c

                I.stack = S(st)
                I.call_path("ExprSet::mk_or", Ref(es, 0), Vec(l))
                return best

            r = None
            for I, ctx, v in traces(env, res, None, job, f, budget=4 * 10**7, panics=("rec.panic", None)):
                r = v
            return r

        a, b = comb(n1), comb(n2)
        if a is None or b is None:
            raise Undecided("comb not evaluated")
        for k in b:
            if b[k] > a.get(k, 0) and b[k] > 240:
                res.violate("rec.depth", k, "the call depth grows with the words of an alternation", "%d frames for %d words, %d for %d" % (a.get(k, 0), n1, b[k], n2))
                return
        res.ok("rec.depth")
        res.samples.append("most frames of one function: %d" % max(b.values()))

    return run


# ---------------------------------------------------------------- determinism

NONDET = (
    "std::time::",
    "std::env::",
    "std::thread::",
    "std::process::id",
    "std::fs::",
    "std::net::",
    "std::io::stdin",
    "rand::",
    "getrandom::",
    "std::arch::",
    "core::arch::",
    "std::thread::local",
)
HNAMES = ("HashMap", "HashSet", "HashTable", "AHashMap", "AHashSet")
FREE = ("count", "any", "all", "sum", "product", "max", "min", "len", "is_empty", "contains", "contains_key", "size_hint", "for_each", "drop", "drop_in_place", "capacity", "reserve", "clear", "default")
PASS = (
    "map filter copied cloned into_iter by_ref filter_map flat_map inspect iter iter_mut keys values values_mut into_keys into_values drain fuse chain flatten deref deref_mut borrow borrow_mut as_ref as_mut as_slice as_mut_slice "
    "clone to_vec to_owned into_boxed_slice into_vec peekable from into new with_capacity unwrap rev union intersection difference symmetric_difference"
).split()
SENS = "enumerate zip skip take step_by nth find find_map position last scan take_while skip_while map_while first pop remove swap_remove index index_mut split_at windows chunks join split_first split_last pop_front pop_back next_back truncate dedup".split()
ITERS = "iter iter_mut keys values values_mut into_keys into_values drain into_iter retain extract_if union intersection difference symmetric_difference".split()
COMM = ("Add", "BitOr", "BitAnd", "BitXor", "Mul", "AddWithOverflow", "MulWithOverflow")


def hashlike(P, t):
    t = strip_ref(P, t)
    if t is None or P.types[t]["k"] != "adt":
        return False
    p = P.types[t]["path"]
    return p.startswith(("std::collections::", "hashbrown::", "ahash::")) and last(p) in HNAMES


def ordered(P, t):
    t = strip_ref(P, t)
    return t is not None and "BTree" in P.types[t].get("path", "")


def last(p):
    return p.rsplit("::", 1)[-1]


def places_in(x):
    out = []

    def w(x):
        if isinstance(x, list):
            if len(x) == 2 and isinstance(x[0], int) and not isinstance(x[0], bool) and isinstance(x[1], list):
                out.append(x)
                return
            for y in x:
                w(y)

    w(x)
    return out


def plocals(pl):
    return {pl[0]} | {e[1] for e in pl[1] if e[0] == "i"}


def oplocals(o):
    """locals read by an operand"""
    if isinstance(o, list) and o and o[0] in ("c", "m"):
        return plocals(o[1])
    return set()


def rvlocals(r):
    out = set()
    if r[0] == "agg":
        for o in r[2]:
            out |= oplocals(o)
        return out
    for p in places_in([y for y in r[1:] if isinstance(y, list)]):
        out |= plocals(p)
    return out


def succs(bl):
    t = bl["t"]
    k = t[0]
    if k == "goto":
        return [t[1]]
    if k == "switch":
        return sorted({x[1] for x in t[2]} | {t[3]})
    if k == "call":
        return [t[4]] if t[4] is not None else []
    if k == "assert":
        return [t[3]]
    if k == "drop":
        return [t[2]]
    return []


def cfg_loop(b, blk):
    """blocks of the cycle through blk"""
    G = {i: set(succs(bl)) for i, bl in enumerate(b["blocks"])}
    for c in sccs(G):
        if blk in c:
            return set(c)
    return set()


class Order:
    """flow of unordered sequences: what is walked, collected or returned in the order of a hash table"""

    def __init__(self, P):
        self.P = P
        self.memo = {}
        self.emem = {}
        self.sites = 0
        self.ret = set()  # bodies whose result is an unordered sequence

    def worse(self, a, r):
        return r if r and (a is None or (r[0] and not a[0])) else a

    # -- effects

    def derived(self, b, roots):
        """locals that may refer into the roots"""
        al = set(roots)
        ch = True
        while ch:
            ch = False
            for bl in b["blocks"]:
                for st in bl["s"]:
                    if st[0] == "=" and st[1][0] not in al and st[2][0] in ("use", "ref", "cast", "agg") and rvlocals(st[2]) & al and self.holds(b["locals"][st[1][0]]):
                        al.add(st[1][0])
                        ch = True
                t = bl["t"]
                if t[0] == "call" and t[3][0] not in al and any(oplocals(o) & al for o in t[2]) and self.holds(b["locals"][t[3][0]]):
                    al.add(t[3][0])
                    ch = True
        return al

    def holds(self, t, depth=0):
        """may values of the type hold a mutable reference?"""
        x = self.P.types[t]
        k = x["k"]
        if depth > 4:
            return True
        if k in ("ref", "ptr"):
            return bool(x.get("mut")) or self.holds(x["e"], depth + 1)
        if k == "adt":
            return any(self.holds(a, depth + 1) for a in x["args"]) or "Mut" in x["path"] or "Drain" in x["path"] or "Entry" in x["path"]
        if k == "closure":
            return any(self.holds(a, depth + 1) for a in x["ups"])
        if k == "tuple":
            return any(self.holds(a, depth + 1) for a in x["f"])
        return k in ("dyn", "other")

    def target(self, b, l):
        """type behind a mutable reference, or None"""
        x = self.P.types[b["locals"][l]]
        if x["k"] in ("ref", "ptr") and x.get("mut"):
            return strip_ref(self.P, b["locals"][l])
        return None

    def effect(self, bid, seen=()):
        """effect of a function on what its parameters refer to"""
        if bid in self.emem:
            return self.emem[bid]
        if bid in seen or len(seen) > 12:
            return None
        b = self.P.bodies[bid]
        al = self.derived(b, set(range(1, b["argc"] + 1)))
        r = self.region_effect(b, range(len(b["blocks"])), al, seen + (bid,))
        if not seen:
            self.emem[bid] = r
        return r

    def region_effect(self, b, blocks, al, seen, skip=(), vecs=None):
        worst = None
        for i in blocks:
            bl = b["blocks"][i]
            if bl["cl"]:
                continue
            for st in bl["s"]:
                if st[0] == "=" and st[1][0] in al and st[1][1] and ["d"] in st[1][1]:
                    r = st[2]
                    same = r[0] == "bin" and r[1] in COMM
                    const = r[0] == "use" and r[1][0] == "k"
                    tmp = r[0] == "use" and r[1][0] in ("c", "m") and self.comm_def(b, r[1][1][0])
                    if not (same or const or tmp):
                        worst = self.worse(worst, (False, "writes a field"))
            t = bl["t"]
            if t[0] == "call" and i not in skip:
                worst = self.worse(worst, self.call_effect(b, t, al, seen, vecs))
        return worst

    def comm_def(self, b, l):
        """is a local the result of a commutative operation?"""
        n = 0
        for bl in b["blocks"]:
            for st in bl["s"]:
                if st[0] == "=" and st[1][0] == l:
                    n += 1
                    if not (st[2][0] == "bin" and st[2][1] in COMM):
                        return False
        return n > 0

    def call_effect(self, b, t, al, seen=(), vecs=None):
        P = self.P
        c = t[1]
        muts = []
        for o in t[2]:
            for l in oplocals(o):
                if l in al and self.holds(b["locals"][l]):
                    muts.append(l)
        if not muts:
            return None
        if "ptr" in c:
            return (False, "call through pointer")
        if "i" in c and c["i"] in P.bodies and P.bodies[c["i"]]["local"]:
            return self.effect(c["i"], seen)
        worst = None
        n = last(c["p"])
        for l in muts:
            ty = P.types[strip_ref(P, b["locals"][l]) or 0]
            if hashlike(P, b["locals"][l]):
                continue
            if ty["k"] == "closure":
                if ty.get("call") in P.bodies:
                    worst = self.worse(worst, self.effect(ty["call"], seen))
                continue
            x = self.target(b, l)
            if x is None:
                continue
            p = P.types[x].get("path", P.types[x]["k"])
            if n in ("deref", "deref_mut", "as_mut", "as_ref", "borrow", "borrow_mut", "len", "is_empty", "get", "iter", "reserve", "contains", "contains_key", "next", "by_ref", "as_slice", "as_mut_slice", "into_iter", "get_mut", "index_mut", "iter_mut", "as_mut_ptr", "clear", "entry"):
                continue
            if "iter" in p.lower() or "Drain" in p or "hash" in p or "BTree" in p or "BinaryHeap" in p:
                continue
            if p in ("std::vec::Vec", "std::string::String", "std::collections::VecDeque"):
                if vecs is not None and n in ("push", "extend", "insert", "push_str", "push_back", "extend_from_slice"):
                    vecs.add(l)
                    continue
                worst = self.worse(worst, (True, "%s on a %s in the order of a hash table" % (n, last(p))))
            else:
                worst = self.worse(worst, (False, "%s changes a %s" % (n, p)))
        return worst

    # -- flow

    def roots(self, b, l):
        """containers that a reference may refer to"""
        out, ch = {l}, True
        while ch:
            ch = False
            for bl in b["blocks"]:
                for st in bl["s"]:
                    if st[0] == "=" and not st[1][1] and st[1][0] in out and st[2][0] in ("ref", "use", "cast"):
                        for p in places_in(st[2][1:]):
                            if p[0] not in out:
                                out.add(p[0])
                                ch = True
        return out

    def back(self, b, l):
        out, ch = {l}, True
        while ch:
            ch = False
            for bl in b["blocks"]:
                for st in bl["s"]:
                    if st[0] == "=" and st[1][0] in out and not st[1][1] and st[2][0] in ("ref", "use", "cast"):
                        s = rvlocals(st[2])
                        if not s <= out:
                            out |= s
                            ch = True
                t = bl["t"]
                if t[0] == "call" and t[3][0] in out and "p" in t[1] and last(t[1]["p"]) in ("deref", "deref_mut", "as_mut_slice", "as_mut", "borrow_mut"):
                    for o in t[2]:
                        if not oplocals(o) <= out:
                            out |= oplocals(o)
                            ch = True
        return out

    def flow(self, bid, params, seen=()):
        """(worst, returns an unordered sequence): forward dataflow over the blocks, state = unordered locals"""
        key = (bid, params)
        if key in self.memo:
            return self.memo[key]
        if bid in seen or len(seen) > 8:
            return None, False
        b = self.P.bodies[bid]
        IN = {0: frozenset(params)}
        work = [0]
        n = 0
        notes = []
        while work:
            i = work.pop()
            n += 1
            if n > 40 * len(b["blocks"]) + 400:
                return (False, "flow does not settle"), False
            out = self.step(b, i, set(IN[i]), seen + (bid,), None)
            for j in succs(b["blocks"][i]):
                if b["blocks"][j]["cl"]:
                    continue
                if j not in IN or not out <= IN[j]:
                    IN[j] = frozenset(out | IN.get(j, frozenset()))
                    work.append(j)
        ret = False
        for i in IN:
            out = self.step(b, i, set(IN[i]), seen + (bid,), notes)
            if b["blocks"][i]["t"][0] == "ret" and 0 in out:
                ret = True
        worst = None
        for w in notes:
            worst = self.worse(worst, w)
        self.memo[key] = (worst, ret)
        return worst, ret

    def fill(self, b, l, U, N):
        """the container behind a reference now has items in unknown order"""
        P = self.P
        for x in self.roots(b, l):
            if hashlike(P, b["locals"][x]) or ordered(P, b["locals"][x]):
                continue
            U.add(x)
            if 0 < x <= b["argc"] and P.types[b["locals"][x]]["k"] == "ref":
                N((True, "a list of the caller is filled in the order of a hash table"))

    def step(self, b, i, U, seen, notes):
        P = self.P
        N = notes.append if notes is not None else (lambda w: None)
        bl = b["blocks"][i]
        for st in bl["s"]:
            if st[0] != "=":
                continue
            d, dp = st[1]
            r = st[2]
            src = rvlocals(r)
            hit = False
            if src & U and r[0] in ("use", "ref", "cast"):
                pl = places_in([y for y in r[1:] if isinstance(y, list)])
                if any(e[0] in ("i", "ci", "sub") for p in pl if p[0] in U for e in p[1]):
                    N((True, "an item is taken by its position"))
                elif any(e[0] in ("f", "v") for p in pl if p[0] in U for e in p[1]) and not self.seqlike(b["locals"][d]):
                    pass
                elif dp:
                    N((False, "an unordered sequence is stored"))
                else:
                    hit = True
            elif src & U and r[0] == "agg":
                if P.types[b["locals"][d]]["k"] in ("adt", "tuple", "closure") and not dp:
                    hit = True
                else:
                    N((False, "an unordered sequence is stored"))
            if hit:
                U.add(d)
            elif not dp:
                U.discard(d)
        t = bl["t"]
        if t[0] != "call":
            return U
        c = t[1]
        n = last(c.get("p", "ptr"))
        al = set()
        for o in t[2]:
            al |= oplocals(o)
        d, dp = t[3]
        start = False
        if n in ITERS and t[2]:
            for l in oplocals(t[2][0]):
                if hashlike(P, b["locals"][l]):
                    start = True
            if "self" in c and hashlike(P, c["self"]):
                start = True
        hit = False
        clos = [l for o in t[2] for l in oplocals(o) if P.types[strip_ref(P, b["locals"][l]) or 0]["k"] == "closure"]
        if "i" in c and c["i"] in self.ret:
            hit = True
        elif start:
            if notes is not None:
                self.sites += 1
            if n in ("retain", "extract_if"):
                if notes is not None:
                    N(self.clos(b, clos))
            else:
                hit = True
        elif not al & U:
            pass
        elif "ptr" in c:
            N((False, "call through pointer"))
        elif "i" in c and c["i"] in P.bodies and P.bodies[c["i"]]["local"]:
            ps = frozenset(k + 1 for k, o in enumerate(t[2]) if oplocals(o) & U)
            w, hit = self.flow(c["i"], ps, seen)
            N(w)
        elif n.startswith("sort"):
            x = self.back(b, next(iter(oplocals(t[2][0])), 0))
            U -= x
            # whatever else refers to the same container
            if "key" in n:
                pass
        elif n == "next":
            if notes is not None or True:
                w, vecs = self.loop(b, i, d)
                N(w)
                for l in vecs:
                    self.fill(b, l, U, N)
        elif n in ("extend", "extend_from_slice", "append"):
            for l in oplocals(t[2][0]):
                if not hashlike(P, b["locals"][l]) and not ordered(P, b["locals"][l]):
                    if any(oplocals(o) & U for o in t[2][1:]):
                        self.fill(b, l, U, N)
        elif n in ("from_iter", "collect"):
            hit = not hashlike(P, b["locals"][d]) and not ordered(P, b["locals"][d])
        elif n in PASS:
            hit = self.seqlike(b["locals"][d]) or P.types[b["locals"][d]]["k"] == "adt"
            if notes is not None:
                N(self.clos(b, clos))
        elif n in FREE:
            if notes is not None:
                N(self.clos(b, clos))
        elif n in SENS:
            N((True, n + " on a sequence in the order of a hash table"))
        elif n in ("push", "insert") and oplocals(t[2][0]) & U:
            pass
        else:
            N((False, "passed to " + n))
        if not dp:
            if hit:
                U.add(d)
            else:
                U.discard(d)
        elif hit:
            N((False, "an unordered sequence is stored"))
        return U

    def seqlike(self, t):
        t = strip_ref(self.P, t)
        if t is None:
            return False
        x = self.P.types[t]
        p = x.get("path", "")
        return x["k"] in ("slice", "array") or "iter" in p.lower() or last(p) in HNAMES or p in ("std::vec::Vec", "std::boxed::Box", "std::collections::VecDeque") or any(s in p for s in ("hash_map::", "hash_set::", "hash_table::", "::map::", "::set::", "Drain"))

    def clos(self, b, ls):
        worst = None
        for l in ls:
            x = self.P.types[strip_ref(self.P, b["locals"][l])]
            if x.get("call") in self.P.bodies:
                worst = self.worse(worst, self.effect(x["call"]))
            else:
                worst = self.worse(worst, (False, "closure body not available"))
        return worst

    def loop(self, b, blk, opt):
        L = {i for i in cfg_loop(b, blk) if not b["blocks"][i]["cl"]}
        if not L:
            return (True, "one item is taken from a hash table"), set()
        defs = {}
        for i, bl in enumerate(b["blocks"]):
            for st in bl["s"]:
                if st[0] == "=" and not st[1][1]:
                    defs.setdefault(st[1][0], []).append((i, st[2]))
            if bl["t"][0] == "call":
                defs.setdefault(bl["t"][3][0], []).append((i, None))
        # locals that live across rounds: set before the loop, used in it
        fresh = {l for l in defs if all(i in L for i, r in defs[l])}
        al = {l for l in range(len(b["locals"])) if l not in fresh}
        al = self.derived(b, al) if al else al
        vecs = set()
        worst = self.region_effect(b, L, al, (), skip=(blk,), vecs=vecs)
        # values that change from round to round
        carried = {l for l in defs if l not in fresh and any(i in L for i, r in defs[l]) and self.P.types[b["locals"][l]]["k"] in ("int", "bool")}
        # memory that changes from round to round
        mem = set()
        for i in L:
            for st in b["blocks"][i]["s"]:
                if st[0] == "=" and st[1][1] and st[1][0] in al and ["d"] in st[1][1] and st[1][1][-1][0] == "f" and not (st[2][0] == "use" and st[2][1][0] == "k"):
                    mem.add(str(st[1]))
        dep = set(carried)
        ch = True
        while ch:
            ch = False
            for i in L:
                for st in b["blocks"][i]["s"]:
                    if st[0] == "=" and st[1][0] not in dep and not st[1][1] and (rvlocals(st[2]) & dep or mem and any(str(p) in mem for p in places_in([y for y in st[2][1:] if isinstance(y, list)]))):
                        dep.add(st[1][0])
                        ch = True
                t = b["blocks"][i]["t"]
                if t[0] == "call" and t[3][0] not in dep and (last(t[1].get("p", "")) == "len" or any(oplocals(o) & dep for o in t[2])):
                    dep.add(t[3][0])
                    ch = True
        for i in L:
            t = b["blocks"][i]["t"]
            if t[0] == "call" and last(t[1].get("p", "")) in ("insert", "entry", "or_insert", "or_insert_with", "push") and any(oplocals(o) & dep for o in t[2][1:]):
                worst = self.worse(worst, (True, "what is stored for an item depends on the items before it"))
            for st in b["blocks"][i]["s"]:
                if st[0] == "=" and st[1][1] and ["d"] in st[1][1] and st[1][0] in al and str(st[1]) not in mem and rvlocals(st[2]) & dep and st[2][0] == "use":
                    worst = self.worse(worst, (True, "what is stored for an item depends on the items before it"))
        for l in carried:
            for i, r in defs[l]:
                if i in L and not (r and (r[0] == "bin" and r[1] in COMM or r[0] == "use" and (r[1][0] == "k" or r[1][0] in ("c", "m") and self.comm_def(b, r[1][1][0])))):
                    worst = self.worse(worst, (False, "a value computed from the items leaves the loop"))
        return worst, vecs


def order_job():
    """nothing observable depends on the order in which a hash table is walked"""

    def run(env, res, split, job):
        P = env.P
        A = Order(P)
        L = [b for b in locals_of(P) if not (b["derived"] and b["key"].startswith("<"))]
        worst = {}
        ch = True
        while ch:
            ch = False
            A.memo = {}
            A.sites = 0
            for b in L:
                w, r = A.flow(b["id"], frozenset())
                worst[b["id"]] = w
                if r and b["id"] not in A.ret:
                    A.ret.add(b["id"])
                    ch = True
        for b in L:
            TOUCHED.add(b["path"])
            w = worst[b["id"]]
            if b["id"] in A.ret and b.get("reach"):
                w = A.worse(w, (True, "the caller receives a sequence in the order of a hash table"))
            if w is None:
                res.ok("det.order")
            elif w[0]:
                res.violate("det.order", b["key"], "the order of a hash table decides the outcome: " + w[1], "%s:%s" % (b["file"], b["line"]))
            else:
                res.undec("%s: use of an unordered sequence: %s" % (b["key"], w[1]))
        res.traces += len(L)
        res.samples.append("%d walks over hash tables" % A.sites)

    return run


def source_job():
    """no clocks, randomness, environment, addresses or hash values"""

    def run(env, res, split, job):
        P = env.P
        n = 0
        for b in locals_of(P):
            if b["derived"]:
                continue
            TOUCHED.add(b["path"])
            for i, t in calls(b):
                if "p" not in t[1]:
                    continue
                n += 1
                p = t[1]["p"]
                rp = t[1].get("rp", p)
                if any(x.startswith(NONDET) for x in (p, rp)):
                    res.violate("det.source", b["key"], "calls " + p, "%s:%s" % (b["file"], b["blocks"][i]["ln"]))
                if "Pointer" in p and "fmt" in p or p.endswith("::new_pointer"):
                    res.violate("det.source", b["key"], "an address is printed", "%s:%s" % (b["file"], b["blocks"][i]["ln"]))
            for bl in b["blocks"]:
                for st in bl["s"]:
                    if st[0] == "=" and st[2][0] == "cast" and str(st[2][1]).startswith("PointerExpose"):
                        res.violate("det.source", b["key"], "an address is used as a number", "%s:%s" % (b["file"], st[3]))
            v = hash_values(P, b)
            if v:
                if v[0]:
                    res.violate("det.hash", b["key"], "a hash value is used for more than finding a table slot: " + v[1], b["file"])
                else:
                    res.undec("%s: hash value %s" % (b["key"], v[1]))
        res.traces += len(locals_of(P))
        res.ok("det.source", n)

    return run


def hash_values(P, b):
    H = set()
    for i, t in calls(b):
        if "p" in t[1] and last(t[1]["p"]) in ("hash_one", "finish") and ("ahash" in t[1]["p"] or "hash" in t[1]["p"].lower()):
            H.add(t[3][0])
    if not H:
        return None
    ch = True
    while ch:
        ch = False
        for bl in b["blocks"]:
            for st in bl["s"]:
                if st[0] == "=" and rvlocals(st[2]) & H and st[1][0] not in H:
                    if st[2][0] == "bin" and st[2][1] in ("Lt", "Le", "Gt", "Ge", "Cmp"):
                        return (True, "compared by size")
                    if st[2][0] == "bin":
                        return (False, "arithmetic")
                    H.add(st[1][0])
                    ch = True
    if 0 in H:
        c = b["key"]
        return None if "{closure" in c else (False, "returned")
    for i, t in calls(b):
        if any(oplocals(o) & H for o in t[2]) and "p" in t[1]:
            p = t[1]["p"]
            if p.startswith("hashbrown::"):
                continue
            if last(p).startswith("sort") or last(p) in ("cmp", "partial_cmp", "lt", "gt", "push"):
                return (True, "given to " + last(p))
            return (False, "given to " + last(p))
    return None


# ---------------------------------------------------------------- independence of clones, threads

def changeable(P, i, seen=None):
    """name of a cell type through which a shared value can change, or None; set-once cells do not count"""
    seen = set() if seen is None else seen
    if i in seen:
        return None
    seen.add(i)
    x = P.types[i]
    if x["k"] == "adt":
        p = x["path"]
        n = last(p)
        if n in ("Cell", "RefCell", "UnsafeCell", "Mutex", "RwLock", "SyncUnsafeCell", "ReentrantLock") or n.startswith("Atomic") and "atomic" in p:
            return p
        sub = list(x["args"])
        if x["local"]:
            sub += [f[1] for v in x["variants"] for f in v["fields"]]
    elif x["k"] == "ref" and x.get("mut"):
        return "&mut"
    else:
        sub = list(inner_types(x))
    for y in sub:
        r = changeable(P, y, seen)
        if r:
            return r
    return None


def share_job():
    """values are independent of their clones and may be used from any thread"""

    def run(env, res, split, job):
        P = env.P
        pub = [a for a in P.d["adts"] if a["pub"]]
        n = 0
        for a in pub:
            name = last(a["path"])
            for tr in ("send", "sync"):
                if a[tr] is False:
                    res.violate("share." + tr, name, "values of %s cannot be %s threads" % (name, "moved between" if tr == "send" else "shared between"))
                else:
                    n += 1
            seen = set()
            todo = [(a["ty"], name)]
            while todo:
                i, pth = todo.pop()
                if i in seen:
                    continue
                seen.add(i)
                x = P.types[i]
                k = x["k"]
                if k == "adt":
                    p = x["path"]
                    n += 1
                    if last(p) in ("Arc", "Rc", "Weak"):
                        for y in x["args"]:
                            c = changeable(P, y)
                            if c:
                                res.violate("share.state", name, "%s holds a %s with a %s, which clones share and change" % (name, last(p), c), pth)
                    for y in x["args"]:
                        todo.append((y, pth))
                    if x["local"]:
                        for v in x["variants"]:
                            for f in v["fields"]:
                                todo.append((f[1], pth + "." + f[0]))
                elif k in ("ref", "ptr"):
                    c = "&mut" if x.get("mut") else changeable(P, x["e"])
                    if c and a["clone"]:
                        res.violate("share.state", name, "%s refers to a %s, which clones share and change" % (name, c), pth)
                else:
                    todo += [(y, pth) for y in inner_types(x)]
        for s in P.d["statics"]:
            if s["mut"] or not s["freeze"] and changeable(P, s["ty"]):
                res.violate("share.static", s["path"], "state shared by all values of the program")
        for b in locals_of(P):
            TOUCHED.add(b["path"])
            for i, t in calls(b):
                if "p" in t[1] and ("thread::LocalKey" in t[1]["p"] or "thread::local" in t[1]["p"]):
                    res.violate("share.static", b["key"], "state shared by all values of a thread", b["file"])
        for i in P.d["impls"]:
            if i["trait"] in ("std::marker::Send", "std::marker::Sync") and i["unsafe"] and not i["macro"]:
                res.violate("share.send", i["self"], "%s is claimed by an unsafe impl" % i["trait"])
        res.traces += len(pub)
        res.ok("share", n)
        res.samples.append("%d public types" % len(pub))

    return run


# ---------------------------------------------------------------- unsafe code


class Guards:
    """where values come from and which branches lead to a block, in one function"""

    def __init__(self, P, b):
        self.P, self.b = P, b
        self.defs = {}
        for i, bl in enumerate(b["blocks"]):
            for st in bl["s"]:
                if st[0] == "=" and not st[1][1]:
                    self.defs.setdefault(st[1][0], []).append(("s", st[2]))
            if bl["t"][0] == "call" and not bl["t"][3][1]:
                self.defs.setdefault(bl["t"][3][0], []).append(("c", bl["t"]))

    def val(self, o, depth=0):
        """a name for the value of an operand, the same for equal values"""
        if depth > 12:
            return ("deep", str(o))
        if o[0] == "k":
            return ("k", str(o[1]))
        l, pr = o[1]
        pr = [e for e in pr]
        d = self.defs.get(l, [])
        if 1 <= l <= self.b["argc"] or len(d) != 1:
            return ("l", l, str(pr))
        k, x = d[0]
        if k == "s" and x[0] == "use":
            if x[1][0] == "k":
                return ("k", str(x[1][1]))
            return self.val(["c", [x[1][1][0], x[1][1][1] + pr]], depth + 1)
        if k == "s" and x[0] == "ref":
            # a reference stands for what it refers to
            q = x[2][1] + (pr[1:] if pr and pr[0] == ["d"] else pr)
            return self.val(["c", [x[2][0], q]], depth + 1)
        if k == "s" and x[0] == "cast":
            if x[1] in ("IntToInt",):
                a, c = self.P.types[x[3]], self.P.types[x[4]]
                if a["k"] == "int" and c["k"] == "int" and a["bits"] >= c["bits"] and not c["signed"]:
                    return self.val(x[2], depth + 1)
                return ("cast", str(a.get("s")), self.val(x[2], depth + 1))
            return self.val(x[2], depth + 1)
        if k == "s" and x[0] == "un" and x[1] == "PtrMetadata":
            return ("len", self.val(x[2], depth + 1))
        if k == "s" and x[0] == "bin":
            return (x[1], self.val(x[2], depth + 1), self.val(x[3], depth + 1))
        if k == "c":
            n = last(x[1].get("p", "?"))
            if n == "len" and x[2]:
                return ("len", self.val(x[2][0], depth + 1))
            if n in ("deref", "deref_mut", "as_slice", "as_mut_slice", "as_ptr", "as_mut_ptr", "cast", "as_ref", "borrow"):
                return self.val(x[2][0], depth + 1)
            return ("call", n, tuple(self.val(o, depth + 1) for o in x[2]))
        return ("l", l, str(pr))

    def known(self, blk):
        """comparisons that hold on every path to a block"""
        n = len(self.b["blocks"])
        pred = {i: [] for i in range(n)}
        for i, bl in enumerate(self.b["blocks"]):
            for j in succs(bl):
                pred[j].append(i)
        dom = {0: {0}}
        allb = set(range(n))
        D = [allb.copy() for _ in range(n)]
        D[0] = {0}
        ch = True
        while ch:
            ch = False
            for i in range(1, n):
                if not pred[i]:
                    continue
                x = set.intersection(*[D[p] for p in pred[i]]) | {i}
                if x != D[i]:
                    D[i] = x
                    ch = True
        out = set()
        for i in D[blk]:
            t = self.b["blocks"][i]["t"]
            if t[0] == "switch":
                v = self.val(t[1])
                for val, tgt in [(x[0], x[1]) for x in t[2]] + [(None, t[3])]:
                    tg = [x[1] for x in t[2]] + [t[3]]
                    if tg.count(tgt) == 1 and tgt in D[blk] and pred[tgt] == [i]:
                        truth = (val != 0) if val is not None else True
                        if val is None and not any(x[0] == 0 for x in t[2]):
                            continue
                        self.fact(v, truth, out)
            elif t[0] == "assert" and t[3] in D[blk] and pred[t[3]] == [i]:
                self.fact(self.val(t[1]), t[2], out)
        return out

    def fact(self, v, truth, out):
        neg = {"Lt": "Ge", "Ge": "Lt", "Gt": "Le", "Le": "Gt", "Eq": "Ne", "Ne": "Eq"}
        sw = {"Lt": "Gt", "Gt": "Lt", "Le": "Ge", "Ge": "Le", "Eq": "Eq", "Ne": "Ne"}
        if v and v[0] == "Not":
            return self.fact(v[1], not truth, out)
        if v and v[0] in neg and len(v) == 3:
            op = v[0] if truth else neg[v[0]]
            out.add((op, v[1], v[2]))
            out.add((sw[op], v[2], v[1]))


def unsafe_job():
    """every unsafe operation has its precondition established in the function that contains it"""

    def run(env, res, split, job):
        P = env.P
        n = 0
        tag = P.adt("ExprTag")
        for b in locals_of(P):
            TOUCHED.add(b["path"])
            W = b["key"]
            G = None
            boxed = set()
            for bl in b["blocks"]:
                for st in bl["s"]:
                    if st[0] == "=" and st[2][0] == "cast" and "BoxDeref" in str(st[2][1]):
                        boxed.add(st[1][0])
            for i, bl in enumerate(b["blocks"]):
                for st in bl["s"]:
                    if st[0] != "=":
                        continue
                    n += 1
                    r = st[2]
                    at = "%s:%s" % (b["file"], st[3])
                    if r[0] == "cast" and r[1] == "Transmute":
                        if reinterpret(P, r[4], r[3]):
                            continue
                        if r[3] == tag:
                            continue  # decided by the range job
                        res.violate("unsafe.transmute", W, "a value is reinterpreted as %s" % P.types[r[3]].get("s"), at)
                    for pl in places(st):
                        base = P.types[b["locals"][pl[0]]]
                        if base["k"] == "ptr" and pl[1] and pl[1][0] == ["d"] and pl[0] not in boxed:
                            d = [s for bb in b["blocks"] for s in bb["s"] if s[0] == "=" and s[1] == [pl[0], []]]
                            if d and all(s[2][0] == "ref" for s in d):
                                continue  # a pointer taken from a place of the function itself
                            res.violate("unsafe.deref", W, "a raw pointer is dereferenced", at)
                t = bl["t"]
                if t[0] != "call" or bl["cl"]:
                    continue
                n += 1
                c = t[1]
                if "ptr" in c:
                    continue
                p = c["p"]
                at = "%s:%s" % (b["file"], bl["ln"])
                if c.get("unsafe") and not p.startswith("std::fmt::"):
                    if "i" in c and P.bodies[c["i"]]["local"]:
                        res.undec("%s calls an unsafe function of the crate" % W)
                        continue
                    m = last(p)
                    G = G or Guards(P, b)
                    if m == "transmute" and len(c["a"]) == 2 and (reinterpret(P, c["a"][0], c["a"][1]) or c["a"][1] == tag):
                        continue
                    if m in ("get_unchecked", "get_unchecked_mut"):
                        s, x = G.val(t[2][0]), G.val(t[2][1])
                        f = G.known(i)
                        if ("Lt", x, ("len", s)) in f:
                            res.ok("unsafe.guard")
                            continue
                        res.violate("unsafe.call", W, "an item is taken without a check that the index is below the length", at)
                        continue
                    if m in ("from_raw_parts", "from_raw_parts_mut"):
                        s, x = G.val(t[2][0]), G.val(t[2][1])
                        if x == ("len", s):
                            res.ok("unsafe.guard")
                            continue
                        res.violate("unsafe.call", W, "a sequence is built from a pointer and a length that is not its own", at)
                        continue
                    if m == "unwrap_unchecked":
                        res.violate("unsafe.call", W, "a value is taken out without a check that it is there", at)
                        continue
                    if m == "unreachable_unchecked":
                        res.undec("unreachable_unchecked in " + W)
                        continue
                    if m == "from_utf8_unchecked" or "new_unchecked" in m or "from_u32_unchecked" in m:
                        res.violate("unsafe.call", W, "calls %s without a check of its precondition" % m, at)
                        continue
                    res.violate("unsafe.call", W, "calls the unsafe function %s, whose precondition the function does not establish" % p, at)
                if p.startswith("bytemuck::") and len(c["a"]) >= 1:
                    l = [flat_size(P, x) for x in c["a"]]
                    if None in l:
                        res.undec("layout of " + str([P.types[x].get("s") for x in c["a"]]))
                    elif len(l) == 2 and "slice" in p and l[0] != l[1]:
                        res.violate("unsafe.layout", W, "reinterprets a sequence of %s as one of %s" % tuple(P.types[x].get("s") for x in c["a"]), at)
                    else:
                        res.ok("unsafe.layout")
        for i in P.d["impls"]:
            if i["unsafe"] and not i["macro"]:
                res.violate("unsafe.impl", i["self"], "%s is claimed by hand" % i["trait"])
        res.traces += len(locals_of(P))
        res.ok("unsafe", n)

    return run


def reinterpret(P, src, dst):
    """may any value of one type be read as the other? sequences of numbers of one width, and pointers to them"""
    a, d = P.types[src], P.types[dst]
    if a["k"] in ("ref", "ptr") and d["k"] in ("ref", "ptr"):
        if d["k"] == "ref" and (a["k"] == "ptr" or d.get("mut") and not a.get("mut")):
            return False
        return reinterpret(P, a["e"], d["e"])
    if a["k"] == "slice" and d["k"] == "slice":
        return reinterpret(P, a["e"], d["e"])
    if a["k"] == "array" and d["k"] == "array" and a["len"] == d["len"]:
        return reinterpret(P, a["e"], d["e"])
    x, y = flat_size(P, src), flat_size(P, dst)
    return x is not None and x == y


def places(st):
    return [st[1]] + places_in(st[2][2:] if st[2][0] == "agg" else [y for y in st[2][1:] if isinstance(y, list)])


def flat_size(P, t):
    x = P.types[t]
    if x["k"] == "int":
        return x.get("bits")
    if x["k"] == "adt" and x.get("local") and not x.get("enum"):
        l = [flat_size(P, f[1]) for f in x["variants"][0]["fields"]]
        return l[0] if len(l) == 1 else None
    return None


def range_job():
    """the number-to-kind conversion: for all 256 numbers either the kind with that number or a panic"""

    def run(env, res, split, job):
        P = env.P
        tag = P.adt("ExprTag")
        l = [b for b in locals_of(P) if not b["derived"] and b["argc"] == 1 and b["locals"][0] == tag and P.types[b["locals"][1]]["k"] == "int"]
        if not l:
            raise Undecided("no conversion to node kinds")
        valid = {int(v["discr"]): v["name"] for v in P.types[tag]["variants"]}
        for b in l:
            # a caller may have to establish the range of an unsafe function
            if b.get("unsafefn"):
                res.undec("unsafe conversion " + b["key"])
                continue
            bits = P.types[b["locals"][1]].get("bits", 8)
            for n in list(range(256)) + ([256, 1 << 16, (1 << bits) - 1] if bits > 8 else []):

                def f(I, ctx):
                    return I.run(b["id"], [n])

                for ctx, out in explore(lambda ctx: f(env.interp(ctx), ctx)):
                    res.traces += 1
                    if isinstance(out, Undecided):
                        res.undec(out)
                    elif isinstance(out, Panic):
                        if "undefined behaviour" in str(out):
                            res.violate("unsafe.range", b["key"], "the number %d, which is no kind, is reinterpreted as one" % n)
                        elif n in valid:
                            res.violate("unsafe.range", b["key"], "the number of kind %s is refused" % valid[n])
                        else:
                            res.ok("unsafe.range")
                    elif isinstance(out, Exception):
                        pass
                    else:
                        v = strip(out)
                        k = v if isinstance(v, int) else int(P.types[tag]["variants"][v.v]["discr"])
                        if n not in valid or k != n:
                            res.violate("unsafe.range", b["key"], "the number %d becomes kind %s" % (n, valid.get(k, "that does not exist")))
                        else:
                            res.ok("unsafe.range")

    return run


# ---------------------------------------------------------------- how much has been built


TABLES = ("HashMap", "HashSet", "HashTable", "BTreeMap", "BTreeSet", "IndexMap")


def grows(P, t, seen=None):
    """the type owns a table: values of it remember earlier work"""
    seen = set() if seen is None else seen
    if t in seen:
        return False
    seen.add(t)
    x = P.types[t]
    if x["k"] != "adt":
        return False
    if last(x["path"]) in TABLES:
        return True
    if not x["local"]:
        return any(grows(P, y, seen) for y in x["args"])
    return any(grows(P, f[1], seen) for v in x["variants"] for f in v["fields"])


def size_job():
    """no branch on how much was built or computed before, other than growing the tables"""

    def run(env, res, split, job):
        P = env.P

        owned = set()
        todo = [a["ty"] for a in P.d["adts"] if a["pub"]]
        while todo:
            t = todo.pop()
            if t not in owned and P.types[t]["k"] == "adt":
                owned.add(t)
                x = P.types[t]
                todo += x["args"]
                if x["local"]:
                    todo += [f[1] for v in x["variants"] for f in v["fields"]]

        def lasts(t):
            return t in owned and grows(P, t)

        def place(b, l, pr):
            """[(type, field)] along a place"""
            t = b["locals"][l]
            out = []
            for e in pr:
                x = P.types[t]
                if e[0] == "d":
                    t = x.get("e", x["args"][0] if x.get("args") else None)
                elif e[0] == "f" and x["k"] == "adt" and x["local"] and not x.get("enum"):
                    out.append((t, e[1]))
                    t = x["variants"][0]["fields"][e[1]][1]
                else:
                    return out, None
                if t is None:
                    return out, None
            return out, t

        def is_const(v):
            return v[0] == "k" or v[0] == "cast" and is_const(v[2])

        def number(v):
            if v[0] == "cast":
                return number(v[2])
            m = re.match(r"\['int', (\d+)\]", v[1])
            return int(m.group(1)) if m else 1 << 32

        # counters: numbers in such a type that are written as a function of themselves
        counters = set()
        bodies = [b for b in locals_of(P) if not b["derived"]]
        for b in bodies:
            g = Guards(P, b)
            for bl in b["blocks"]:
                for st in bl["s"]:
                    if st[0] == "=" and st[2][0] == "ref" and st[2][1] is True:
                        own, t = place(b, *st[2][2])
                        if own and t is not None and P.types[t]["k"] == "int" and lasts(own[-1][0]):
                            counters.add(own[-1])  # changed through a reference
                        continue
                    if st[0] != "=" or not st[1][1]:
                        continue
                    own, t = place(b, *st[1])
                    if not own or t is None or P.types[t]["k"] != "int" or not lasts(own[-1][0]):
                        continue
                    v = g.val(st[2][1], 0) if st[2][0] == "use" and st[2][1][0] != "k" else (st[2][1], st[2][2]) if st[2][0] == "bin" else None
                    if v is not None and re.search(r"Add|Sub", str(v)) :
                        counters.add(own[-1])

        def history(b, v):
            """the value depends on the size of a table or a counter; its name"""
            if not isinstance(v, tuple):
                return None
            if v[0] == "len" and v[1][0] != "l":
                return history(b, v[1])
            if v[0] == "len":
                own, t = place(b, v[1][1], ast.literal_eval(v[1][2]))
                if t is not None:
                    while P.types[t]["k"] == "ref":
                        t = P.types[t]["e"]
                    if own and lasts(own[-1][0]) and P.types[t]["k"] == "adt" or lasts(t) and P.types[t]["local"]:
                        return "the size of " + name(b, v[1], own, t)
                return None
            if v[0] == "l":
                own, t = place(b, v[1], ast.literal_eval(v[2]))
                return "the counter " + name(b, v, own, t) if t is not None and own and own[-1] in counters else None
            if v[0] == "call":
                return getters.get(v[1])
            if v[0] in ("deep", "k"):
                return None
            for y in v[1:]:
                r = history(b, y)
                if r:
                    return r
            return None

        def name(b, v, own, t):
            if own:
                o, f = own[-1]
                return "%s.%s" % (last(P.types[o]["path"]), P.types[o]["variants"][0]["fields"][f][0])
            return last(P.types[t]["path"])

        def inside(v):
            """a constant inside of arithmetic (every so many)"""
            return isinstance(v, tuple) and (v[0] in ("Rem", "BitAnd", "Shr", "Div") and is_const(v[2]) or v[0] not in ("k", "l", "deep") and any(inside(y) for y in v[1:]))

        # functions that return such a size
        getters = {}
        for _ in range(3):
            for b in bodies:
                if b["argc"] == 1 and P.types[b["locals"][0]]["k"] == "int":
                    h = history(b, Guards(P, b).val(["c", [0, []]]))
                    if h:
                        getters[last(b["key"])] = h
        n = 0
        for b in bodies:
            TOUCHED.add(b["path"])
            g = Guards(P, b)
            ret = None
            for i, bl in enumerate(b["blocks"]):
                t = bl["t"]
                if t[0] != "switch":
                    continue
                v = g.val(t[1])
                while v and v[0] == "Not":
                    v = v[1]
                if not v or v[0] not in ("Lt", "Le", "Gt", "Ge", "Eq", "Ne"):
                    if not (v and inside(v)):
                        continue
                    v = ("Eq", v, ("k", "['int', 0]"))
                for x, y in ((v[1], v[2]), (v[2], v[1])):
                    if not is_const(y):
                        continue
                    h = history(b, x)
                    if h is None:
                        continue
                    n += 1
                    if number(y) < 16 and not inside(x):
                        continue
                    if ret is None:
                        ret = returning(b)
                    tg = succs(bl)
                    if any(z not in ret for z in tg) or only_reserves(b, tg):
                        continue
                    res.violate("history.size", b["key"], "the outcome depends on %s" % h, "%s:%s, compared with %d" % (b["file"], bl["ln"], number(y)), key=h)
        res.traces += len(bodies)
        res.ok("history.size", n + len(bodies))
        res.samples.append("counters: " + ", ".join(sorted("%s.%s" % (last(P.types[o]["path"]), P.types[o]["variants"][0]["fields"][f][0]) for o, f in counters)))
        res.samples.append("%d functions, %d comparisons of sizes with constants" % (len(bodies), n))

    return run


def returning(b):
    """blocks from which the function can return"""
    pred = {}
    for i, bl in enumerate(b["blocks"]):
        for j in succs(bl):
            pred.setdefault(j, set()).add(i)
    todo = [i for i, bl in enumerate(b["blocks"]) if bl["t"][0] == "ret"]
    seen = set(todo)
    while todo:
        for p in pred.get(todo.pop(), ()):
            if p not in seen:
                seen.add(p)
                todo.append(p)
    return seen


RESERVES = ("reserve", "reserve_exact", "try_reserve", "shrink_to_fit", "shrink_to", "capacity", "len", "num_bytes")


def only_reserves(b, tg):
    """the blocks that only some of the targets lead to make room and nothing else"""

    def reach(x):
        s, todo = {x}, [x]
        while todo:
            for y in succs(b["blocks"][todo.pop()]):
                if y not in s:
                    s.add(y)
                    todo.append(y)
        return s

    R = [reach(x) for x in tg]
    common = set.intersection(*R)
    for i in set.union(*R) - common:
        bl = b["blocks"][i]
        t = bl["t"]
        if t[0] == "ret" or t[0] == "call" and last(t[1].get("rp", t[1].get("p", "?"))) not in RESERVES and last(t[1].get("p", "?")) not in RESERVES:
            return False
        for st in bl["s"]:
            if st[0] == "=" and st[1][1]:
                return False
    return True


def all_jobs(tier):
    th = tier == "thorough"
    J = [
        Job("rec", "cycles of the call graph", rec_job()),
        Job("rec", "recursive types", rectype_job()),
        Job("rec", "depth of prefix sharing", depth_job(250, 280), secs=400),
        Job("det", "walks over hash tables", order_job()),
        Job("det", "clocks, randomness, addresses, hash values", source_job()),
        Job("history", "branches on the size of tables", size_job()),
        Job("share", "shared state in public types", share_job()),
        Job("unsafe", "unsafe operations", unsafe_job()),
        Job("unsafe", "numbers of node kinds", range_job()),
    ]
    return J
