"""Constructor summaries: a call mk_X(args) becomes a new abstract node whose language is X(args).
The summaries are what the groups mk_* establish for the constructors (assume-guarantee)."""
from framework import *

NARY = {"ExprSet::mk_or": "Or", "ExprSet::mk_and": "And", "ExprSet::mk_concat": "Concat"}
UNARY = {"ExprSet::mk_not": "Not", "ExprSet::mk_prefixes": "Prefixes"}


def install(u, nomatch=(), pay=1, nomax=3):
    """nomatch: operators whose result may also turn out to be the no-match node itself"""
    I = u.I
    memo = {}
    u.empties = []  # (op, args, ints): assumed to denote the empty language

    def charge():
        es = u.es
        for i, v in enumerate(u.P.types[u.P.adt("ExprSet")]["variants"][0]["fields"]):
            if v[0] == "cost" and isinstance(es.f[i], int):
                es.f[i] += pay

    def result(op, args, ints):
        charge()
        key = (op, tuple(args), tuple((x.a.name, x.o) if isinstance(x, SInt) else x for x in ints))
        if key in memo:
            return u.ref(memo[key])
        # constants that every constructor returns for these operands
        if op in ("Or", "And", "Concat") and len(args) == 0:
            r = {"Or": NO_MATCH, "And": ANYSTR, "Concat": EMPTY}[op]
        elif op == "Not" and args[0] in (EMPTY, NO_MATCH, ANYSTR, NONEMPTY):
            r = {EMPTY: NONEMPTY, NO_MATCH: ANYSTR, ANYSTR: NO_MATCH, NONEMPTY: EMPTY}[args[0]]
        elif op in ("Or", "And", "Concat") and len(args) == 1:
            r = args[0]
        elif op in ("Concat", "And") and NO_MATCH in args:
            r = NO_MATCH
        elif op in ("Lookahead", "Prefixes") and args[0] == NO_MATCH:
            r = NO_MATCH
        elif op in nomatch and len(u.empties) < nomax and I.ctx.choose(2, op + "=no match") == 1:
            u.empties.append((op, args, ints))
            r = NO_MATCH
        else:
            r = u.fresh((op, list(args), list(ints)), name="%s%d" % (op, len(memo))).id
        memo[key] = r
        return u.ref(r)

    def ids(v):
        return [strip(x).f[0] for x in seq(v)]

    def nary(op):
        def h(I, body, a):
            if not u.mine(a[0]):
                return NotImplemented
            return result(op, ids(a[1]), [])

        return h

    def unary(op):
        def h(I, body, a):
            if not u.mine(a[0]):
                return NotImplemented
            return result(op, [strip(a[1]).f[0]], list(a[2:]))

        return h

    for k, op in NARY.items():
        need(u.P, k)
        I.hooks[k] = nary(op)
    for k, op in list(UNARY.items()) + [("ExprSet::mk_repeat", "Repeat"), ("ExprSet::mk_lookahead", "Lookahead")]:
        need(u.P, k)
        I.hooks[k] = unary(op)
    u.result = result


def empties_ok(u, A):
    """does the assignment satisfy what the trace assumed to be empty?"""
    for op, args, ints in u.empties:
        d = A.op(op, [A.den(x) for x in args], ints)
        if d is None or d[2] is not False:
            return False
    return True
