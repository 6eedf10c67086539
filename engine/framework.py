"""Jobs, obligations, results; the registry of analysis groups."""
import json
import os
import random
import signal
import sys
import time
import traceback
from concurrent.futures import ProcessPoolExecutor
import multiprocessing as mp

from core import *
from interp import Program, Interp, SymEnum
from models import MODELS
from nodes import *
import oracle as O

SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick")


class Env:
    """what a job can use; one per worker process"""

    def __init__(self, P):
        self.P = P
        self.pools = O.Pools(SEED)
        self._tpl = {}

    def interp(self, ctx):
        I = Interp(self.P, ctx, MODELS)
        I.touched = TOUCHED
        return I

    def template(self, k=3, pool=44):
        t = self._tpl.get((k, pool))
        if t is None:
            t = self._tpl[(k, pool)] = Template(self.P, self.interp(Ctx([])), k, pool)
        return t


TOUCHED = set()


class Result:
    def __init__(self, name):
        self.name = name
        self.traces = 0
        self.undecided = 0
        self.infeasible = 0
        self.obligations = 0  # decided obligations
        self.evals = 0
        self.skipped = 0
        self.reasons = {}
        self.violations = []  # dicts rule, where, what, detail
        self.shapes = set()
        self.samples = []
        self.touched = set()
        self.truncated = False
        self.wall = 0.0
        self.error = None

    def undec(self, e):
        self.undecided += 1
        r = str(e)[:90]
        self.reasons[r] = self.reasons.get(r, 0) + 1

    def violate(self, rule, where, what, detail="", key=None):
        v = dict(rule=rule, where=where, what=what, detail=str(detail)[:1500], key=key or "")
        if len(self.violations) < 40 and not any(x["rule"] == rule and x["what"] == what for x in self.violations):
            self.violations.append(v)

    def ok(self, rule, n=1):
        self.obligations += n


class Job:
    def __init__(self, group, name, fn, split=1, limit=60000, secs=150):
        self.group = group
        self.name = name
        self.fn = fn
        self.split = split
        self.limit = limit
        self.secs = secs


_ENV = None
_JOBS = None


def _run(idx):
    ji, si = idx
    job = _JOBS[ji]
    res = Result(job.name)
    TOUCHED.clear()
    t = time.time()
    res.group = job.group
    left = DEADLINE[0] - t if DEADLINE[0] else None
    if left is not None and left <= 0:
        res.undec("out of time")
        res.truncated = True
        return res
    if left is not None:
        job.secs = min(job.secs, left)
        signal.signal(signal.SIGALRM, out_of_time)
        signal.setitimer(signal.ITIMER_REAL, left + 10, 5)
    try:
        job.fn(_ENV, res, (si, job.split) if job.split > 1 else None, job)
    except Undecided as e:
        res.undec(e)
    except Exception as e:
        res.error = "%s\n%s" % (e, traceback.format_exc()[-1500:])
    finally:
        if left is not None:
            signal.setitimer(signal.ITIMER_REAL, 0)
    res.touched = set(TOUCHED)
    res.wall = time.time() - t
    return res


DEADLINE = [None]


def out_of_time(sig, frame):
    raise Undecided("out of time")


def run_jobs(P, jobs, nproc=8, limit=None, stop=None):
    """limit: seconds for everything; stop(result): nothing more needs to be found out"""
    global _ENV, _JOBS
    DEADLINE[0] = time.time() + limit if limit else None
    _ENV = Env(P)
    _JOBS = jobs
    work = [(i, s) for i, j in enumerate(jobs) for s in range(j.split)]
    out = []
    if nproc == 1:
        return [_run(w) for w in work]
    with mp.get_context("fork").Pool(nproc) as pool:
        for r in pool.imap_unordered(_run, work, chunksize=1):
            out.append(r)
            if stop is not None and stop(r):
                pool.terminate()
                break
    return out


def traces(env, res, split, job, fn, budget=3_000_000, panics=None, diverge=None):
    """explore fn(I, ctx); yields (I, ctx, value) of completed traces; panics: rule for Panic outcomes;
    diverge: rule for traces that use up the step budget (chosen far above what a terminating trace needs)"""
    cell = [None]

    def f(ctx):
        I = env.interp(ctx)
        cell[0] = I
        v = fn(I, ctx)
        return v

    for ctx, out in explore(f, job.limit, budget, split, time.time() + job.secs):
        if ctx is None:
            res.truncated = True
            continue
        res.traces += 1
        if isinstance(out, Budget) and diverge is not None:
            rule, where, what = diverge
            res.violate(rule, where, "no end after %d steps" % budget, what)
            continue
        if isinstance(out, Undecided):
            res.undec(out)
            continue
        if isinstance(out, Infeasible):
            res.infeasible += 1
            continue
        if isinstance(out, Panic):
            if panics is not None:
                rule, show = panics
                w = getattr(out, "where", "?")
                res.violate(rule, w, "panic: %s in %s" % (getattr(out, "msg", out), w), (show(cell[0]) if show else "") + " | " + " ".join(ctx.labels))
            continue
        yield cell[0], ctx, out


# ---------------------------------------------------------------- regex-language obligation


def check_lang(env, res, u, rule, flagrule, where, op, args, ints, r, n=10, mask=O.FULL, seed=7, alt=None, known=None):
    """obligation: language of node r == op(args) for all languages of the unknown operands consistent
    with what the trace has established, decided on finite samples of the language domain; flags of r
    agree with that language"""
    views = {}
    rng = random.Random(seed)
    try:
        fl = (u.null(r), u.pos(r))
    except Infeasible:
        return
    done = 0
    for k in range(n):
        A = O.Assign(u, env.pools, rng, views)
        if A.bad:
            continue
        try:
            if alt is not None:
                e = alt(A)
            else:
                e = A.op(op, [A.den(x) for x in args], ints)
            g = A.den(r)
        except (O.Skip, Undecided):
            res.skipped += 1
            continue
        except Infeasible:
            continue
        if e is None or g is None:
            res.skipped += 1
            continue
        done += 1
        res.evals += 1
        diff = (e[0] ^ g[0]) & mask
        if diff or (e[2] is not None and g[2] is not None and e[2] != g[2]):
            i = next(O.bits(diff)) if diff else None
            res.violate(
                rule,
                where,
                "%s(%s%s) -> %s" % (op, ", ".join(u.show(x) for x in args), "".join("; %s" % (x,) for x in ints), u.show(r)),
                "language differs%s: expected %s; operands: %s"
                % (
                    " on the word " + O.wstr(i) if i is not None else " (emptiness)",
                    "member" if i is not None and e[0] >> i & 1 else "non-member",
                    {u.show(x): hex(A.memo[x][0]) for x in args if x in A.memo},
                ),
            )
            break
        if flagrule is not None:
            # judge the flags against the language the result must have
            if fl[0] != bool(e[0] & 1) or (fl[1] and e[2] is False) or (fl[0] and not fl[1]):
                d = "flags nullable=%s positive=%s, but the language %s the empty string and is %s" % (
                    fl[0],
                    fl[1],
                    "contains" if e[0] & 1 else "does not contain",
                    {True: "non-empty", False: "empty", None: "?"}[e[2]],
                )
                key = known(u, op, args, r, fl, e) if known else None
                res.violate(
                    flagrule,
                    where,
                    "flags of %s(%s%s) -> %s" % (op, ", ".join(u.show(x) for x in args), "".join("; %s" % (x,) for x in ints), u.show(r)),
                    d,
                    key,
                )
                break
    if mask == O.FULL and done:
        for k in range(6):
            A = O.UAssign(u, env.pools, rng, views)
            if A.bad:
                continue
            try:
                e = A.op(op, [A.den(x) for x in args], ints) if alt is None else None
                g = A.den(r)
            except (O.Skip, Undecided, Infeasible):
                continue
            if e is None or g is None:
                continue
            res.evals += 1
            if e != g:
                res.violate(
                    rule,
                    where,
                    "%s(%s%s) -> %s" % (op, ", ".join(u.show(x) for x in args), "".join("; %s" % (x,) for x in ints), u.show(r)),
                    "over one letter: expected lengths %s, got %s; operands: %s; integers %s" % (e, g, {u.show(x): A.memo[x] for x in args if x in A.memo}, {a.name: v for a, v in A.atoms.items()}),
                )
                break
    if done:
        res.ok(rule)
        if len(res.samples) < 3:
            res.samples.append("%s(%s%s) => %s" % (op, ", ".join(u.show(x) for x in args), "".join("; %s" % (x,) for x in ints), u.show(r)))


def used(I, new):
    """a cache that has been used for other things: tables hold any number of other entries, counters any number"""
    PERSIST[0] = True
    try:
        c = I.call_path(new)
    finally:
        PERSIST[0] = False
    if not isinstance(c, Agg):
        return c
    for i, x in enumerate(c.f):
        if isinstance(x, int) and not isinstance(x, bool):
            c.f[i] = SInt(Atom("count%d" % i, x, 1 << 40))
    return c
