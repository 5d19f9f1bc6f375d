"""Obligations: generation by symbolic execution of the real code, discharge."""
import time
import traceback
import sys
from .index import *
from .terms import *
from .sym import *
from .norm import prove_equal, prove_zero, Result, Norm, Limit, brackets, refute_zero, real_hints


class Goal(object):
    """lhs, rhs: two real terms are equal; cond: index condition; ok: python
    truth; pos: a real term is not negative (from its form); ge, gt: a real
    term is not negative (is positive) under the real conditions of the path"""

    def __init__(self, name, lhs=None, rhs=None, ok=None, cond=None, why='', pos=None, ge=None, gt=None):
        self.name, self.lhs, self.rhs, self.ok, self.cond, self.why, self.pos = \
            name, lhs, rhs, ok, cond, why, pos
        self.ge, self.gt = ge, gt
        self.weak = False       # only a failing input refutes it


class Ob(object):
    """One proof obligation.

    name     stable name: <function>/<contract>/<case>
    funcs    functions of /repo the obligation is about
    run      () -> list of Goal, executed on every path (symbolic execution)
    conds    preconditions (index conditions); ranges: index variable -> size
    allowed  exception types that satisfy the contract on this path
    replay   (model) -> None or a dict describing a failing input on the real
             code (raises nothing)
    """

    def __init__(self, name, funcs, run, conds=(), ranges=None, rsubst=None, allowed=(),
                 replay=None, max_paths=400, timeout=20, domains=None, assume=(), must_raise=None,
                 mods=(), extra=None, limit=None, concrete=True, maxsize=3, require=(), inductive=False,
                 conc=None):
        self.name, self.funcs, self.run = name, funcs, run
        self.conds, self.ranges, self.rsubst = tuple(conds), dict(ranges or {}), rsubst
        self.allowed, self.replay, self.max_paths = tuple(allowed), replay, max_paths
        self.timeout, self.domains = timeout, domains
        self.assume = assume
        self.must_raise = must_raise
        self.mods, self.extra, self.limit = tuple(mods), extra, limit
        self.concrete, self.maxsize = concrete, maxsize
        self.require = tuple(require)   # goals that have to occur
        self.inductive = inductive      # a countermodel may start from an unreachable state
        self.conc = conc                # (seed) -> None or a failing input: run on the real code


class Outcome(object):
    def __init__(self, ob):
        self.ob = ob
        self.status = 'proved'      # proved / refuted / unknown / unsupported
        self.goals = 0
        self.proved = 0
        self.paths = 0
        self.detail = ''
        self.model = None
        self.goal = None
        self.seconds = 0.0
        self.logpos = False
        self.toomany = self.generic = self.weak = False
        self.hints = set()          # numbers that real conditions of unproved goals compare with

    def fail(self, status, goal, detail, model=None):
        if self.weak and status == 'refuted':
            status = 'unknown'
        order = ['proved', 'unsupported', 'unknown', 'refuted']
        if order.index(status) > order.index(self.status):
            self.status, self.goal, self.detail, self.model = status, goal, detail, model


def nonnegative(t, en, depth=0):
    """sign of a term: True (>= 0), False (< 0), None; cases of index
    conditions are split"""
    f = en.facts
    todo = [(t, f, 0)]
    out = True
    while todo:
        t, f, depth = todo.pop()
        if not f.consistent():
            continue
        N = Norm(f, en.rsubst)
        p = N.norm(t)
        if p.is_zero:
            continue
        s = N.strict_sign(p)
        if s == 1:
            continue
        if s == -1:
            return False
        bs = brackets(p)
        if not bs or depth > 12:
            out = None
            continue
        bs.sort(key=lambda c: (c.op != 'eq', len(c.key)))
        todo += [(t, f.add(bs[0]), depth + 1), (t, f.add(cnot(bs[0])), depth + 1)]
    return out


def where_in_repo(e):
    tb = e.__traceback__
    loc = ''
    while tb is not None:
        f = tb.tb_frame.f_code.co_filename
        if '/maxlike/' in f:
            loc = '%s:%d' % (f.split('/repo/')[-1], tb.tb_lineno)
        tb = tb.tb_next
    return loc


def equal(ob, r, en, name, lhs, rhs):
    try:
        res = prove_equal(lhs, rhs, en.facts, en.rsubst, timeout=ob.timeout, domains=ob.domains)
    except (Undefined, RecursionError) as e:
        r.fail('unsupported', name, '%s: %s' % (type(e).__name__, e))
        return
    r.logpos |= bool(res.logpos)
    if res.status != 'proved' and len(r.hints) < 40:
        r.hints.update(real_hints(lhs, rhs, *en.facts.conds))
    if res.status == 'proved':
        r.proved += 1
    elif res.status == 'refuted':
        r.fail('refuted', name, 'countermodel %s' % (res.info.get('model'),), res.info.get('model'))
    else:
        r.fail('unknown', name, str(res.info.get('why'))[:600])


def discharge(ob):
    t0 = time.time()
    r = attempt(ob, None, ob.max_paths)
    if r.toomany:
        # only the first exact comparisons with 0 and 1 are explored; the
        # others are assumed to fail (generic values)
        r = attempt(ob, 2, 4 * ob.max_paths)
    r.seconds = time.time() - t0
    return r


def attempt(ob, generic, max_paths):
    r = Outcome(ob)
    t0 = time.time()
    en = Engine(max_paths)
    en.generic = generic
    old = sys.getrecursionlimit()
    seen = set()
    try:
        for kind, out in en.explore(ob.run, ob.conds, ob.ranges, ob.rsubst):
            if kind == 'end':
                continue
            r.paths += 1
            r.weak = False
            if kind == 'exc':
                r.goals += 1
                if isinstance(out, ob.allowed):
                    r.proved += 1
                    continue
                r.fail('refuted', 'no exception', 'raises %s(%s) at %s' % (
                    type(out).__name__, out, where_in_repo(out)))
                continue
            if ob.must_raise and not out:
                pass
            for g in out or ():
                r.goals += 1
                seen.add(g.name)
                r.weak = g.weak
                if g.ok is not None:
                    if g.ok:
                        r.proved += 1
                    else:
                        r.fail('refuted', g.name, g.why or 'false')
                    continue
                if g.cond is not None:
                    d = en.facts.decide(g.cond)
                    if d is True:
                        r.proved += 1
                    elif d is False:
                        r.fail('refuted', g.name, '%s does not hold' % g.cond)
                    elif 'rz(' in g.cond.key or 'rle(' in g.cond.key:    # not of the indices alone
                        equal(ob, r, en, g.name, ite(g.cond, ONE, ZERO), ONE)
                    else:
                        m = en.facts.model(cnot(g.cond))
                        r.fail('refuted' if m is not None else 'unknown', g.name,
                               '%s may not hold' % g.cond)
                    continue
                if g.ge is not None or g.gt is not None:
                    from .lra import entails
                    try:
                        d = entails(en.facts, en.rsubst, g.ge if g.gt is None else g.gt, g.gt is not None)
                    except (Undefined, RecursionError, Limit) as e:
                        r.fail('unsupported', g.name, '%s: %s' % (type(e).__name__, e))
                        continue
                    if d is True:
                        r.proved += 1
                        continue
                    if d is None:
                        try:
                            d = refute_zero(g.ge if g.gt is None else g.gt, en.facts, en.rsubst, seeds=15,
                                            domains=ob.domains, bad=lambda v, eps: v < -eps)
                        except (Undefined, RecursionError):
                            d = None
                        d = False if isinstance(d, dict) else None
                    r.fail('refuted' if d is False else 'unknown', g.name, 'inequality')
                    continue
                if g.pos is not None:
                    try:
                        sg = nonnegative(g.pos, en)
                    except (Undefined, RecursionError, Limit) as e:
                        r.fail('unsupported', g.name, '%s: %s' % (type(e).__name__, e))
                        continue
                    if sg is True:
                        r.proved += 1
                    else:
                        r.fail('refuted' if sg is False else 'unknown', g.name, 'sign')
                    continue
                equal(ob, r, en, g.name, g.lhs, g.rhs)
    except TooManyPaths as e:
        r.toomany = True
        r.fail('unsupported', None, 'Unsupported: %s' % e)
    except Unsupported as e:
        r.fail('unsupported', None, 'Unsupported: %s %s' % (e, where_in_repo(e)))
    except (Undefined, RecursionError) as e:
        r.fail('unsupported', None, '%s: %s' % (type(e).__name__, e))
    except Exception as e:          # of the verifier itself: no verdict
        r.fail('unsupported', None, 'verifier: %s' % ''.join(traceback.format_exception(e))[-700:])
    if r.paths == 0 and r.status == 'proved':
        r.fail('unknown', 'vacuity', 'no feasible path')
    for q in ob.require:
        if r.status == 'proved' and not any(q in n for n in seen):
            r.fail('unknown', 'vacuity', 'no goal "%s"' % q)
    if r.goals == 0 and r.status == 'proved':
        r.fail('unknown', 'vacuity', 'no goal')
    r.generic = en.generic_used
    r.seconds = time.time() - t0
    return r
