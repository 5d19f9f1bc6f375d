"""Contracts of the tennis models: Game, TieBreak, Set."""
import math
from fractions import Fraction
from contracts.fkit import *
from pyvc.norm import prove_equal
import numpy as np

EPS = 1e-10
BOUNDS = (EPS, 1 - EPS)
NOUT = dict(Game=4, TieBreak=7, Set=7)


def race(name, k, p, t=None):
    """probability of winning with k points against: the winner takes the last
    point; the last score goes through a deuce (Set: a tie-break)"""
    q = sub(const(1), p)
    n = dict(Game=4, TieBreak=7, Set=6)[name]
    last = dict(Game=3, TieBreak=6, Set=6)[name]
    P = lambda a, b: mul(power(p, const(a)), power(q, const(b)))
    if name == 'Set':
        if k == 5:              # 7-5: from 5-5, two more games
            return mul(const(math.comb(10, 5)), P(5, 5), p, p)
        if k == 6:              # 7-6: from 5-5 to 6-6, then the tie-break
            return mul(const(math.comb(10, 5)), P(5, 5), const(2), p, q, t)
    elif k == last:             # from n-1 each: two points ahead
        two_ = mul(p, p)
        return mul(const(math.comb(2 * (n - 1), n - 1)), P(n - 1, n - 1), two_,
                   inv(add(two_, mul(q, q))))
    return mul(const(math.comb(n - 1 + k, k)), P(n, k))


def select(E, terms):
    out = ZERO
    for k, t in reversed(list(enumerate(terms))):
        out = ite(ceq(E, k), t, out) if k < len(terms) - 1 else t
    return out


def spec(name):
    two_ = name == 'Set'

    def value(N, E):
        p = arr('x0', *N)
        t = arr('x1', *N) if two_ else None
        return select(E[0], [race(name, k, p, t) for k in range(NOUT[name])])
    return value


def cfgs(tier, ranks=(0, 1)):
    for name in ('Game', 'TieBreak', 'Set'):
        for r in ranks:
            for form in FORMS:
                for dim in range(r + 1) if form == 'tensor' else [0]:
                    Z = sz(*['p%d' % k for k in range(r)])
                    m = 2 if name == 'Set' else 1
                    yield Bounded(name, 'rank %d %s%s' % (r, form, ' dim %d' % dim if dim else ''), [Z] * m, Z,
                                  [Ix(NOUT[name])], lambda name=name: getattr(FT, name)(), spec(name),
                                  forms=[form] * m, pdims=[dim] * m)


class Bounded(Cfg):
    """parameters are probabilities"""

    pbounds = BOUNDS


def proper(c, what):
    """scores are not negative; those of the two players add to one"""
    name = c.fn
    m = len(c.sizes)
    lo = Fraction(1, 2 ** 30) if name == 'Set' else Fraction(0)     # Set cuts at 1e-10

    def run(sp, I):
        def half(k):
            # (lo + hi u) / (1 + u), any number between lo and hi for u > 0
            u = 'u%d' % k
            Sym(u, len(c.sizes[0]), base=True, positive=True, domain=(.3, 3.))
            return lambda J: div(add(const(lo), mul(const(1 - lo), arr(u, *J))), add(const(1), arr(u, *J)))
        shp = [C.size(s) for s in c.sizes[0]]
        F = c.build()

        def at(fs):
            ps = [C.inp('p%d' % k, shp, declare=False, fun=f) for k, f in enumerate(fs)]
            ps = [Tensor(p, dim=dm) if fm == 'tensor' else MB.Param(p) if fm == 'param' else p
                  for p, fm, dm in zip(ps, c.forms, c.pdims)]
            return F(ps)
        fs = [half(k) for k in range(m)]
        Q = lambda t, k: den(t, ((), (), I[2], (Ix(k),)), SizedSpace([[], [], c.n, c.d]))
        A = at(fs)
        if what == 'sign':
            return [Goal('score %d is not negative' % k, pos=Q(A, k)) for k in range(NOUT[name])]
        B = at([lambda J, f=f: sub(const(1), f(J)) for f in fs])
        tot = add(*([Q(A, k) for k in range(NOUT[name])] + [Q(B, k) for k in range(NOUT[name])]))
        return [Goal('scores of the two players', tot, const(1))]
    return c.ob('proper(%s)' % what, None, None, run)


def as_found(tier):
    """parameters of two and more axes: every number, up to the order of the
    axes (the order itself is part of the exact contract)"""
    for name in ('Game', 'TieBreak', 'Set'):
        m = 2 if name == 'Set' else 1
        for r in (2, 3):
            Z = sz(*['p%d' % k for k in range(r)])
            c = Bounded(name, 'rank %d up to the order of the axes' % r, [Z] * m, Z, [Ix(NOUT[name])],
                        lambda name=name: getattr(FT, name)(), spec(name), forms=['array'] * m)
            for i, j in [(None, None), (0, None), (0, 0)] + ([(1, None), (1, 0), (1, 1)] if m == 2 else []):
                yield ordered(c, i, j, m, r)


def ordered(c, i, j, m, r):
    def run(sp, I):
        if C.Concrete.cur is not None:
            return []
        F, P = c.build(), c.params()
        N, E = I[2], I[3]
        # derivative of an entry with respect to the same entry
        want = c.spec(N, E)
        for k in (i, j):
            if k is not None:
                want = D(want, 'x%d' % k, N)
        t = F(P) if i is None else F.grad(P, i) if j is None else F.hess(P, i, j)
        lead = (t.x_dim, t.y_dim)
        out = [Goal('axes', ok=lead == (0 if i is None else r, 0 if j is None else r) and
                    (i is None or list(t.x_map) == list(range(r))) and
                    (j is None or list(t.y_map) == list(range(r))), why='%s %s %s' % (lead, t.x_map, t.y_map))]
        v = C.view(t.values)
        pre = tuple(Ix(0) for _ in range(sum(lead)))
        found = None
        for order in (N, (N[-1],) + tuple(N[:-1])):
            get = toreal(v.elem(pre + tuple(order) + tuple(E)))
            try:
                if prove_equal(get, want, eng().facts, eng().rsubst, refute=False).status == 'proved':
                    found = get
                    break
            except (Undefined, RecursionError):
                pass
            found = get if found is None else found
        return out + [Goal('entries', found, want)]
    what = '__call__' if i is None else 'grad(%d)' % i if j is None else 'hess(%d,%d)' % (i, j)
    return c.ob(what, None, None, run)


def c05(tier):
    for c in cfgs(tier):
        yield c.value()
        yield from c.derivatives()
        yield proper(c, 'sign')
        yield proper(c, 'sum')
    for c in cfgs(tier, (2, 3)):
        if c.forms[0] == 'array':
            yield c.value()
            yield from c.derivatives()
    yield from as_found(tier)


def c08(tier):
    for c in cfgs(tier):
        yield c.evaluation()
