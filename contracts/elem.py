"""Contracts of the elementary functions (documented formulas)."""
import itertools
from contracts.fkit import *
import numpy as np

gamma = lambda t: fn('gammaln', t)


def elementwise(name, cls, formula, domain=(0.2, 0.8), ranks=(0, 1, 2, 3), forms=FORMS, tdim=True):
    """value axes = parameter axes"""
    for r in ranks:
        for form in forms:
            for dim in (range(r + 1) if form == 'tensor' and tdim else [0]):
                Z = sz(*['p%d' % k for k in range(r)])
                yield Cfg(name, 'rank %d %s%s' % (r, form, ' dim %d' % dim if dim else ''),
                          [Z], Z[:r - dim], Z[r - dim:],
                          cls, lambda N, E: formula(arr('x0', *(N + E))), forms=[form], pdims=[dim],
                          domain=domain)


def cfgs(tier):
    one = const(1)
    yield from elementwise('X', FF.X, lambda x: x)
    yield from elementwise('Exp', FF.Exp, lambda x: fn('exp', x))
    yield from elementwise('Log', FF.Log, lambda x: fn('log', x))
    expit = lambda x: inv(add(one, fn('exp', neg(x))))
    yield from elementwise('Logistic', FS.Logistic, expit)
    yield from elementwise('Sigmoid', lambda: FS.Sigmoid('logistic'), expit)
    yield from elementwise('ArcTan', FS.ArcTan, lambda x: fn('arctan', x))
    yield from elementwise('Sigmoid-arctan', lambda: FS.Sigmoid('arctan'),
                           lambda x: add(mul(const(1 / np.pi), fn('arctan', x)), const(0.5)))
    # scalar results, several parameters
    for rs in [(0,), (1,), (2,), (3,), (0, 1), (2, 1), (1, 1), (1, 2, 0)]:
        for form in FORMS:
            Z = [sz(*['p%d%d' % (k, q) for q in range(r)]) for k, r in enumerate(rs)]

            def total(f, Z=Z):
                out = []
                for k, z in enumerate(Z):
                    M = tuple(var('m%d%d~' % (k, q)) for q in range(len(z)))
                    t = f(k, arr('x%d' % k, *M))
                    for v, s in reversed(list(zip(M, z))):
                        t = tsum(v, s, t)
                    out.append(t)
                return add(*out)
            w = ['w%d' % k for k in range(len(rs))]

            def lin(N, E, w=w, total=total):
                return total(lambda k, x: mul(arr(w[k]), x))
            yield Cfg('Linear', '%s %s' % (rs, form), Z, [], [],
                      lambda w=w: FF.Linear([C.num(n) for n in w]), lin, forms=[form] * len(rs))

            def quad(N, E, total=total):
                return total(lambda k, x: power(div(sub(x, arr('u')), arr('s')), const(2)))
            yield Cfg('Quadratic', '%s %s' % (rs, form), Z, [], [],
                      lambda: FF.Quadratic(C.num('u'), C.num('s', (0.5, 2.))), quad,
                      forms=[form] * len(rs))
            if len(rs) == 1:
                yield Cfg('Quadratic', '%s %s, default' % (rs, form), Z, [], [], FF.Quadratic,
                          lambda N, E, total=total: total(lambda k, x: power(x, const(2))), forms=[form])
    for rs in [(), (0,), (1,), (2, 1)]:
        Z = [sz(*['p%d%d' % (k, q) for q in range(r)]) for k, r in enumerate(rs)]
        for nv in (0, 1, 2):
            V = sz(*['v%d' % q for q in range(nv)])
            yield Cfg('Constant', '%s,%d' % (rs, nv), Z, V, [],
                      lambda V=V: FF.Constant(C.inp('vec', [C.size(s) for s in V])),
                      lambda N, E: arr('vec', *N))
    for form in FORMS:
        yield Cfg('Scalar', form, [[]], [], [], FF.Scalar, lambda N, E: arr('x0'), forms=[form])
        for nv in (1, 2):
            V = sz(*['v%d' % q for q in range(nv)])
            yield Cfg('Vector', '%d %s' % (nv, form), [[]], V, [],
                      lambda V=V: FF.Vector(C.inp('vec', [C.size(s) for s in V])),
                      lambda N, E: mul(arr('x0'), arr('vec', *N)), forms=[form])
    yield from probas()


def probas():
    for r in (0, 1, 2):
        for form in FORMS:
            Z = sz(*['p%d' % k for k in range(r)])
            for size in ('S', 1, 2, 3):
                S, = sz(size)
                yield Cfg('Poisson', 'rank %d size %s %s' % (r, size, form), [Z], Z, [S],
                          lambda S=S: FP.Poisson(C.size(S)),
                          lambda N, E: div(power(arr('x0', *N), fromint(E[0])), fact(E[0])),
                          forms=[form])

                def lnb(N, E):
                    m, x, q = arr('x0', *N), fromint(E[0]), arr('r')
                    return add(gamma(add(q, x)), neg(gamma(q)), neg(fn('log', fact(E[0]))),
                               mul(x, fn('log', m)), mul(q, fn('log', q)),
                               neg(mul(add(x, q), fn('log', add(q, m)))))
                yield Cfg('LogNegativeBinomial', 'rank %d size %s %s' % (r, size, form), [Z], Z, [S],
                          lambda S=S: FP.LogNegativeBinomial(C.size(S), C.num('r', (0.5, 2.))), lnb,
                          forms=[form])


def c04(tier):
    for c in cfgs(tier):
        yield from c.derivatives()
        yield c.lists()


def c08(tier):
    for c in cfgs(tier):
        yield c.evaluation()
