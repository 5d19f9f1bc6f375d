"""Contracts of the log-likelihoods: exact derivatives (C10) and log-probability
of the data (C11)."""
from contracts.fkit import *
from contracts.mats import bsum
from contracts.comb import argx, atom, sum_node, affine, Node
import maxlike.maxlike as ML

MODS2 = MODS + (ML,)
MODELS = ('Poisson', 'ZeroInflatedPoisson', 'Logistic', 'Finite', 'NormalizedFinite', 'NegativeBinomial')
PROBS = ('Finite', 'NormalizedFinite')


def make(name):
    if name in ('ZeroInflatedPoisson', 'NegativeBinomial'):
        s = C.num('s', (0.5, 2.))
        SYMS['s'].positive = True
        return getattr(ML, name)(s)
    return getattr(ML, name)()


def data(m, name, n, d, over=None):
    """observations: arrays over the cells (finite models: cells and outcomes);
    over: entries that are given"""
    over = over or {}
    for k in ('N', 'X', 'Z'):
        if k == 'N' or k == 'X' and name not in PROBS or k == 'Z' and name == 'ZeroInflatedPoisson':
            ax = n + d
            if k in over:
                v = C.inp('data' + k, [C.size(s) for s in ax], fun=over[k], declare=False)
            else:
                v = C.inp('data' + k, [C.size(s) for s in ax], domain=(0.5, 3.))
            setattr(m, k, Tensor(v, dim=len(d)))
    return m


def dims(name, d=1):
    return [var('zd%d' % k) for k in range(d)] if name in PROBS else []


def nodes(name):
    """the values of the model: a function known by its contract, or a sum of
    such functions (whose derivatives are sums of tensors)"""
    for r in (1, 2):
        n = [var('zn%d' % k) for k in range(r)]
        for dd in (1, 2) if name in PROBS and r == 1 else (1,):
            d = dims(name, dd)
            args = {}
            opts = [None, 'absent'] + [(a,) for a in range(r)]
            for mp in opts:
                for null in (None, 'hess', 'grad'):
                    if mp == 'absent' and null:
                        continue
                    s = [n[mp[0]]] if isinstance(mp, tuple) else [var('za')]
                    yield r, dd, n, d, [s], ('atom', [(mp,)], null)
            # scalar parameter
            yield r, dd, n, d, [[]], ('atom', [(None,)], None)
            if r == 2:
                for mp in ((0, 1), (1, 0)):
                    yield r, dd, n, d, [[n[a] for a in mp]], ('atom', [(mp,)], None)
            # two parameters
            two_ = [(None, None), ((0,), None), (None, (0,)), ((0,), (0,)), ('absent', (0,)), ((0,), 'absent')]
            if r == 2:
                two_ += [((0,), (1,)), ((1,), (0,)), ((1, 0), (0,)), ((1,), (0, 1)), ((0, 1), (1, 0))]
            for a, b in two_:
                ss = []
                for k, mp in enumerate((a, b)):
                    ss.append([n[q] for q in mp] if isinstance(mp, tuple) else [var('z' + 'ab'[k])])
                yield r, dd, n, d, ss, ('atom', [(a, b)], None)
            # more parameters
            many = [(None, (0,), None, (0,)), ((0,), None, 'absent', (0,), None)]
            if r == 2:
                many = [((0,), (1,), (1, 0), None), (None, (0,), (1,), (0, 1), (1,))]
            for mps in many if dd == 1 else []:
                ss = []
                for k, mp in enumerate(mps):
                    ss.append([n[q] for q in mp] if isinstance(mp, tuple) else [var('z' + 'abefg'[k])])
                yield r, dd, n, d, ss, ('atom', [mps], None)
            # sums of two parts: same map, different maps, map and full
            for a, b in [((0,), (0,)), ((0,), None), (None, None)] + ([((0,), (1,))] if r == 2 else []):
                s = [n[0]]
                if r == 2 and b == (1,):
                    n2 = [n[0], n[0]]
                    yield r, dd, n2, d, [s], ('sum', [(a,), (b,)], None)
                else:
                    yield r, dd, n, d, [s], ('sum', [(a,), (b,)], None)
            if r == 2:
                yield r, dd, n, d, [[n[0]], [n[1]]], ('sum', [((0,), 'absent'), ('absent', (1,))], None)
                yield r, dd, n, d, [[n[0]], [n[1]]], ('sum', [((0,), None), (None, (1,))], None)


def cases(tier):
    for name in MODELS:
        for q, (r, dd, n, d, sizes, (kind, parts, null)) in enumerate(nodes(name)):
            atoms = [Atom('AB'[k] + 'y', sizes, list(mp), n, d, null, at=[argx(i) for i in range(len(sizes))])
                     for k, mp in enumerate(parts)]
            text = '%s r%d d%d %s%s' % (kind, r, len(d), ';'.join(','.join(
                'F' if m is None else '-' if m == 'absent' else ''.join(map(str, m)) for m in p) for p in parts),
                '' if null is None else ' no ' + null)

            def value(atoms=atoms, n=n, d=d, kind=kind):
                """y, der, hess as a fit gets them"""
                if kind == 'atom':
                    return atoms[0].func()
                S = FO.Sum(len(n), len(d))
                m = len(atoms[0].sizes)
                for a in atoms:
                    S.add(a.func(), list(range(m)), list(range(len(n))), list(range(len(d))) if d else None)
                return S
            yield Like(name, text, sizes, [], [], None, None, atoms=atoms, funcs=[name], domain=(0.3, 0.8)), \
                value, n, d


class Like(Cfg):
    """the value is the log-likelihood: a number"""

    def ob(self, what, i, j, run):
        o = Cfg.ob(self, what, i, j, run)
        o.mods = MODS2
        o.name = o.name.replace('.', '.', 1)
        return o


def positive(atoms):
    for a in atoms:
        SYMS[a.name].positive = True
        SYMS[a.name].domain = (0.3, 0.9)


def derivative(c, value, n, d, i, j=None):
    name = c.fn

    def run(sp, I):
        F, P = value(), c.params()
        if name in PROBS:
            positive(c.atoms)
        y, der, hess = F.eval(P)
        m = data(make(name), name, n, d)
        L = den(m.like(P, y), ((), (), (), ()), SizedSpace([[], [], [], []]))
        if C.Concrete.cur is not None:
            L = target(name, c, n, d)
        if j is None:
            g = m.grad_like(P, y, der)
            if len(g) != len(P):
                return [Goal('grad_like', ok=False, why='%d entries' % len(g))]
            return goal_eq('grad_like[%d]' % i, g[i], I, sp, D(L, 'x%d' % i, I[0]))
        h = m.hess_like(P, y, der, hess)
        if [len(q) for q in h] != list(range(1, len(P) + 1)):
            return [Goal('hess_like', ok=False, why='rows %s' % [len(q) for q in h])]
        return goal_eq('hess_like[%d][%d]' % (i, j), h[i][j], I, sp,
                       D(D(L, 'x%d' % i, I[0]), 'x%d' % j, I[1]))
    return c.ob('grad_like(%d)' % i if j is None else 'hess_like(%d,%d)' % (i, j), i, j, run)


# --- the documented log-probabilities ----------------------------------------
def logpmf(name, N, X, Z, y, outcomes):
    """contribution of one cell; N times the logarithm of the probability, with
    X the sum of the observations and Z the number of zeros"""
    lf = fn('gammaln', add(X, const(1)))
    ey = fn('exp', y)
    s = arr('s')
    log = lambda t: fn('log', t)
    if name == 'Poisson':
        return add(mul(X, y), neg(mul(N, ey)), neg(lf))
    if name == 'ZeroInflatedPoisson':
        return add(mul(X, y), mul(Z, log(s)), neg(mul(N, log(add(fn('exp', ey), s, const(-1))))), neg(lf))
    if name == 'Logistic':
        p = inv(add(const(1), fn('exp', neg(y))))
        return add(mul(X, log(p)), mul(sub(N, X), log(sub(const(1), p))))
    if name == 'NegativeBinomial':
        return add(fn('gammaln', add(X, s)), neg(lf), mul(s, log(s)), neg(fn('gammaln', s)),
                   mul(X, y), neg(mul(add(X, mul(s, N)), log(add(s, ey)))))
    raise ValueError(name)


def target(name, c, n, d, sub_=None):
    """the log-likelihood as a term"""
    sub_ = sub_ or {}
    vs = tuple(var(fresh('L')) for _ in n)
    es = tuple(var(fresh('L')) for _ in d)
    dat = lambda k, I: sub_[k](I) if k in sub_ else arr('data' + k, *I)
    Y = lambda I: add(*[a.V(I) for a in c.atoms])
    if name in PROBS:
        t = fn('log', Y(vs + es))
        if name == 'Finite':
            us = tuple(var(fresh('L')) for _ in d)
            t = sub(t, fn('log', bsum(list(zip(us, d)), Y(vs + us))))
        return bsum(list(zip(vs + es, n + d)), mul(dat('N', vs + es), t))
    return bsum(list(zip(vs, n)), logpmf(name, dat('N', vs), dat('X', vs), dat('Z', vs), Y(vs), None))


def pmf(name, X, y, zero):
    """probability of one observation X, as documented"""
    m = fn('exp', y)
    s = arr('s')
    fact_ = fn('exp', fn('gammaln', add(X, const(1))))
    if name == 'Poisson':
        return div(mul(fn('exp', neg(m)), fn('exp', mul(X, y))), fact_)
    if name == 'ZeroInflatedPoisson':
        tot = add(fn('exp', m), s, const(-1))
        return div(s, tot) if zero else div(fn('exp', mul(X, y)), mul(fact_, tot))
    if name == 'Logistic':
        p = inv(add(const(1), fn('exp', neg(y))))
        return p if zero is False else sub(const(1), p)
    G = lambda t: fn('exp', fn('gammaln', t))
    # failures before `s` successes, success probability s / (s + m)
    q = div(s, add(s, m))
    return mul(div(G(add(X, s)), mul(G(s), fact_)), fn('exp', mul(s, fn('log', q))),
               fn('exp', mul(X, fn('log', sub(const(1), q)))))


def once(name, r, zero):
    """every cell observed once: the sum of the logarithms of the probabilities"""
    n = [var('zn%d' % k) for k in range(r)]
    A = Atom('Ay', [[]], [None], n, [], None, at=[argx(0)])
    c = Like(name, 'observed once r%d%s' % (r, '' if zero is None else ' zero' if zero else ' not zero'), [[]], [], [],
             None, None, atoms=[A], funcs=[name])
    one = lambda I: const(1)
    over = {'N': one}
    if zero is not None:
        over['Z'] = lambda I: const(1 if zero else 0)
        if name == 'Logistic':
            over['X'] = lambda I: const(0 if zero else 1)
        elif zero:
            over['X'] = lambda I: const(0)

    def run(sp, I):
        F, P = A.func(), c.params()
        m = data(make(name), name, n, [], over)
        L = den(m.like(P, A.value()), ((), (), (), ()), SizedSpace([[], [], [], []]))
        vs = tuple(var(fresh('L')) for _ in n)
        X = over['X'](vs) if 'X' in over else arr('dataX', *vs)
        return [Goal('log-likelihood', L, bsum(list(zip(vs, n)), fn('log', pmf(name, X, A.V(vs), zero))))]
    return c.ob('like', None, None, run)


def c10(tier):
    for c, value, n, d in cases(tier):
        for i in range(len(c.sizes)):
            yield derivative(c, value, n, d, i)
            for j in range(i + 1):
                yield derivative(c, value, n, d, i, j)


def c11(tier):
    for name in MODELS:
        if name not in PROBS:
            for r in (0, 1, 2):
                for z in (None,) if name in ('Poisson', 'NegativeBinomial') else (True, False):
                    yield once(name, r, z)
    for c, value, n, d in cases(tier):
        if c.atoms and 'F' in c.case and len(c.sizes) == 1:
            yield aggregated(c, value, n, d)


def aggregated(c, value, n, d):
    name = c.fn

    def run(sp, I):
        F, P = value(), c.params()
        if name in PROBS:
            positive(c.atoms)
        m = data(make(name), name, n, d)
        L = den(m.like(P, F(P)), ((), (), (), ()), SizedSpace([[], [], [], []]))
        return [Goal('log-likelihood', L, target(name, c, n, d))]
    return c.ob('like', None, None, run)
