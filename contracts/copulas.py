"""Contracts of the copulas: the wrapper against an abstract copula, every
formula against the definition of a copula."""
import importlib
import numpy as np
from contracts.fkit import *
from contracts.mats import bsum
from pyvc.npm import SymArray, lift, finish, Elementwise
from pyvc.sym import eng, scalar, is_sym


FROM = np.frompyfunc


def visible(f, nin, nout):
    """np.frompyfunc of a python function: applied entry by entry"""
    if nout != 1:
        raise NotImplementedError('frompyfunc with %d results' % nout)
    return Elementwise(f, FROM(f, nin, nout))


def load():
    """the module, its np.frompyfunc functions kept visible"""
    np.frompyfunc = visible
    try:
        return importlib.reload(importlib.import_module('maxlike.func.copula'))
    finally:
        np.frompyfunc = FROM


FC = load()
ALL = MODS + (FC,)


# --- the wrapper -----------------------------------------------------------------
class Grid(object):
    """marginals x0 (.., X) and x1 (.., Y) with leading axes; their cumulative
    normalized values F and G"""

    def __init__(self, r, form='array', lead=None):
        self.r, self.form = r, form
        self.lead = sz(*['p%d' % k for k in range(r)]) if lead is None else lead
        self.X, self.Y = var('zX'), var('zY')
        self.N = tuple(var('In%d' % k) for k in range(r))
        self.I, self.J = var('Ix'), var('Iy')

    def ranges(self):
        out = {v.t[0][0]: s for v, s in zip(self.N, self.lead)}
        out[self.I.t[0][0]] = self.X
        out[self.J.t[0][0]] = self.Y
        return out

    def conds(self):
        return [cle(1, self.X), cle(1, self.Y)] + [cle(1, s) for s in self.lead]

    def params(self):
        z = [C.size(s) for s in self.lead]
        for k in (0, 1):
            Sym('x%d' % k, self.r + 1, base=True, domain=(.1, 1.), spread=1e-6)
        ps = [C.inp('x0', z + [C.size(self.X)], domain=(.1, 1.)), C.inp('x1', z + [C.size(self.Y)], domain=(.1, 1.))]
        if self.form == 'tensor':
            ps = [Tensor(p) for p in ps]
        elif self.form == 'param':
            ps = [MB.Param(p) for p in ps]
        return ps

    def cum(self, k, N, i):
        v = var(fresh('c'))
        return tsum(v, iadd(i, 1), arr('x%d' % k, *(N + (v,))))

    def total(self, k, N):
        return self.cum(k, N, isub(self.X if k == 0 else self.Y, 1))

    def F(self, N, i):
        return div(self.cum(0, N, i), self.total(0, N))

    def G(self, N, j):
        return div(self.cum(1, N, j), self.total(1, N))

    def marginal(self, k, N, i):
        return div(arr('x%d' % k, *(N + (i,))), self.total(k, N))

    def cells(self, res, extra=(), sums=True):
        """goals on the joint distribution"""
        out = list(extra)
        out.append(Goal('tensor', ok=isinstance(res, Tensor), why=type(res).__name__))
        a = C.view(getattr(res, 'values', res))
        want = tuple(self.lead) + (self.X, self.Y)
        if len(a.shape_) != len(want):
            return out + [Goal('shape', ok=False, why='rank %d' % len(a.shape_))]
        if C.Concrete.cur is None:
            out += [Goal('shape', cond=ceq(s, w)) for s, w in zip(a.shape_, want)]
        else:
            out.append(Goal('shape', ok=[C.Concrete.cur.ix(s) for s in a.shape_] ==
                            [C.Concrete.cur.ix(s) for s in want], why='shape'))
        N = self.N
        e = lambda i, j: toreal(a.elem(N + (i, j)))
        if not sums:
            return out, e
        v, w = var(fresh('q')), var(fresh('q'))
        out.append(Goal('sum over the second axis is the first marginal',
                        tsum(v, self.Y, e(self.I, v)), self.marginal(0, N, self.I)))
        out.append(Goal('sum over the first axis is the second marginal',
                        tsum(w, self.X, e(w, self.J)), self.marginal(1, N, self.J)))
        return out, e


class Abs(FC.Copula):
    """any copula: C(u, 1) = u, C(1, v) = v"""

    def __init__(self, g, report, indep=False):
        self.g, self.report, self.indep = g, report, indep

    def c(self, N, i, j):
        g = self.g
        if self.indep:
            return mul(g.F(N, i), g.G(N, j))
        return ite(ceq(i, isub(g.X, 1)), g.G(N, j),
                   ite(ceq(j, isub(g.Y, 1)), g.F(N, i), arr('c', *(N + (i, j)))))

    def __call__(self, x, y):
        g = self.g
        a, b = C.view(x), C.view(y)
        if len(a.shape_) != g.r + 2 or len(b.shape_) != g.r + 2:
            self.report.append(Goal('the copula gets a grid', ok=False, why='ranks %d, %d' % (a.ndim, b.ndim)))
        else:
            if C.Concrete.cur is None:
                for s, w in zip(a.shape_, tuple(g.lead) + (g.X, Ix(1))):
                    self.report.append(Goal('the copula gets a grid', cond=ceq(s, w)))
                for s, w in zip(b.shape_, tuple(g.lead) + (Ix(1), g.Y)):
                    self.report.append(Goal('the copula gets a grid', cond=ceq(s, w)))
            self.report.append(Goal('the copula gets the first distribution function',
                                    toreal(a.elem(g.N + (g.I, Ix(0)))), g.F(g.N, g.I)))
            self.report.append(Goal('the copula gets the second distribution function',
                                    toreal(b.elem(g.N + (Ix(0), g.J))), g.G(g.N, g.J)))
        shape = [mkint(s) if C.Concrete.cur is None else C.Concrete.cur.ix(s)
                 for s in tuple(g.lead) + (g.X, g.Y)]
        Sym('c', g.r + 2, base=True)
        return C.inp('C', shape, fun=lambda I: self.c(tuple(I[:g.r]), I[g.r], I[g.r + 1]), declare=False)


def wrapper():
    for r in (0, 1, 2):
        for form in ('array', 'tensor', 'param'):
            for indep in (False, True):
                g = Grid(r, form)

                def run(g=g, indep=indep):
                    rep = []
                    A = Abs(g, rep, indep)
                    out = g.cells(A(g.params()), rep)
                    if isinstance(out, list):
                        return out
                    out, e = out
                    N, I, J = g.N, g.I, g.J
                    if indep:
                        return out + [Goal('outer product', e(I, J), mul(g.marginal(0, N, I), g.marginal(1, N, J)))]
                    c = lambda i, j: ite(cor(clt(i, 0), clt(j, 0)), ZERO, A.c(N, i, j))
                    I1, J1 = isub(I, 1), isub(J, 1)
                    return out + [Goal('volume of the rectangle of a cell', e(I, J),
                                       add(c(I, J), neg(c(I1, J)), neg(c(I, J1)), c(I1, J1)))]
                yield Ob('copulaWrap/%s/rank %d %s' % ('independence' if indep else 'any copula', r, form),
                         ['maxlike/func/copula.py:copulaWrap', 'maxlike/func/copula.py:CopulaMeta.__new__'],
                         run, conds=g.conds(), ranges=g.ranges(), mods=ALL, require=(
                             'sum over the first', 'sum over the second',
                             'outer product' if indep else 'volume'))


# --- the formulas -----------------------------------------------------------------
def q_(x):
    """scipy.special.ndtri, cut at 999 (assumed contract: the quantile of the
    normal law, infinite at one)"""
    if not is_sym(x):
        from scipy.special import ndtri
        return ndtri(x)
    a = lift(x)
    f = a.elem
    return finish(a.shape_, lambda I: fn('quantile', toreal(f(I))), 'f')


def mvnun(lower, upper, mean, cov, **k):
    """scipy.stats.mvn.mvnun (assumed contract: the probability of the
    rectangle under the bivariate normal law)"""
    if not any(is_sym(x) for x in list(upper) + [y for z in cov for y in z]):
        from scipy.stats.mvn import mvnun
        return mvnun(lower, upper, mean, cov, **k)
    if any(x > -40 for x in lower) or any(x != 0 for x in mean) or len(upper) != 2:
        raise Unsupported('mvnun')
    (a, b), (c, d) = cov
    t = lambda x: toreal(lift(x).elem(()))
    if t(a) is not ONE or t(d) is not ONE or t(b) is not t(c):
        raise Unsupported('covariance')
    return scalar(fn('phi2', t(upper[0]), t(upper[1]), t(b))), 0


EXTRA = {FC.__name__: {'ndtri': q_, 'mvnun': mvnun}}


def clayton(u, v, a):
    return power(add(power(u, neg(a)), power(v, neg(a)), const(-1)), neg(inv(a)))


def gumbel(u, v, a):
    L = lambda x: power(neg(fn('log', x)), a)
    return fn('exp', neg(power(add(L(u), L(v)), inv(a))))


def frank(u, v, a):
    e = lambda x: sub(fn('exp', neg(mul(a, x))), const(1))
    # a number: exp(-a) is a number of the code
    e1 = const(float(np.exp(-float(a.args[0]))) - 1) if a.op == 'c' else e(const(1))
    return mul(neg(inv(a)), fn('log', add(const(1), div(mul(e(u), e(v)), e1))))


def amh(u, v, r):
    return div(mul(u, v), sub(const(1), mul(r, sub(const(1), u), sub(const(1), v))))


def gauss(u, v, r):
    return fn('phi2', fn('quantile', u), fn('quantile', v), r)


def symbols():
    """u, v in (0, 1); the others positive, r between -1 and 1"""
    for n, lo, hi in (('cu', .1, .9), ('cv', .1, .9)):
        Sym(n, 0, base=True, positive=True, bounds=(0, 1), domain=(lo, hi))
    Sym('cr', 0, base=True, bounds=(-1, 1), domain=(-.9, .9))
    for n in ('ca', 'ck', 'cs', 'ct', 'cw', 'cm', 'cp', 'cq'):
        Sym(n, 0, base=True, positive=True, domain=(.2, 2.))


symbols()
A, R, K = arr('ca'), arr('cr'), arr('ck')
U, V, S, T_ = arr('cu'), arr('cv'), arr('cs'), arr('ct')
one = const(1)
pos = lambda: C.num('ca')
#      class, formula, {case: (value, term)}, independence
FORMULAS = [
    ('Clayton', clayton, {'any': (pos, A), '2': (lambda: 2, const(2)), 'default': (None, one)}, None),
    ('Gumbel', gumbel, {'any above 1': (lambda: 1 + C.num('ck'), add(one, K)), '1': (lambda: 1, one),
                        'default': (None, one)}, ('1', 'default')),
    ('Frank', frank, {'any positive': (pos, A), 'any negative': (lambda: -C.num('ca'), neg(A)), 'default': (None, one)}, None),
    ('AkiMikhailHaq', amh, {'any': (lambda: C.num('cr'), R), '0': (lambda: 0, ZERO), 'default': (None, ZERO)},
     ('0', 'default')),
    ('Gaussian', gauss, {'any': (lambda: C.num('cr'), R), '0': (lambda: 0, ZERO), 'default': (None, ZERO)},
     ('0', 'default')),
]


def formulas():
    """the joint distribution of each class: differences of the documented
    formula of the distribution functions"""
    for name, f, params, free in FORMULAS:
        for p, (val, a) in params.items():
            for r in (0, 1, 2):
                g = Grid(r)

                def run(g=g, name=name, f=f, p=p, val=val, a=a, free=free):
                    cls = getattr(FC, name)
                    out = g.cells((cls(val()) if val else cls())(g.params()), sums=False)
                    if isinstance(out, list):
                        return out
                    out, e = out
                    N, I, J = g.N, g.I, g.J
                    c = lambda i, j: ite(cor(clt(i, 0), clt(j, 0)), ZERO, f(g.F(N, i), g.G(N, j), a))
                    I1, J1 = isub(I, 1), isub(J, 1)
                    out.append(Goal('difference of the documented formula', e(I, J),
                                    add(c(I, J), neg(c(I1, J)), neg(c(I, J1)), c(I1, J1))))
                    if free and p in free:
                        out.append(Goal('independence', e(I, J), mul(g.marginal(0, N, I), g.marginal(1, N, J))))
                    return out
                yield Ob('%s/joint/rank %d, %s' % (name, r, p),
                         ['maxlike/func/copula.py:%s' % name, 'maxlike/func/copula.py:copulaWrap'] +
                         (['maxlike/func/copula.py:gauss_bivar'] if name == 'Gaussian' else []),
                         run, conds=g.conds(), ranges=g.ranges(), mods=ALL, extra=EXTRA,
                         require=('documented',))


def boundary():
    """lemma on the documented formulas: C(u, 1) = u, C(1, v) = v (with the
    wrapper for any copula: the marginals); independence"""
    for name, f, params, free in FORMULAS:
        for p, (val, a) in params.items():
            if name == 'Frank' and a.op == 'c':
                continue

            def run(f=f, p=p, a=a, free=free):
                out = [Goal('C(u, 1) = u', f(U, one, a), U), Goal('C(1, v) = v', f(one, V, a), V),
                       Goal('C(1, 1) = 1', f(one, one, a), one)]
                if free and p in free:
                    out.append(Goal('C(u, v) = u v', f(U, V, a), mul(U, V)))
                return out
            yield Ob('%s/copula/%s' % (name, p), ['maxlike/func/copula.py:%s' % name], run)


# --- no negative entry: the formulas are 2-increasing ----------------------------------
def generators():
    """C(psi(s), psi(t)) = psi(s + t) with psi(0) = 1, psi decreasing and convex
    on [0, oo): the volume of a rectangle is a second difference of psi, which
    is not negative.  The Gaussian copula is the distribution function of a
    law (contract of mvnun)."""
    b = add(one, K)
    P = inv(b)
    # exp(s) = 1 + w, w > 0; exp(a) = 1 + m (a = log(1 + m)), m > 0 for a > 0
    w, m, p, q = (arr(n) for n in ('cw', 'cm', 'cp', 'cq'))
    es = lambda s: fn('exp', s)
    # AMH: r = (p - q) / (p + q), p, q > 0
    r = div(sub(p, q), add(p, q))

    def frank_h(a):
        return sub(one, fn('exp', neg(a)))
    f_psi = lambda a: lambda s, e=None: neg(mul(inv(a), fn('log', sub(one, mul(frank_h(a), inv(e or es(s)))))))
    f_d1 = lambda a: lambda s, e=None: neg(mul(frank_h(a), inv(a), inv(sub(e or es(s), frank_h(a)))))
    f_d2 = lambda a: lambda s, e=None: mul(frank_h(a), inv(a), e or es(s), power(sub(e or es(s), frank_h(a)), const(-2)))
    fp, fm = fn('log', add(one, m)), neg(fn('log', add(one, m)))
    a_psi = lambda s, e=None: div(sub(one, r), sub(e or es(s), r))
    a_d1 = lambda s, e=None: neg(mul(sub(one, r), e or es(s), power(sub(e or es(s), r), const(-2))))
    a_d2 = lambda s, e=None: mul(sub(one, r), e or es(s), add(e or es(s), r), power(sub(e or es(s), r), const(-3)))
    cases = [
        ('Clayton', clayton, A, lambda s: power(add(one, s), neg(inv(A))),
         lambda s: neg(mul(inv(A), power(add(one, s), sub(neg(inv(A)), one)))),
         lambda s: mul(inv(A), add(inv(A), one), power(add(one, s), sub(neg(inv(A)), const(2))))),
        ('Gumbel', gumbel, b, lambda s: fn('exp', neg(power(s, P))),
         lambda s: neg(mul(P, power(s, sub(P, one)), fn('exp', neg(power(s, P))))),
         lambda s: mul(P, power(s, sub(P, const(2))), fn('exp', neg(power(s, P))),
                       add(mul(P, power(s, P)), mul(K, P)))),
        ('Frank (positive)', frank, A, f_psi(A), f_d1(A), f_d2(A), f_d1(fp), f_d2(fp)),
        ('Frank (negative)', frank, neg(A), f_psi(neg(A)), f_d1(neg(A)), f_d2(neg(A)), f_d1(fm), f_d2(fm)),
        ('AkiMikhailHaq', amh, r, a_psi, a_d1, a_d2, a_d1, a_d2),
    ]
    for name, f, a, psi, d1, d2, *signs in cases:
        def run(f=f, a=a, psi=psi, d1=d1, d2=d2, signs=signs):
            if signs:
                # the same forms, written in positive variables
                s1, s2 = signs
                e = add(one, w)
                # (exp(-a .) is injective)
                g = (lambda c: fn('exp', neg(mul(a, c)))) if f is frank else (lambda c: c)
                return [Goal('generator', g(f(psi(S), psi(T_), a)), g(psi(add(S, T_)))),
                        Goal('slope', D(psi(S), 'cs', ()), d1(S)),
                        Goal('decreasing', pos=neg(s1(S, e))),
                        Goal('curvature', D(d1(S), 'cs', ()), d2(S)),
                        Goal('convex', pos=s2(S, e))]
            return [Goal('generator', f(psi(S), psi(T_), a), psi(add(S, T_))),
                    Goal('slope', D(psi(S), 'cs', ()), d1(S)),
                    Goal('decreasing', pos=neg(d1(S))),
                    Goal('curvature', D(d1(S), 'cs', ()), d2(S)),
                    Goal('convex', pos=d2(S))]
        yield Ob('%s/convex generator' % name, ['maxlike/func/copula.py:%s' % name.split()[0]], run)


def c15(tier):
    yield from wrapper()
    yield from formulas()
    yield from boundary()
    yield from generators()
