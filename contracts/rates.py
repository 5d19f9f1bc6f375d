"""Contracts of the Poisson and Skellam tail probabilities and of their
inverses."""
import ast
import math
import random
import numpy as np
import maxlike.skellam as SK
from maxlike.maxlike_base import ConvergenceError
from contracts.fkit import *
from contracts.mats import bsum
from pyvc.terms import NUM, hval
from pyvc.loops import *
from pyvc.npm import SymArray, lift, finish
from pyvc.sym import eng, scalar, is_sym, rcond, toix, mkint
from pyvc.norm import Norm, prove_equal
from pyvc import lra, npm

ALL = (SK,)
PATH = 'maxlike/skellam.py:'
A, B = arr('ra'), arr('rb')
Sv = var('zS')


def number(f):
    """values of an arbitrary function of the rates, for countermodels"""
    return lambda *x: hval(7, f, tuple(round(float(v), 6) for v in x), .05, .9)


for f in ('pcdf', 'pcdf1') + tuple('scdf%s%d' % (d, k) for d in ('', 'a', 'b') for k in (0, 1)):
    NUM[f] = number(f)


def symbols():
    for n in ('ra', 'rb'):
        Sym(n, 0, base=True, positive=True, domain=(.3, 3.))


def rate(n):
    symbols()
    return C.num(n)


def mass(a, k):
    """probability of k"""
    return mul(fn('exp', neg(a)), power(a, fromint(k)), inv(fact(k)))


def dmass(a, k):
    """its derivative (lemma `derivative of the probability`)"""
    return ite(cle(k, 0), neg(fn('exp', neg(a))), sub(mass(a, isub(k, 1)), mass(a, k)))


def size_contract(tol=1e-8, *args):
    """contract of tol2size: a positive number"""
    return C.size(Sv)


def ob(name, funcs, run, ranges=(), conds=(), extra=None, **kw):
    return Ob(name, [PATH + f for f in funcs], run, ranges=dict(ranges), conds=conds, mods=ALL,
              extra={SK.__name__: extra} if extra else None, **kw)


def shaped(out, a, sizes, what='shape'):
    if len(a.shape_) != len(sizes):
        out.append(Goal(what, ok=False, why='rank %d instead of %d' % (len(a.shape_), len(sizes))))
        return False
    for s, w in zip(a.shape_, sizes):
        if C.Concrete.cur is None:
            out.append(Goal(what, cond=ceq(s, w)))
        elif C.Concrete.cur.ix(s) != C.Concrete.cur.ix(ix(w)):
            out.append(Goal(what, ok=False, why='size'))
            return False
    return True


def bounds(*vs):
    return [cle(1, v) for v in vs]


def patched(**kw):
    """the contracts of the callees, also in concrete runs"""
    class P(object):
        def __enter__(self):
            self.old = {k: getattr(SK, k) for k in kw if hasattr(SK, k)}
            for k in self.old:
                setattr(SK, k, kw[k])

        def __exit__(self, *a):
            for k, v in self.old.items():
                setattr(SK, k, v)
            return False
    return P()


# --- sums of the mass functions -------------------------------------------------------
def sums():
    K, L = var('Ik'), var('Il')

    def lemma():
        symbols()
        return [Goal('at 0', D(mass(A, Ix(0)), 'ra', ()), dmass(A, Ix(0))),
                Goal('from 1', D(mass(A, iadd(K, 1)), 'ra', ()), dmass(A, iadd(K, 1)))]
    yield ob('derivative of the probability', [], lemma, {}, [cle(0, K)], require=('from 1',))

    def vector():
        out = []
        a = C.view(SK.poisson_vector(rate('ra'), C.size(Sv)))
        if shaped(out, a, (2, Sv)):
            e = lambda r: toreal(a.elem((Ix(r), K)))
            out += [Goal('probability', e(0), mass(A, K)),
                    Goal('derivative of the probability', e(1), dmass(A, K))]
        return out
    yield ob('poisson_vector', ['poisson_vector'], vector, {K.t[0][0]: Sv}, bounds(Sv), require=('derivative',))
    for n in (1, 2, 3):
        def vector(n=n):
            out = []
            a = C.view(SK.poisson_vector(rate('ra'), n))
            if shaped(out, a, (2, n)):
                for k in range(n):
                    e = lambda r: toreal(a.elem((Ix(r), Ix(k))))
                    out += [Goal('probability', e(0), mass(A, Ix(k))),
                            Goal('derivative of the probability', e(1), dmass(A, Ix(k)))]
            return out
        yield ob('poisson_vector/size %d' % n, ['poisson_vector'], vector, require=('derivative',))

    def frame():
        out = []
        f = SK.skellam_frame(rate('ra'), rate('rb'), C.size(Sv))
        if len(f) != 3:
            return [Goal('three tables', ok=False, why='%d' % len(f))]
        p = mul(mass(A, K), mass(B, L))
        for q, (t, want) in enumerate(zip(f, (p, mul(dmass(A, K), mass(B, L)), mul(mass(A, K), dmass(B, L))))):
            t = C.view(t)
            if shaped(out, t, (Sv, Sv)):
                out.append(Goal(('probability', 'derivative a', 'derivative b')[q], toreal(t.elem((K, L))), want))
        return out
    yield ob('skellam_frame', ['skellam_frame', 'poisson_vector'], frame, {K.t[0][0]: Sv, L.t[0][0]: Sv}, bounds(Sv),
             require=('derivative b',))

    N = var('zn')

    def upto(n, f=mass):
        v = var(fresh('k'))
        return tsum(v, n, f(A, v))

    def cdf(f=None, mid=False):
        out = []
        a = C.view((SK.poisson_mid_cdf if mid else SK.poisson_cdf)(rate('ra'), C.size(N)))
        if shaped(out, a, (2,)):
            for r, f, w in ((0, mass, 'probability'), (1, dmass, 'derivative of the probability')):
                want = add(upto(N, f), mul(const(.5), f(A, N))) if mid else upto(iadd(N, 1), f)
                out.append(Goal(w, toreal(a.elem((Ix(r),))), want))
        return out
    for mid in (False, True):
        nm = 'poisson_mid_cdf' if mid else 'poisson_cdf'
        yield ob(nm, [nm, 'poisson_vector'], lambda mid=mid: cdf(mid=mid), {}, [cle(0, N)], require=('derivative',))
        for n in (0, 1, 2):
            def small(n=n, mid=mid, nm=nm):
                out = []
                a = C.view(getattr(SK, nm)(rate('ra'), n))
                if shaped(out, a, (2,)):
                    want = add(*[mass(A, Ix(k)) for k in range(n if mid else n + 1)])
                    if mid:
                        want = add(want, mul(const(.5), mass(A, Ix(n))))
                    out += [Goal('probability', toreal(a.elem((Ix(0),))), want),
                            Goal('derivative of the probability', toreal(a.elem((Ix(1),))), D(want, 'ra', ()))]
                return out
            yield ob('%s/%d' % (nm, n), [nm, 'poisson_vector'], small, require=('derivative',))

    # regions of the differences
    n = var('nd')

    def region(c, f, g):
        """sum over x, y of the terms where c(y - x)"""
        x, y = var(fresh('x')), var(fresh('y'))
        return bsum([(y, Sv), (x, Sv)], ite(c(isub(y, x)), mul(f(A, x), g(B, y)), ZERO))

    def three(out, e, c, tag=''):
        out += [Goal('probability' + tag, e(0), region(c, mass, mass)),
                Goal('derivative a' + tag, e(1), region(c, dmass, mass)),
                Goal('derivative b' + tag, e(2), region(c, mass, dmass))]

    ns = [('any', lambda: C.size(n), n)] + [('%d' % k, lambda k=k: k, Ix(k)) for k in (0, 1, -1, 2)]
    for inverse in (False, True):
        for tag, val, nn in ns:
            def run(inverse=inverse, val=val, nn=nn):
                with patched(tol2size=size_contract):
                    a = C.view(SK.skellam_cdf(rate('ra'), rate('rb'), val(), 1e-8, inverse))
                out = []
                if shaped(out, a, (3,)):
                    three(out, lambda k: toreal(a.elem((Ix(k),))), lambda d: cle(nn, d) if inverse else cle(d, nn))
                return out
            yield ob('skellam_cdf/%s%s' % (tag, ' inverse' if inverse else ''),
                     ['skellam_cdf', 'skellam_frame', 'poisson_vector'], run, {}, bounds(Sv), require=('derivative b',))
    for tag, val, nn in ns:
        def run(val=val, nn=nn):
            with patched(tol2size=size_contract):
                a = C.view(SK.skellam_cdf_pair(rate('ra'), rate('rb'), val(), 1e-8))
            out = []
            if shaped(out, a, (2, 3)):
                three(out, lambda k: toreal(a.elem((Ix(0), Ix(k)))), lambda d: clt(d, nn), ' below')
                three(out, lambda k: toreal(a.elem((Ix(1), Ix(k)))), lambda d: clt(nn, d), ' above')
            return out
        yield ob('skellam_cdf_pair/%s' % tag, ['skellam_cdf_pair', 'skellam_frame', 'poisson_vector'], run, {},
                 bounds(Sv), require=('derivative b above',))


# --- inverses ---------------------------------------------------------------------------
def scal(n):
    return scalar(arr(n))


class Search(object):
    """the loops of an inverse.

    Outer loop: the error carried is the distance of the target to the
    probability of the current rates, or not yet measured (1, above the
    tolerance); the rates are positive; the counter of steps increases and
    does not pass `bound`.  Inner loop: the distance carried is that of the
    trial rates, or it is not below the error."""
    bound = 1000

    def __init__(self, name, rates, trial):
        self.name, self.rates, self.trial = name, rates, trial

    def size(self, e):
        """of the error carried"""
        return e

    def bounded(self, seed):
        return None

    def spec(self, node):
        if isinstance(node, ast.While):
            return Outer(self)
        if isinstance(node, ast.For):
            return Inner(self)


class Outer(Inv):
    def __init__(self, s):
        self.s = s

    def choose(self, carried):
        s = self.s
        if not {'e', 'count'} | set(s.rates) <= carried | {'count'}:
            raise NotCut('variables')
        if carried - {'e', 'count'} - set(s.rates):
            raise NotCut('variables %s' % sorted(carried))
        return tuple(sorted(carried | set(s.rates)))

    def fresh(self, env):
        s = self.s
        out = {}
        en = eng()
        for r in s.rates:
            Sym('cur' + r, 0, positive=True)
            out[r] = scal('cur' + r)
        s.cur = tuple(arr('cur' + r) for r in s.rates)
        k = var(fresh('steps'))
        en.assume(cle(0, k))
        en.assume(cle(k, s.bound))
        self.k = k
        out['count'] = mkint(k)
        first = en.branch(2) == 0
        s.measured = not first
        if first:
            out['e'] = 1
        else:
            Sym('cure', 0)
            out['e'] = scal('cure')
            en.facts = en.facts.add(rcond('rle', sub(s.dist(s.cur, None), s.size(arr('cure')))))
        s.e = toreal(lift(out['e']).elem(()))
        s.entry = True
        return out

    def goals(self, env, tag):
        s = self.s
        out = []
        cur = tuple(toreal(lift(env[r]).elem(())) for r in s.rates)
        for r, t in zip(s.rates, cur):
            out.append(Goal(tag + ': rate %s positive' % r, gt=t))
        c = env.get('count')
        if 'entry' in tag:
            s.start = env['e']
            return out + [Goal(tag + ': counter', ok=isinstance(c, int) and 0 <= c <= 50),
                          Goal(tag + ': error not measured', ok=env['e'] == 1)]
        if c is None:
            raise NotCut('no counter')
        out.append(Goal(tag + ': counter increases', cond=clt(self.k, toix(c))))
        out.append(Goal(tag + ': counter bounded', cond=cle(toix(c), 51)))
        e = toreal(lift(env['e']).elem(()))
        out.append(Goal(tag + ': distance', ge=sub(s.size(e), s.dist(cur, env))))
        return out


class Inner(Inv):
    def __init__(self, s):
        self.s = s

    def choose(self, carried):
        s = self.s
        if 'new_e' not in carried or carried - {'new_e', 'scale_factor'} - set(s.trial) - set(s.rates):
            raise NotCut('variables %s' % sorted(carried))
        return tuple(sorted((carried | set(s.trial)) - set(s.rates)) + sorted(carried & set(s.rates)))

    def fresh(self, env):
        s = self.s
        en = eng()
        out = {r: env[r] for r in s.rates}
        ts = []
        if len(s.trial) == len(s.rates):
            for r in s.trial:
                Sym('tr' + r, 0)
                out[r] = scal('tr' + r)
                ts.append(arr('tr' + r))
        else:
            Sym('trv', 1)
            out[s.trial[0]] = SymArray((Ix(len(s.rates)),), lambda I: arr('trv', I[0]), 'f')
            ts = [arr('trv', Ix(k)) for k in range(len(s.rates))]
        if s.floor:
            for t in ts:
                en.facts = en.facts.add(rcond('rle', sub(const(s.floor), t)))
        Sym('trf', 0, positive=True)
        out['scale_factor'] = scal('trf')
        e = toreal(lift(env['e']).elem(()))
        if en.branch(2) == 0:
            out['new_e'] = scalar(s.dist(tuple(ts), env))
        else:
            Sym('tre', 0)
            out['new_e'] = scal('tre')
            en.facts = en.facts.add(rcond('rle', sub(s.size(e), arr('tre'))))
        return out

    def goals(self, env, tag):
        s = self.s
        e = toreal(lift(env['e']).elem(()))
        ne = toreal(lift(env['new_e']).elem(()))
        v = [C.view(env[t]) for t in s.trial]
        ts = [toreal(a.elem(())) for a in v] if len(v) == len(s.rates) else \
            [toreal(v[0].elem((Ix(k),))) for k in range(len(s.rates))]
        out = []
        for r in s.rates:
            if 'entry' in tag:
                s.before = {r: toreal(lift(env[r]).elem(())) for r in s.rates}
            else:
                out.append(Goal(tag + ': rate %s' % r, toreal(lift(env[r]).elem(())), s.before[r]))
        if s.floor:
            out += [Goal(tag + ': trial rates', ge=sub(t, const(s.floor))) for t in ts]
        if lra.entails(eng().facts, None, sub(ne, s.size(e))) is True:
            out.append(Goal(tag + ': not below the error', ge=sub(ne, s.size(e))))
        else:
            out.append(Goal(tag + ': distance of the trial', ne, s.dist(tuple(ts), env)))
        return out


class Escaped(BaseException):
    """the inverse does not use the function that stands for the distribution"""


def escaped(*a, **k):
    raise Escaped()


class Steps(Exception):
    """the search does not end"""


def runs(seed, one, n=20):
    for k in range(n):
        rng = random.Random('%s %s' % (seed, k))
        try:
            r = one(rng)
        except Escaped:
            continue
        if r:
            return dict(what=r, seed=seed, case=k)
    return None


def bad_call(f, args, outside):
    """result of an inverse: (rates or None, failure or None)"""
    try:
        out = f(*args)
    except Steps:
        return None, 'does not end for %r' % (args,)
    except ValueError as e:
        return None, None if outside or e.args else 'refuses %r' % (args,)
    except (ArithmeticError, MemoryError, ConvergenceError, np.linalg.LinAlgError, AssertionError):
        return None, None
    if outside:
        return None, 'accepts the target of %r' % (args,)
    try:
        return np.array(out, float) + 0., None
    except (TypeError, ValueError):
        return None, 'returns %r for %r' % (out, args)


TARGETS = [0., 1., -.1, 1.1, float('nan')]


def target_of(rng):
    """a target and whether it is outside"""
    if rng.random() < .3:
        return rng.choice(TARGETS), True
    return rng.choice([rng.uniform(0, 1), rng.uniform(.2, .8), rng.uniform(.4, .6)]), False


def counted(f, limit=3000):
    n = counted.calls = [0]

    def g(*a, **k):
        n[0] += 1
        if n[0] > limit:
            raise Steps()
        return f(*a, **k)
    return g


def shape_of(rng):
    """a decreasing function and a derivative that may be wrong or not a number"""
    c, w = rng.uniform(.3, 4), rng.uniform(.3, 4)
    lie = rng.choice([1, 1, 1, .3, 3, 30, -1, 'random', 'nan'])
    kind = rng.choice(['exp', 'ratio', 'step'])

    def f(a):
        a = float(a)
        if not a >= 0:
            return 2. + a
        return {'exp': np.exp(-a / c), 'ratio': 1 / (1 + (a / c) ** w),
                'step': .9 if a < c else .1}[kind]

    def d(a):
        e = 1e-5
        v = (f(a + e) - f(a - e)) / 2 / e
        if lie == 'nan' or v == 0:
            return float('nan') if rng.random() < .5 else 0.
        return v * (rng.choice([.1, 1, 5, -1]) if lie == 'random' else lie)
    return f, d


def miss(d, tol):
    return not d <= abs(tol) * (1 + 1e-9) + 1e-13


class PoissonSearch(Search):
    """P(X <= n) = target"""
    floor = 0
    N = var('zn')
    conds = [cle(0, N)]

    def __init__(self):
        Search.__init__(self, 'poisson_cdf_root', ('a',), ('new_a',))

    def size(self, e):
        return fn('abs', e)

    def domain(self):
        return [arr('target'), sub(ONE, arr('target'))]

    def args(self):
        Sym('target', 0)
        return scal('target'), mkint(self.N), scal('tol')

    def dist(self, rates, env):
        return fn('abs', sub(arr('target'), fn('pcdf', *rates)))

    def patches(self, report):
        def poisson_cdf(a, n):
            report.append(Goal('bound', cond=ceq(toix(n), self.N)))
            t = toreal(lift(a).elem(()))
            return npm.array_([scalar(fn('pcdf', t)), scalar(fn('pcdf1', t))])
        return dict(poisson_cdf=poisson_cdf)

    def bounded(self, seed):
        def one(rng):
            t, outside = target_of(rng)
            n, tol = rng.randrange(6), rng.choice([1e-8, 1e-3, .1, 1e-12])
            real = SK.poisson_cdf
            if rng.random() < .4:
                F, what = real, 'the distribution'
                if rng.random() < .3:
                    n = rng.choice([20, 200, 400])
            else:
                f, d = shape_of(rng)
                F, what = (lambda a, n: np.array([f(a), d(a)])), 'a decreasing function'
            no = {} if F is real else dict(poisson_vector=escaped, poisson_mid_cdf=escaped)
            with patched(poisson_cdf=counted(F), **no):
                a, bad = bad_call(SK.poisson_cdf_root, (t, n, tol), outside)
            if F is not real and not counted.calls[0]:
                return None
            if bad or a is None:
                return bad
            if not a > 0 or miss(abs(F(a, n)[0] - t), tol):
                return 'poisson_cdf_root(%r, %r, %r) of %s is %r, whose probability is %r' % (t, n, tol, what, a, F(a, n)[0])
        return runs(seed, one)


class SkellamSearch(Search):
    """both tails"""
    floor = 1e-6
    N = var('zn')
    conds = ()

    def __init__(self):
        Search.__init__(self, 'skellam_cdf_root', ('a', 'b'), ('new_ab',))

    def domain(self):
        a, b = arr('target1'), arr('target2')
        return [a, b, sub(ONE, add(a, b))]

    def args(self):
        Sym('target1', 0)
        Sym('target2', 0)
        return scal('target1'), scal('target2'), mkint(self.N), scal('tol')

    def dist(self, rates, env):
        return power(add(*[power(sub(arr('target%d' % (k + 1)), fn('scdf%d' % k, *rates)), const(2))
                           for k in (0, 1)]), const(.5))

    def patches(self, report):
        def skellam_cdf_pair(a, b, n=0, tol=None):
            t = [toreal(lift(x).elem(())) for x in (a, b)]
            report.append(Goal('bound', cond=ceq(toix(n), self.N)))
            report.extend(Goal('rates in the domain', gt=x) for x in t)
            return npm.array_([[scalar(fn('scdf%d' % k, *t)), scalar(fn('scdfa%d' % k, *t)), scalar(fn('scdfb%d' % k, *t))]
                               for k in (0, 1)])

        class Np(object):
            """numpy; a linear system has any solution"""
            def __getattr__(self, k):
                return getattr(npm.np, k)

            class linalg(object):
                norm = staticmethod(npm.SLinalg.norm)

                @staticmethod
                def solve(m, v):
                    if C.view(m).shape_ != (Ix(2), Ix(2)) or C.view(v).shape_ != (Ix(2),):
                        raise NotCut('linear system')
                    Sym('slv', 1)
                    return SymArray((Ix(2),), lambda I: arr('slv', I[0]), 'f')
        return dict(skellam_cdf_pair=skellam_cdf_pair, np=Np())

    def bounded(self, seed):
        def one(rng):
            t1, o1 = target_of(rng)
            t2, o2 = target_of(rng)
            if not o1 and not o2 and rng.random() < .8:
                t1, t2 = t1 * .45, t2 * .45
            outside = o1 or o2 or t1 + t2 >= 1
            n, tol = rng.randrange(-2, 3), rng.choice([1e-8, 1e-3, .1])
            real = SK.skellam_cdf_pair
            f, d = shape_of(rng)
            g, e = shape_of(rng)
            m = rng.choice([0, .2, .6])
            if rng.random() < .3 and (outside or min(t1, t2) > .02 and t1 + t2 < .95):
                F, what = real, 'the distribution'
            else:
                F = lambda a, b, n=0, tol=0: np.array([
                    [(1 - f(b)) * f(a), d(a), m * d(b)], [g(b) * .9, m * e(a), e(b)]])
                what = 'other functions'
            no = {} if F is real else dict(poisson_vector=escaped, skellam_cdf=escaped, skellam_frame=escaped)
            with patched(skellam_cdf_pair=counted(F), **no):
                ab, bad = bad_call(SK.skellam_cdf_root, (t1, t2, n, tol), outside)
            if F is not real and not counted.calls[0]:
                return None
            if bad or ab is None:
                return bad
            s = F(ab[0], ab[1], n, tol)[:, 0]
            if not min(ab) > 0 or miss(np.hypot(*(s - [t1, t2])), tol):
                return 'skellam_cdf_root(%r, %r, %r, %r) of %s is %r, with probabilities %r' % (t1, t2, n, tol, what, ab, s)
        return runs(seed, one)


class CondSearch(Search):
    """P(Y < X) + P(Y = X) / 2 for the truncation of the last step"""
    floor = 1e-6
    conds = ()

    def __init__(self):
        Search.__init__(self, 'conditional_skellam_cdf_root', ('a',), ('new_a',))

    def domain(self):
        return [arr('target'), sub(ONE, arr('target'))]

    def args(self):
        Sym('target', 0)
        Sym('rb', 0, positive=True)
        return scal('rb'), scal('target'), scal('tol')

    def dist(self, rates, env):
        sa = self.sizes[-1]
        if env is not None and 'size' in env:
            sa = toix(env['size'])
        x, y = var(fresh('x')), var(fresh('y'))
        w = lambda c: bsum([(x, sa), (y, self.sizes[0])], ite(c, mul(mass(rates[0], x), mass(B, y)), ZERO))
        return fn('abs', sub(arr('target'), add(w(clt(y, x)), mul(const(.5), w(ceq(y, x))))))

    def patches(self, report):
        self.sizes = []

        def tol2size(tol=1e-8, *args):
            z = var('zsize%d' % len(self.sizes))
            eng().assume(cle(1, z))
            self.sizes.append(z)
            return mkint(z)
        return dict(tol2size=tol2size)

    def bounded(self, seed):
        def one(rng):
            t, outside = target_of(rng)
            b, tol = rng.uniform(.1, 6), rng.choice([1e-8, 1e-3, .1])
            sizes = []
            real, vec = SK.tol2size, SK.poisson_vector

            def size(*a):
                sizes.append(real(*a))
                if len(sizes) > 500:
                    raise Steps()
                return sizes[-1]
            lie = rng.choice([1, 1, .3, 3, 20, -1])

            def vector(a, *k):
                v = vec(a, *k)
                return np.array([v[0], v[1] * lie])
            with patched(tol2size=size, poisson_vector=vector):
                a, bad = bad_call(SK.conditional_skellam_cdf_root, (b, t, tol), outside)
            if bad or a is None:
                return bad
            d = []
            for m in set(sizes) | {120}:
                for n in set(sizes) | {120}:
                    p = np.outer(vec(b, m)[0], vec(a, n)[0])
                    d.append(abs(np.triu(p, 1).sum() + .5 * np.trace(p) - t))
            if not a > 0 or miss(np.nanmin(d), tol):
                return 'conditional_skellam_cdf_root(%r, %r, %r) is %r, off by %r' % (b, t, tol, a, np.nanmin(d))
        return runs(seed, one)


def inverse(s):
    f = getattr(SK, s.name)

    def run():
        report = []
        Sym('tol', 0, positive=True)
        s.looped = False
        g = cut(f, s.spec, report, extra=s.patches(report))
        en = eng()
        en.facts = en.facts.add(cnot(rcond('rle', sub(ONE, arr('tol')))))
        try:
            out = g(*s.args())
        except LoopEnd:
            return report
        except ValueError:
            for t in s.domain():
                en.facts = en.facts.add(cnot(rcond('rle', t)))
            return report + [Goal('refuses only targets outside the domain', gt=const(-1))]
        except (ConvergenceError, np.linalg.LinAlgError):
            return report
        ts = out if isinstance(out, tuple) else (out,)
        if len(ts) != len(s.rates):
            return [Goal('rates', ok=False, why='%d' % len(ts))]
        ts = tuple(toreal(lift(t).elem(())) for t in ts)
        report += [Goal('rate is positive', gt=t) for t in ts]
        report.append(Goal('within the tolerance', ge=sub(arr('tol'), s.dist(ts, None))))
        for t in s.domain():
            report.append(Goal('returns only for targets in the domain', gt=t))
        return report
    return ob(s.name, [s.name], run, conds=s.conds, inductive=True, conc=s.bounded,
              require=('within the tolerance', 'is kept', 'refuses only', 'only for targets'))


def inverses():
    for c in (PoissonSearch, SkellamSearch, CondSearch):
        yield inverse(c())


def c16(tier):
    yield from sums()
    yield from inverses()
