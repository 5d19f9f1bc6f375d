"""Contracts of the score matrices: CollapseMatrix, MarkovMatrix, MarkovVector."""
import itertools
from contracts.fkit import *
from pyvc.loops import *
from pyvc.npm import SymArray
from pyvc.sym import eng
import numpy as np
from rtc.common import dense, check_func, Violation


def bsum(vs, t):
    for v, s in reversed(vs):
        t = tsum(v, s, t)
    return t


# --- CollapseMatrix ----------------------------------------------------------
def ccond(c, x, y):
    a, b, k, s = c
    t = iadd(iadd(iscale(x, a), iscale(y, b)), k)
    return clt(0, t) if s == 1 else clt(t, 0) if s == -1 else ceq(t, 0)


CONDS = [
    None,
    [(1, -1, 0, 1)],
    [(1, 1, -3, 1), (1, 1, -3, 0), (1, 1, -3, -1)],
    [(2, -1, 0, 1), (0, 1, -1, 0), (1, -1, 1, 1), (-1, -1, 2, -1)],
    [(0, 0, 0, 0), (1, 0, 0, 0)],
    [(1, -1, -2, -1), (3, -2, 1, 0)],
]


def collapse_cfgs(tier):
    for q, cs in enumerate(CONDS):
        full = cs or [(1, -1, 0, 1), (1, -1, 0, 0), (1, -1, 0, -1)]
        for r in (0, 1, 2):
            for form, pd in (('tensor', 2), ('array', 0), ('tensor', 0)):
                Z = sz(*['p%d' % k for k in range(r + 2)])

                def spec(N, E, full=full, Z=Z):
                    x, y = var(fresh('cx')), var(fresh('cy'))
                    out = []
                    for k, c in enumerate(full):
                        w = ite(cand(ceq(E[0], k), ccond(c, x, y)), const(1), ZERO)
                        out.append(mul(w, arr('x0', *(tuple(N) + (x, y)))))
                    return bsum([(x, Z[-2]), (y, Z[-1])], add(*out))
                yield Cfg('CollapseMatrix', '%d rank %d %s%d' % (q, r, form, pd), [Z], Z[:r],
                          [Ix(len(full))], lambda cs=cs: FM.CollapseMatrix(cs), spec,
                          forms=[form], pdims=[pd])


# --- Markov: small sizes and numbers of steps, unrolled --------------------------
def hook():
    if C.Concrete.cur is None:
        eng().hook_all = lambda a: True


def markov_cls(kind):
    return FM.MarkovMatrix if kind == 'matrix' else FM.MarkovVector


def markov_small(tier):
    big = tier != 'quick'
    for kind in ('matrix', 'vector'):
        cases = [(1, 1), (1, 2), (2, 1), (2, 2)]
        cases += [(1, 3), (3, 1)] if kind == 'matrix' else [(1, 3), (3, 1), (2, 3), (3, 2)]
        if big:
            cases += [(2, 3), (3, 2)]
        for S, T in cases:
            for skew in (False, True):
                for r in (1, 0, 2) if (S, T) == (2, 1) else (1,):
                    Z = sz(*['p%d' % k for k in range(r)])
                    d = [Ix(S)] * 2 if kind == 'matrix' else [Ix(2 * S - 1)]
                    sk = [S, S] if kind == 'matrix' else [2 * S - 1]

                    def build(kind=kind, S=S, T=T, skew=skew, sk=sk):
                        hook()
                        return markov_cls(kind)(S, T, C.inp('skew', sk, domain=(.3, 1.)) if skew else None)
                    yield Cfg('Markov%s' % kind.capitalize(), 'size %d steps %d rank %d%s' % (
                        S, T, r, ' skew' if skew else ''), [Z, Z], Z, d, build, None,
                        domain=(.1, .45), limit=120)


def mass(c):
    """the scores of every cell sum to one"""
    def run(sp, I):
        F, P = c.build(), c.params()
        vs = [(var(fresh('q')), s) for s in c.d]
        V = den(F(P), ((), (), I[2], tuple(v for v, _ in vs)), SizedSpace([[], [], c.n, c.d]))
        return [Goal('sum of the scores', bsum(vs, V), const(1))]
    c2 = c.ob('mass', None, None, run)
    return c2


# --- Markov: any size, any number of steps -----------------------------------
REL = [('M', 0, 'D1'), ('M', 1, 'D2'), ('D1', 0, 'H11'), ('D1', 1, 'H12'), ('D2', 0, 'H12'), ('D2', 1, 'H22')]
CARRY = dict(M='e', D1='e1', D2='e2', H11='e11', H12='e12', H22='e22')


class Markov(object):
    """The recursion of one model, for parameters of r axes.

    Ghost values G<k>.<name>[positions of the loops 0..k, cell, score]: the
    state of the recursion in iteration `position` of loop k."""

    def __init__(self, kind, r, skew, mode, fn):
        self.kind, self.r, self.skew, self.mode, self.fn = kind, r, skew, mode, fn
        self.Z = sz(*['p%d' % k for k in range(r)])
        self.S, self.T = var('sizeS'), var('stepsT')
        n = self.S if kind == 'matrix' else isub(iscale(self.S, 2), 1)
        self.d = [n, n] if kind == 'matrix' else [n]
        self.names = ['M'] if fn == '__call__' else ['M', 'D1', 'D2', 'H11', 'H12', 'H22']
        self.N = tuple(var('In%d' % k) for k in range(r))
        self.A = tuple(var('Id%d' % k) for k in range(len(self.d)))
        self.W = tuple(var('Iw%d' % k) for k in range(r))
        self.loops = 3 if kind == 'matrix' else 2
        self.inner = self.loops - 1

    def conds(self):
        return [cle(1, self.S), cle(1, self.T)] + [cle(1, z) for z in self.Z]

    def ranges(self):
        out = {}
        for vs, ss in ((self.N, self.Z), (self.W, self.Z), (self.A, self.d)):
            for v, s in zip(vs, ss):
                out[v.t[0][0]] = s
        return out

    def build(self):
        eng().hook_all = lambda a: True
        sk = None
        if self.skew:
            sk = C.inp('skew', [mkint(z) for z in (self.d if self.kind == 'vector' else [self.S] * 2)])
        return markov_cls(self.kind)(mkint(self.S), mkint(self.T), sk)

    def params(self):
        return [param('x%d' % k, self.Z) for k in (0, 1)]

    def f(self, *i):
        return arr('skew', *i) if self.skew else ONE

    # ghost state
    def declare(self, k):
        """the fresh state of loop k and the derivatives it satisfies"""
        r, m = self.r, len(self.d)
        scal = self.kind == 'vector' and k == self.inner
        for nm in self.names:
            for q, rank in [(nm, r + m)] + ([(CARRY[nm], r)] if scal else []):
                der = {}
                if self.mode == 'deriv':
                    for a, w, b in REL:
                        if a == nm:
                            b = CARRY[b] if q != nm else b
                            der['x%d' % w] = lambda I, W, b=b: mul(
                                *[delta(i, j) for i, j in zip(I, W)] +
                                [arr('%s@%d' % (b, k), *I), inv(fromint(self.T))])
                Sym('%s@%d' % (q, k), rank, deriv=der, base=not der)

    def ghost(self, k, nm, pos, I):
        if self.mode != 'step':
            if self.mode == 'mass' and nm == 'M':
                vs = tuple(var(fresh('q')) for _ in self.d)
                tot = bsum(list(zip(vs, self.d)), arr('M@%d' % k, *(self.N_(I) + vs)))
                if self.kind == 'vector' and k == self.inner:
                    tot = add(tot, arr('e@%d' % k, *self.N_(I)))
                return add(arr('M@%d' % k, *I), mul(*[delta(a, 0) for a in I[self.r:]] + [sub(const(1), tot)]))
            return arr('%s@%d' % (nm, k), *I)
        Sym('G%d.%s' % (k, nm), len(pos) + len(I), base=True)
        return arr('G%d.%s' % (k, nm), *(tuple(pos) + tuple(I)))

    def N_(self, I):
        return tuple(I[:self.r])

    def s(self, k, N):
        return div(arr('x%d' % k, *N), fromint(self.T))

    # specification of one iteration of the innermost loop (mode step)
    def step(self, pos, nm, I):
        """state after the iteration at `pos`"""
        N, A = I[:self.r], I[self.r:]
        s1, s2 = self.s(0, N), self.s(1, N)
        k = self.inner
        g = lambda q, *a: self.ghost(k, q, pos, N + a)
        if self.kind == 'matrix':
            n = self.S
            x, y = isub(isub(n, 1), pos[1]), isub(isub(n, 1), pos[2])
            last = isub(n, 1)
            up = lambda x: iite(ceq(x, last), x, iadd(x, 1))
            f1, f2 = self.f(x, y), self.f(y, x)
            m = g('M', x, y)
            a, b = A
            return add(g('M', a, b),
                       mul(delta(a, up(x)), delta(b, y), s1, f1, m),
                       mul(delta(a, x), delta(b, up(y)), s2, f2, m),
                       neg(mul(delta(a, x), delta(b, y), add(mul(s1, f1), mul(s2, f2)), m)))
        x = pos[1]
        n = self.d[0]
        f1, f2 = self.f(x), self.f(isub(isub(n, 1), x))
        m = g('M', x)
        if nm == 'e':
            return mul(m, s1, f1)
        a, = A
        down = iite(ceq(x, 0), x, isub(x, 1))
        return add(g('M', a), mul(delta(a, down), m, s2, f2),
                   mul(delta(a, x), sub(g('e'), mul(m, add(mul(s1, f1), mul(s2, f2))))))

    def start(self, I):
        A = I[self.r:]
        if self.kind == 'matrix':
            return mul(delta(A[0], 0), delta(A[1], 0))
        return delta(A[0], isub(self.S, 1))

    def total(self, M, e=None):
        """sum of the scores of the array M (function of the indices)"""
        vs = tuple(var(fresh('q')) for _ in self.d)
        t = bsum(list(zip(vs, self.d)), M(self.N + vs))
        return t if e is None else add(t, e(self.N))


class MInv(Inv):
    """invariant of loop k of a Markov recursion"""

    def __init__(self, mk, k):
        self.mk, self.k = mk, k
        self.scal = mk.kind == 'vector' and k == mk.inner
        self.state = tuple(mk.names) + (tuple(CARRY[n] for n in mk.names) if self.scal else ())
        self.outer = []

    def pos(self):
        return tuple(l.loop.pos for l in self.outer) + (self.loop.pos,)

    def fresh(self, env):
        mk, k = self.mk, self.k
        if mk.mode != 'step':
            mk.declare(k)
        shp = [mkint(z) for z in mk.Z]
        pos = self.pos()
        out = {}
        for nm in mk.names:
            out[nm] = C.inp('%s@%d' % (nm, k), shp + [mkint(z) for z in mk.d], declare=False,
                            fun=lambda I, nm=nm: mk.ghost(k, nm, pos, tuple(I)))
            if self.scal:
                q = CARRY[nm]
                out[q] = C.inp('%s@%d' % (q, k), shp, declare=False,
                               fun=lambda I, q=q: mk.ghost(k, q, pos, tuple(I)))
        return out

    def goals(self, env, tag):
        mk = self.mk
        N, A, W = mk.N, mk.A, mk.W

        def val(nm):
            a = C.view(env[nm])
            full = len(a.shape_)
            if full == 0:
                return lambda I: toreal(a.elem(()))
            return lambda I: toreal(a.elem(tuple(I)))
        out = []
        if mk.mode == 'deriv':
            for carry in (False, True) if self.scal else (False,):
                I = N if carry else N + A
                for a, w, b in REL:
                    if a not in mk.names:
                        continue
                    if carry:
                        a, b = CARRY[a], CARRY[b]
                    out.append(Goal('%s: %s is the derivative of %s' % (tag, b, a),
                                    D(val(a)(I), 'x%d' % w, W),
                                    mul(*[delta(i, j) for i, j in zip(N, W)] +
                                        [val(b)(I), inv(fromint(mk.T))])))
        elif mk.mode == 'mass':
            out.append(Goal('%s: the scores sum to one' % tag,
                            mk.total(val('M'), val('e') if self.scal else None), const(1)))
        else:
            for nm in ('M', 'e') if self.scal else ('M',):
                I = N if nm == 'e' else N + A
                out.append(Goal('%s: %s follows the recursion' % (tag, nm), val(nm)(I), self.expect(nm, I)))
        return out

    def expect(self, nm, I):
        """the state of the recursion at the current position of the loop"""
        mk, k = self.mk, self.k
        pos = self.pos()
        p = pos[-1]
        if p is Ix(0):
            if nm == 'e':
                return ZERO
            return mk.start(I) if k == 0 else mk.ghost(k - 1, nm, pos[:-1], I)
        before = pos[:-1] + (isub(p, 1),)
        if k == mk.inner:
            return mk.step(before, nm, I)
        n = mk.d[0]
        t = mk.ghost(k + 1, nm, before + (n,), I)
        if k == 0 and mk.kind == 'vector':
            t = add(t, mul(delta(I[-1], isub(n, 1)), mk.ghost(1, 'e', before + (n,), I[:mk.r])))
        return t


def markov_run(mk, tail):
    """runs __call__ or eval of the model with its loops cut"""
    cls = markov_cls(mk.kind)
    rep = []
    invs = [MInv(mk, k) for k in range(mk.loops)]
    for k, i in enumerate(invs):
        i.outer = invs[:k]
    F, P = mk.build(), mk.params()
    g = cut(getattr(cls, mk.fn), invs, rep, {'range': symrange, 'reversed': symreversed})
    try:
        out = g(F, P)
    except LoopEnd:
        return rep
    return rep + tail(out)


def markov_any(tier):
    """contract of __call__ and eval: derivatives, mass, recursion"""
    for kind in ('matrix', 'vector'):
        for r in (0, 1, 2):
            for skew in (True, False):
                for fn in ('__call__', 'eval'):
                    for mode in ('mass', 'step', 'deriv'):
                        if mode == 'deriv' and fn == '__call__':
                            continue
                        mk = Markov(kind, r, skew, mode, fn)
                        yield markov_ob(mk)


def markov_ob(mk):
    dim = len(mk.d)
    sp0 = SizedSpace([[], [], mk.Z, mk.d])

    def tail(out):
        v = out if mk.fn == '__call__' else out[0]
        V = lambda I: den(v, ((), (), tuple(I[:mk.r]), tuple(I[mk.r:])), sp0)
        if mk.mode == 'mass':
            return [Goal('sum of the scores', mk.total(V), const(1))]
        if mk.mode == 'step':
            return [Goal('value', V(mk.N + mk.A), mk.ghost(0, 'M', (mk.T,), mk.N + mk.A))]
        _, g, h = out
        res = []
        for i in range(2):
            Wi = tuple(var('Iw%d' % k) for k in range(mk.r))
            gi = den(g[i], (Wi, (), mk.N, mk.A), SizedSpace([mk.Z, [], mk.Z, mk.d]))
            res.append(Goal('grad[%d]' % i, gi, D(V(mk.N + mk.A), 'x%d' % i, Wi)))
            if len(h[i]) != i + 1:
                res.append(Goal('hess', ok=False, why='row %d' % i))
                continue
            for j in range(i + 1):
                # y axes: the indices of the second parameter
                Y = tuple(var('Iy%d' % k) for k in range(mk.r))
                hij = den(h[i][j], (Wi, Y, mk.N, mk.A), SizedSpace([mk.Z, mk.Z, mk.Z, mk.d]))
                res.append(Goal('hess[%d][%d]' % (i, j), hij, D(gi, 'x%d' % j, Y)))
        return res

    def run():
        return markov_run(mk, tail)
    ranges = mk.ranges()
    for k in range(mk.r):
        ranges[('v', 'Iy%d' % k)] = mk.Z[k]
    name = 'Markov%s.%s/%s rank %d%s' % (mk.kind.capitalize(), mk.fn, mk.mode, mk.r, ' skew' if mk.skew else '')
    return Ob(name, ['Markov%s.%s' % (mk.kind.capitalize(), mk.fn)], run, mk.conds(), ranges, mods=MODS,
              timeout=30, limit=120, allowed=(AssertionError,), inductive=True,
              require=['loop %d is kept' % k for k in range(mk.loops)],
              conc=lambda seed: markov_concrete(mk, seed))


def markov_concrete(mk, seed):
    """the whole contract on the real code, at a random model"""
    rng = np.random.default_rng(seed)
    S, T = int(rng.integers(1, 4)), int(rng.integers(1, 5))
    shp = tuple(rng.integers(1, 3, mk.r))
    n = [S, S] if mk.kind == 'matrix' else [2 * S - 1]
    skew = rng.uniform(.3, 1, n) if mk.skew else None
    P = [rng.uniform(.2, .45 * T, shp) for _ in (0, 1)]
    F = markov_cls(mk.kind)(S, T, None if skew is None else skew.copy())
    dim = len(n)
    info = dict(size=S, steps=T, skew=None if skew is None else skew.tolist(), params=[p.tolist() for p in P])

    def bad(what):
        return dict(info, what='Markov%s %s' % (mk.kind, what))
    try:
        v = dense(F(P) if mk.fn == '__call__' else F.eval(P)[0], (0, 0, mk.r, dim))
        want = reference(mk.kind, S, T, skew, P)
        if v.shape != want.shape:
            return bad('shape of the value')
        if mk.mode == 'mass' and not np.allclose(v.reshape(shp + (-1,)).sum(-1), 1, rtol=1e-9):
            return bad('scores do not sum to one')
        if mk.mode == 'step' and not np.allclose(v, want, rtol=1e-9, atol=1e-12):
            return bad('value does not follow the recursion')
        if mk.mode == 'deriv':
            check_func(F, P, mk.r, dim, rtol=1e-4, atol=1e-5, label='Markov%s' % mk.kind)
    except (Violation, AssertionError, ValueError, IndexError, TypeError, AttributeError) as e:
        return bad('%s: %s' % (type(e).__name__, e))
    return None


def reference(kind, S, T, skew, P):
    """the score distribution, cell by cell, as a walk of T steps"""
    s1, s2 = (np.asarray(p) / T for p in P)
    n = (S, S) if kind == 'matrix' else (2 * S - 1,)
    f = np.ones(n) if skew is None else skew
    M = {((0, 0) if kind == 'matrix' else (S - 1,)): np.ones_like(s1)}
    for _ in range(T):
        R = {}
        for c, m in M.items():
            if kind == 'matrix':
                x, y = c
                moves = [((min(x + 1, S - 1), y), s1 * f[x, y]), ((x, min(y + 1, S - 1)), s2 * f[y, x])]
            else:
                x, = c
                moves = [((min(x + 1, n[0] - 1),), s1 * f[x]), ((max(x - 1, 0),), s2 * f[n[0] - 1 - x])]
            stay = 1
            for to, p in moves:
                R[to] = R.get(to, 0) + m * p
                stay = stay - p
            R[c] = R.get(c, 0) + m * stay
        M = R
    out = np.zeros(s1.shape + n)
    for c, m in M.items():
        out[(Ellipsis,) + c] = m
    return out


def markov_parts(tier):
    """grad and hess return the parts of eval (contract of eval)"""
    for kind in ('matrix', 'vector'):
        def run(kind=kind):
            F = markov_cls(kind)(2, 3)
            g, h = [Tensor(1.), Tensor(2.)], [[Tensor(3.)], [Tensor(4.), Tensor(5.)]]
            seen = []

            def ev(params):
                seen.append(params)
                return Tensor(0.), g, h
            F.eval = ev
            P = [1., 2.]
            out = []
            for i in range(2):
                out.append(Goal('grad[%d]' % i, ok=F.grad(P, i) is g[i], why='not the part of eval'))
                for j in range(i + 1):
                    out.append(Goal('hess[%d][%d]' % (i, j), ok=F.hess(P, i, j) is h[i][j], why='not the part of eval'))
            gl, hl = F.grad(P), F.hess(P)
            out.append(Goal('grad list', ok=len(gl) == 2 and all(a is b for a, b in zip(gl, g)), why='%s' % (gl,)))
            out.append(Goal('hess list', ok=[len(r) for r in hl] == [1, 2] and
                            all(a is b for r, q in zip(hl, h) for a, b in zip(r, q)), why='%s' % (hl,)))
            out.append(Goal('parameters', ok=all(len(p) == 2 and p[0] == 1. and p[1] == 2. for p in seen)))
            return out
        for what in ('grad', 'hess'):
            yield Ob('Markov%s.%s/parts of eval' % (kind.capitalize(), what),
                     ['Markov%s.%s' % (kind.capitalize(), what)], run, mods=MODS, inductive=True,
                     conc=lambda seed, kind=kind: markov_concrete(Markov(kind, 1, True, 'deriv', 'eval'), seed))


def c06(tier):
    for c in collapse_cfgs(tier):
        yield c.value()
        yield c.grad(0)
    yield from markov_any(tier)
    yield from markov_parts(tier)


def c08(tier):
    for c in collapse_cfgs(tier):
        c.hess = True
        yield c.evaluation()
    for o in markov_any(tier):
        if '/step' in o.name:
            yield o
    yield from markov_parts(tier)
