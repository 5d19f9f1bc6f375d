"""Contracts of functions: value, exact first and second derivatives, one-pass
evaluation.  Atoms stand for arbitrary functions known by their contract."""
from array import array
import itertools
from pyvc.index import *
from pyvc.terms import *
from pyvc.sym import *
from pyvc.norm import has_real
from pyvc import concrete as C
from pyvc.verify import Goal, Ob
from contracts.tensors import Universe, Frame, den, BadShape, goal_eq, names

import importlib
import maxlike.tensor.tensor as MT
import maxlike.func.func_base as FB
import maxlike.func.func as FF
import maxlike.func.func_op as FO
import maxlike.func.func_proba as FP
import maxlike.func.sigmoid as FS
import maxlike.func.matrix as FM
import maxlike.func.tennis as FT
import maxlike.maxlike_base as MB

Tensor, GenericTensor, Func = MT.Tensor, MT.GenericTensor, FB.Func
MODS = (MT, FB, FF, FO, FP, FS, FM, FT, MB)


class Run(object):
    """goals collected while an obligation runs"""
    goals = None


def note(*goals):
    if Run.goals is not None:
        Run.goals += goals


def elem_of(x, M):
    """element of a parameter as a function reads it"""
    v = getattr(x, 'values', x)
    a = C.view(v)
    idx = tuple(Ix(0) if s is Ix(1) else m for s, m in zip(a.shape_, M))
    return a, toreal(a.elem(idx))


class Atom(object):
    """An arbitrary function with the contract: `grad` and `hess` report its
    partial derivatives.

    args: sizes of each argument; maps: for each argument None (any entry of
    the value may depend on any entry of the argument), a tuple (value axis of
    each argument axis: the derivative is diagonal) or 'absent'.
    n, d: sizes of the value and extra axes."""

    def __init__(self, name, args, maps, n=(), d=(), null=None, at=None):
        self.name, self.sizes, self.maps = name, [list(a) for a in args], list(maps)
        self.n, self.d, self.null = list(n), list(d), null
        self.at = at            # expected arguments: list of index -> term
        self.nm = len(self.n)

    def declare(self):
        Sym(self.name, len(self.n) + len(self.d),
            deriv={'*': lambda I, w, wi: self.chain(I, w, wi)} if self.null != 'grad' else {})
        for k, mp in enumerate(self.maps):
            if mp == 'absent' or self.null == 'grad':
                continue
            r = 0 if mp is not None else len(self.sizes[k])
            Sym('%s.%d' % (self.name, k), r + len(self.n) + len(self.d),
                deriv={'*': lambda I, w, wi, k=k, r=r: self.chain(I[r:], w, wi, k, I[:r])}
                if self.null is None else {})
            for l in range(k + 1):
                if self.maps[l] != 'absent':
                    Sym('%s.%d%d' % (self.name, k, l), 0)

    def H(self, k, l, M, L, NE):
        """second derivative with respect to entries M of k and L of l (empty
        for diagonal arguments)"""
        if k < l:
            k, l, M, L = l, k, L, M
        n = '%s.%d%d' % (self.name, k, l)
        if k == l and M:
            return add(arr(n, *(M + L + NE)), arr(n, *(L + M + NE)))
        return arr(n, *(M + L + NE))

    def chain(self, NE, wrt, wix, k0=None, M0=()):
        out = []
        for k, mp in enumerate(self.maps):
            if mp == 'absent':
                continue
            f = self.at[k]
            if mp is not None:
                M = tuple(NE[a] for a in mp)
                c = arr('%s.%d' % (self.name, k), *NE) if k0 is None else self.H(k0, k, M0, (), NE)
                out.append(mul(c, D(f(M), wrt, wix)))
            else:
                M = tuple(var(fresh('c')) for _ in self.sizes[k])
                c = arr('%s.%d' % (self.name, k), *(M + NE)) if k0 is None else \
                    self.H(k0, k, M0, M, NE)
                dd = D(f(M), wrt, wix)
                if dd is ZERO:
                    continue
                t = mul(c, dd)
                for v, s in reversed(list(zip(M, self.sizes[k]))):
                    t = tsum(v, s, t)
                out.append(t)
        return add(*out)

    def V(self, NE):
        return arr(self.name, *NE)

    # --- the Func ---------------------------------------------------------
    def check(self, params):
        if len(params) != len(self.sizes):
            note(Goal('%s gets its parameters' % self.name, ok=False,
                      why='%d parameters for %d' % (len(params), len(self.sizes))))
            return
        for k, p in enumerate(params):
            if self.maps[k] == 'absent':
                continue
            M = tuple(var('a%s%d%d' % (self.name, k, a)) for a in range(len(self.sizes[k])))
            try:
                a, e = elem_of(p, M)
            except Exception as x:
                note(Goal('%s reads its parameter %d' % (self.name, k), ok=False, why=repr(x)))
                continue
            if len(a.shape_) != len(M):
                note(Goal('%s reads its parameter %d' % (self.name, k), ok=False,
                          why='rank %d instead of %d' % (len(a.shape_), len(M))))
                continue
            want = self.at[k](M)
            if e is not want:
                note(Goal('%s reads its parameter %d' % (self.name, k), e, want))
            for s, w in zip(a.shape_, self.sizes[k]):
                if s is not Ix(1) and s is not w and eng().facts.decide(ceq(s, w)) is not True:
                    note(Goal('%s reads its parameter %d' % (self.name, k), ok=False, why='size'))

    def value(self):
        return Tensor(C.inp(self.name, self.dims(), declare=False), dim=len(self.d))

    def dims(self, k=None, l=None):
        out = []
        for q in (k, l):
            if q is not None:
                out += [1 if self.maps[q] is not None else C.size(s) for s in self.sizes[q]]
        return out + [C.size(s) for s in self.n + self.d]

    def g(self, k):
        if self.maps[k] == 'absent' or self.null == 'grad':
            return Tensor(0)
        mp = self.maps[k]
        r = len(self.sizes[k])
        nm = '%s.%d' % (self.name, k)
        fun = None if mp is None else lambda I: arr(nm, *I[r:])
        v = C.inp(nm, self.dims(k), declare=False, fun=fun or (lambda I: arr(nm, *I)))
        return Tensor(v, x_dim=r, dim=len(self.d), x_map=array('b', mp) if mp else None)

    def h(self, k, l):
        if 'absent' in (self.maps[k], self.maps[l]) or self.null is not None:
            return Tensor(0)
        a, b = self.maps[k], self.maps[l]
        r, s = len(self.sizes[k]), len(self.sizes[l])

        def fun(I):
            return self.H(k, l, I[:r] if a is None else (), I[r:r + s] if b is None else (), I[r + s:])
        v = C.inp('%s.%d%d' % (self.name, k, l), self.dims(k, l), declare=False, fun=fun)
        return Tensor(v, x_dim=r, y_dim=s, dim=len(self.d),
                      x_map=array('b', a) if a else None, y_map=array('b', b) if b else None)

    def func(self):
        self.declare()
        cls = {None: AFunc, 'hess': AFuncNoHess, 'grad': AFuncNoGrad}[self.null]
        return cls(self)

    def ranges(self):
        return {var('a%s%d%d' % (self.name, k, a)).t[0][0]: s
                for k, z in enumerate(self.sizes) for a, s in enumerate(z)}


class AFunc(Func):
    def __init__(self, atom):
        self.atom = atom

    def __call__(self, params):
        self.atom.check(params)
        return self.atom.value()

    def grad(self, params, i):
        self.atom.check(params)
        return self.atom.g(i)

    def hess(self, params, i, j):
        self.atom.check(params)
        return self.atom.h(i, j)

    def eval(self, params):
        a = self.atom
        a.check(params)
        n = len(a.sizes)
        return a.value(), [a.g(i) for i in range(n)], \
            [[a.h(i, j) for j in range(i + 1)] for i in range(n)]


class AFuncNoHess(Func):
    def __init__(self, atom):
        self.atom = atom

    def __call__(self, params):
        self.atom.check(params)
        return self.atom.value()

    def grad(self, params, i):
        self.atom.check(params)
        return self.atom.g(i)

    hess = FB.null_func


class AFuncNoGrad(Func):
    def __init__(self, atom):
        self.atom = atom

    def __call__(self, params):
        self.atom.check(params)
        return self.atom.value()

    grad = FB.null_func
    hess = FB.null_func


# --- parameters ------------------------------------------------------------
FORMS = ('array', 'tensor', 'param')


def param(name, sizes, form='array', dim=0, domain=None, positive=False, bounds=None):
    Sym(name, len(sizes), base=True, domain=domain or (0.2, 0.8), positive=positive, bounds=bounds)
    v = C.inp(name, [C.size(s) for s in sizes], domain=domain)
    if form == 'tensor':
        return Tensor(v, dim=dim)
    if form == 'param':
        return MB.Param(v)
    return v


class Cfg(object):
    """A function under contract.

    sizes: sizes (Ix) of each parameter; n, d: sizes of the value and extra
    axes; build() -> Func (real code); spec(N, E) -> term of the value;
    atoms: the atoms used (their expected arguments bound)"""

    pbounds = None      # of the entries of the parameters

    def __init__(self, fn, case, sizes, n, d, build, spec, atoms=(), forms=None, conds=(),
                 domain=None, domains=None, funcs=None, pdims=None, hess=True, extra=None,
                 ranges=None, limit=None, timeout=20, maxsize=3, max_paths=400, rsubst=None):
        self.fn, self.case, self.sizes, self.n, self.d = fn, case, sizes, n, d
        self.build, self.spec, self.atoms = build, spec, list(atoms)
        self.forms = forms or ['array'] * len(sizes)
        self.conds, self.domain, self.domains = tuple(conds), domain, domains
        self.funcs = funcs or [fn]
        self.pdims = pdims or [0] * len(sizes)
        self.hess, self.extra, self.xranges = hess, extra, ranges or {}
        self.limit, self.timeout, self.maxsize, self.max_paths = limit, timeout, maxsize, max_paths
        self.rsubst = rsubst

    # axes
    def sp(self, i=None, j=None):
        return SizedSpace([[] if i is None else self.sizes[i], [] if j is None else self.sizes[j],
                           self.n, self.d])

    def params(self):
        return [param('x%d' % k, s, f, dm, self.domain, bounds=self.pbounds)
                for k, (s, f, dm) in enumerate(zip(self.sizes, self.forms, self.pdims))]

    def ob(self, what, i, j, run):
        sp = self.sp(i, j)
        I, ranges = sp.index()
        for a in self.atoms:
            ranges.update(a.ranges())
        ranges.update(self.xranges)
        vs = set()
        for s in list(ranges.values()) + [z for q in self.sizes for z in q] + self.n + self.d + \
                [z for a in self.atoms for q in a.sizes + [a.n, a.d] for z in q]:
            vs |= {v for v in ixvars(s)}
        conds = [cle(1, Ix(0, ((v, 1),))) for v in sorted(vs, key=str)
                 if v not in ranges] + list(self.conds)

        def go():
            for a in self.atoms:
                a.declare()
            Run.goals = []
            try:
                g = run(sp, I)
                return Run.goals + g
            finally:
                Run.goals = None
        return Ob('%s.%s/%s' % (self.fn, what, self.case), ['%s.%s' % (f, what.split('(')[0]) for f in self.funcs],
                  go, conds, ranges, mods=MODS, extra=self.extra, domains=self.domains,
                  limit=self.limit, timeout=self.timeout, maxsize=self.maxsize,
                  max_paths=self.max_paths, rsubst=self.rsubst)

    def target(self, F, params, I):
        """the value that is differentiated: what the code reports"""
        if C.Concrete.cur is not None:
            return self.spec(I[2], I[3])
        V = den(F(params), ((), (), I[2], I[3]), SizedSpace([[], [], self.n, self.d]))
        if any(has_real(c) for c in eng().facts.conds):
            # the path only covers a set without interior (a term is zero)
            S = self.spec(I[2], I[3])
            note(Goal('value', V, S))
            return S
        return V

    def value(self):
        def run(sp, I):
            F = self.build()
            return goal_eq('value', F(self.params()), I, sp, self.spec(I[2], I[3]))
        return self.ob('__call__', None, None, run)

    def grad(self, i):
        def run(sp, I):
            F, P = self.build(), self.params()
            V = self.target(F, P, I)
            g = goal_eq('grad[%d]' % i, F.grad(P, i), I, sp, D(V, 'x%d' % i, I[0]))
            return g
        return self.ob('grad(%d)' % i, i, None, run)

    def hessian(self, i, j):
        def run(sp, I):
            F, P = self.build(), self.params()
            V = self.target(F, P, I)
            return goal_eq('hess[%d][%d]' % (i, j), F.hess(P, i, j), I, sp,
                           D(D(V, 'x%d' % i, I[0]), 'x%d' % j, I[1]))
        return self.ob('hess(%d,%d)' % (i, j), i, j, run)

    def lists(self):
        """grad and hess without index: one entry per parameter, lower triangle"""
        m = len(self.sizes)

        def run(sp, I):
            F, P = self.build(), self.params()
            g, h = F.grad(P), F.hess(P)
            return [Goal('grad list', ok=len(g) == m, why='%d entries' % len(g)),
                    Goal('hess list', ok=[len(r) for r in h] == list(range(1, m + 1)),
                         why='rows %s' % [len(r) for r in h])] + are_tensors([F(P), g, h])
        return self.ob('lists', None, None, run)

    def evaluation(self):
        m = len(self.sizes)
        spaces = {}
        I0, ranges = self.sp().index()
        for i in range(m):
            spaces[i] = self.sp(i).index('.%d' % i)
            ranges.update(spaces[i][1])
            for j in range(i + 1):
                spaces[i, j] = self.sp(i, j).index('.%d.%d' % (i, j))
                ranges.update(spaces[i, j][1])

        def run(sp, I):
            F, P = self.build(), self.params()
            v, g, h = F.eval(P)
            out = two('value', v, F(P), I0, self.sp()) + are_tensors([v, g, h])
            if len(g) != m or len(h) != m:
                return out + [Goal('eval', ok=False, why='%d gradients, %d Hessian rows' % (len(g), len(h)))]
            for i in range(m):
                out += two('grad[%d]' % i, g[i], F.grad(P, i), spaces[i][0], self.sp(i))
                if not self.hess:
                    continue
                if len(h[i]) != i + 1:
                    out.append(Goal('eval', ok=False, why='Hessian row %d has %d blocks' % (i, len(h[i]))))
                    continue
                for j in range(i + 1):
                    out += two('hess[%d][%d]' % (i, j), h[i][j], F.hess(P, i, j), spaces[i, j][0], self.sp(i, j))
            return out
        o = self.ob('eval', None, None, run)
        for r, s in ranges.items():
            o.ranges.setdefault(r, s)
        return o

    def derivatives(self):
        for i in range(len(self.sizes)):
            yield self.grad(i)
            if self.hess:
                for j in range(i + 1):
                    yield self.hessian(i, j)


def two(name, a, b, I, sp):
    try:
        return [Goal(name, den(a, I, sp), den(b, I, sp))]
    except BadShape as e:
        return [Goal(name, ok=False, why=str(e))]


def are_tensors(x, name='result'):
    """goals: results are tensors, as the operations on functions need them to be"""
    if isinstance(x, (list, tuple)):
        return [g for k, e in enumerate(x) for g in are_tensors(e, '%s[%d]' % (name, k))]
    return [Goal('tensors', ok=isinstance(x, (Tensor, GenericTensor)), why='%s is a %s' % (name, type(x).__name__))]


class SizedSpace(object):
    """axes with given sizes"""

    def __init__(self, sizes):
        self.sizes = [[ix(s) for s in g] for g in sizes]

    @property
    def groups(self):
        return tuple(len(g) for g in self.sizes)

    def size(self, g, k):
        return self.sizes['xynd'.index(g)][k]

    def index(self, tag=''):
        out, ranges = [], {}
        for g, z in zip('xynd', self.sizes):
            J = []
            for k, s in enumerate(z):
                v = var('I%s%d%s' % (g, k, tag if g in 'xy' else ''))
                ranges[v.t[0][0]] = s
                J.append(v)
            out.append(tuple(J))
        return out, ranges


def ixvars(s):
    return ivars(ix(s))


def sz(*ns):
    """symbolic sizes"""
    return [var('z' + n) if isinstance(n, str) else Ix(n) for n in ns]
