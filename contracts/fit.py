"""Contracts of the fitting machinery of MaxLike: flat and shaped forms (C12),
flat gradient and Hessian (C14), information criteria and errors (C18)."""
from contracts.fkit import *
from pyvc import masks as MK
from pyvc import npm

MAX = MB.MaxLike


class Stub(MAX):
    def __init__(self):
        MAX.__init__(self)

    def like(self, params, y):
        raise NotImplementedError

    grad_like = hess_like = like


# --- parameters with fixed entries ------------------------------------------
class P(object):
    """parameter k: sizes; mask 'some' (any mask), None, 'all'"""

    def __init__(self, k, sizes, mask='some'):
        self.k, self.sizes, self.kind = k, list(sizes), mask
        self.shape = tuple(ix(s) for s in sizes)
        self.e = MK.enum(self.shape, self.cond)
        self.free = MK.enum(self.shape, lambda I: cnot(self.cond(I)))

    def cond(self, I):
        """the entry is fixed"""
        if self.kind is None:
            return FALSE
        if self.kind == 'all':
            return TRUE
        return Cond('bf', ('mask%d' % self.k, tuple(ix(i) for i in I)))

    def V(self, I):
        return arr('x%d' % self.k, *I)

    def make(self):
        s = [C.size(z) for z in self.sizes]
        Sym('x%d' % self.k, len(s), base=True, domain=(0.2, 0.8))
        v = C.inp('x%d' % self.k, s)
        if self.kind is None:
            return MB.Param(v)
        m = C.inp('mask%d' % self.k, s, kind='b', fun=self.cond, declare=False)
        return MB.Param(v, m)

    def index(self, tag):
        I = tuple(var('%s%d_%d' % (tag, self.k, a)) for a in range(len(self.sizes)))
        return I, {i.t[0][0]: s for i, s in zip(I, self.sizes)}


def layouts():
    """lists of (sizes, mask)"""
    A = lambda *n: [var('z' + q) for q in n]
    one = [([], None), (A('a'), None), (A('a'), 'some'), (A('a', 'b'), 'some'), (A('a'), 'all'), ([], 'all'),
           (A('a', 'b'), None)]
    for x in one:
        yield [x]
    two = [(A('a'), 'some'), (A('b'), 'some'), (A('b', 'c'), 'some'), (A('b'), None), (A('b'), 'all'), (A('a'), None)]
    for x, y in itertools.product(two, two):
        yield [x, y]
    yield [([], None), (A('b'), 'some')]
    yield [(A('a'), 'some'), ([], None)]
    yield [([], 'all'), (A('b'), 'some')]
    for x, y, z in [(0, 1, 2), (0, 3, 1), (4, 0, 3), (2, 0, 4), (3, 2, 1)]:
        yield [two[x], two[y], two[z]]


def wide_layouts():
    """more parameters, and parameters with more axes"""
    A = lambda *n: [var('z' + q) for q in n]
    yield [(A('a'), 'some'), (A('b', 'c'), 'some'), ([], None), (A('d'), 'some')]
    yield [(A('a'), None), (A('b'), 'some'), (A('c'), 'all'), (A('d', 'e'), 'some')]
    yield [(A('a'), 'some'), (A('b'), 'some'), (A('c'), None), (A('d'), 'some'), (A('e'), 'some')]
    yield [(A('a', 'b', 'c'), 'some'), (A('d'), 'some')]


def text(l):
    return ' '.join('%d%s' % (len(s), {None: '', 'some': 'm', 'all': 'f'}[m]) for s, m in l)


def offsets(ps, what='free'):
    o, out = Ix(0), []
    for p in ps:
        out.append(o)
        o = iadd(o, (p.free if what == 'free' else p.e).count)
    return out, o


class Case(object):
    cells = ()

    def __init__(self, l, mods=MODS):
        self.l = l
        self.ps = [P(k, s, m) for k, (s, m) in enumerate(l)]
        self.text = text(l)

    def model(self):
        m = Stub()
        m.params = tuple(p.make() for p in self.ps)
        return m

    def ob(self, fn_, what, run, ranges=None, funcs=None, conds=(), **kw):
        vs = set()
        for p in self.ps:
            for s in p.sizes:
                vs |= ixvars(s)
        for s in self.cells:
            vs |= ixvars(s)
        r = dict(ranges or {})
        cs = [cle(1, Ix(0, ((v, 1),))) for v in sorted(vs, key=str)] + list(conds)
        return Ob('%s/%s' % (fn_, (what + ' ' + self.text).strip()), funcs or ['MaxLike.' + fn_], run, cs, r, mods=MODS, **kw)


def element(a, I):
    v = C.view(getattr(a, 'values', a))
    return toreal(v.elem(tuple(I)))


def shape_goal(name, a, sizes):
    v = C.view(getattr(a, 'values', a))
    if len(v.shape_) != len(sizes):
        return [Goal(name + ' rank', ok=False, why='%d axes instead of %d' % (len(v.shape_), len(sizes)))]
    return [Goal('%s size %d' % (name, k), cond=ceq(s, z)) if C.Concrete.cur is None or True else None
            for k, (s, z) in enumerate(zip(v.shape_, sizes))]


def mask_goals(name, p, q, I):
    """the mask of parameter q is that of p"""
    m = C.view(q.mask)
    return [Goal(name + ' mask', toreal(m.elem(tuple(I))), ite(p.cond(I), ONE, ZERO))]


def indices(ps, tag='I'):
    I, ranges = [], {}
    for p in ps:
        J, r = p.index(tag)
        I.append(J)
        ranges.update(r)
    return I, ranges


# --- C12 ----------------------------------------------------------------------
def reshape_array(c, filler):
    I, ranges = indices(c.ps)

    def run():
        off, n = offsets(c.ps)
        foff, fn_ = offsets(c.ps, 'fixed')
        m = c.model()
        flat = C.inp('flat', [C.size(n)])
        if filler == 'params':
            out = m._reshape_params(flat)
        elif filler == 'number':
            v = C.num('filler')
            out = m._reshape_array(flat, v)
        else:
            out = m._reshape_array(flat, C.inp('fill', [C.size(fn_)]))
        goals = [Goal('parameters', ok=isinstance(out, tuple) and len(out) == len(c.ps))]
        for p, q, J, o, fo in zip(c.ps, out, I, off, foff):
            nm = 'parameter %d' % p.k
            goals += shape_goal(nm, q, p.shape)
            goals += mask_goals(nm, p, q, J)
            old = p.V(J) if filler == 'params' else arr('filler') if filler == 'number' else \
                arr('fill', iadd(fo, p.e.rank(J)))
            goals.append(Goal(nm, element(q, J), ite(p.cond(J), old, arr('flat', iadd(o, p.free.rank(J))))))
        return goals
    fn_ = '_reshape_params' if filler == 'params' else '_reshape_array'
    return c.ob(fn_, filler, run, ranges)


def read_back(c):
    """free values of the parameters written from a flat vector"""
    def run():
        off, n = offsets(c.ps)
        m = c.model()
        out = m._reshape_params(C.inp('flat', [C.size(n)]))
        goals = []
        for p, q, o in zip(c.ps, out, off):
            z = C.view(q.compressed())
            goals.append(Goal('count of %d' % p.k, toreal(q.count()), fromint(p.free.count)))
            goals.append(Goal('entries of %d' % p.k, cond=ceq(z.shape_[0], p.free.count)))
            k = var('k%d' % p.k)
            if p.free.count is Ix(0):
                continue
            goals.append(Goal('free value of %d' % p.k, element(z, (k,)), arr('flat', iadd(o, k))))
        return goals
    return c.ob('_reshape_params', 'read back', run, {('v', 'k%d' % p.k): p.free.count for p in c.ps},
                funcs=['MaxLike._reshape_params', 'Param.compressed', 'Param.count'])


def write_back(c):
    """the free values of the parameters, written back"""
    import numpy
    I, ranges = indices(c.ps)

    def run():
        m = c.model()
        if C.Concrete.cur is None:
            cat = npm.concatenate
        else:
            cat = numpy.concatenate
        out = m._reshape_params(cat([p.compressed() for p in m.params]))
        return [Goal('parameter %d' % p.k, element(q, J), p.V(J)) for p, q, J in zip(c.ps, out, I)]
    return c.ob('_reshape_params', 'write back', run, ranges,
                funcs=['MaxLike._reshape_params', 'Param.compressed'])


def reshape_matrix(c, filler):
    I, ranges = indices(c.ps, 'I')
    J, r2 = indices(c.ps, 'J')
    ranges.update(r2)

    def run():
        off, n = offsets(c.ps)
        foff, fn_ = offsets(c.ps, 'fixed')
        m = c.model()
        mat = C.inp('mat', [C.size(n), C.size(n)])
        if filler == 'number':
            out = m._reshape_matrix(mat, C.num('filler'))
        else:
            out = m._reshape_matrix(mat, C.inp('fill', [C.size(fn_)]))
        goals = [Goal('blocks', ok=len(out) == len(c.ps) and all(len(r) == len(c.ps) for r in out))]
        if not goals[0].ok:
            return goals
        for p, a, o, fo in zip(c.ps, I, off, foff):
            for q, b, o2, fo2 in zip(c.ps, J, off, foff):
                z = out[p.k][q.k]
                nm = 'block %d %d' % (p.k, q.k)
                goals += shape_goal(nm, z, p.shape + q.shape)
                fr = lambda: arr('mat', iadd(o, p.free.rank(a)), iadd(o2, q.free.rank(b)))
                if filler == 'number':
                    goals.append(Goal(nm, element(z, a + b), ite(cor(p.cond(a), q.cond(b)), arr('filler'), fr())))
                else:
                    goals.append(Goal(nm, element(z, a + b), ite(
                        q.cond(b), arr('fill', iadd(fo2, q.e.rank(b))),
                        ite(p.cond(a), arr('fill', iadd(fo, p.e.rank(a))), fr()))))
        return goals
    return c.ob('_reshape_matrix', filler, run, ranges)


def c12(tier):
    for l in itertools.chain(layouts(), wide_layouts()):
        c = Case(l)
        for f in ('params', 'number', 'array'):
            yield reshape_array(c, f)
        yield read_back(c)
        yield write_back(c)
        for f in ('number', 'array'):
            yield reshape_matrix(c, f)


# --- C14 ----------------------------------------------------------------------
def argx(i):
    return lambda M: arr('x%d' % i, *M)


class Problem(Case):
    """likelihood, penalties and constraints known by their contracts.

    like: parameters the likelihood does not depend on; regs, cons: lists of
    (param_map, maps of the atom, null)"""

    def __init__(self, l, absent=(), regs=(), cons=()):
        Case.__init__(self, l)
        self.regs, self.cons = regs, cons
        sizes = [p.sizes for p in self.ps]
        self.L = Atom('LL', sizes, ['absent' if k in absent else None for k in range(len(sizes))],
                      at=[argx(k) for k in range(len(sizes))])
        mk = lambda nm, pm, mp, null: Atom(nm, [sizes[k] for k in self.seq(pm)], mp, null=null,
                                           at=[argx(k) for k in self.seq(pm)])
        self.R = [mk('R%d' % q, *r) for q, r in enumerate(regs)]
        self.G = [mk('G%d' % q, *r) for q, r in enumerate(cons)]
        one = lambda r: '%s%s%s' % (r[0], ''.join('-' if m else '' for m in r[1]), ' no ' + r[2] if r[2] else '')
        self.text += ''.join(' without %d' % k for k in absent) + ''.join(' pen' + one(r) for r in regs) + \
            ''.join(' con' + one(r) for r in cons)

    @staticmethod
    def seq(pm):
        return [pm] if isinstance(pm, int) else list(pm)

    @property
    def atoms(self):
        return [self.L] + self.R + self.G

    def setup(self):
        L = self.L

        class M(Stub):
            def like(self, params, y):
                L.check(params)
                return L.value()

            def grad_like(self, params, y, der):
                L.check(params)
                return [L.g(i) for i in range(len(params))]

            def hess_like(self, params, y, der, hess):
                L.check(params)
                return [[L.h(i, j) for j in range(i + 1)] for i in range(len(params))]
        for a in self.atoms:
            a.declare()
        m = M()
        m.params = tuple(p.make() for p in self.ps)
        for (pm, _, _), a in zip(self.regs, self.R):
            m.add_regularization(pm, a.func())
        for (pm, _, _), a in zip(self.cons, self.G):
            m.add_constraint(pm, a.func())
        return m

    def objective(self):
        return sub(self.L.V(()), add(*[r.V(()) for r in self.R]))

    def obx(self, fn_, run, ranges):
        ranges = dict(ranges)
        for a in self.atoms:
            ranges.update(a.ranges())

        def go():
            Run.goals = []
            try:
                g = run()
                return Run.goals + g
            finally:
                Run.goals = None
        return self.ob(fn_, '', go, ranges)


def free_index(ps, tag):
    K = [var('%s%d' % (tag, p.k)) for p in ps]
    return K, {k.t[0][0]: p.free.count for k, p in zip(K, ps)}


def flat_grad(c):
    K, ranges = free_index(c.ps, 'k')

    def run():
        off, n = offsets(c.ps)
        m = c.setup()
        z = C.view(m.flat_grad(m.params, None, None))
        goals = [Goal('length', cond=ceq(z.shape_[0], iadd(n, len(c.G))), ok=None)] if len(z.shape_) == 1 else \
            [Goal('length', ok=False, why='%d axes' % len(z.shape_))]
        for p, k, o in zip(c.ps, K, off):
            if p.free.count is not Ix(0):
                goals.append(Goal('derivative by %d' % p.k, element(z, (iadd(o, k),)),
                                  D(c.objective(), 'x%d' % p.k, p.free.pos(k))))
        for q, g in enumerate(c.G):
            goals.append(Goal('constraint %d' % q, element(z, (iadd(n, q),)), g.V(())))
        return goals
    return c.obx('flat_grad', run, ranges)


def flat_hess(c):
    K, ranges = free_index(c.ps, 'k')
    L, r2 = free_index(c.ps, 'l')
    ranges.update(r2)

    def run():
        off, n = offsets(c.ps)
        m = c.setup()
        z = C.view(m.flat_hess(m.params, None, None, None))
        tot = iadd(n, len(c.G))
        if len(z.shape_) != 2:
            return [Goal('shape', ok=False, why='%d axes' % len(z.shape_))]
        goals = [Goal('shape', cond=cand(ceq(z.shape_[0], tot), ceq(z.shape_[1], tot)))]
        for p, k, o in zip(c.ps, K, off):
            if p.free.count is Ix(0):
                continue
            a = p.free.pos(k)
            for q, l, o2 in zip(c.ps, L, off):
                if q.free.count is not Ix(0):
                    goals.append(Goal('second derivative by %d %d' % (p.k, q.k),
                                      element(z, (iadd(o, k), iadd(o2, l))),
                                      D(D(c.objective(), 'x%d' % p.k, a), 'x%d' % q.k, q.free.pos(l))))
            for e, g in enumerate(c.G):
                d = D(g.V(()), 'x%d' % p.k, a)
                goals.append(Goal('border %d by %d' % (e, p.k), element(z, (iadd(o, k), iadd(n, e))), d))
                goals.append(Goal('border %d by %d' % (e, p.k), element(z, (iadd(n, e), iadd(o, k))), d))
        for e in range(len(c.G)):
            for f in range(len(c.G)):
                goals.append(Goal('corner', element(z, (iadd(n, e), iadd(n, f))), ZERO))
        return goals
    return c.obx('flat_hess', run, ranges)


def problems(tier):
    N = None
    for l in layouts():
        k = len(l)
        yield Problem(l)
        for a in range(k):
            yield Problem(l, absent=[a])
        pms = [(0, [N]), ([0], [N]), ([0, 0], [N, N])]
        if k > 1:
            pms += [(1, [N]), ([0, 1], [N, N]), ([1, 0], [N, N]), ([1, 0], [N, 'absent']), ([1, 0], ['absent', N]),
                    ([1, 0, 1], [N, N, N])]
        if k > 2:
            pms += [([2, 0], [N, N]), ([2, 1, 0], [N, N, N]), ([1, 2], [N, N])]
        for pm, mp in pms:
            for null in (None, 'hess') if k == 1 or pm == [1, 0] else (None,):
                yield Problem(l, regs=[(pm, mp, null)])
                yield Problem(l, cons=[(pm, mp, null)])
        yield Problem(l, regs=[(0, [N], None), (k - 1, [N], None)], cons=[(0, [N], None), (k - 1, [N], 'hess')])
        yield Problem(l, absent=[0], regs=[(0, [N], None)], cons=[(k - 1, [N], None), ([0], [N], None)])
        if k > 1:
            yield Problem(l, absent=[1], regs=[([1, 0], [N, N], None), ([0, 1], [N, N], None)],
                          cons=[([1, 0], [N, N], None), (0, [N], None), ([0, 1], ['absent', N], None)])


def wide_problems():
    N = None
    for l in wide_layouts():
        k = len(l)
        p = list(range(k))
        yield Problem(l)
        for cls in Problem, DataProblem:
            yield cls(l, regs=[(0, [N], None), (k - 1, [N], None), ([k - 1, 0], [N, N], None), (p[1], [N], None)],
                      cons=[(k - 1, [N], None), ([0, k - 1], [N, N], None), (1, [N], 'hess'), ([1, 0], [N, N], None)])
        q = p[1::2] + p[::2]
        yield Problem(l, regs=[(q, [N] * k, None)])
        yield Problem(l, cons=[(q[::-1], [N] * k, None), (0, [N], None), (1, [N], None)])
        yield Problem(l, cons=[([1, 0, 1, 1], [N] * 4, None)], regs=[([0, 1, 0, 0], [N] * 4, None)])


def c14(tier):
    for c in itertools.chain(problems(tier), wide_problems()):
        yield mean_likelihood(c) if isinstance(c, DataProblem) else flat_grad(c)
        if not isinstance(c, DataProblem):
            yield flat_hess(c)


# --- C18 ----------------------------------------------------------------------
class DataProblem(Problem):
    """with a model and weights of the observations"""

    def setup(self):
        m = Problem.setup(self)
        m.model = lambda params: None
        v = C.inp('dataN', [C.size(s) for s in self.cells], domain=(0.5, 3.))
        SYMS['dataN'].positive = True
        m.N = Tensor(v, dim=self.ndim)
        return m

    cells, ndim = [var('zc')], 0

    def n(self):
        vs = [(var(fresh('cn')), s) for s in self.cells]
        t = arr('dataN', *[v for v, _ in vs])
        for v, s in reversed(vs):
            t = tsum(v, s, t)
        return t


def mean_likelihood(c):
    def run():
        m = c.setup()
        return [Goal('objective', toreal(m.g(m.params)), div(c.objective(), c.n()))]
    return c.obx('g', run, {})


def same(a, b):
    """are the terms equal? (no: not known)"""
    from pyvc.norm import prove_equal
    from pyvc.sym import eng
    if C.Concrete.cur is not None:
        return C.close(C.Concrete.cur.ev(a), C.Concrete.cur.ev(b))
    return prove_equal(a, b, eng().facts, eng().rsubst, refute=False).status == 'proved'


def criterion(c, which, extra, fixed=None):
    """fixed: None without fixed entries; 'free' only the free ones count;
    'formula' either count (known finding: all are counted)"""
    name = dict(AIC='akaine_information_criterion', BIC='bayesian_information_criterion')[which]

    def run():
        off, nf = offsets(c.ps)
        m = c.setup()
        q = C.size(var('extra'))
        out = getattr(m, name)(q) if extra else getattr(m, name)()
        if getattr(out, 'ndim', 0):
            return [Goal('a number', ok=False, why='rank %d' % out.ndim)]
        out = toreal(out)

        def formula(k):
            k = fromint(iadd(isub(k, len(c.G)), var('extra') if extra else 0))
            n, l = c.n(), div(c.objective(), c.n())
            if which == 'AIC':
                return sub(div(mul(const(2), k), sub(sub(n, k), ONE)), mul(const(2), l))
            return sub(div(mul(k, fn('log', n)), n), mul(const(2), l))
        want = formula(nf)
        if fixed == 'formula':
            every = Ix(0)
            for p in c.ps:
                z = Ix(1)
                for s in p.shape:
                    z = imul(z, s)
                every = iadd(every, z)
            if same(out, formula(every)):
                want = formula(every)
        return [Goal(which, out, want)]
    o = c.obx(name, run, {})
    o.name += (' extra' if extra else '') + dict(free=' only free entries count', formula=' count or free count').get(fixed, '')
    return o


class Fitted(Case):
    """after a fit: the Hessian H of the free parameters and nc constraints"""

    def __init__(self, l, nc):
        Case.__init__(self, l)
        self.nc = nc
        self.text += ' constraints %d' % nc

    @staticmethod
    def H(u, v):
        return sub(neg(add(arr('H', u, v), arr('H', v, u))), mul(const(60), delta(u, v)))

    def model(self):
        m = Case.model(self)
        off, n = offsets(self.ps)
        n = iadd(n, self.nc)
        Sym('H', 2, base=True, domain=(0.2, 0.8))
        Sym('INV', 2)
        m.flat_hess_ = C.inp('hess', [C.size(n), C.size(n)], fun=lambda I: self.H(*I), declare=False)
        m.constraint = [None] * self.nc
        npm.Inverse.table = [npm.Inverse(n, self.H, 'INV')]
        if C.Concrete.cur is not None:
            import numpy
            C.Concrete.cur.arrays['INV'] = numpy.linalg.inv(m.flat_hess_)
        return m

    def inverse(self, a, b):
        return neg(arr('INV', a, b))


def solver(a, *k, **kw):
    return npm.matrix_inverse(a)


PINV = {'maxlike.maxlike_base': {'pinvh': solver}}


def matrices(c, what):
    I, ranges = indices(c.ps, 'I')
    J, r2 = indices(c.ps, 'J')
    ranges.update(r2)

    def run():
        off, n = offsets(c.ps)
        m = c.model()
        out = getattr(m, what)()
        goals = [Goal('blocks', ok=len(out) == len(c.ps) and all(len(r) == len(c.ps) for r in out))]
        if not goals[0].ok:
            return goals
        fill = const(0) if what == 'fisher_matrix' else const(float('nan'))
        for p, a, o in zip(c.ps, I, off):
            for q, b, o2 in zip(c.ps, J, off):
                z = out[p.k][q.k]
                nm = 'block %d %d' % (p.k, q.k)
                goals += shape_goal(nm, z, p.shape + q.shape)
                x, y = iadd(o, p.free.rank(a)), iadd(o2, q.free.rank(b))
                fr = c.inverse(x, y) if what == 'error_matrix' else c.H(x, y)
                goals.append(Goal(nm, element(z, a + b), ite(cor(p.cond(a), q.cond(b)), fill, fr)))
        return goals
    return c.ob(what, '', run, ranges, extra=PINV)


def std_error(c):
    I, ranges = indices(c.ps)

    def run():
        off, n = offsets(c.ps)
        m = c.model()
        out = m.std_error()
        goals = [Goal('parameters', ok=len(out) == len(c.ps))]
        for p, q, J, o in zip(c.ps, out, I, off):
            nm = 'parameter %d' % p.k
            goals += shape_goal(nm, q, p.shape)
            k = iadd(o, p.free.rank(J))
            goals.append(Goal(nm, element(q, J), ite(p.cond(J), const(float('nan')),
                                                     power(c.inverse(k, k), const(Fraction(1, 2))))))
            mk = getattr(q, 'mask', None)
            if mk is not None:
                e = C.view(mk).elem(tuple(J)) if C.view(mk).ndim else C.view(mk).elem(())
                goals.append(Goal(nm + ' mask', toreal(e), ite(p.cond(J), ONE, ZERO)))
        return goals
    return c.ob('std_error', '', run, ranges, extra=PINV)


def c18(tier):
    N = None
    for l in layouts():
        k = len(l)
        cs = [DataProblem(l), DataProblem(l, cons=[(0, [N], None)]),
              DataProblem(l, cons=[(0, [N], None)] * 2, regs=[(k - 1, [N], None)])]
        c = DataProblem(l, regs=[(0, [N], None)], cons=[(0, [N], None)] * 3)
        c.cells, c.ndim = [var('zc'), var('zd')], 1
        c.text += ' extra axis'
        c2 = DataProblem(l, regs=[(0, [N], None), (k - 1, [N], None)])
        c2.cells, c2.text = [var('zc'), var('zd')], c2.text + ' two axes'
        for c in cs + [c, c2]:
            yield mean_likelihood(c)
            for which in ('AIC', 'BIC'):
                for extra in (False, True):
                    if all(m is None for _, m in l):
                        yield criterion(c, which, extra)
                        continue
                    yield criterion(c, which, extra, 'formula')
                    if c is cs[0] and not extra:
                        yield criterion(c, which, extra, 'free')
        for nc in (0, 1, 2, 3):
            if nc == 0 and all(m == 'all' for s, m in l):
                continue        # nothing to fit
            c = Fitted(l, nc)
            for what in ('fisher_matrix', 'error_matrix'):
                yield matrices(c, what)
            yield std_error(c)


# --- C13: the iteration ---------------------------------------------------------
import ast
import random
from pyvc.norm import Norm
from pyvc.loops import cut, Inv, NotCut, symrange
from pyvc.sym import eng, rcond, scalar, mkint
from pyvc.sym import Unsupported as Unsup
import numpy as np


def steps_loop(n):
    """is the loop the one over the steps of the fit?"""
    if isinstance(n, ast.While) and any(isinstance(a, ast.Name) and a.id == 'max_steps' for a in ast.walk(n.test)):
        raise NotCut('while loop over the steps')
    return isinstance(n, ast.For) and isinstance(n.iter, ast.Call) and any(
        isinstance(a, ast.Name) and a.id == 'max_steps' for a in n.iter.args)


class Failure(Exception):
    """any error of the model"""


class Iteration(Case):
    """fit of a model known by its contract: the objective is an arbitrary
    function of the parameters, a Newton step an arbitrary vector; each of them
    may fail"""

    def __init__(self, l, method, nc=0):
        Case.__init__(self, l)
        self.method, self.nc = method, nc
        self.text = '%s %s%s' % (method, self.text, ' constraints %d' % nc if nc else '')

    # the objective
    def key(self, params):
        I, _ = indices(self.ps, 'G')
        if len(params) != len(self.ps):
            raise Failure('parameters')
        # the normal form: bound variables have no names
        N = Norm(self.facts0, {})
        return tuple((tuple(C.view(q.values).shape_), N.norm(element(q, J)).key) for q, J in zip(params, I))

    def G(self, params):
        k = self.key(params)
        if k not in self.values:
            nm = 'G%d' % len(self.values)
            Sym(nm, 0)
            self.values[k] = arr(nm)
        return self.values[k]

    def fail(self):
        if eng().branch(2) == 1:
            raise Failure('the model fails')

    def number(self):
        self.fresh_ += 1
        return self.fresh_

    def vector(self, n, what='v'):
        return C.inp('%s%d' % (what, self.number()), [mkint(n)])

    def square(self, n):
        return C.inp('m%d' % self.number(), [mkint(n), mkint(n)])

    def setup(self):
        self.values, self.fresh_, self.facts0 = {}, 0, eng().facts
        off, self.nfree = offsets(self.ps)
        self.total = iadd(self.nfree, self.nc)
        it = self

        class Calls(object):
            def __call__(self, params):
                return None

            grad = hess = __call__

            def eval(self, params):
                it.fail()
                return None, None, None

        class M(Stub):
            def newton_step(self, params):
                it.count = iadd(it.count, 1)
                it.fail()
                it.last, it.hess = params, object()
                return it.vector(it.nfree), scalar(it.G(params)), object(), it.hess

            def g(self, params, y=None):
                if it.method != 'newton':
                    it.count = iadd(it.count, 1)
                it.fail()
                it.hist.append(params)
                return scalar(it.G(params))

            def flat_grad(self, params, *a, **k):
                it.fail()
                return it.vector(it.total)

            def flat_hess(self, params, *a, **k):
                it.fail()
                return it.square(it.total)
        m = M()
        m.params = tuple(p.make() for p in self.ps)
        m.model = Calls()
        m.constraint = [None] * self.nc
        m.converged = True
        m.flat_hess_ = C.inp('old', [mkint(var('zold'))] * 2)
        self.m, self.init = m, m.params
        # Broyden: one evaluation of the objective per step and one before
        self.count, self.hist, self.last, self.hess = Ix(0 if self.method == 'newton' else -1), [], None, None
        self.G0 = self.G(m.params)
        return m

    def like_flat(self, params, flat, tag):
        """the parameters are those written from the flat vector"""
        I, _ = indices(self.ps, 'I')
        off, n = offsets(self.ps)
        v = C.view(flat)
        if len(v.shape_) != 1 or len(params) != len(self.ps):
            return [Goal(tag, ok=False, why='shape')]
        out = [Goal(tag + ': length', cond=ceq(v.shape_[0], n))]
        for p, q, J, o in zip(self.ps, params, I, off):
            out += shape_goal(tag, q, p.shape) + mask_goals(tag, p, q, J)
            out.append(Goal('%s: parameter %d' % (tag, p.k), element(q, J),
                            ite(p.cond(J), p.V(J), toreal(v.elem((iadd(o, p.free.rank(J)),))))))
        return out

    def untouched(self, tag=''):
        return [Goal('stored parameters untouched' + tag, ok=self.m.params is self.init or
                     self.key(self.m.params) == self.key(self.init))]

    def success(self, out):
        m = self.m
        goals = [Goal('returns True', ok=out is True), Goal('flag', ok=m.converged is True)]
        I, _ = indices(self.ps, 'I')
        new = self.G(m.params)
        if self.method == 'newton':
            prev = self.last
            goals += [Goal('not below the start', ge=sub(new, self.G0)),
                      Goal('stored Hessian', ok=m.flat_hess_ is self.hess)]
            if prev is not None:
                goals.append(Goal('not below the last step', ge=sub(new, self.G(prev))))
        else:
            prev = self.hist[-2] if len(self.hist) > 1 else None
        if prev is None:
            return goals + [Goal('a step was made', ok=False, why='no step')]
        change = fn('abs', sub(div(self.G(prev), new), ONE))
        goals.append(Goal('last change within the tolerance', gt=sub(arr('tol'), change)))
        for p, q, J in zip(self.ps, m.params, I):
            nm = 'parameter %d' % p.k
            goals += shape_goal(nm, q, p.shape) + mask_goals(nm, p, q, J)
            goals.append(Goal(nm + ': fixed entries', ite(p.cond(J), element(q, J), ZERO), ite(p.cond(J), p.V(J), ZERO)))
        return goals


class StepInv(Inv):
    def __init__(self, it):
        self.it = it

    ignore = ('self',)      # the loop does not change the model (checked below)

    def choose(self, carried):
        return tuple(sorted(carried & {'params', 'flat_params', 'g', 'grad', 'J'}))

    def fresh(self, env):
        it = self.it
        it.count = self.loop.pos
        flat = it.vector(it.nfree, 'flat')
        params = it.m._reshape_params(flat)
        it.hist = [params]
        it.last = None
        if it.method == 'newton':
            eng().facts = eng().facts.add(rcond('rle', sub(it.G0, it.G(params))))
        out = dict(params=params, flat_params=flat, g=scalar(it.G(params)))
        if 'grad' in self.state:
            out['grad'] = it.vector(it.total)
        if 'J' in self.state:
            out['J'] = it.square(it.total)
        return out

    def goals(self, env, tag):
        it = self.it
        out = [Goal(tag + ': number of steps', cond=ceq(it.count, self.loop.pos))] + it.untouched(' ' + tag)
        state = dict(it.m.__dict__)
        if 'entry' in tag:
            self.state0 = state
        elif set(state) != set(self.state0) or any(state[k] is not self.state0[k] for k in state if k != 'params'):
            raise NotCut('the loop changes the model')
        if 'params' not in env or 'flat_params' not in env:
            raise NotCut('variables')
        out += it.like_flat(env['params'], env['flat_params'], tag)
        if it.method == 'newton':
            out.append(Goal(tag + ': not below the start', ge=sub(it.G(env['params']), it.G0)))
        if 'g' in self.state:
            out.append(Goal(tag + ': objective', toreal(env['g']), it.G(env['params'])))
        for k, nd in (('grad', 1), ('J', 2)):
            if k in self.state:
                v = C.view(env[k])
                out.append(Goal('%s: %s' % (tag, k), cond=cand(*[ceq(s, it.total) for s in v.shape_]))
                           if len(v.shape_) == nd else Goal('%s: %s' % (tag, k), ok=False, why='axes'))
        return out


def fit_steps(it):
    I, ranges = indices(it.ps, 'I')
    I, r2 = indices(it.ps, 'G')
    ranges.update(r2)

    def pinvh(a, *k, **kw):
        n = C.view(a).shape_[0]
        return it.square(n)

    def run():
        m = it.setup()
        report = []
        Sym('tol', 0, positive=True)
        f = cut(MAX.fit, lambda n: StepInv(it) if steps_loop(n) else None, report, extra={'pinvh': pinvh, 'range': symrange})
        max_steps = mkint(var('steps'))
        try:
            out = f(m, tol=scalar(arr('tol')), max_steps=max_steps, method=it.method)
        except Unsup:
            raise
        except BaseException as e:
            if not isinstance(e, (Failure, MB.ConvergenceError)):
                if isinstance(e, Exception):
                    raise
                if type(e).__name__ == 'LoopEnd':
                    return report
                raise
            return report + it.untouched() + [
                Goal('failure: no convergence flagged', ok=m.converged is False),
                Goal('number of steps', cond=cle(it.count, var('steps')))]
        return report + it.success(out) + [Goal('number of steps', cond=cle(it.count, var('steps')))]
    cs = [cle(1, var('zold')), cle(0, var('steps')), cle(1, it.bound)]
    return it.ob('fit', '', run, ranges, conds=cs, inductive=True, conc=lambda seed: toy(seed, it.method),
                 require=['is kept', 'last change'], limit=120)


def c13(tier):
    seen = set()
    for l in layouts():
        t = text(l)
        if all(m == 'all' for s, m in l) or tier == 'quick' and len(l) > 1 and t not in (
                '1m 1m', '1m 2m', '1 1m', '1m 1f', '0 1m', '1m 1 1m'):
            continue
        if t in seen:
            continue
        seen.add(t)
        for nc in (0, 1, 2):
            yield newton(l, nc)
        for method in ('newton', 'broyden'):
            it = Iteration(l, method)
            off, it.bound = offsets(it.ps)
            yield fit_steps(it)
            if method == 'broyden':
                it = Iteration(l, method, 2)
                off, it.bound = offsets(it.ps)
                yield fit_steps(it)


def newton(l, nc):
    """newton_step: the part of the parameters of the solution of
    (Hessian) step = gradient"""
    c = Fitted(l, nc)
    c.text = c.text.replace('constraints 0', '').strip()

    def run():
        m = c.model()
        off, n = offsets(c.ps)
        tot = iadd(n, nc)
        lhess, y, der, hess = m.flat_hess_, object(), object(), object()
        lgrad = C.inp('grad', [C.size(tot)])
        seen = []

        class Model(object):
            def __call__(self, params):
                return y

            def grad(self, params):
                return der

            def hess(self, params):
                return hess

            def eval(self, params):
                seen.append(params is m.params)
                return y, der, hess
        m.model = Model()

        def call(what, params, *a):
            seen.append(params is m.params and all(u is w for u, w in zip(a, (y, der, hess))))
        m.g = lambda params, y=None: (call('g', params), C.num('objective'))[1]
        m.flat_grad = lambda params, *a: (call('grad', params, *a), lgrad)[1]
        m.flat_hess = lambda params, *a: (call('hess', params, *a), lhess)[1]
        step, g, gr, he = m.newton_step(m.params)
        v = C.view(step)
        k, j = var('k'), var(fresh('sj'))
        out = [Goal('arguments', ok=all(seen)), Goal('objective', toreal(g), arr('objective')),
               Goal('gradient', ok=gr is lgrad), Goal('Hessian', ok=he is lhess)]
        if len(v.shape_) != 1:
            return out + [Goal('step', ok=False, why='%d axes' % len(v.shape_))]
        return out + [Goal('length of the step', cond=ceq(v.shape_[0], n)),
                      Goal('step', element(v, (k,)), tsum(j, tot, mul(arr('INV', k, j), arr('grad', j))))]
    off, n = offsets(c.ps)
    return c.ob('newton_step', '', run, {('v', 'k'): n}, conds=[cle(1, n)], extra=PINV)


# --- bounded: fits of small models, run ------------------------------------------
class Toy(Stub):
    """objective: any function of the free parameters; steps are taken from a
    gradient and a Hessian that may be wrong"""

    def __init__(self, rng):
        Stub.__init__(self)
        self.rng = rng
        self.calls, self.log = 0, []
        self.params = ()
        for _ in range(rng.randint(1, 2)):
            shape = rng.choice([(), (1,), (2,), (3,), (2, 2)])
            n = int(np.prod(shape))
            v = np.array([rng.uniform(-2, 2) for _ in range(n)]).reshape(shape)
            mask = np.array([rng.random() < .25 for _ in range(n)]).reshape(shape)
            self.params += (MB.Param(v, mask),)
        if not sum(p.count() for p in self.params):
            self.params += (MB.Param(np.array([.5, 1.])),)
        self.nc = rng.choice([0, 0, 1])
        self.constraint = [None] * self.nc
        self.kind = rng.choice(['quad', 'quad', 'exp', 'wave', 'log', 'flat', 'ratio'])
        self.wrong = rng.choice([1, 1, 1, .05, .3, .7, 3, 30, -1, 'random', 'singular', 'raise'])
        self.shift = rng.choice([0, -10, 5, -.01])
        self.center = rng.uniform(-1, 1)
        self.model = self
        self.hist = []

    def eval(self, params):
        self.steps = getattr(self, 'steps', 0) + 1
        self.at = params
        return None, None, None

    def __call__(self, params):
        return None

    def grad(self, params):
        return None

    def f(self, x):
        if self.kind == 'quad':
            return -((x - self.center) ** 2).sum() + self.shift
        if self.kind == 'exp':
            return (x - np.exp(x)).sum() + self.shift
        if self.kind == 'wave':
            return (np.cos(3 * x) - .1 * x ** 2).sum() + self.shift
        if self.kind == 'log':
            return (np.log(x) - x).sum() + self.shift
        if self.kind == 'ratio':
            return (1 / (1 + x * x)).sum() + self.shift
        return 1. + self.shift

    def free(self, params):
        return np.concatenate([p.compressed() for p in params])

    def g(self, params, y=None):
        self.hist.append(params)
        return float(self.f(self.free(params)))

    def flat_grad(self, params, *a):
        x, e = self.free(params), 1e-5
        d = np.array([(self.f(x + e * v) - self.f(x - e * v)) / 2 / e for v in np.eye(len(x))])
        return np.append(d, np.zeros(self.nc))

    def flat_hess(self, params, *a):
        if self.wrong == 'raise' and self.rng.random() < .5:
            raise Failure('no Hessian')
        x, e = self.free(params), 1e-4
        n = len(x)
        d = np.array([(self.f(x + e * v) - 2 * self.f(x) + self.f(x - e * v)) / e / e for v in np.eye(n)])
        k = self.wrong
        if k == 'random':
            k = self.rng.choice([.01, .1, .5, 1, 2, -1])
        if not isinstance(k, (int, float)):
            k = 1
        if self.wrong == 'singular':
            d[self.rng.randrange(n)] = 0
        h = np.zeros((n + self.nc,) * 2)
        h[:n, :n] = np.diag(np.where(d == 0, 0 if self.wrong == 'singular' else -1e-3, d)) * k
        h[n:, n:] = np.eye(self.nc)
        return h


def toy(seed, method):
    """contract of fit on small models: None or a failing case"""
    for k in range(25):
        r = toy_one(random.Random('%s %s %s' % (seed, k, method)), method)
        if r:
            return dict(what=r, seed=seed, case=k, method=method)
    return None


def toy_one(rng, method):
    m = Toy(rng)
    init = m.params
    m.converged = rng.random() < .7
    if rng.random() < .5:
        m.flat_hess_ = -np.eye(rng.choice([1, 2, 3]))
    start = m.g(init)
    m.hist, m.steps = [], 0
    tol, max_steps = rng.choice([1e-8, 1e-3, .5, 1e-12]), rng.choice([0, 1, 2, 5, 20])
    real = Stub.newton_step
    news = []

    def step(params):
        news.append(params)
        return real(m, params)
    m.newton_step = step
    case = '%s objective, Hessian %s, tol %g, %d steps: ' % (m.kind, m.wrong, tol, max_steps)
    try:
        out = m.fit(tol=tol, max_steps=max_steps, method=method)
    except Exception as e:
        if m.params is not init and not all(np.array_equal(p.values, q.values) for p, q in zip(m.params, init)):
            return case + 'fit fails and changes the parameters'
        if m.converged is not False:
            return case + 'fit fails (%s) and flags convergence' % type(e).__name__
        if method == 'newton' and len(news) > max_steps:
            return case + '%d steps' % len(news)
        return broken(m, news, case) if method == 'newton' else None
    if out is not True or m.converged is not True:
        return case + 'returns %r, flag %r' % (out, m.converged)
    for p, q in zip(m.params, init):
        if not np.array_equal(p.mask, q.mask) or not np.array_equal(p.values[p.mask], q.values[q.mask]):
            return case + 'fixed entries changed'
    end = m.f(m.free(m.params))
    if not np.isfinite(end):
        return case + 'success at %r' % end
    hist = m.hist
    if method == 'newton':
        if len(news) > max_steps:
            return case + '%d steps' % len(news)
        if np.isfinite(start) and end < start:
            return case + 'success at %r below the start %r' % (end, start)
        before = m.f(m.free(news[-1]))
    else:
        if len(hist) - 1 > max_steps:
            return case + '%d steps' % (len(hist) - 1)
        before = m.f(m.free(hist[-2]))
    if not abs(before / end - 1) < tol:
        return case + 'success after a change from %r to %r' % (before, end)
    return broken(m, news, case) if method == 'newton' else None


def broken(m, news, case):
    gs = [m.f(m.free(p)) for p in news]
    for a, b in zip(gs, gs[1:]):
        if b < a:
            return case + 'a step goes from %r down to %r' % (a, b)
    return None
