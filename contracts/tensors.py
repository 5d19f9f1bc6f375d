"""Contracts of maxlike.tensor over the dense view (specification written from
the documentation of the sparse layout, independent of the code)."""
import itertools
import random
from array import array
import numpy as np
from scipy import special
from pyvc.index import *
from pyvc.terms import *
from pyvc.sym import *
from pyvc import sym as S, npm
from pyvc import concrete as C
from pyvc.verify import Goal, Ob

import maxlike.tensor.tensor as MT
Tensor, GenericTensor = MT.Tensor, MT.GenericTensor


class Layout(object):
    """x, y, n, d: number of axes of each group; xm, ym: maps (tuples or None);
    ones: set of (group, axis) stored with length one."""

    def __init__(self, x=0, y=0, n=0, d=0, xm=None, ym=None, ones=()):
        self.x, self.y, self.n, self.d = x, y, n, d
        self.xm, self.ym = xm, ym
        self.ones = frozenset(ones)

    @property
    def groups(self):
        return (self.x, self.y, self.n, self.d)

    def __repr__(self):
        s = '%d%d%d%d' % self.groups
        if self.xm is not None:
            s += 'x' + ''.join('-' if f < 0 else str(f) for f in self.xm)
        if self.ym is not None:
            s += 'y' + ''.join('-' if f < 0 else str(f) for f in self.ym)
        if self.ones:
            s += '!' + ','.join('%s%d' % o for o in sorted(self.ones))
        return s

    def tojson(self):
        return dict(x=self.x, y=self.y, n=self.n, d=self.d,
                    xm=list(self.xm) if self.xm is not None else None,
                    ym=list(self.ym) if self.ym is not None else None,
                    ones=sorted(list(o) for o in self.ones))


GN = 'xynd'


class Universe(object):
    """Sizes of axes; axes tied by a map (or by the operation) share a size."""

    def __init__(self):
        self.par = {}
        self.all = set()

    def find(self, a):
        while self.par.get(a, a) != a:
            a = self.par[a]
        return a

    def union(self, a, b):
        a, b = self.find(a), self.find(b)
        if a != b:
            self.par[max(a, b)] = min(a, b)

    def tie(self, layout, frame):
        for g, mp in (('x', layout.xm), ('y', layout.ym)):
            for k, f in enumerate(mp or ()):
                if f >= 0:
                    self.union(frame.label(g, k), frame.label('n', f))

    def size(self, label):
        return var('z' + self.find(label))

    def conds(self):
        return [cle(1, v) for v in sorted({self.size(l) for l in self.all})]


class Frame(object):
    """names the axes of the four groups of a tensor in a universe"""

    def __init__(self, uni, x=(), y=(), n=(), d=()):
        self.uni = uni
        self.labels = dict(x=tuple(x), y=tuple(y), n=tuple(n), d=tuple(d))
        for g in GN:
            uni.all.update(self.labels[g])

    @property
    def groups(self):
        return tuple(len(self.labels[g]) for g in GN)

    def label(self, g, k):
        return self.labels[g][k]

    def size(self, g, k):
        return self.uni.size(self.labels[g][k])

    def index(self):
        out, ranges = [], {}
        for g in GN:
            I = []
            for k, l in enumerate(self.labels[g]):
                v = var('I' + l)
                ranges[v.t[0][0]] = self.size(g, k)
                I.append(v)
            out.append(tuple(I))
        return out, ranges


def names(tag, r):
    return tuple('%s%d' % (tag, k) for k in range(r))


def Space(layouts):
    """one frame for tensors that share the axes of their groups"""
    u = Universe()
    r = (0, 0, 0, 0)
    for l in layouts:
        r = mergeg(r, l.groups)
    f = Frame(u, *[names(g, k) for g, k in zip(GN, r)])
    for l in layouts:
        u.tie(l, f)
    return f


def make(layout, space, name, owner=None):
    """symbolic tensor with this layout (built by the real constructor)"""
    shape = []
    for g, r, mp in (('x', layout.x, layout.xm), ('y', layout.y, layout.ym),
                     ('n', layout.n, None), ('d', layout.d, None)):
        for k in range(r):
            if mp is not None and mp[k] >= 0 or (g, k) in layout.ones:
                shape.append(1)
            else:
                shape.append(C.size(space.size(g, k)))
    v = C.inp(name, shape)
    t = Tensor(v, x_dim=layout.x, y_dim=layout.y, dim=layout.d,
               x_map=array('b', layout.xm) if layout.xm is not None else None,
               y_map=array('b', layout.ym) if layout.ym is not None else None)
    return t


class BadShape(Exception):
    pass


def den(t, I, space, groups=None):
    """element of the dense view of `t` at the indices I = (X, Y, N, E) of a
    space with `groups` axes"""
    if groups is None:
        groups = space.groups
    if isinstance(t, (int, float, SInt)) or isinstance(t, SymArray) and t.ndim == 0:
        return toreal(t)
    if isinstance(t, GenericTensor):
        chk_groups(t, groups)
        return add(*[den(e, I, space, (t.x_dim, t.y_dim, t.n, t.dim)) for e in t.elements])
    if not isinstance(t, Tensor):
        raise BadShape('result of type %s' % type(t).__name__)
    chk_groups(t, groups)
    v = t.values
    f = C.view(v)
    shape, p = list(f.shape_), 0
    idx = []
    facs = []
    for g, have, J, mp in (('x', t.x_dim, I[0], t.x_map), ('y', t.y_dim, I[1], t.y_map),
                           ('n', t.n, I[2], ()), ('d', t.dim, I[3], ())):
        if len(mp) not in (0, have):
            raise BadShape('map of %d entries for %d axes' % (len(mp), have))
        for k in range(have):
            s = shape[p]
            want = space.size(g, k)
            mapped = len(mp) > 0 and mp[k] >= 0
            if mapped and s is not Ix(1):
                raise BadShape('mapped axis %s%d stored with length %s' % (g, k, s))
            if mapped and not 0 <= mp[k] < t.n + t.dim:
                raise BadShape('axis %s%d mapped to the missing axis %d' % (g, k, mp[k]))
            if s is Ix(1):
                idx.append(Ix(0))
                if mapped:
                    # a map refers to a value axis, or after them to an extra axis
                    facs.append((J[k], I[2][mp[k]] if mp[k] < t.n else I[3][mp[k] - t.n]))
            else:
                if s is not want and eng().facts.decide(ceq(s, want)) is not True:
                    raise BadShape('axis %s%d has length %s instead of %s' % (g, k, s, want))
                idx.append(J[k])
            p += 1
    e = toreal(f.elem(tuple(idx)))
    return mul(*([delta(a, b) for a, b in facs] + [e]))


def chk_groups(t, groups):
    have = (t.x_dim, t.y_dim, t.n, t.dim)
    for h, w in zip(have, groups):
        if h not in (0, w):
            raise BadShape('groups %s instead of %s' % (have, tuple(groups)))


def goal_eq(name, t, I, space, rhs, exact=None):
    """goal: dense view of t at I equals rhs"""
    groups = space.groups
    try:
        g = [Goal(name, den(t, I, space, groups), rhs)]
    except BadShape as e:
        return [Goal(name, ok=False, why=str(e))]
    if exact is not None and isinstance(t, (Tensor, GenericTensor)):
        have = (t.x_dim, t.y_dim, t.n, t.dim)
        g.append(Goal(name + ' groups', ok=have == tuple(exact),
                      why='groups %s instead of %s' % (have, tuple(exact))))
    return g


# --- enumeration of layouts ------------------------------------------------
def maps(r, n, all_=True):
    yield None
    if not r or not n:
        return
    for c in itertools.product(range(-1, n), repeat=r):
        v = [f for f in c if f >= 0]
        if v and len(set(v)) == len(v):
            yield c


def layouts(X=1, Y=1, N=1, D=1, ones=False):
    for x in range(X + 1):
        for y in range(Y + 1):
            for n in range(N + 1):
                for d in range(D + 1):
                    for xm in maps(x, n):
                        for ym in maps(y, n):
                            base = Layout(x, y, n, d, xm, ym)
                            yield base
                            if ones:
                                used = {('n', f) for mp in (xm, ym) for f in mp or () if f >= 0}
                                free = [(g, k) for g, r, mp in (('x', x, xm), ('y', y, ym),
                                                                ('n', n, None), ('d', d, None))
                                        for k in range(r)
                                        if not (mp and mp[k] >= 0) and (g, k) not in used]
                                for r in range(1, len(free) + 1):
                                    for o in itertools.combinations(free, r):
                                        yield Layout(x, y, n, d, xm, ym, o)


def rlayout(rnd, x, y, n, d):
    """a random layout with these numbers of axes"""
    def m(r):
        if not r or not n or rnd.random() < 0.25:
            return None
        c = [-1] * r
        for k, f in zip(rnd.sample(range(r), r), rnd.sample(range(n), n)):
            if rnd.random() < 0.8:
                c[k] = f
        return tuple(c) if any(f >= 0 for f in c) else None
    return Layout(x, y, n, d, m(x), m(y))


def compat(a, b):
    return all(u == 0 or v == 0 or u == v for u, v in zip(a.groups, b.groups))


def mergeg(a, b):
    return tuple(max(u, v) for u, v in zip(a, b))



# --- C01 -------------------------------------------------------------------
OPS = {
    'add': (lambda a, b: a + b, add),
    'sub': (lambda a, b: a - b, sub),
    'mul': (lambda a, b: a * b, mul),
    'div': (lambda a, b: a / b, div),
}
MODS = (MT,)


def TOb(fn, case, run, uni, ranges, op, args, par=None, **kw):
    return Ob('%s/%s' % (fn, case), [fn], run, uni.conds(), ranges, mods=MODS,
              replay=('tensor', dict(op=op, args=[a.tojson() if isinstance(a, Layout) else a
                                                  for a in args], par=par)),
              domains={'B': (0.5, 2.0), 'k': (0.5, 2.0), 'C': (0.5, 2.0)}, **kw)


def ob_binop(op, la, lb):
    sp = Space([la, lb])
    I, ranges = sp.index()
    f, spec = OPS[op]

    def run():
        a, b = make(la, sp, 'A'), make(lb, sp, 'B')
        want = spec(den(a, I, sp), den(b, I, sp))
        return goal_eq('dense(a %s b)' % op, f(a, b), I, sp, want)
    allowed = (ZeroDivisionError,) if op == 'div' and not any(lb.groups) else ()
    return TOb('Tensor.bin_op', '%s/%r,%r' % (op, la, lb), run, sp.uni, ranges, op, [la, lb],
               allowed=allowed)


def ob_scalar(op, la, kind, right):
    """tensor and number (kind: 'num' symbolic float, or a literal), right: k op a"""
    sp = Space([la])
    I, ranges = sp.index()
    f, spec = OPS[op]

    def run():
        a = make(la, sp, 'A')
        if kind == 'num':
            k, v = C.num('k'), arr('k')
        else:
            k, v = kind, toreal(kind)
        u = den(a, I, sp)
        r = f(k, a) if right else f(a, k)
        want = spec(v, u) if right else spec(u, v)
        return goal_eq('dense', r, I, sp, want)
    return TOb('Tensor.bin_op', '%s%s/%r,%s' % (op, '-right' if right else '', la, kind),
               run, sp.uni, ranges, 'r' + op if right else op, [la, kind],
               allowed=(ZeroDivisionError,) if op == 'div' and not right and kind in ('num', 0) else ())


def ob_array(op, la, right):
    """tensor without x and y and an array with its shape"""
    sp = Space([la])
    I, ranges = sp.index()
    f, spec = OPS[op]
    n = la.n

    def run():
        a = make(la, sp, 'A')
        b = C.inp('B', [C.size(sp.size('n', k)) for k in range(n)])
        u, v = den(a, I, sp), arr('B', *I[2])
        r = f(b, a) if right else f(a, b)
        return goal_eq('dense', r, I, sp, spec(v, u) if right else spec(u, v))
    return TOb('Tensor.bin_op', '%s-array%s/%r' % (op, '-right' if right else '', la), run, sp.uni, ranges,
               ('r' if right else '') + op + '_arr', [la])


def ob_neg(la):
    sp = Space([la])
    I, ranges = sp.index()

    def run():
        a = make(la, sp, 'A')
        return goal_eq('dense(-a)', -a, I, sp, neg(den(a, I, sp)), exact=la.groups)
    return TOb('Tensor.__neg__', '%r' % la, run, sp.uni, ranges, 'neg', [la])


def ob_pow(la, e):
    sp = Space([la])
    I, ranges = sp.index()

    def run():
        a = make(la, sp, 'A')
        return goal_eq('dense(a ** e)', a ** e, I, sp, power(den(a, I, sp), const(e)))
    return TOb('Tensor.__pow__', '%r,%s' % (la, e), run, sp.uni, ranges, 'pow', [la], par=e)


UFUNCS = {'exp': lambda u: fn('exp', u), 'log': lambda u: fn('log', u), 'square': lambda u: mul(u, u),
          'tanh': lambda u: fn('tanh', u), 'arctan': lambda u: fn('arctan', u),
          'gammaln': lambda u: fn('gammaln', u)}


def ob_ufunc(la, name):
    """elementwise functions: the function of every dense entry, or refused
    (always, where the layout has derivative axes: their dense view has entries
    outside the diagonal)"""
    sp = Space([la])
    I, ranges = sp.index()

    def run():
        a = make(la, sp, 'A')
        return goal_eq('dense(%s(a))' % name, getattr(np if hasattr(np, name) else special, name)(a), I, sp, UFUNCS[name](den(a, I, sp)))
    return TOb('Tensor.__array_ufunc__', '%s/%r' % (name, la), run, sp.uni, ranges, 'ufunc', [la], par=name,
               allowed=(MT.InvalidOperation,) if la.x or la.y else ())


def ob_toarray(la):
    sp = Space([la])
    I, ranges = sp.index()

    def run():
        a = make(la, sp, 'A')
        r = C.view(a.toarray())
        J = I[0] + I[1] + I[2] + I[3]
        if r.ndim != len(J):
            return [Goal('toarray', ok=False, why='rank %d' % r.ndim)]
        e = r.elem(tuple(Ix(0) if s is Ix(1) else j for s, j in zip(r.shape_, J)))
        return [Goal('toarray', e, den(a, I, sp))]
    return TOb('Tensor.toarray', '%r' % la, run, sp.uni, ranges, 'toarray', [la])


def make_generic(ls, sp, tag='A', groups=None):
    els = [make(l, sp, '%s%d' % (tag, k)) for k, l in enumerate(ls)]
    g = sp.groups if groups is None else groups
    return GenericTensor(g[0], g[1], g[2], g[3], els), els


def ob_generic(op, ls, lb, right):
    """list of terms and tensor (lb: Layout), number ('num') or list of terms
    (list of Layout)"""
    la = [l for l in ls]
    lbs = [lb] if isinstance(lb, Layout) else lb if isinstance(lb, list) else []
    sp = Space(la + lbs)
    I, ranges = sp.index()
    f, spec = OPS[op]

    def run():
        ga = (0, 0, 0, 0)
        for l in la:
            ga = mergeg(ga, l.groups)
        a, els = make_generic(la, sp, 'A', ga)
        u = add(*[den(e, I, sp) for e in els])
        if lb == 'num':
            b, v = C.num('k'), arr('k')
        elif isinstance(lb, Layout):
            b = make(lb, sp, 'B')
            v = den(b, I, sp)
        else:
            gb = (0, 0, 0, 0)
            for l in lb:
                gb = mergeg(gb, l.groups)
            b, bl = make_generic(lb, sp, 'B', gb)
            v = add(*[den(e, I, sp) for e in bl])
        g = goal_eq('dense of the operand', a, I, sp, u)
        r = f(b, a) if right else f(a, b)
        return g + goal_eq('dense', r, I, sp, spec(v, u) if right else spec(u, v))
    case = '%s%s/%r;%r' % (op, '-right' if right else '', la, lb)
    allowed = ()
    if op == 'div' and (lb == 'num' or isinstance(lb, Layout) and not any(lb.groups)):
        allowed = (ZeroDivisionError,)
    return TOb('GenericTensor.bin_op', case, run, sp.uni, ranges, ('r' if right else '') + op,
               [[l.tojson() for l in la], [l.tojson() for l in lb] if isinstance(lb, list) else lb],
               allowed=allowed)


# --- C02 -------------------------------------------------------------------
def ob_dot(how, la, lb):
    """la: self, lb: other.
    left:  r[x,y,n,e] = sum_m other[x,m,e] self[m,y,n,e]
    right: r[x,y,n,e] = sum_m other[x,y,m,e] self[m,n,e]"""
    u = Universe()
    d = names('d', max(la.d, lb.d))
    fs = Frame(u, names('m', la.x), names('y', la.y) if how == 'left' else (), names('n', la.n), d[:la.d])
    fo = Frame(u, names('x', lb.x), names('y', lb.y) if how == 'right' else (), names('m', lb.n), d[:lb.d])
    y = fs.labels['y'] if how == 'left' else fo.labels['y']
    fr = Frame(u, names('x', lb.x), y, names('n', la.n), d)
    u.tie(la, fs)
    u.tie(lb, fo)
    I, ranges = fr.index()

    def run():
        a, b = make(la, fs, 'A'), make(lb, fo, 'B')
        M = tuple(var(fresh('m')) for _ in range(lb.n))
        ea = den(a, (M, I[1] if how == 'left' else (), I[2], I[3][:la.d]), fs)
        eb = den(b, (I[0], I[1] if how == 'right' else (), M, I[3][:lb.d]), fo)
        t = mul(ea, eb)
        for k in reversed(range(lb.n)):
            t = tsum(M[k], fo.size('n', k), t)
        r = a.dot_left(b) if how == 'left' else a.dot_right(b)
        return goal_eq('dense(a.dot_%s(b))' % how, r, I, fr, t)
    return TOb('Tensor.dot_' + how, '%r,%r' % (la, lb), run, u, ranges, 'dot_' + how, [la, lb])


def ob_dot_any(la, lb):
    """dispatch of Tensor.dot: other with x and y contracts the only derivative
    group of self (the other groups of the result as in other), other with x
    (y) only contracts x (y) of self, other without them contracts the group
    of self that matches its value axes."""
    u = Universe()
    d = names('d', max(la.d, lb.d))
    if lb.x and lb.y:
        if la.x and not la.y:
            c = 'x'
        elif la.y and not la.x:
            c = 'y'
        else:
            return None
        if getattr(la, c) != lb.n:
            return None
        fs = Frame(u, names('m', la.x), names('m', la.y), names('n', la.n), d[:la.d])
        fo = Frame(u, names('x', lb.x), names('y', lb.y), names('m', lb.n), d[:lb.d])
        fr = Frame(u, names('x', lb.x), names('y', lb.y), names('n', la.n), d)
    elif lb.x:
        c = 'x'
        if la.x != lb.n or la.y == lb.n:
            return None
        fs = Frame(u, names('m', la.x), names('y', la.y), names('n', la.n), d[:la.d])
        fo = Frame(u, names('x', lb.x), (), names('m', lb.n), d[:lb.d])
        fr = Frame(u, names('x', lb.x), names('y', la.y), names('n', la.n), d)
    elif lb.y:
        c = 'y'
        if la.y != lb.n or la.x == lb.n:
            return None
        fs = Frame(u, names('x', la.x), names('m', la.y), names('n', la.n), d[:la.d])
        fo = Frame(u, (), names('y', lb.y), names('m', lb.n), d[:lb.d])
        fr = Frame(u, names('x', la.x), names('y', lb.y), names('n', la.n), d)
    else:
        if la.x == lb.n:
            c = 'x'
            fs = Frame(u, names('m', la.x), names('y', la.y), names('n', la.n), d[:la.d])
            fr = Frame(u, (), names('y', la.y), names('n', la.n), d)
        elif la.y == lb.n and lb.n > 0:
            c = 'y'
            fs = Frame(u, names('x', la.x), names('m', la.y), names('n', la.n), d[:la.d])
            # the remaining group may be left in either place
            fr = Frame(u, names('x', la.x), (), names('n', la.n), d)
        else:
            return None
        fo = Frame(u, (), (), names('m', lb.n), d[:lb.d])
    u.tie(la, fs)
    u.tie(lb, fo)
    I, ranges = fr.index()

    def run():
        a, b = make(la, fs, 'A'), make(lb, fo, 'B')
        M = tuple(var(fresh('m')) for _ in range(lb.n))
        X = M if c == 'x' else I[0] if fs.labels['x'] else ()
        Y = M if c == 'y' else I[1] if fs.labels['y'] else ()
        ea = den(a, (X, Y, I[2], I[3][:la.d]), fs)
        eb = den(b, (I[0] if lb.x else (), I[1] if lb.y else (), M, I[3][:lb.d]), fo)
        t = mul(ea, eb)
        for k in reversed(range(lb.n)):
            t = tsum(M[k], fo.size('n', k), t)
        r = a.dot(b)
        if c == 'y' and not lb.x and not lb.y and isinstance(r, (Tensor, GenericTensor)) \
                and r.y_dim and not r.x_dim:
            r = r.transpose()
        return goal_eq('dense(a.dot(b))', r, I, fr, t)
    return TOb('Tensor.dot', '%r,%r' % (la, lb), run, u, ranges, 'dot', [la, lb])


def ob_dot_zero(how, la, left, generic=None):
    """a zero scalar is the zero array of every shape: products with it are zero
    (left: the scalar is the receiver)"""
    ls = [la] if generic is None else generic
    sp = Space(ls)

    def run():
        a = make(la, sp, 'A') if generic is None else make_generic(ls, sp, 'A')[0]
        z = Tensor(0)
        r = getattr(z, how)(a) if left else getattr(a, how)(z)
        g = []
        for e in r.elements if isinstance(r, GenericTensor) else [r]:
            v = C.view(e.values if isinstance(e, Tensor) else e)
            g.append(Goal('zero', toreal(v.elem(())), ZERO) if v.ndim == 0 else
                     Goal('zero', ok=False, why='rank %d' % v.ndim))
        return g or [Goal('zero', ok=True)]
    return TOb(('Tensor.' if generic is None else 'GenericTensor.') + how,
               '%s/%r' % ('zero.' if left else '.zero', ls), run, sp.uni, [], 'zero', [how])


def ob_dot_lists(ls, lb):
    """the general product of a list of terms and a tensor without y"""
    g = (0, 0, 0, 0)
    for l in ls:
        g = mergeg(g, l.groups)
    u = Universe()
    d = names('d', max(g[3], lb.d))
    fs = Frame(u, names('m', g[0]), names('y', g[1]), names('n', g[2]), d[:g[3]])
    fo = Frame(u, names('x', lb.x), (), names('m', lb.n), d[:lb.d])
    fr = Frame(u, names('x', lb.x), names('y', g[1]), names('n', g[2]), d)
    for l in ls:
        u.tie(l, fs)
    u.tie(lb, fo)
    I, ranges = fr.index()

    def run():
        a, els = make_generic(ls, fs, 'A')
        b = make(lb, fo, 'B')
        M = tuple(var(fresh('m')) for _ in range(lb.n))
        ea = add(*[den(e, (M, I[1], I[2], I[3][:g[3]]), fs) for e in els])
        t = mul(ea, den(b, (I[0], (), M, I[3][:lb.d]), fo))
        for k in reversed(range(lb.n)):
            t = tsum(M[k], fo.size('n', k), t)
        return goal_eq('dense(a.dot(b))', a.dot(b), I, fr, t)
    return TOb('GenericTensor.dot', '%r,%r' % (ls, lb), run, u, ranges, 'dot', [])


def ob_dot_generic(how, ls, lb):
    """lists of terms in either operand"""
    A = ls if isinstance(ls, list) else [ls]
    B = lb if isinstance(lb, list) else [lb]
    ga, gb = (0, 0, 0, 0), (0, 0, 0, 0)
    for l in A:
        ga = mergeg(ga, l.groups)
    for l in B:
        gb = mergeg(gb, l.groups)
    u = Universe()
    d = names('d', max(ga[3], gb[3]))
    fs = Frame(u, names('m', ga[0]), names('y', ga[1]) if how == 'left' else (), names('n', ga[2]), d[:ga[3]])
    fo = Frame(u, names('x', gb[0]), names('y', gb[1]) if how == 'right' else (), names('m', gb[2]), d[:gb[3]])
    y = fs.labels['y'] if how == 'left' else fo.labels['y']
    fr = Frame(u, names('x', gb[0]), y, names('n', ga[2]), d)
    for l in A:
        u.tie(l, fs)
    for l in B:
        u.tie(l, fo)
    I, ranges = fr.index()

    def run():
        if isinstance(ls, list):
            a, _ = make_generic(A, fs, 'A')
        else:
            a = make(ls, fs, 'A')
        if isinstance(lb, list):
            b, _ = make_generic(B, fo, 'B')
        else:
            b = make(lb, fo, 'B')
        M = tuple(var(fresh('m')) for _ in range(gb[2]))
        ea = den(a, (M, I[1] if how == 'left' else (), I[2], I[3][:ga[3]]), fs)
        eb = den(b, (I[0], I[1] if how == 'right' else (), M, I[3][:gb[3]]), fo)
        t = mul(ea, eb)
        for k in reversed(range(gb[2])):
            t = tsum(M[k], fo.size('n', k), t)
        r = a.dot_left(b) if how == 'left' else a.dot_right(b)
        return goal_eq('dense', r, I, fr, t)
    return TOb('GenericTensor.dot_' + how, '%r,%r' % (ls, lb), run, u, ranges, 'dot_' + how,
               [[l.tojson() for l in A] if isinstance(ls, list) else ls,
                [l.tojson() for l in B] if isinstance(lb, list) else lb])


# --- C03 -------------------------------------------------------------------
def sums(t, I, axes, size):
    """sum of the term t over the index variables I[k], k in axes"""
    for k in reversed(list(axes)):
        t = tsum(I[k], size(k), t)
    return t


def ob_sum(la, sv, sd, generic=None):
    ls = generic if generic is not None else [la]
    sp = Space(ls)
    groups = sp.groups
    n, d = groups[2], groups[3]
    ax = list(range(n)) if sv is True else [] if sv is False else [sv] if isinstance(sv, int) else list(sv)
    keep = [k for k in range(n) if k not in ax]
    dd = sd is True
    u = sp.uni
    fr = Frame(u, sp.labels['x'], sp.labels['y'], [sp.labels['n'][k] for k in keep],
               () if dd else sp.labels['d'])
    I, ranges = fr.index()

    def run():
        if generic is None:
            a = make(la, sp, 'A')
        else:
            a, _ = make_generic(ls, sp, 'A')
        N = [None] * n
        for k, i in zip(keep, I[2]):
            N[k] = i
        bound = []
        for k in ax:
            N[k] = var(fresh('s'))
            bound.append((N[k], sp.size('n', k)))
        E = I[3]
        if dd:
            E = tuple(var(fresh('s')) for _ in range(d))
            bound += [(E[k], sp.size('d', k)) for k in range(d)]
        t = den(a, (I[0], I[1], tuple(N), E), sp)
        for v, s in reversed(bound):
            t = tsum(v, s, t)
        return goal_eq('dense(a.sum())', a.sum(sv, sd), I, fr, t)
    return TOb('GenericTensor.sum' if generic is not None else 'Tensor.sum',
               '%r/%s,%s' % (la if generic is None else ls, sv, sd), run, u, ranges, 'sum',
               [la if generic is None else [l.tojson() for l in ls]], par=[sv, sd])


def ob_expand(la, where, new, dim, generic=None):
    ls = generic if generic is not None else [la]
    sp = Space(ls)
    u = sp.uni
    g = 'd' if dim else 'n'
    lab = ['new%d' % k for k in range(new)]
    for k, w in enumerate(where):
        lab[w] = sp.labels[g][k]
    fr = Frame(u, sp.labels['x'], sp.labels['y'], sp.labels['n'] if dim else lab,
               lab if dim else sp.labels['d'])
    I, ranges = fr.index()

    def run():
        a = make(la, sp, 'A') if generic is None else make_generic(ls, sp, 'A')[0]
        J = list(I)
        q = 3 if dim else 2
        J[q] = tuple(I[q][w] for w in where)
        return goal_eq('dense(a.expand())', a.expand(list(where), new, dim), I, fr, den(a, J, sp))
    return TOb('GenericTensor.expand' if generic is not None else 'Tensor.expand',
               '%r/%s,%d,%s' % (la if generic is None else ls, where, new, dim), run, u, ranges, 'expand',
               [la if generic is None else [l.tojson() for l in ls]], par=[list(where), new, dim])


def ob_flip(la, where, dim, generic=None):
    ls = generic if generic is not None else [la]
    sp = Space(ls)
    I, ranges = sp.index()
    g = 'd' if dim else 'n'
    w = [where] if isinstance(where, int) else list(where)

    def run():
        a = make(la, sp, 'A') if generic is None else make_generic(ls, sp, 'A')[0]
        J = list(I)
        q = 3 if dim else 2
        J[q] = tuple(isub(isub(sp.size(g, k), 1), i) if k in w else i for k, i in enumerate(I[q]))
        return goal_eq('dense(a.flip())', a.flip(where, dim), I, sp, den(a, J, sp))
    mapped = {f for l in ls for mp in (l.xm, l.ym) for f in mp or ()}
    # documented: a mapped axis can't be reversed (the layout has no form for it)
    allowed = (NotImplementedError,) if not dim and mapped & set(w) else ()
    return TOb('GenericTensor.flip' if generic is not None else 'Tensor.flip',
               '%r/%s,%s' % (la if generic is None else ls, where, dim), run, sp.uni, ranges, 'flip',
               [la if generic is None else [l.tojson() for l in ls]], par=[where, dim], allowed=allowed)


def ob_transpose(la, generic=None):
    ls = generic if generic is not None else [la]
    sp = Space(ls)
    fr = Frame(sp.uni, sp.labels['y'], sp.labels['x'], sp.labels['n'], sp.labels['d'])
    I, ranges = fr.index()

    def run():
        a = make(la, sp, 'A') if generic is None else make_generic(ls, sp, 'A')[0]
        return goal_eq('dense(a.transpose())', a.transpose(), I, fr, den(a, (I[1], I[0], I[2], I[3]), sp))
    return TOb('GenericTensor.transpose' if generic is not None else 'Tensor.transpose',
               '%r' % (la if generic is None else ls,), run, sp.uni, ranges, 'transpose',
               [la if generic is None else [l.tojson() for l in ls]])


def ob_drop(la, generic=None):
    ls = generic if generic is not None else [la]
    sp = Space(ls)
    fr = Frame(sp.uni, sp.labels['x'], sp.labels['y'], sp.labels['n'] + sp.labels['d'], ())
    I, ranges = fr.index()
    n = sp.groups[2]

    def run():
        a = make(la, sp, 'A') if generic is None else make_generic(ls, sp, 'A')[0]
        return goal_eq('dense(a.drop_dim())', a.drop_dim(), I, fr,
                       den(a, (I[0], I[1], I[2][:n], I[2][n:]), sp))
    return TOb('GenericTensor.drop_dim' if generic is not None else 'Tensor.drop_dim',
               '%r' % (la if generic is None else ls,), run, sp.uni, ranges, 'drop_dim',
               [la if generic is None else [l.tojson() for l in ls]])


# --- the obligations of each property --------------------------------------
def sample(seq, k, seed=7):
    import random
    seq = list(seq)
    if len(seq) <= k:
        return seq
    return random.Random(seed).sample(seq, k)


def c01(tier):
    L1, L1o = list(layouts(1, 1, 1, 1)), list(layouts(1, 1, 1, 1, True))
    L2 = list(layouts(2, 2, 2, 1))
    P = [(a, b) for a in L1 for b in L1 if compat(a, b)]
    Po = [(a, b) for a in L1o for b in L1o if compat(a, b) and (a.ones or b.ones)]
    P2 = [(a, b) for a in L2 for b in L2 if compat(a, b) and max(a.groups + b.groups) > 1]
    if tier == 'quick':
        # every layout occurs, each with a random half of its partners
        P2 = sample(P2, 9000)
        Po = sample(Po, 2500)
    for a, b in P + P2 + Po:
        for op in OPS:
            if op == 'div' and (b.xm or b.ym):
                continue
            yield ob_binop(op, a, b)
    for a in L2 + L1o:
        for op in OPS:
            for k in ('num', 0, 1, -1, 2.5):
                if op == 'div' and k == 0:
                    yield ob_scalar(op, a, k, False)
                    continue
                yield ob_scalar(op, a, k, False)
                if not (op == 'div' and (a.xm or a.ym)):
                    yield ob_scalar(op, a, k, True)
        if not a.x and not a.y and not a.d and a.n and not a.ones:
            for op in OPS:
                yield ob_array(op, a, False)
                yield ob_array(op, a, True)
        yield ob_neg(a)
        yield ob_toarray(a)
        yield ob_pow(a, 2)
        yield ob_pow(a, 3)
        for name in UFUNCS:
            yield ob_ufunc(a, name)
    yield from c01_generic(tier)
    # more axes
    rnd = random.Random(31)
    for k in range(1500 if tier == 'quick' else 8000):
        g = [rnd.randint(1, 3) for _ in 'xyn'] + [rnd.randint(0, 2)]
        a, b = [rlayout(rnd, *[r if rnd.random() < 0.7 else 0 for r in g]) for _ in 'ab']
        if max(a.groups + b.groups) < 3:
            continue
        for op in ('add', 'sub', 'mul') + (() if b.xm or b.ym else ('div',)):
            yield ob_binop(op, a, b)


def generic_lists(tier):
    """pairs of layouts that a sum really keeps apart"""
    L = list(layouts(1, 1, 1, 1)) + [l for l in layouts(2, 1, 2, 0) if max(l.groups) > 1]
    out = []
    for a, b in itertools.combinations(L, 2):
        if compat(a, b) and any(a.groups) and any(b.groups) and \
                ((a.xm or None) != (b.xm or None) or (a.ym or None) != (b.ym or None)):
            out.append([a, b])
    return out


def long_lists(seed, q, axes=None):
    """lists of three to five terms of different maps"""
    rnd = random.Random(seed)
    out = []
    for _ in range(100 * q):
        if len(out) == q:
            break
        g = axes or (rnd.choice((1, 2, 3)), rnd.choice((0, 1, 2)), rnd.choice((2, 3)), rnd.choice((0, 0, 1)))
        ls = [rlayout(rnd, *[v if axes or rnd.random() < 0.85 else 0 for v in g]) for _ in range(rnd.choice((3, 3, 4, 5)))]
        if len({(l.xm, l.ym) for l in ls}) == len(ls) and \
                all(any(l.groups) for l in ls):
            out.append(ls)
    return out


def ob_list_neg(ls):
    sp = Space(ls)
    I, ranges = sp.index()

    def run():
        a, els = make_generic(ls, sp, 'A')
        u = add(*[den(e, I, sp) for e in els])
        return goal_eq('dense(-a)', -a, I, sp, neg(u), exact=sp.groups)
    return TOb('GenericTensor.__neg__', '%r' % ls, run, sp.uni, ranges, 'neg', [])


def ob_list_toarray(ls):
    sp = Space(ls)
    I, ranges = sp.index()

    def run():
        a, els = make_generic(ls, sp, 'A')
        u = add(*[den(e, I, sp) for e in els])
        r = C.view(a.toarray())
        J = I[0] + I[1] + I[2] + I[3]
        if r.ndim != len(J):
            return [Goal('toarray', ok=False, why='rank %d' % r.ndim)]
        e = r.elem(tuple(Ix(0) if s is Ix(1) else j for s, j in zip(r.shape_, J)))
        return [Goal('toarray', e, u)]
    return TOb('GenericTensor.toarray', '%r' % ls, run, sp.uni, ranges, 'toarray', [])


def c01_generic(tier):
    G = generic_lists(tier)
    H = long_lists(41, 150 if tier == 'quick' else 1000)
    for g in sample(G, 200) + H:
        yield ob_list_neg(g)
        yield ob_list_toarray(g)
    rnd = random.Random(42)
    for g in H:
        gg = (0, 0, 0, 0)
        for l in g:
            gg = mergeg(gg, l.groups)
        b = rlayout(rnd, *[v if rnd.random() < 0.8 else 0 for v in gg])
        for op in OPS:
            if op == 'div' and (b.xm or b.ym):
                continue
            yield ob_generic(op, g, b, False)
            if op != 'div':
                yield ob_generic(op, g, b, True)
            yield ob_generic(op, g, 'num', False)
        h = rnd.choice(H)
        if all(compat(a, b) for a in g for b in h):
            yield ob_generic(rnd.choice(('add', 'sub', 'mul')), g, h, False)
    L = list(layouts(1, 1, 1, 1))
    items = []
    for g in G:
        for lb in L:
            if all(compat(a, lb) for a in g):
                for op in OPS:
                    if op == 'div' and (lb.xm or lb.ym):
                        continue
                    items.append((op, g, lb, False))
                    if op != 'div':
                        items.append((op, g, lb, True))
        for op in OPS:
            items.append((op, g, 'num', False))
            if op != 'div':
                items.append((op, g, 'num', True))
    for g, h in itertools.product(sample(G, 60), sample(G, 60, 3)):
        if all(compat(a, b) for a in g for b in h):
            for op in ('add', 'sub', 'mul'):
                items.append((op, g, h, False))
    if tier == 'quick':
        items = sample(items, 3000)
    for it in items:
        yield ob_generic(*it)


def c02(tier):
    R = (2, 2, 2, 1)
    left, right = [], []
    L = list(layouts(*R))
    for a in L:
        for b in L:
            if not (a.d == 0 or b.d == 0 or a.d == b.d):
                continue
            if b.y == 0 and a.x == b.n and b.n > 0:
                left.append((a, b))
            if a.y == 0 and a.x == b.n and b.n > 0:
                right.append((a, b))
    small = lambda p: max(p[0].groups + p[1].groups) <= 1
    if tier == 'quick':
        left = [p for p in left if small(p)] + sample([p for p in left if not small(p)], 7000)
        right = [p for p in right if small(p)] + sample([p for p in right if not small(p)], 5000)
    for p in left:
        yield ob_dot('left', *p)
    for p in right:
        yield ob_dot('right', *p)
    items = []
    for a in L:
        for b in L:
            if a.d == 0 or b.d == 0 or a.d == b.d:
                if b.n > 0 and (a.x or a.y):
                    items.append((a, b))
    if tier == 'quick':
        items = [p for p in items if small(p)] + sample([p for p in items if not small(p)], 3000)
    for p in items:
        o = ob_dot_any(*p)
        if o is not None:
            yield o
    for a in L:
        if a.n and (a.x or a.y):
            for how in ('dot', 'dot_left', 'dot_right'):
                if how == 'dot_right' and a.y:
                    continue
                yield ob_dot_zero(how, a, False)
                yield ob_dot_zero(how, a, True)
    G = generic_lists(tier)
    for g in sample(G, 200):
        for how in ('dot', 'dot_left', 'dot_right'):
            if g[0].x == g[1].x and g[0].x and not (how == 'dot_right' and (g[0].y or g[1].y)):
                yield ob_dot_zero(how, None, False, g)
    L1 = list(layouts(1, 1, 1, 1))
    items = []
    for g in G:
        gx, gy, gn, gd = mergeg(g[0].groups, g[1].groups)
        for b in L1:
            # lists as self
            if b.y == 0 and b.n == gx == g[0].x == g[1].x and b.n and (not b.d or not gd or b.d == gd):
                items.append(('left', g, b))
            if gy == 0 and b.n == gx == g[0].x == g[1].x and b.n and (not b.d or not gd or b.d == gd):
                items.append(('right', g, b))
            # lists as other
            if gy == 0 and gn and b.x == gn == g[0].n == g[1].n and (not b.d or not gd or b.d == gd):
                items.append(('left', b, g))
            if b.y == 0 and gn and b.x == gn == g[0].n == g[1].n and (not b.d or not gd or b.d == gd):
                items.append(('right', b, g))
    if tier == 'quick':
        items = sample(items, 2500)
    for it in items:
        yield ob_dot_generic(*it)
    for how in ('left', 'right'):
        for k, g in enumerate(long_lists(43, 60, (2, 1 if how == 'left' else 0, 2, 0)) +
                              long_lists(44, 60, (1, 2 if how == 'left' else 0, 3, 0))):
            yield ob_dot_generic(how, g, Layout(2, 0, g[0].x) if k % 2 else Layout(1, 0, g[0].x, 1))
        for k, h in enumerate(long_lists(45, 60, (2, 0 if how == 'left' else 1, 2, 0))):
            yield ob_dot_generic(how, Layout(2, 1 if how == 'left' else 0, 1), h)
    for g in long_lists(46, 60, (2, 1, 2, 0)) + sample([g for g in G if g[0].x == g[1].x], 200):
        for lb in (Layout(1, 0, g[0].x), Layout(0, 0, g[0].x), Layout(1, 0, g[0].x, 1)):
            if lb.n and all(l.y != lb.n for l in g):
                yield ob_dot_lists(g, lb)
    # more axes, and lists on both sides
    rnd = random.Random(32)
    q = 2500 if tier == 'quick' else 12000
    k = 0
    while k < q:
        how = rnd.choice(('left', 'right'))
        m, n, x, y = rnd.randint(1, 3), rnd.randint(0, 3), rnd.randint(0, 3), rnd.randint(0, 2)
        d = rnd.choice((0, 0, 1))
        a = (m, y if how == 'left' else 0, n)
        b = (x, y if how == 'right' else 0, m)
        if k % 2:
            if max(m, n, x, y) < 3:
                continue
            yield ob_dot(how, rlayout(rnd, *a, rnd.choice((0, d))), rlayout(rnd, *b, rnd.choice((0, d))))
        else:
            if k % 4:
                a, b = [tuple(min(2, v) for v in g) for g in (a, b)]
            A = [rlayout(rnd, *a, rnd.choice((0, d))) for _ in range(rnd.choice((2, 2, 3)))]
            B = [rlayout(rnd, *b, rnd.choice((0, d))) for _ in range(rnd.choice((1, 2, 2)))]
            keep = lambda L: len({(l.xm, l.ym) for l in L}) == len(L)
            if not keep(A) or not keep(B):
                continue
            B = B if len(B) > 1 else B[0]
            A, B = (A, B) if rnd.random() < 0.8 or isinstance(B, list) else (A[0], B)
            yield ob_dot_generic(how, A, B)
        k += 1


def c03(tier):
    L = list(layouts(2, 2, 2, 2))
    if tier != 'quick':
        L += [l for l in layouts(3, 1, 3, 1) if max(l.groups) > 2]
    L1o = [l for l in layouts(1, 1, 1, 1, True) if l.ones and ('n', 0) not in l.ones and ('d', 0) not in l.ones]
    for a in L + L1o:
        yield ob_transpose(a)
        yield ob_drop(a)
        svs = [True, False] + list(range(a.n)) + [list(c) for r in (1, 2) for c in itertools.combinations(range(a.n), r)]
        for sv in svs:
            for sd in (True, False):
                yield ob_sum(a, sv, sd)
        for new in range(a.n, a.n + 2):
            for w in itertools.permutations(range(new), a.n):
                if a.n or new == 0:
                    yield ob_expand(a, w, new, False)
        for new in range(a.d, a.d + 2):
            for w in itertools.permutations(range(new), a.d):
                if a.d:
                    yield ob_expand(a, w, new, True)
        for k in range(a.n):
            yield ob_flip(a, k, False)
        if a.n == 2:
            yield ob_flip(a, [0, 1], False)
        for k in range(a.d):
            yield ob_flip(a, [k], True)
    G = generic_lists(tier)
    if tier == 'quick':
        G = sample(G, 250)
    for g in G:
        groups = mergeg(g[0].groups, g[1].groups)
        yield ob_transpose(None, g)
        if g[0].n == g[1].n and g[0].d == g[1].d:
            yield ob_drop(None, g)
        n, d = groups[2], groups[3]
        for sv in [True, False] + [list(c) for r in (1, 2) for c in itertools.combinations(range(n), r)]:
            for sd in (True, False):
                yield ob_sum(None, sv, sd, g)
        if g[0].n == g[1].n and n:
            for w in itertools.permutations(range(n + 1), n):
                yield ob_expand(None, w, n + 1, False, g)
            yield ob_flip(None, [0], False, g)
        if g[0].d == g[1].d and d:
            yield ob_expand(None, tuple(range(1, d + 1)), d + 1, True, g)
            yield ob_flip(None, [0], True, g)
    rnd = random.Random(47)
    for k, g in enumerate(long_lists(48, 60, (2, 1, 2, 0)) + long_lists(49, 60, (1, 0, 3, 0)) +
                          long_lists(50, 40, (2, 2, 2, 1))):
        n = g[0].n
        yield ob_transpose(None, g)
        yield ob_drop(None, g)
        for sv in (True, False, rnd.sample(range(n), rnd.randint(1, n))):
            yield ob_sum(None, sv, rnd.random() < 0.5, g)
        yield ob_expand(None, rnd.sample(range(n + 1), n), n + 1, False, g)
        yield ob_flip(None, [rnd.randrange(n)], False, g)
        if g[0].d:
            yield ob_expand(None, (1, ), 2, True, g)
            yield ob_flip(None, [0], True, g)
    # more axes
    rnd = random.Random(33)
    for k in range(600 if tier == 'quick' else 4000):
        a = rlayout(rnd, rnd.randint(0, 3), rnd.randint(0, 3), rnd.choice((2, 3, 3, 4)), rnd.choice((0, 1, 2, 3)))
        yield ob_transpose(a)
        w = rnd.sample(range(a.n + rnd.randint(0, 2)), a.n)
        yield ob_expand(a, w, max(max(w) + 1, a.n), False)
        if a.d:
            w = rnd.sample(range(a.d + rnd.randint(0, 2)), a.d)
            yield ob_expand(a, w, max(max(w) + 1, a.d), True)
        yield ob_sum(a, rnd.sample(range(a.n), rnd.randint(1, a.n)), rnd.random() < 0.5)
        yield ob_flip(a, rnd.sample(range(a.n), rnd.randint(1, 2)), False)
    for k in range(150 if tier == 'quick' else 1000):
        n = rnd.randint(2, 3)
        g = [rlayout(rnd, rnd.choice((1, 2)), rnd.choice((0, 1)), n, rnd.choice((0, 1))) for _ in 'ab']
        if g[0].groups[:3] != g[1].groups[:3] or (g[0].xm, g[0].ym) == (g[1].xm, g[1].ym):
            continue
        w = rnd.sample(range(n + 1), n)
        yield ob_expand(None, w, n + 1, False, g)
        yield ob_sum(None, rnd.sample(range(n), rnd.randint(1, n)), rnd.random() < 0.5, g)
        yield ob_transpose(None, g)
