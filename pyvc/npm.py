"""Contracts (executable models) of the numpy functions used by maxlike, on
symbolic arrays, and the `np` shim installed in the verified modules."""
import builtins
import math
import numpy as _np
from array import array as _array
from .index import *
from .terms import *
from .sym import *
from .sym import _arith
from . import sym as S
from . import masks as M


# --- construction ----------------------------------------------------------
def from_list(x):
    xs = list(x)
    if not xs:
        return SymArray((0,), lambda I: ZERO, 'f')
    ys = [lift(v) for v in xs]
    return stack(ys, 0)


def has_sym(x, depth=0):
    if is_sym(x):
        return True
    if isinstance(x, (list, tuple)) and depth < 4:
        return builtins.any(has_sym(v, depth + 1) for v in x)
    if isinstance(x, _np.ndarray) and x.dtype == object:
        return builtins.any(is_sym(v) for v in x.ravel())
    if isinstance(x, dict):
        return builtins.any(has_sym(v, depth + 1) for v in x.values())
    v = getattr(x, 'values', None)
    if isinstance(v, SymArray):
        return True
    return False


def to_kind(a, dtype):
    if dtype is None:
        return a
    k = _np.dtype(dtype).kind if not isinstance(dtype, _Shadow) else dtype._kind
    k = {'f': 'f', 'i': 'i', 'u': 'i', 'b': 'b', 'O': a.kind, 'c': 'c'}[k]
    if k == 'c':
        raise Unsupported('complex dtype')
    if k == a.kind:
        return a
    f = a.elem
    return SymArray(a.shape_, lambda I: cast(f(I), k), k)


def unscalar(a):
    if a.scalar:
        r = SymArray(a.shape_, a.elem, a.kind)
        return r
    return a


def asarray(x, dtype=None, **kw):
    if hasattr(x, '__array__') and not isinstance(x, (SymArray, _np.ndarray, _np.generic)):
        x = x.__array__()
    a = lift(x)
    r = to_kind(a, dtype)
    return unscalar(r)


def array_(x, dtype=None, copy=True, ndmin=0, **kw):
    r = asarray(x, dtype)
    return r.snapshot()


def shape_of(shape):
    if isinstance(shape, (list, tuple)):
        return tuple(toix(s) for s in shape)
    if isinstance(shape, _np.ndarray):
        return tuple(toix(s) for s in shape.ravel())
    if isinstance(shape, SymArray):
        return tuple(toix(s) for s in shape)
    return (toix(shape),)


def full_(shape, v, dtype=None, **kw):
    x = lift(v)
    if x.ndim:
        return to_kind(broadcast_to(x, shape).snapshot(), dtype)
    t = x.elem(())
    a = SymArray(shape_of(shape), lambda I: t, x.kind)
    return to_kind(a, dtype)


def _const(v):
    def f(shape, dtype=None, order=None, **kw):
        if dtype is None:
            dtype = float
        return full_(shape, v, dtype)
    return f


def _like(v):
    def f(a, dtype=None, **kw):
        a = asarray(a)
        return full_([mkint(s) for s in a.shape_], v,
                     dtype if dtype is not None else a.dtype)
    return f


def full_like(a, v, dtype=None, **kw):
    a = asarray(a)
    return full_([mkint(s) for s in a.shape_], v, dtype if dtype is not None else a.dtype)


def eye(n, m=None, k=0, dtype=float):
    n = toix(n)
    m = n if m is None else toix(m)
    if k != 0:
        return SymArray((n, m), lambda I: ite(ceq(isub(I[1], I[0]), toix(k)), ONE, ZERO), 'f')
    return SymArray((n, m), lambda I: ite(ceq(I[0], I[1]), ONE, ZERO), 'f')


def arange(*a, dtype=None):
    if len(a) == 1:
        lo, hi = Ix(0), toix(a[0])
    else:
        lo, hi = toix(a[0]), toix(a[1])
    step = 1
    if len(a) == 3:
        step = a[2]
    if step == 1:
        n = isub(hi, lo)
        if n.is_const:
            n = Ix(max(n.c, 0))
        r = SymArray((n,), lambda I: iadd(lo, I[0]), 'i')
    elif step == -1:
        n = isub(lo, hi)
        r = SymArray((n,), lambda I: isub(lo, I[0]), 'i')
    else:
        raise Unsupported('arange step')
    return to_kind(r, dtype)


# --- joining ---------------------------------------------------------------
def common_kind(ks):
    return 'f' if 'f' in ks else 'i' if 'i' in ks else 'b'


def stack(xs, axis=0, **kw):
    ys = [lift(v) for v in (xs if not isinstance(xs, SymArray) else list(xs))]
    if not ys:
        raise ValueError('need at least one array to stack')
    nd = ys[0].ndim
    if builtins.any(y.ndim != nd for y in ys):
        raise ValueError('all input arrays must have the same shape')
    for y in ys[1:]:
        for s, t in zip(y.shape_, ys[0].shape_):
            if not same_size(s, t):
                raise ValueError('all input arrays must have the same shape')
    axis = axis + nd + 1 if axis < 0 else axis
    k = common_kind([y.kind for y in ys])
    fs = [y.elem for y in ys]

    def elem(I):
        i, J = I[axis], I[:axis] + I[axis + 1:]
        if i.is_const and not 0 <= i.c < len(fs):
            return cast(arr('undefined!', i), 'f') if k == 'f' else Ix(0) if k == 'i' else FALSE
        if i.is_const:
            return cast(fs[i.c](J), k)
        r = cast(fs[-1](J), k)
        for n in range(len(fs) - 2, -1, -1):
            r = ite_kind(ceq(i, n), cast(fs[n](J), k), r)
        return r
    s = ys[0].shape_
    return SymArray(s[:axis] + (Ix(len(ys)),) + s[axis:], elem, k)


def concatenate(xs, axis=0, **kw):
    ys = [lift(v) for v in xs]
    if not ys:
        raise ValueError('need at least one array to concatenate')
    if axis is None:
        ys = [flatten(y) for y in ys]
        axis = 0
    nd = ys[0].ndim
    if nd == 0 or builtins.any(y.ndim != nd for y in ys):
        raise ValueError('all the input array dimensions must match')
    axis = axis + nd if axis < 0 else axis
    for y in ys[1:]:
        for n, (s, t) in enumerate(zip(y.shape_, ys[0].shape_)):
            if n != axis and not same_size(s, t):
                raise ValueError('all the input array dimensions except for the '
                                 'concatenation axis must match exactly')
    ys2 = [y for y in ys if not (y.shape_[axis].is_const and y.shape_[axis].c == 0)]
    k = common_kind([y.kind for y in ys])
    if not ys2:
        return SymArray(ys[0].shape_, ys[0].elem, k)
    ys = ys2
    offs, o = [], Ix(0)
    for y in ys:
        offs.append(o)
        o = iadd(o, y.shape_[axis])
    fs = [y.elem for y in ys]

    def elem(I):
        i = I[axis]

        def part(n):
            return cast(fs[n](I[:axis] + (isub(i, offs[n]),) + I[axis + 1:]), k)
        lo = 0
        e = S.Engine.cur
        r = None
        for n in range(len(fs) - 1, -1, -1):
            if r is None:
                r = part(n)
                continue
            c = clt(i, offs[n + 1])
            if c is FALSE:
                continue
            if c is TRUE:
                r = part(n)
                continue
            r = ite_kind(c, part(n), r)
        return r
    s = ys[0].shape_
    return SymArray(s[:axis] + (o,) + s[axis + 1:], elem, k)


def vstack(xs, **kw):
    ys = [lift(v) for v in xs]
    ys = [y if y.ndim > 1 else expand_dims(y if y.ndim else atleast_1d(y), 0) for y in ys]
    return concatenate(ys, 0)


def hstack(xs, **kw):
    ys = [atleast_1d(lift(v)) for v in xs]
    return concatenate(ys, 0 if ys[0].ndim == 1 else 1)


def atleast_1d(a):
    a = lift(a)
    if a.ndim:
        return a
    t = a.elem(())
    return SymArray((1,), lambda I: t, a.kind)


def append(a, v, axis=None):
    a, v = lift(a), lift(v)
    if axis is None:
        a = flatten(a) if a.ndim != 1 else a
        v = flatten(v) if v.ndim != 1 else v
        axis = 0
    return concatenate([a, v], axis)


def insert(a, pos, v, axis=None):
    a = lift(a)
    v = lift(v)
    if axis is None:
        a = flatten(a) if a.ndim != 1 else a
        axis = 0
    nd = a.ndim
    axis = axis + nd if axis < 0 else axis
    n = a.shape_[axis]
    if isinstance(pos, (list, tuple, _np.ndarray)) or (isinstance(pos, SymArray) and pos.ndim == 1):
        ps = lift(_np.asarray(pos, dtype=object) if not isinstance(pos, SymArray) else pos)
        if not ps.shape_[0].is_const or ps.shape_[0].c != 1:
            return insert_many(a, ps, v, axis)
        pos = list(ps)[0]
    p = toix(pos)
    if p.is_const and p.c < 0:
        p = iadd(p, n)
    if v.ndim > nd - 1:
        if v.ndim == nd and v.shape_[axis] is Ix(1):
            pass
        else:
            raise Unsupported('insert of an array')
        w = v.elem
        shp = a.shape_[:axis] + (Ix(1),) + a.shape_[axis + 1:]
        g0 = bget(v, shp)
        g = lambda J: g0(J[:axis] + (Ix(0),) + J[axis:])
    else:
        # numpy moves the inserted axis first: v broadcasts to the rest
        if v.ndim:
            rest = a.shape_[:axis] + a.shape_[axis + 1:]
            if v.ndim != nd - 1 and axis not in (0, 1):
                raise Unsupported('insert of an array')
            bs = bshape([v.shape_, rest])
            g = bget(v, rest)
        else:
            g = lambda J: v.elem(())
    f, k = a.elem, a.kind

    def elem(I):
        i, J = I[axis], I[:axis] + I[axis + 1:]
        new = g(J)
        if k == 'i' and isinstance(new, T) or k == 'b' and not isinstance(new, Cond):
            if isinstance(new, T) and k == 'i':
                raise Unsupported('insert of a real in an integer array')
        new = cast(new, k)
        lo = f(I)
        hi = f(I[:axis] + (isub(i, 1),) + I[axis + 1:])
        return ite_kind(ceq(i, p), new, ite_kind(clt(i, p), lo, hi))
    s = a.shape_
    return SymArray(s[:axis] + (iadd(n, 1),) + s[axis + 1:], elem, k)


def insert_many(a, ps, v, axis):
    """insertion at several positions: position k (counted in the result) is
    ps[k] + k; they have to be those of a known enumeration"""
    q = ps.shape_[0]
    if q.is_const and q.c == 0:
        return a.snapshot()
    n = a.shape_[axis]
    k = var('ins!k')
    target = iadd(toix(ps.elem((k,))), k)
    for e in [M.All((q,))] + list(M.TAB.values()):
        for x in (e, getattr(e, 'co', e)):
            if x.flat(k) is target and same_size(x.count, q):
                break
        else:
            continue
        break
    else:
        raise Unsupported('insert at several positions')
    size = iadd(n, q)
    if size is not x.n and S.eng().facts.decide(ceq(size, x.n)) is not True:
        raise Unsupported('insert at several positions: size')
    full = a.shape_[:axis] + (q,) + a.shape_[axis + 1:]
    for w, z in zip(reversed(v.shape_), reversed(full)):
        if w is not Ix(1) and not same_size(w, z):
            raise ValueError('shape mismatch: value array could not be broadcast to indexing result')
    if v.ndim > a.ndim:
        raise Unsupported('insert of an array of higher rank')
    fv = bget(v, full)
    f, kind = a.elem, a.kind
    if kind != 'f' and v.kind == 'f':
        raise Unsupported('insert of a real in an integer array')

    def elem(I):
        i, J, K = I[axis], I[:axis], I[axis + 1:]
        c = M.unravel_ix(i, x.shape)
        r = x.rank(c)
        new = fv(J + (r,) + K)
        return ite_kind(x.cond(c), cast(new, kind), f(J + (isub(i, r),) + K))
    s = a.shape_
    return SymArray(s[:axis] + (x.n,) + s[axis + 1:], elem, kind)


# --- rearranging -----------------------------------------------------------
def permute(a, perm):
    """out axis k is the axis perm[k] of a (a view)"""
    perm = tuple(perm)
    inv_ = [0] * len(perm)
    for k, p in enumerate(perm):
        inv_[p] = k

    def m(I):
        return tuple(I[inv_[q]] for q in range(len(perm)))

    def invm(J):
        return TRUE, tuple(J[p] for p in perm)
    v = SymArray(tuple(a.shape_[p] for p in perm), None, a.kind, base=(a, m, invm))
    v.flags['WRITEABLE'] = a.flags['WRITEABLE']
    v.owner = a.owner
    return v


def norm_axis(k, nd):
    k = int(k) if not isinstance(k, SInt) else k.__index__()
    if not -nd <= k < nd:
        raise _np.AxisError(k, nd)
    return k % nd


def swapaxes(a, p, q):
    a = lift(a)
    nd = a.ndim
    p, q = norm_axis(p, nd), norm_axis(q, nd)
    perm = list(range(nd))
    perm[p], perm[q] = perm[q], perm[p]
    return permute(a, perm)


def transpose(a, *axes):
    a = lift(a)
    if len(axes) == 1 and (axes[0] is None or not is_intlike(axes[0])):
        axes = axes[0]
    if axes is None or axes == ():
        return permute(a, range(a.ndim)[::-1])
    axes = [norm_axis(k, a.ndim) for k in axes]
    if sorted(axes) != list(range(a.ndim)):
        raise ValueError("axes don't match array")
    return permute(a, axes)


def moveaxis(a, s, d):
    a = lift(a)
    nd = a.ndim
    s = [norm_axis(k, nd) for k in (s if isinstance(s, (list, tuple, range)) else [s])]
    d = [norm_axis(k, nd) for k in (d if isinstance(d, (list, tuple, range)) else [d])]
    order = [k for k in range(nd) if k not in s]
    for dd, ss in sorted(zip(d, s)):
        order.insert(dd, ss)
    return permute(a, order)


def rollaxis(a, axis, start=0):
    a = lift(a)
    nd = a.ndim
    axis = norm_axis(axis, nd)
    if start < 0:
        start += nd
    if axis < start:
        start -= 1
    perm = list(range(nd))
    perm.remove(axis)
    perm.insert(start, axis)
    return permute(a, perm)


def expand_dims(a, axis):
    a = lift(a)
    ax = axis if isinstance(axis, (list, tuple)) else [axis]
    nd = a.ndim + len(ax)
    ax = [norm_axis(k, nd) for k in ax]
    return a[tuple(None if k in ax else slice(None) for k in range(nd))]


def squeeze(a, axis=None):
    a = lift(a)
    if axis is None:
        axis = [k for k, s in enumerate(a.shape_) if s is Ix(1)]
        if builtins.any(not s.is_const for s in a.shape_):
            pass
    ax = [norm_axis(k, a.ndim) for k in (axis if isinstance(axis, (list, tuple)) else [axis])]
    for k in ax:
        if a.shape_[k] is not Ix(1):
            raise ValueError('cannot select an axis to squeeze out')
    r = a[tuple(0 if k in ax else slice(None) for k in range(a.ndim))]
    return lift(r)


def flip(a, axis=None):
    a = lift(a)
    ax = range(a.ndim) if axis is None else axis if isinstance(axis, (list, tuple)) else [axis]
    ax = [norm_axis(k, a.ndim) for k in ax]
    return a[tuple(slice(None, None, -1) if k in ax else slice(None) for k in range(a.ndim))]


def reshape(a, *shape, order='C'):
    a = lift(a)
    if len(shape) == 1 and isinstance(shape[0], (list, tuple, _np.ndarray, SymArray)):
        shape = shape[0]
    shp = list(shape_of(list(shape) if not isinstance(shape, (_np.ndarray, SymArray)) else shape))
    if builtins.any(s.is_const and s.c == -1 for s in shp):
        k, = [k for k, s in enumerate(shp) if s.is_const and s.c == -1]
        known, rest = list(shp[:k] + shp[k + 1:]), []
        todo = list(a.shape_)
        for s in known:
            if s in todo:
                todo.remove(s)
            else:
                rest.append(s)
        num = Ix(1)
        for s in todo:
            num = imul(num, s)
        den = Ix(1)
        for s in rest:
            den = imul(den, s)
        shp[k] = idiv(num, den) if den is not Ix(1) else num
    # same shape up to axes of length one
    src = [k for k, s in enumerate(a.shape_) if s is not Ix(1)]
    dst = [k for k, s in enumerate(shp) if s is not Ix(1)]
    ok = len(src) == len(dst)
    if ok:
        for i, j in zip(src, dst):
            if not (a.shape_[i] is shp[j]):
                if a.shape_[i].is_const and shp[j].is_const:
                    ok = False
                elif S.Engine.cur is None or S.eng().facts.decide(ceq(a.shape_[i], shp[j])) is not True:
                    ok = False
    f = a.elem
    if ok:
        nd = a.ndim
        m_ = dict(zip(src, dst))

        def m(I):
            return tuple(I[m_[k]] if k in m_ else Ix(0) for k in range(nd))
        w_ = dict(zip(dst, src))
        no = len(shp)

        def invm(J):
            return TRUE, tuple(J[w_[k]] if k in w_ else Ix(0) for k in range(no))
        v = SymArray(shp, None, a.kind, base=(a, m, invm))
        v.flags['WRITEABLE'] = a.flags['WRITEABLE']
        v.owner = a.owner
        return v
    tot_a, tot_b = Ix(1), Ix(1)
    for s in a.shape_:
        tot_a = imul(tot_a, s)
    for s in shp:
        tot_b = imul(tot_b, s)
    if tot_a is not tot_b:
        if tot_a.is_const and tot_b.is_const:
            raise ValueError('cannot reshape array')
        if S.Engine.cur is None or not S.eng().decide(ceq(tot_a, tot_b)):
            raise ValueError('cannot reshape array')
    own = a.shape_
    M.register(own)
    M.register(shp)
    segs = M.segments(own, tuple(shp))
    if segs is None:
        segs = [(tuple(range(len(own))), tuple(range(len(shp))))] if own and shp else \
            [((k,), ()) for k in range(len(own))] + [((), (k,)) for k in range(len(shp))]
    v = SymArray(shp, None, a.kind, base=(a, M.regroup(segs, own, tuple(shp)), None))
    v.flags['WRITEABLE'] = a.flags['WRITEABLE']
    v.owner = a.owner
    return v


def flatten(a, order='C'):
    a = lift(a)
    n = Ix(1)
    for s in a.shape_:
        n = imul(n, s)
    M.register(a.shape_)
    if a.ndim == 1:
        return a.snapshot()
    return reshape(a, (mkint(n),)).snapshot()


def ravel(a, order='C'):
    a = lift(a)
    return a if a.ndim == 1 else flatten(a)


def broadcast_to(a, shape, subok=False):
    a = lift(a)
    shp = shape_of(shape)
    if len(shp) < a.ndim:
        raise ValueError('input operand has more dimensions than allowed')
    for s, t in zip(a.shape_, shp[len(shp) - a.ndim:]):
        if s is Ix(1) or s is t:
            continue
        if not same_size(s, t):
            raise ValueError('operands could not be broadcast together with remapped shapes')
    g = bget(a, shp)
    r = SymArray(shp, g, a.kind)
    r.flags['WRITEABLE'] = False
    return r


def repeat(a, n, axis=None):
    a = lift(a)
    if a.ndim == 0 or axis is None and a.ndim == 1 and a.shape_[0] is Ix(1):
        t = a.elem((Ix(0),) * a.ndim)
        return SymArray((toix(n),), lambda I: t, a.kind)
    if axis is not None:
        axis = norm_axis(axis, a.ndim)
        if a.shape_[axis] is Ix(1):
            f = a.elem
            s = a.shape_
            return SymArray(s[:axis] + (toix(n),) + s[axis + 1:],
                            lambda I: f(I[:axis] + (Ix(0),) + I[axis + 1:]), a.kind)
    raise Unsupported('repeat')


# --- reductions ------------------------------------------------------------
def axes_of(axis, nd):
    if axis is None:
        return tuple(range(nd))
    if isinstance(axis, _np.ndarray):
        axis = tuple(axis.ravel().tolist()) if axis.ndim else int(axis)
    if isinstance(axis, SymArray):
        raise Unsupported('symbolic axis')
    if isinstance(axis, (tuple, list)):
        r = tuple(norm_axis(k, nd) for k in axis)
        if len(set(r)) != len(r):
            raise ValueError("duplicate value in 'axis'")
        return r
    return (norm_axis(axis, nd),)


def finish(shape, elem, kind):
    if not shape:
        return wrap_scalar(elem(()), kind)
    return SymArray(shape, elem, kind)


def sum_(a, axis=None, dtype=None, out=None, keepdims=False, **kw):
    if kw:
        raise Unsupported('sum keywords')
    a = lift(a)
    nd = a.ndim
    ax = axes_of(axis, nd)
    keep = [k for k in range(nd) if k not in ax]
    sizes = [a.shape_[k] for k in ax]
    f, kind = a.elem, a.kind
    ints = kind != 'f'
    if kind == 'b' and not keep and not keepdims and not builtins.all(s.is_const and s.c <= 8 for s in sizes):
        return mkint(enum_mask(a).count)
    if ints and not builtins.all(s.is_const and s.c <= 64 for s in sizes):
        f0 = f
        f = lambda I: toreal(f0(I))
        ints = False

    def total(I):
        full = [None] * nd
        for k, i in zip(keep, I):
            full[k] = i
        conc = [(k, s) for k, s in zip(ax, sizes) if s.is_const and (s.c <= 16 or ints)]
        symb = [(k, s) for k, s in zip(ax, sizes) if not (s.is_const and (s.c <= 16 or ints))]
        bound = []
        for k, s in symb:
            v = var(fresh('s'))
            full[k] = v
            bound.append((v, s))
        out = []
        for J in _np.ndindex(*[s.c for _, s in conc]):
            for (k, _), j in zip(conc, J):
                full[k] = Ix(int(j))
            out.append(f(tuple(full)))
        if ints:
            r = Ix(0)
            for x in out:
                r = iadd(r, cast(x, 'i'))
            return r
        r = add(*out) if out else ZERO
        for v, s in reversed(bound):
            r = selected(v, s, r)
        return r
    shp = tuple(a.shape_[k] for k in keep)
    if keepdims:
        f1 = total
        shp2 = tuple(Ix(1) if k in ax else a.shape_[k] for k in range(nd))
        return finish(shp2, lambda I: f1(tuple(I[k] for k in keep)), 'i' if ints else 'f')
    if ints:
        r = finish(shp, total, 'i')
    else:
        r = finish(shp, total, 'f')
    return r


def selected(v, n, body):
    """sum of `body` for v < n; over the entries selected by a mask, the sum
    over all its entries of those selected"""
    for e in M.TAB.values():
        for c, count, tag in ((e, e.count_, 'pos!'), (e.co, isub(e.n, e.count_), 'npos!')):
            if n == count:
                I = [var(fresh('s')) for _ in e.shape]
                m = {iapp('%s%s!%d' % (tag, e.name, a), v).t[0][0]: i for a, i in enumerate(I)}
                t = tsubst(body, m)
                if v.t[0][0] in t.ixvars():
                    break
                t = ite(c.cond(tuple(I)), t, ZERO)
                for i, s in zip(reversed(I), reversed(e.shape)):
                    t = tsum(i, s, t)
                return t
    return tsum(v, n, body)


def mean_(a, axis=None, **kw):
    a = lift(a)
    n = Ix(1)
    for k in axes_of(axis, a.ndim):
        n = imul(n, a.shape_[k])
    return sum_(a, axis) / mkint(n)


def prod_(a, axis=None, **kw):
    a = lift(a)
    ax = axes_of(axis, a.ndim)
    keep = [k for k in range(a.ndim) if k not in ax]
    if not builtins.all(a.shape_[k].is_const for k in ax):
        raise Unsupported('product over an axis of symbolic size')
    f = a.elem
    k_ = 'f' if a.kind == 'f' else 'i'

    def total(I):
        full = [None] * a.ndim
        for k, i in zip(keep, I):
            full[k] = i
        r = ONE if k_ == 'f' else Ix(1)
        for J in _np.ndindex(*[a.shape_[k].c for k in ax]):
            for k, j in zip(ax, J):
                full[k] = Ix(int(j))
            x = cast(f(tuple(full)), k_)
            r = mul(r, x) if k_ == 'f' else imul(r, x)
        return r
    return finish(tuple(a.shape_[k] for k in keep), total, k_)


def cumsum(a, axis=None, dtype=None, out=None):
    a = lift(a)
    if axis is None:
        a = flatten(a)
        axis = 0
    axis = norm_axis(axis, a.ndim)
    f, kind, n = a.elem, a.kind, a.shape_[axis]
    if kind != 'f' and not (n.is_const and n.c <= 16):
        f0 = f
        f = lambda I: toreal(f0(I))
        kind = 'f'
    if kind == 'b':
        f1 = f
        f = lambda I: cast(f1(I), 'i')
        kind = 'i'

    def elem(I):
        i = I[axis]
        if i.is_const:
            xs = [f(I[:axis] + (Ix(k),) + I[axis + 1:]) for k in range(i.c + 1)]
            if kind == 'i':
                r = Ix(0)
                for x in xs:
                    r = iadd(r, x)
                return r
            return add(*xs)
        if kind == 'i':
            raise Unsupported('symbolic cumulative sum of integers')
        v = var(fresh('s'))
        return tsum(v, iadd(i, 1), f(I[:axis] + (v,) + I[axis + 1:]))
    return SymArray(a.shape_, elem, kind)


def diff(a, n=1, axis=-1, **kw):
    if kw:
        raise Unsupported('diff keywords')
    a = lift(a)
    axis = norm_axis(axis, a.ndim)
    for _ in range(n):
        f = a.elem
        lo = (slice(None),) * axis + (slice(None, -1),)
        hi = (slice(None),) * axis + (slice(1, None),)
        a = ufunc('subtract', a[hi], a[lo])
    return a


def all_(a, axis=None, **kw):
    a = lift(a)
    if axis is not None:
        raise Unsupported('all(axis)')
    if builtins.all(s.is_const and s.c <= 16 for s in a.shape_):
        f = a.elem
        cs = []
        for J in _np.ndindex(*[s.c for s in a.shape_]):
            cs.append(tc(f(tuple(Ix(int(j)) for j in J))))
        return mkbool(cand(*cs))
    return AllOf(a)


class AllOf(object):
    """Truth of a universally quantified condition (np.all)."""

    def __init__(self, a, neg=False):
        self.a, self.neg = a, neg

    def __bool__(self):
        e = eng()
        # instance at arbitrary indices
        I = tuple(var(fresh('q')) for _ in self.a.shape_)
        c = tc(self.a.elem(I))
        rng = tuple(cand(cle(0, i), clt(i, s)) for i, s in zip(I, self.a.shape_))
        if c is TRUE:
            return True
        if c.op in ('rz', 'rle') or c.op == 'not' and c.args[0].op in ('rz', 'rle'):
            h = e.hook_all(self.a) if hasattr(e, 'hook_all') else None
            if h is not None:
                return h
            b = e.branch(2)
            e.notes.append(('all', self.a, b == 0))
            return b == 0
        d = e.facts.decide(c, rng)
        if d is True:
            return True
        raise Unsupported('quantified condition')

    def __invert__(self):
        raise Unsupported('negation of a quantified condition')


def tc(e):
    if isinstance(e, T):
        return cnot(S.rcond('rz', e))
    return S.tc(e)


def any_(a, axis=None, **kw):
    a = lift(a)
    if axis is not None:
        raise Unsupported('any(axis)')
    if builtins.all(s.is_const and s.c <= 16 for s in a.shape_):
        f = a.elem
        cs = []
        for J in _np.ndindex(*[s.c for s in a.shape_]):
            cs.append(tc(f(tuple(Ix(int(j)) for j in J))))
        return mkbool(cor(*cs))
    return not bool(AllOf(ufunc('logical_not', a)))


def max_(name):
    def f(a, axis=None, **kw):
        a = lift(a)
        if axis is not None or not builtins.all(s.is_const and s.c <= 8 for s in a.shape_):
            raise Unsupported(name)
        r = None
        for J in _np.ndindex(*[s.c for s in a.shape_]):
            x = wrap_scalar(a.elem(tuple(Ix(int(j)) for j in J)), a.kind)
            r = x if r is None else ufunc(name, r, x)
        return r
    return f


def dot(a, b):
    a, b = lift(a), lift(b)
    if a.ndim == 0 or b.ndim == 0:
        return ufunc('multiply', a, b)
    n, m = a.shape_[-1], b.shape_[-2] if b.ndim > 1 else b.shape_[0]
    if not same_size(n, m):
        raise ValueError('shapes not aligned')
    na = a.ndim
    fa, fb = a.elem, b.elem

    def elem(I):
        A, B = I[:na - 1], I[na - 1:]

        def body(v):
            x = toreal(fa(A + (v,)))
            y = toreal(fb(B[:-1] + (v,) + B[-1:] if b.ndim > 1 else (v,)))
            return mul(x, y)
        if n.is_const and n.c <= 16:
            return add(*[body(Ix(k)) for k in range(n.c)])
        v = var(fresh('s'))
        return tsum(v, n, body(v))
    shp = a.shape_[:-1] + (b.shape_[:-2] + b.shape_[-1:] if b.ndim > 1 else ())
    return finish(shp, elem, 'f')


def matmul(a, b):
    a, b = lift(a), lift(b)
    if a.ndim > 2 or b.ndim > 2:
        raise Unsupported('matmul of rank > 2')
    return dot(a, b)


def outer(a, b):
    a, b = ravel(a), ravel(b)
    return ufunc('multiply', a[:, None], b[None, :])


def where(c, a=None, b=None):
    c = lift(c)
    if a is None:
        raise Unsupported('where with one argument')
    a, b = lift(a), lift(b)
    shp = bshape([c.shape_, a.shape_, b.shape_])
    gc, ga, gb = [bget(x, shp) for x in (c, a, b)]
    k = common_kind([a.kind, b.kind])
    return finish(shp, lambda I: ite_kind(tc(gc(I)), cast(ga(I), k), cast(gb(I), k)), k)


def clip(a, lo=None, hi=None, a_min=None, a_max=None, out=None):
    lo = a_min if lo is None else lo
    hi = a_max if hi is None else hi
    r = lift(a)
    if lo is not None:
        r = ufunc('maximum', r, lo)
    if hi is not None:
        r = ufunc('minimum', r, hi)
    return r


def diag(a, k=0):
    a = lift(a)
    if k != 0:
        raise Unsupported('diag(k)')
    f = a.elem
    if a.ndim == 2:
        return SymArray((a.shape_[0],), lambda I: f((I[0], I[0])), a.kind)
    n = a.shape_[0]
    return SymArray((n, n), lambda I: ite_kind(ceq(I[0], I[1]), f((I[0],)), cast(Ix(0), a.kind)), a.kind)


# --- linear algebra, masked arrays -------------------------------------------
class Inverse(object):
    """declared by a contract: the array `inverse` is the inverse of the matrix
    with elements entry(i, j) (Ix -> T)"""
    table = []

    def __init__(self, size, entry, inverse):
        self.size, self.entry, self.inverse = ix(size), entry, inverse


def matrix_inverse(a):
    """inv(c A) = inv(A) / c for the matrices declared by the contract"""
    from .norm import prove_equal
    a = lift(a)
    if a.ndim != 2:
        raise _np.linalg.LinAlgError('array must be two-dimensional')
    f = a.freal()
    u, v = var(fresh('iu')), var(fresh('iv'))
    for q in Inverse.table:
        if not (same_size(a.shape_[0], q.size) and same_size(a.shape_[1], q.size)):
            continue
        fs = S.eng().facts
        for w in (u, v):
            fs = fs.add(cle(0, w)).add(clt(w, q.size))
        for c in (1, -1):
            for tr in (False, True):
                e = q.entry(v, u) if tr else q.entry(u, v)
                if prove_equal(f((u, v)), mul(const(c), e), fs, S.eng().rsubst, refute=False).status == 'proved':
                    return SymArray((q.size, q.size), lambda I: mul(
                        const(c), arr(q.inverse, *(I[::-1] if tr else I))), 'f')
    raise Unsupported('inverse of a matrix')


class Masked(object):
    """result of np.ma.array; only its parts can be read"""

    def __init__(self, data, mask):
        self.data, self.mask = data, mask

    @property
    def shape(self):
        return self.data.shape

    @property
    def ndim(self):
        return self.data.ndim

    def __array__(self, *a, **k):
        return self.data

    def compressed(self):
        return self.data[~self.mask]

    def count(self):
        return (~self.mask).sum()


class SMa(object):
    """np.ma"""

    def __getattr__(self, name):
        return getattr(_np.ma, name)

    @staticmethod
    def array(data, mask=None, **kw):
        if not (has_sym(data) or has_sym(mask)):
            return _np.ma.array(data, mask=mask, **kw)
        if kw:
            raise Unsupported('options of np.ma.array')
        d = asarray(data)
        if mask is None or mask is False:
            return d
        m = asarray(mask)
        if m.kind != 'b':
            raise Unsupported('mask that is not boolean')
        return Masked(d, m)

    masked_array = array

    @staticmethod
    def count(x, axis=None):
        if isinstance(x, Masked):
            return x.count()
        a = asarray(x) if has_sym(x) else None
        if a is None or axis is not None:
            return _np.ma.count(x, axis)
        return a.size


class SLinalg(object):
    """np.linalg"""

    def __getattr__(self, name):
        return getattr(_np.linalg, name)

    @staticmethod
    def inv(a):
        return matrix_inverse(a) if has_sym(a) else _np.linalg.inv(a)

    @staticmethod
    def pinv(a, *k, **kw):
        return matrix_inverse(a) if has_sym(a) else _np.linalg.pinv(a, *k, **kw)

    @staticmethod
    def norm(a, *k, **kw):
        if not has_sym(a):
            return _np.linalg.norm(a, *k, **kw)
        if k or kw:
            raise Unsupported('options of norm')
        return sum_(ufunc('square', a)) ** 0.5

    @staticmethod
    def solve(a, b):
        if not (has_sym(a) or has_sym(b)):
            return _np.linalg.solve(a, b)
        return dot(matrix_inverse(a), lift(b))


def copy_(a, order='C', **kw):
    a = lift(a)
    r = a.snapshot()
    r.scalar = a.scalar
    return r


def astype(a, dtype, **kw):
    return to_kind(a, dtype).snapshot()


def isscalar(x):
    if isinstance(x, SymArray):
        return x.scalar
    if isinstance(x, (SInt, SBool)):
        return True
    return _np.isscalar(x)


def ndim(x):
    if isinstance(x, (SymArray,)):
        return x.ndim
    if isinstance(x, (SInt, SBool)):
        return 0
    if hasattr(x, '__array__'):
        return x.__array__().ndim
    return _np.ndim(x)


def shape_fn(x):
    return asarray(x).shape


def size_fn(x, axis=None):
    a = asarray(x)
    return a.size if axis is None else a.shape[axis]


def item(a, *args):
    if args:
        return a[args]
    return wrap_scalar(a.elem((Ix(0),) * a.ndim), a.kind)


def tolist(a):
    if a.ndim == 0:
        return wrap_scalar(a.elem(()), a.kind)
    return [x.tolist() if isinstance(x, SymArray) and x.ndim else x for x in a]


def take(a, idx, axis=None):
    a = lift(a)
    if axis is None:
        a = ravel(a)
        axis = 0
    axis = norm_axis(axis, a.ndim)
    return a[(slice(None),) * axis + (idx,)]


def multiply_outer(a, b):
    a, b = lift(a), lift(b)
    return a.__array_ufunc__(_np.multiply, 'outer', a, b)


def meshgrid(*xs, indexing='xy', **kw):
    raise Unsupported('meshgrid')


def array_equal(a, b):
    a, b = lift(a), lift(b)
    if a.ndim != b.ndim:
        return False
    for s, t in zip(a.shape_, b.shape_):
        if not same_size(s, t):
            return False
    return bool(all_(ufunc('equal', a, b)))


def einsum(spec, *ops):
    spec = spec.replace(' ', '')
    if '...' in spec:
        raise Unsupported('einsum with an ellipsis')
    ins, _, out = spec.partition('->')
    ins = ins.split(',')
    ops = [lift(o) for o in ops]
    size = {}
    for s, o in zip(ins, ops):
        if len(s) != o.ndim:
            raise ValueError('einsum')
        for ch, n in zip(s, o.shape_):
            if ch in size:
                if not same_size(size[ch], n):
                    raise ValueError('einsum')
            size[ch] = n
    if not _:
        cnt = ''.join(ins)
        out = ''.join(sorted(ch for ch in set(cnt) if cnt.count(ch) == 1))
    red = [ch for ch in size if ch not in out]
    fs = [o.freal() for o in ops]

    def elem(I):
        env = dict(zip(out, I))
        bs = []
        for ch in red:
            v = var(fresh('s'))
            env[ch] = v
            bs.append((v, size[ch]))
        t = mul(*[f(tuple(env[ch] for ch in s)) for f, s in zip(fs, ins)])
        for v, n in reversed(bs):
            t = tsum(v, n, t)
        return t
    return finish(tuple(size[ch] for ch in out), elem, 'f')


def triu(a, k=0):
    a = lift(a)
    f = a.elem
    return SymArray(a.shape_, lambda I: ite_kind(cle(iadd(I[-2], k), I[-1]), f(I), cast(Ix(0), a.kind)), a.kind)


def tril(a, k=0):
    a = lift(a)
    f = a.elem
    return SymArray(a.shape_, lambda I: ite_kind(cle(I[-1], iadd(I[-2], k)), f(I), cast(Ix(0), a.kind)), a.kind)


def nan_to_num(a, **kw):
    raise Unsupported('nan_to_num')


# --- boolean masks ---------------------------------------------------------
def enum_mask(mask):
    if builtins.all(s.is_const and s.c <= 8 for s in mask.shape_):
        cs = []
        for J in _np.ndindex(*[s.c for s in mask.shape_]):
            J = tuple(Ix(int(j)) for j in J)
            c = mask.econd(J)
            if c is not TRUE and c is not FALSE:
                c = TRUE if eng().decide(c) else FALSE
            if c is TRUE:
                cs.append(J)

        class Conc(object):
            pass
        o = Conc()
        o.count = Ix(len(cs))

        def pos(k):
            if k.is_const:
                return cs[k.c]
            r = cs[-1] if cs else (Ix(0),) * mask.ndim
            for n in range(len(cs) - 2, -1, -1):
                r = tuple(iite(ceq(k, n), a, b) for a, b in zip(cs[n], r))
            return r
        o.pos = pos
        o.cond = lambda I: mask.econd(I)

        def rank(I):
            r = Ix(0)
            for n in range(len(cs) - 1, 0, -1):
                r = iite(cand(*[ceq(i, j) for i, j in zip(I, cs[n])]), Ix(n), r)
            return r
        o.rank = rank
        return o
    return M.enum(mask.shape_, mask.econd)


MODELS = {
    'asarray': asarray, 'array': array_, 'asanyarray': asarray, 'ascontiguousarray': asarray,
    'ones': _const(1), 'zeros': _const(0), 'empty': _const(0),
    'ones_like': _like(1), 'zeros_like': _like(0), 'empty_like': _like(0),
    'full': full_, 'full_like': full_like, 'eye': eye, 'identity': eye, 'arange': arange,
    'stack': stack, 'concatenate': concatenate, 'vstack': vstack, 'hstack': hstack,
    'append': append, 'insert': insert, 'swapaxes': swapaxes, 'transpose': transpose,
    'moveaxis': moveaxis, 'rollaxis': rollaxis, 'expand_dims': expand_dims, 'squeeze': squeeze,
    'flip': flip, 'reshape': reshape, 'ravel': ravel, 'broadcast_to': broadcast_to,
    'repeat': repeat, 'sum': sum_, 'mean': mean_, 'prod': prod_, 'cumsum': cumsum, 'diff': diff,
    'all': all_, 'any': any_, 'max': max_('maximum'), 'min': max_('minimum'),
    'amax': max_('maximum'), 'amin': max_('minimum'),
    'dot': dot, 'outer': outer, 'where': where, 'clip': clip, 'diag': diag, 'copy': copy_,
    'isscalar': isscalar, 'ndim': ndim, 'shape': shape_fn, 'size': size_fn, 'take': take,
    'array_equal': array_equal, 'einsum': einsum, 'triu': triu, 'tril': tril, 'atleast_1d': atleast_1d,
    'matmul': matmul,
}

METHODS = {
    'sum': sum_, 'mean': mean_, 'prod': prod_, 'cumsum': cumsum, 'swapaxes': swapaxes,
    'transpose': transpose, 'reshape': reshape, 'copy': copy_, 'astype': astype,
    'flatten': flatten, 'ravel': ravel, 'all': all_, 'any': any_, 'dot': dot, 'item': item,
    'tolist': tolist, 'max': max_('maximum'), 'min': max_('minimum'), 'repeat': repeat,
    'squeeze': squeeze, 'clip': clip, 'take': take,
}

S.SymArray.__matmul__ = lambda a, b: matmul(a, b)
S.SymArray.__rmatmul__ = lambda a, b: matmul(b, a)


# --- shadows of builtins and of numpy ---------------------------------------
class _Shadow(type):
    def __instancecheck__(cls, x):
        return isinstance(x, cls._real) or cls._check(x)

    def __subclasscheck__(cls, c):
        return issubclass(c, cls._real)

    def __call__(cls, *a, **k):
        if len(a) == 1 and is_sym(a[0]):
            return cls._conv(a[0])
        if len(a) == 1 and not isinstance(a[0], SymArray):
            # an object with its own conversion (run by its real code)
            m = getattr(type(a[0]), '__%s__' % cls._real.__name__, None)
            if m is not None and is_sym(getattr(a[0], 'values', None)):
                return m(a[0])
        return cls._real(*a, **k)

    def __getattr__(cls, name):
        return getattr(cls._real, name)

    def __hash__(cls):
        return hash(cls._real)

    def __eq__(cls, o):
        return o is cls._real or o is cls


class SFloat(metaclass=_Shadow):
    _real, _kind = float, 'f'
    dtype = _np.dtype(float)

    @staticmethod
    def _check(x):
        return isinstance(x, SymArray) and x.scalar and x.kind == 'f'

    @staticmethod
    def _conv(x):
        a = lift(x)
        if not builtins.all(s is Ix(1) for s in a.shape_):
            raise TypeError('only size-1 arrays can be converted to Python scalars')
        return scalar(a.ereal((Ix(0),) * a.ndim))


class SIntT(metaclass=_Shadow):
    _real, _kind = int, 'i'
    dtype = _np.dtype(int)

    @staticmethod
    def _check(x):
        return isinstance(x, SInt)

    @staticmethod
    def _conv(x):
        if isinstance(x, SInt):
            return x
        a = lift(x)
        if a.kind != 'f' and a.ndim == 0:
            return mkint(cast(a.elem(()), 'i'))
        raise Unsupported('int() of a symbolic real')


class SBoolT(metaclass=_Shadow):
    _real, _kind = bool, 'b'

    @staticmethod
    def _check(x):
        return isinstance(x, SBool)

    @staticmethod
    def _conv(x):
        return bool(x)


class SNd(metaclass=_Shadow):
    _real = _np.ndarray
    _kind = 'f'

    @staticmethod
    def _check(x):
        return isinstance(x, SymArray) and not x.scalar

    @staticmethod
    def _conv(x):
        raise Unsupported('ndarray constructor')


class srange(object):
    """range accepting symbolic integers whose value is forced"""

    def __new__(cls, *a):
        return range(*[k.__index__() if isinstance(k, SInt) else k for k in a])


def dt(x):
    return x._real if isinstance(x, _Shadow) else x


CREATE = {'ones', 'zeros', 'empty', 'full', 'eye', 'identity', 'arange'}


def coerce(x):
    """objects with __array__ only (parameters): their symbolic array"""
    if not is_sym(x) and not hasattr(type(x), '__array_ufunc__') and \
            hasattr(type(x), '__array__') and isinstance(getattr(x, 'values', None), SymArray):
        return x.__array__()
    return x


class Elementwise(object):
    """np.vectorize / np.frompyfunc of a python function: applied entry by
    entry"""

    def __init__(self, f, real=None):
        self.f, self.real = f, real or _np.vectorize(f)
        self.__name__ = getattr(f, '__name__', 'f')

    def __call__(self, *a, **k):
        if not builtins.any(has_sym(x) for x in a):
            try:
                return self.real(*a, **k)
            except Unsupported:
                if k:
                    raise
                # a function of symbolic values
                xs = [_np.asarray(x) for x in a]
                out = _np.frompyfunc(self.f, len(xs), 1)(*xs)
                return lift(out)
        if k:
            raise Unsupported('keywords')
        xs = [lift(x) for x in a]
        shape = xs[0]
        for x in xs[1:]:
            shape = ufunc('add', shape, x)
        rank = shape.ndim
        es = [(x.elem, x.shape_, x.kind) for x in xs]

        def elem(I):
            args = [wrap_scalar(e(tuple(Ix(0) if z is Ix(1) else i for z, i in zip(s, I[rank - len(s):]))), kd)
                    for e, s, kd in es]
            return toreal(lift(self.f(*args)).elem(()))
        return finish(shape.shape_, elem, 'f')


def vectorize(f, *a, **k):
    if a or k:
        raise Unsupported('options of np.vectorize')
    return Elementwise(f)


class Ufunc(object):
    """a numpy ufunc seen by the verified code"""

    def __init__(self, f):
        self._f = f
        self.__name__ = f.__name__

    def __call__(self, *a, **k):
        return self._f(*[coerce(x) for x in a], **k)

    def __getattr__(self, name):
        return getattr(self._f, name)


class Arr(_np.ndarray):
    """concrete array that accepts symbolic indices"""

    def __getitem__(self, k):
        if isinstance(k, SymArray):
            return lift(_np.asarray(self))[k]
        return _np.asarray(self)[k]


class Shim(object):
    """the module `np` seen by the verified code"""
    ndarray = SNd

    def __init__(self):
        self._cache = {}

    def __getattr__(self, name):
        c = self._cache
        if name in c:
            return c[name]
        if name in ('ma', 'linalg'):
            return SMa() if name == 'ma' else SLinalg()
        if name == 'vectorize':
            return vectorize
        r = getattr(_np, name)
        m = MODELS.get(name)
        if m is None and isinstance(r, _np.ufunc):
            r = Ufunc(r)
        if m is not None:
            def f(*a, __r=r, __m=m, __n=name, **k):
                if 'dtype' in k:
                    k['dtype'] = dt(k['dtype'])
                if builtins.any(has_sym(x) for x in a) or builtins.any(has_sym(x) for x in k.values()):
                    return __m(*a, **k)
                if __n in ('ones', 'zeros', 'empty') and k.get('dtype') is not None and \
                        _np.dtype(k['dtype']).kind == 'i':
                    k['dtype'] = object
                    r = __r(*a, **k)
                    if __n == 'empty':
                        r[...] = 0
                    return r
                if __n == 'array' or __n == 'asarray':
                    k.pop('order', None)
                if __n in ('zeros', 'ones') and k.get('dtype') is None and len(a) == 1 and a[0] == ():
                    return __m(*a)
                if __n == 'arange':
                    return __r(*a, **k).view(Arr)
                return __r(*a, **k)
            f.__name__ = name
            r = f
        c[name] = r
        return r


def s_factorial(x, exact=False):
    if not has_sym(x):
        from scipy.special import factorial
        return factorial(x)
    a = lift(x)
    f = a.elem
    return finish(a.shape_, lambda I: fact(f(I)), 'f')


np = Shim()


def sminmax(name, real):
    def f(*a, **k):
        orig = a
        if len(a) == 1 and not isinstance(a[0], SymArray):
            a = list(a[0])
            orig = (a,)
        if builtins.any(is_sym(x) for x in a):
            r = a[0]
            for x in a[1:]:
                if is_intlike(r) and is_intlike(x):
                    c = (x < r) if name == 'min' else (r < x)
                    r = x if bool(c) else r
                else:
                    r = ufunc('minimum' if name == 'min' else 'maximum', r, x)
            return r
        return real(*orig, **k)
    return f


class SMath(object):
    """functions of the module math on symbolic numbers"""

    def __init__(self, name):
        self.name, self.real = name, getattr(math, name)
        self.__name__ = name

    def __call__(self, *a):
        if builtins.any(has_sym(x) for x in a):
            return ufunc({'fabs': 'absolute', 'pow': 'power', 'lgamma': 'gammaln'}.get(self.name, self.name), *a)
        return self.real(*a)


MATH = {getattr(math, n): n for n in ('exp', 'log', 'sqrt', 'fabs', 'pow', 'lgamma', 'log1p', 'expm1')}


class SMathModule(object):
    def __getattr__(self, name):
        r = getattr(math, name)
        return SMath(name) if type(r) is type(math.exp) and r in MATH else r


class install(object):
    """Context manager: the modules see symbolic numpy and builtins."""

    def __init__(self, *modules, extra=None):
        self.modules, self.extra = modules, extra or {}

    def __enter__(self):
        self.saved = []
        for m in self.modules:
            d = m.__dict__
            new = {}
            for n, v in list(d.items()):
                if v is _np:
                    new[n] = np
                elif getattr(v, '__name__', '') == 'factorial' and callable(v):
                    new[n] = s_factorial
                elif v is math:
                    new[n] = SMathModule()
                elif isinstance(v, _np.ufunc):
                    new[n] = Ufunc(v)
                elif type(v) is type(math.exp) and v in MATH:
                    new[n] = SMath(MATH[v])
                elif getattr(v, '__module__', None) == 'numpy' and getattr(v, '__name__', '') in MODELS:
                    new[n] = getattr(np, v.__name__)
            new.update({'float': SFloat, 'int': SIntT, 'range': srange,
                        'min': sminmax('min', min), 'max': sminmax('max', max)})
            new.update(self.extra.get(m.__name__, {}))
            for n, v in new.items():
                self.saved.append((d, n, d.get(n, install)))
                d[n] = v
        return self

    def __exit__(self, *a):
        for d, n, v in reversed(self.saved):
            if v is install:
                del d[n]
            else:
                d[n] = v
        return False
