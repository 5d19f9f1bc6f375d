"""Shared oracles of the run-time contract checks (dense view of tensors,
finite-difference derivatives of the real code)."""
import numpy as np
from maxlike.tensor.tensor import Tensor, GenericTensor, BaseTensor


class Violation(Exception):
    """A contract failed on the real code."""

    def __init__(self, what, **info):
        super().__init__(what)
        self.what = what
        self.info = info


def diag_expand(a, q, p, mapping):
    for k, f in enumerate(mapping):
        if f < 0:
            continue
        n = a.shape[p + f]
        sh = [1] * a.ndim
        sh[q + k] = n
        sh[p + f] = n
        a = a * np.eye(n).reshape(sh)
    return a


def dense(t, groups):
    """Dense view of a tensor over the groups (x, y, value, dim); absent groups
    are padded by axes of length one.  Written from the documentation of the
    maps, it shares no code with the tensors."""
    xd, yd, n, d = groups
    if isinstance(t, (int, float, np.floating, np.integer)):
        return np.full((1,) * sum(groups), float(t))
    if isinstance(t, GenericTensor):
        r = np.zeros((1,) * sum(groups))
        for e in t.elements:
            r = r + dense(e, groups)
        return r
    if isinstance(t, np.ndarray):
        t = Tensor(t)
    if not isinstance(t, Tensor):
        raise Violation('not a tensor: %r' % (type(t),))
    a = np.array(t.values)
    p = t.x_dim + t.y_dim
    a = diag_expand(a, 0, p, t.x_map)
    a = diag_expand(a, t.x_dim, p, t.y_map)
    sh, r = list(a.shape), []
    if t.values.ndim == 0:
        return a.reshape((1,) * sum(groups))
    for have, want in ((t.x_dim, xd), (t.y_dim, yd), (t.n, n), (t.dim, d)):
        part, sh = sh[:have], sh[have:]
        if have not in (0, want):
            raise Violation('tensor has groups %s, expected %s' % (
                (t.x_dim, t.y_dim, t.n, t.dim), tuple(groups)))
        r += part if have else [1] * want
    return a.reshape(r)


def same(a, b, rtol=1e-9, atol=1e-9):
    try:
        sh = np.broadcast_shapes(a.shape, b.shape)
    except ValueError:
        return False
    return bool(np.allclose(np.broadcast_to(a, sh), np.broadcast_to(b, sh),
                            rtol=rtol, atol=atol, equal_nan=False))


def vals(p):
    return np.asarray(getattr(p, 'values', p), dtype=float)


def fdiff(fun, params, i, h=2e-4):
    """d fun / d params[i]: array of shape params[i].shape + fun.shape.
    Five point rule."""
    base = vals(params[i])
    out = []
    for idx in np.ndindex(*base.shape):
        def at(s):
            q = base.copy()
            q[idx] += s
            ps = list(params)
            ps[i] = q
            return fun(ps)
        out.append((8 * (at(h) - at(-h)) - (at(2 * h) - at(-2 * h))) / (12 * h))
    r = np.array(out)
    return r.reshape(base.shape + r.shape[1:])


def check_func(f, params, n, d, rtol=2e-5, atol=2e-6, evals=True, hess=True,
               label=''):
    """Contract of a Func at `params`: grad is the derivative of the value,
    hess the derivative of grad, and eval returns the three of them.
    n, d: number of value / dim axes of the function."""
    params = [np.asarray(p, dtype=float) for p in params]
    ranks = [p.ndim for p in params]
    F = lambda ps: dense(f(list(ps)), (0, 0, n, d))
    val = F(params)
    if not np.all(np.isfinite(val)):
        raise Violation(label + ' value not finite')
    grads = {}
    for i, p in enumerate(params):
        g = dense(f.grad(params, i), (ranks[i], 0, n, d))
        grads[i] = g
        num = fdiff(lambda ps: np.broadcast_to(F(ps), val.shape), params, i)
        if not same(g, num, rtol, atol):
            raise Violation(label + ' grad[%d] is not the derivative' % i,
                            grad=g.tolist(), numeric=num.tolist(),
                            params=[q.tolist() for q in params])
    if hess:
        for i in range(len(params)):
            for j in range(i + 1):
                h = dense(f.hess(params, i, j), (ranks[i], ranks[j], n, d))
                # derivative of grad_i wrt params[j]; y axes come first
                G = lambda ps: dense(f.grad(list(ps), i), (ranks[i], 0, n, d))
                sh = G(params).shape
                num = fdiff(lambda ps: np.broadcast_to(G(ps), sh), params, j)
                num = np.moveaxis(num, range(ranks[j]),
                                  range(ranks[i], ranks[i] + ranks[j]))
                if not same(h, num, rtol, atol):
                    raise Violation(
                        label + ' hess[%d][%d] is not the derivative' % (i, j),
                        hess=h.tolist(), numeric=num.tolist(),
                        params=[q.tolist() for q in params])
    if evals:
        ev, eg, eh = f.eval(params)
        if not same(dense(ev, (0, 0, n, d)), val):
            raise Violation(label + ' eval value differs from the call')
        for i in range(len(params)):
            if not same(dense(eg[i], (ranks[i], 0, n, d)), grads[i]):
                raise Violation(label + ' eval grad[%d] differs from grad' % i)
            if hess:
                for j in range(i + 1):
                    h = dense(f.hess(params, i, j),
                              (ranks[i], ranks[j], n, d))
                    if not same(dense(eh[i][j], (ranks[i], ranks[j], n, d)), h):
                        raise Violation(
                            label + ' eval hess[%d][%d] differs' % (i, j))
