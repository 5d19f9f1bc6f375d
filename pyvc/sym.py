"""Symbolic values (integers, booleans, arrays with symbolic sizes) on which
the real code of maxlike is executed, and the path exploration engine."""
import sys
import builtins
import numpy as _np
from fractions import Fraction
from .index import *
from .terms import *
from .norm import Norm, prove_equal, prove_zero, Result, P0
from . import norm as NN


class Unsupported(Exception):
    """The engine cannot model an operation: the obligation is undecided."""


class TooManyPaths(Unsupported):
    pass


class PathEnd(BaseException):
    """End of the current path (assumption false, loop body checked, ...)."""


class Fork(BaseException):
    pass


class Engine(object):
    cur = None

    def __init__(self, max_paths=400):
        self.max_paths = max_paths
        self.generic = None         # number of exact comparisons explored on a path
        self.generic_used = False
        self.base_conds = ()
        self.paths = 0

    # one path
    def start(self, prefix, conds, ranges, rsubst=None):
        self.prefix = list(prefix)
        self.pos = 0
        self.trace = []
        self.facts = Facts(conds, ranges)
        self.rsubst = dict(rsubst or {})
        self.frame = []
        self.notes = []
        self.reals = 0

    def branch(self, n=2):
        """free choice between n alternatives"""
        if self.pos < len(self.prefix):
            v = self.prefix[self.pos]
        else:
            v = 0
        self.pos += 1
        self.trace.append((v, n))
        return v

    def assume(self, c):
        if c is TRUE:
            return
        self.facts = self.facts.add(c)
        if c is FALSE or not self.facts.consistent():
            raise PathEnd('infeasible')

    def decide(self, c):
        v = self.facts.decide(c)
        if v is not None:
            return v
        b = self.branch(2)
        # first alternative: true
        c2 = c if b == 0 else cnot(c)
        self.assume(c2)
        return b == 0

    def simplify(self, t):
        N = Norm(self.facts, self.rsubst)
        return N.norm(t)

    def decide_real(self, op, t):
        """op: 'rz' t == 0, 'rle' t <= 0"""
        N = Norm(self.facts, self.rsubst)
        p = N.norm(t)
        k = p.const()
        if k is not None:
            return (k == 0) if op == 'rz' else (k <= 0)
        s = N.strict_sign(p)
        if s is None:
            iv = interval(t)
            if iv is not None:
                s = 1 if iv[0] is not None and iv[0] >= 0 else -1 if iv[1] is not None and iv[1] <= 0 else None
        if s is not None:
            return False if op == 'rz' else s < 0
        if op == 'rz' and N.nonzero(p):
            return False
        c = Cond(op, (t,))
        for x in self.facts.conds:
            if x is c:
                return True
            if x is cnot(c):
                return False
        self.reals += 1
        if op == 'rz' and self.generic is not None and self.reals > self.generic:
            self.generic_used = True
            self.facts = self.facts.add(cnot(c))
            return False
        b = self.branch(2)
        if b == 0:
            self.facts = self.facts.add(c)
            if op == 'rz':
                # a product that is zero: which factor is
                if len(p.d) == 1:
                    (m, co), = p.d.items()
                    fac = [x for x, e in m if not (isinstance(e, int) and e < 0) and not N.asign(x)]
                    if fac and all(x.kind == 'arr' and not x.args[1] for x in fac):
                        x = fac[self.branch(len(fac)) if len(fac) > 1 else 0]
                        t = T('arr', x.args[0], x.args[1])
                        self.rsubst[t] = T('c', Fraction(0))
                        self.feasible()
                        return True
                # substitution when the polynomial is  a - const
                for m, co in p.d.items():
                    if len(m) == 1 and m[0][1] == 1 and m[0][0].kind == 'arr':
                        rest = {q: w for q, w in p.d.items() if q != m}
                        if all(len(q) == 0 for q in rest):
                            val = -sum(rest.values(), Fraction(0)) / co
                            a = m[0][0]
                            self.rsubst[T('arr', a.args[0], a.args[1])] = T('c', val)
                            break
            return True
        self.facts = self.facts.add(cnot(c))
        return False

    def feasible(self):
        """ends the path when a substitution contradicts one of its facts"""
        N = Norm(self.facts, self.rsubst)
        for c in self.facts.conds:
            neg_ = c.op == 'not'
            q = c.args[0] if neg_ else c
            if q.op != 'rz':
                continue
            k = N.norm(q.args[0]).const()
            if k is not None and (k == 0) == neg_:
                raise PathEnd('infeasible')

    def explore(self, run, conds=(), ranges=None, rsubst=None):
        """runs `run()` on every feasible path; yields the path outcome"""
        stack = [()]
        first = True
        while stack:
            prefix = stack.pop()
            self.paths += 1
            if self.paths > self.max_paths:
                raise TooManyPaths('more than %d paths' % self.max_paths)
            self.start(prefix, conds, ranges, rsubst)
            old, Engine.cur = Engine.cur, self
            try:
                out = ('ok', run())
            except PathEnd as e:
                out = ('end', e)
            except Unsupported:
                raise
            except Exception as e:
                out = ('exc', e)
            finally:
                Engine.cur = old
            for k in range(len(prefix), len(self.trace)):
                v, n = self.trace[k]
                for w in range(v + 1, n):
                    stack.append(tuple(x for x, _ in self.trace[:k]) + (w,))
            yield out


def interval(t):
    """open interval (None: unbounded side) that contains a term made of
    bounded entries; None: not known.  Constant terms are not covered."""
    o, a = t.op, t.args
    if o == 'arr':
        s = SYMS.get(a[0])
        if s is not None and s.bounds:
            return tuple(Fraction(x) for x in s.bounds)
        return None
    if o == 'add':
        lo = hi = Fraction(0)
        some = False
        for x in a[0]:
            if x.op == 'c':
                lo, hi = lo + x.args[0], hi + x.args[0]
                continue
            i = interval(x)
            if i is None:
                return None
            some = True
            lo, hi = lo + i[0], hi + i[1]
        return (lo, hi) if some else None
    if o == 'mul':
        out = None
        k = Fraction(1)
        for x in a[0]:
            if x.op == 'c':
                k *= x.args[0]
                continue
            i = interval(x)
            if i is None:
                return None
            if out is None:
                out = i
            elif out[0] >= 0 and i[0] >= 0:
                out = (out[0] * i[0], out[1] * i[1])
            else:
                return None
        if out is None or k == 0:
            return None
        return (out[0] * k, out[1] * k) if k > 0 else (out[1] * k, out[0] * k)
    if o == 'pow' and a[1].op == 'c' and a[1].args[0].denominator == 1 and a[1].args[0] > 0:
        i = interval(a[0])
        if i is None or i[0] < 0:
            return None
        n = int(a[1].args[0])
        return (i[0] ** n, i[1] ** n)
    return None


def eng():
    e = Engine.cur
    if e is None:
        raise Unsupported('symbolic decision outside of the engine')
    return e


# --------------------------------------------------------------------------
def mkint(a):
    return a.c if a.is_const else SInt(a)


def mkbool(c):
    if c is TRUE:
        return True
    if c is FALSE:
        return False
    return SBool(c)


def toix(x):
    if isinstance(x, SInt):
        return x.ix
    if isinstance(x, Ix):
        return x
    if isinstance(x, (bool, _np.bool_)):
        return Ix(int(x))
    if isinstance(x, (int, _np.integer)):
        return Ix(int(x))
    if isinstance(x, SymArray) and x.ndim == 0 and x.kind == 'i':
        return x.elem(())
    if isinstance(x, _np.ndarray) and x.ndim == 0:
        return toix(x[()])
    if isinstance(x, (float, _np.floating)) and float(x).is_integer():
        return Ix(int(x))
    raise Unsupported('not an index: %r' % (type(x),))


def is_intlike(x):
    return isinstance(x, (int, _np.integer, SInt)) and not isinstance(x, (bool, _np.bool_))


class SBool(object):
    __slots__ = ('c',)

    def __init__(self, c):
        self.c = c

    def __bool__(self):
        if self.c.op in ('rz', 'rle'):
            return eng().decide_real(self.c.op, self.c.args[0])
        if self.c.op == 'not' and self.c.args[0].op in ('rz', 'rle'):
            return not eng().decide_real(self.c.args[0].op, self.c.args[0].args[0])
        if self.c.op == 'and':
            return all(bool(mkbool(x)) for x in self.c.args)
        if self.c.op == 'not' and self.c.args[0].op == 'and':
            return not all(bool(mkbool(x)) for x in self.c.args[0].args)
        return eng().decide(self.c)

    def __and__(self, o):
        return mkbool(cand(self.c, tocond(o)))
    __rand__ = __and__

    def __or__(self, o):
        return mkbool(cor(self.c, tocond(o)))
    __ror__ = __or__

    def __invert__(self):
        return mkbool(cnot(self.c))

    def __eq__(self, o):
        if isinstance(o, (bool, _np.bool_, SBool)):
            d = tocond(o)
            return mkbool(cor(cand(self.c, d), cand(cnot(self.c), cnot(d))))
        return NotImplemented

    def __hash__(self):
        return hash(self.c)

    shape, ndim = (), 0

    def sum(self, *a, **k):
        return mkint(cast(self.c, 'i'))

    def _f(self):
        return scalar(ite(self.c, ONE, ZERO))

    def __add__(self, o):
        return self._f() + o
    __radd__ = __add__

    def __mul__(self, o):
        return self._f() * o
    __rmul__ = __mul__

    def __rsub__(self, o):
        return o - self._f()

    def __sub__(self, o):
        return self._f() - o


def tocond(x):
    if isinstance(x, SBool):
        return x.c
    if isinstance(x, (bool, _np.bool_)):
        return cbool(bool(x))
    if isinstance(x, Cond):
        return x
    if isinstance(x, SymArray) and x.ndim == 0:
        return x.econd(())
    raise Unsupported('not a condition: %r' % (type(x),))


class SInt(object):
    __slots__ = ('ix',)
    __array_ufunc__ = None if False else None

    def __init__(self, a):
        self.ix = a

    def __repr__(self):
        return 'SInt(%s)' % self.ix

    def __hash__(self):
        return hash(self.ix)

    def _bin(self, o, f, g=None, swap=False):
        if isinstance(o, (SInt, int, _np.integer)) and not isinstance(o, (bool, _np.bool_)):
            a, b = self.ix, toix(o)
            if swap:
                a, b = b, a
            return mkint(f(a, b))
        a = scalar(fromint(self.ix))
        if isinstance(o, (float, _np.floating, SymArray, Fraction)):
            return g(o, a) if swap else g(a, o)
        if isinstance(o, _np.ndarray):
            if o.dtype == object or True:
                out = _np.empty(o.shape, dtype=object)
                for k in _np.ndindex(*o.shape):
                    out[k] = self._bin(o[k], f, g, swap)
                return out
        return NotImplemented

    def __add__(self, o):
        return self._bin(o, iadd, lambda a, b: a + b)

    def __radd__(self, o):
        return self._bin(o, iadd, lambda a, b: a + b, True)

    def __sub__(self, o):
        return self._bin(o, isub, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._bin(o, isub, lambda a, b: a - b, True)

    def __mul__(self, o):
        return self._bin(o, imul, lambda a, b: a * b)

    def __rmul__(self, o):
        return self._bin(o, imul, lambda a, b: a * b, True)

    def __floordiv__(self, o):
        return self._bin(o, idiv, lambda a, b: a // b)

    def __mod__(self, o):
        return self._bin(o, imod, lambda a, b: a % b)

    def __rmod__(self, o):
        return self._bin(o, imod, lambda a, b: a % b, True)

    def __truediv__(self, o):
        a = scalar(fromint(self.ix))
        return a / (scalar(fromint(o.ix)) if isinstance(o, SInt) else o)

    def __rtruediv__(self, o):
        if isinstance(o, _np.ndarray):
            return _np.vectorize(lambda v: v / self, otypes=[object])(o)
        return o / scalar(fromint(self.ix))

    def __pow__(self, o):
        return scalar(fromint(self.ix)) ** o

    def __rpow__(self, o):
        return scalar(power(toreal(o), fromint(self.ix)))

    def __neg__(self):
        return mkint(ineg(self.ix))

    def __pos__(self):
        return self

    def __abs__(self):
        return self if self >= 0 else -self

    def _cmp(self, o, f, g):
        if isinstance(o, (int, _np.integer, SInt)):
            return mkbool(f(self.ix, toix(o)))
        if isinstance(o, (float, _np.floating)) and float(o).is_integer():
            return mkbool(f(self.ix, Ix(int(o))))
        if isinstance(o, (float, _np.floating, SymArray)):
            return g(scalar(fromint(self.ix)), o)
        return NotImplemented

    def __eq__(self, o):
        r = self._cmp(o, ceq, lambda a, b: a == b)
        return False if r is NotImplemented else r

    def __ne__(self, o):
        r = self.__eq__(o)
        return (not r) if isinstance(r, bool) else ~r

    def __lt__(self, o):
        return self._cmp(o, clt, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, cle, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: clt(b, a), lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: cle(b, a), lambda a, b: a >= b)

    def __bool__(self):
        return bool(self != 0)

    def __index__(self):
        # forced value?
        e = Engine.cur
        if e is not None:
            m = e.facts.model()
            if m is not None:
                v = m.eval(zix(self.ix), model_completion=True)
                try:
                    k = v.as_long()
                except Exception:
                    k = None
                if k is not None and e.facts.decide(ceq(self.ix, k)) is True:
                    return k
        raise Unsupported('symbolic integer used as a concrete index: %s' % self.ix)

    def __float__(self):
        raise Unsupported('float of a symbolic integer')

    # numpy scalar look
    ndim = 0
    shape = ()
    size = 1

    def sum(self, *a, **k):
        return self

    def item(self):
        return self


class NotNumber(Unsupported):
    pass


def toreal(x):
    if isinstance(x, T):
        return x
    if isinstance(x, SymArray):
        if x.ndim != 0:
            raise NotNumber('array used as a scalar')
        return x.ereal(())
    if isinstance(x, SInt):
        return fromint(x.ix)
    if isinstance(x, Ix):
        return fromint(x)
    if isinstance(x, SBool):
        return ite(x.c, ONE, ZERO)
    if isinstance(x, Cond):
        return ite(x, ONE, ZERO)
    if isinstance(x, (int, float, _np.integer, _np.floating, Fraction, bool, _np.bool_)):
        return const(x if isinstance(x, (int, Fraction, float)) else x.item())
    if isinstance(x, _np.ndarray) and x.ndim == 0:
        return toreal(x[()])
    if hasattr(x, 'values') and getattr(x.values, 'ndim', None) == 0:
        return toreal(x.values)
    raise NotNumber('not a real: %r' % (type(x),))


class Flags(dict):
    def __init__(self):
        dict.__init__(self, WRITEABLE=True)

    @property
    def writeable(self):
        return self['WRITEABLE']

    @writeable.setter
    def writeable(self, v):
        self['WRITEABLE'] = v


class SymArray(object):
    """ndarray with symbolic sizes.  kind: 'f' (elements T), 'i' (Ix),
    'b' (Cond)."""
    __array_priority__ = 1000

    def __init__(self, shape, elem, kind='f', scalar=False, base=None, name=None):
        self.shape_ = tuple(toix(s) for s in shape)
        self._elem = elem
        self.kind = kind
        self.scalar = scalar
        self.base = base            # (array, map ixs -> base ixs, inverse or None)
        self.flags = Flags()
        self.name = name
        self.owner = None           # tag of an argument of the verified call

    # -- looks
    @property
    def shape(self):
        return tuple(mkint(s) for s in self.shape_)

    @shape.setter
    def shape(self, v):
        raise Unsupported('shape assignment')

    @property
    def ndim(self):
        return len(self.shape_)

    @property
    def size(self):
        r = Ix(1)
        for s in self.shape_:
            r = imul(r, s)
        return mkint(r)

    @property
    def dtype(self):
        return {'f': _np.dtype(float), 'i': _np.dtype(int), 'b': _np.dtype(bool)}[self.kind]

    @property
    def T(self):
        return self.transpose()

    @property
    def data(self):
        return self

    def __len__(self):
        if not self.shape_:
            raise TypeError('len() of unsized object')
        n = self.shape[0]
        if isinstance(n, SInt):
            return n.__index__()
        return n

    def __iter__(self):
        if not self.shape_:
            raise TypeError('iteration over a 0-d array')
        n = self.shape[0]
        if isinstance(n, SInt):
            n = n.__index__()
        return iter([self[k] for k in range(n)])

    def __repr__(self):
        return 'SymArray(%s, %s)' % (self.shape, self.kind)

    def __hash__(self):
        return id(self)

    # -- elements
    @property
    def elem(self):
        if self.base is not None:
            b, m, _ = self.base
            f = b.elem
            return lambda ixs: f(m(ixs))
        return self._elem

    def at(self, *ixs):
        return self.elem(tuple(ix(i) for i in ixs))

    def ereal(self, ixs):
        return toreal(self.elem(ixs))

    def freal(self):
        f = self.elem
        if self.kind == 'f':
            return f
        return lambda ixs: toreal(f(ixs))

    def econd(self, ixs):
        e = self.elem(ixs)
        if self.kind == 'b':
            return e
        if self.kind == 'i':
            return cnot(ceq(e, 0))
        raise Unsupported('truth of a real')

    def snapshot(self):
        return SymArray(self.shape_, self.elem, self.kind)

    # -- writes
    def _write(self, f):
        """f: old elem -> new elem"""
        if not self.flags['WRITEABLE']:
            raise ValueError('assignment destination is read-only')
        a, chain = self, []
        if a.owner is not None:
            eng().frame.append(a.owner)
        if a.base is None:
            a._elem = f(a._elem)
            return
        b, m, invm = a.base
        if invm is None:
            raise Unsupported('write through this kind of view')
        new = f(self.elem)

        def g(old):
            def h(I):
                c, v = invm(I)
                if c is FALSE:
                    return old(I)
                n = new(v)
                return ite_kind(c, n, old(I))
            return h
        b._write(g)

    def __setitem__(self, key, val):
        if not self.ndim and isinstance(key, (SBool, bool, _np.bool_)):
            key = lift(key)
        v = self[key] if not (isinstance(key, SymArray) and key.kind == 'b') else None
        if v is None:
            mask = key
            if mask.ndim != self.ndim:
                raise Unsupported('mask of another rank')
            x = lift(val)
            if x.ndim:
                return self._write_entries(mask, x)
            t = x.elem(())
            k = self.kind
            self._write(lambda old: lambda I: ite_kind(mask.econd(I), cast(t, k), old(I)))
            return
        if not isinstance(v, SymArray) or v.base is None or v.base[0] is not self:
            # scalar element
            v = self._view(key, force=True)
        v.flags = self.flags
        v.owner = None
        x = lift(val)
        shp = bshape([v.shape_, x.shape_])
        if len(shp) != v.ndim:
            raise ValueError('could not broadcast')
        g = bget(x, shp)
        k = self.kind
        if self.owner is not None:
            eng().frame.append(self.owner)
        b = v.base
        invm = b[2]
        if invm is None:
            raise Unsupported('assignment with this key')

        def wr(old):
            def h(I):
                c, w = invm(I)
                if c is FALSE:
                    return old(I)
                return ite_kind(c, cast(g(w), k), old(I))
            return h
        own, self.owner = self.owner, None
        try:
            self._write(wr)
        finally:
            self.owner = own

    def _write_entries(self, mask, x):
        from . import npm
        if x.ndim > 1:
            raise Unsupported('masked assignment of an array of higher rank')
        for s, z in zip(mask.shape_, self.shape_):
            if not same_size(s, z):
                raise IndexError('boolean index did not match indexed array')
        e = npm.enum_mask(mask)
        one = x.shape_[0] is Ix(1)
        if not one and not same_size(x.shape_[0], e.count):
            if not same_size(x.shape_[0], Ix(1)):
                raise ValueError('cannot assign the input values to the output values where the mask is true')
            one = True
        g, k = x.elem, self.kind

        def wr(old):
            def h(I):
                c = e.cond(I)
                if c is FALSE:
                    return old(I)
                return ite_kind(c, cast(g((Ix(0) if one else e.rank(I),)), k), old(I))
            return h
        self._write(wr)

    def _iop(self, o, name):
        r = ufunc(name, self, o)
        if self.scalar:
            return r
        if len(r.shape_) != self.ndim:
            raise ValueError('non-broadcastable output operand')
        if self.kind != 'f' and r.kind == 'f':
            raise _np.core._exceptions.UFuncTypeError(name) if False else TypeError(
                'Cannot cast ufunc output')
        g, k = r.elem, self.kind
        self._write(lambda old: lambda I: cast(g(I), k))
        return self

    def __iadd__(self, o):
        return self._iop(o, 'add')

    def __isub__(self, o):
        return self._iop(o, 'subtract')

    def __imul__(self, o):
        return self._iop(o, 'multiply')

    def __itruediv__(self, o):
        return self._iop(o, 'divide')

    # -- indexing
    def _view(self, key, force=False):
        if not isinstance(key, tuple):
            key = (key,)
        n_real = builtins.sum(1 for k in key if k is not None and k is not Ellipsis)
        # 1-d integer arrays / lists: advanced indexing on a single axis
        ell = Ellipsis in [k if k is None or k is Ellipsis else 0 for k in key]
        if n_real > self.ndim:
            raise IndexError('too many indices for array')
        if not ell:
            key = key + (Ellipsis,)
        out_shape, maps = [], []       # maps: per base axis
        ax = 0
        adv = None
        for k in key:
            if k is Ellipsis:
                for _ in range(self.ndim - n_real):
                    maps.append(('ax', len(out_shape), 0, 1))
                    out_shape.append(self.shape_[ax])
                    ax += 1
            elif k is None:
                out_shape.append(Ix(1))
            elif isinstance(k, slice):
                n = self.shape_[ax]
                st, ln, step = slice_(k, n)
                maps.append(('ax', len(out_shape), st, step))
                out_shape.append(ln)
                ax += 1
            elif is_intlike(k) or (isinstance(k, SymArray) and k.ndim == 0 and k.kind == 'i') \
                    or (isinstance(k, _np.ndarray) and k.ndim == 0 and k.dtype.kind == 'i'):
                i = toix(k)
                n = self.shape_[ax]
                if i.is_const and i.c < 0:
                    i = iadd(n, i)
                elif not i.is_const:
                    lo = eng().facts.decide(cle(0, i)) if Engine.cur else True
                    if lo is False:
                        i = iadd(n, i)
                    elif lo is None:
                        i = i if eng().decide(cle(0, i)) else iadd(n, i)
                if Engine.cur is not None:
                    ok = cand(cle(0, i), clt(i, n))
                    d = eng().facts.decide(ok)
                    if d is False or (d is None and not eng().decide(ok)):
                        raise IndexError('index %s is out of bounds for axis with size %s' % (i, n))
                elif i.is_const and n.is_const and not 0 <= i.c < n.c:
                    raise IndexError('index out of bounds')
                maps.append(('int', i))
                ax += 1
            elif isinstance(k, (list, _np.ndarray, range, SymArray, tuple)):
                if adv is not None:
                    raise Unsupported('several index arrays')
                idx = lift(_np.asarray(k, dtype=object) if isinstance(k, (list, tuple, range)) else k)
                if isinstance(k, _np.ndarray) and k.dtype == bool or idx.kind == 'b':
                    raise Unsupported('boolean index on an axis')
                if idx.kind != 'i':
                    raise Unsupported('index array of reals')
                adv = True
                if idx.ndim != 1:
                    raise Unsupported('index array of rank %d' % idx.ndim)
                maps.append(('adv', len(out_shape), idx, self.shape_[ax]))
                out_shape.append(idx.shape_[0])
                ax += 1
            else:
                raise Unsupported('index %r' % (k,))

        def m(I):
            r = []
            for x in maps:
                if x[0] == 'int':
                    r.append(x[1])
                elif x[0] == 'ax':
                    i = I[x[1]]
                    if x[3] == 1:
                        r.append(iadd(i, x[2]))
                    else:
                        r.append(iadd(iscale(i, x[3]), x[2]))
                else:
                    j = x[2].elem((I[x[1]],))
                    if j.is_const and j.c < 0:
                        j = iadd(x[3], j)
                    r.append(j)
            return tuple(r)

        def invm(I):
            cs, r = [], [Ix(0)] * len(out_shape)
            for x, i in zip(maps, I):
                if x[0] == 'int':
                    cs.append(ceq(i, x[1]))
                elif x[0] == 'ax':
                    st, step, ln = ix(x[2]), x[3], out_shape[x[1]]
                    d = isub(i, st)
                    if step == -1:
                        d = ineg(d)
                    elif step != 1:
                        raise Unsupported('write with a step')
                    r[x[1]] = d
                    if not (st is Ix(0) and step == 1 and ln is self.shape_[maps.index(x)]):
                        cs.append(cle(0, d))
                        cs.append(clt(d, ln))
                else:
                    raise Unsupported('write through an index array')
            return cand(*cs), tuple(r)
        v = SymArray(out_shape, None, self.kind, base=(self, m, invm))
        v.flags['WRITEABLE'] = self.flags['WRITEABLE']
        v.owner = self.owner
        full = not out_shape and not ell and not force
        return v, full, adv

    def __getitem__(self, key):
        if isinstance(key, SymArray) and key.kind == 'b':
            return compress(self, key)
        if isinstance(key, _np.ndarray) and key.dtype == bool:
            return compress(self, lift(key))
        if isinstance(key, (bool, _np.bool_, SBool)):
            if self.ndim:
                raise Unsupported('boolean scalar index')
            t = self.elem(())
            return SymArray((Ix(1 if bool(key) else 0),), lambda I: t, self.kind)
        v, full, adv = self._view(key)
        if full:
            return wrap_scalar(v.elem(()), self.kind)
        if adv:
            return v.snapshot()
        return v

    # -- operators
    def __add__(self, o):
        return binop('add', self, o)

    def __radd__(self, o):
        return binop('add', o, self)

    def __sub__(self, o):
        return binop('subtract', self, o)

    def __rsub__(self, o):
        return binop('subtract', o, self)

    def __mul__(self, o):
        return binop('multiply', self, o)

    def __rmul__(self, o):
        return binop('multiply', o, self)

    def __truediv__(self, o):
        return binop('divide', self, o)

    def __rtruediv__(self, o):
        return binop('divide', o, self)

    def __pow__(self, o):
        return binop('power', self, o)

    def __rpow__(self, o):
        return binop('power', o, self)

    def __and__(self, o):
        return binop('logical_and', self, o)
    __rand__ = __and__

    def __or__(self, o):
        return binop('logical_or', self, o)
    __ror__ = __or__

    def __neg__(self):
        return ufunc('negative', self)

    def __pos__(self):
        return self

    def __abs__(self):
        return ufunc('absolute', self)

    def __invert__(self):
        return ufunc('logical_not', self)

    def __eq__(self, o):
        return binop('equal', self, o)

    def __ne__(self, o):
        return binop('not_equal', self, o)

    def __lt__(self, o):
        return binop('less', self, o)

    def __le__(self, o):
        return binop('less_equal', self, o)

    def __gt__(self, o):
        return binop('greater', self, o)

    def __ge__(self, o):
        return binop('greater_equal', self, o)

    def __bool__(self):
        if self.ndim == 0 or builtins.all(s.is_const and s.c == 1 for s in self.shape_):
            ixs = (Ix(0),) * self.ndim
            if self.kind == 'f':
                return bool(mkbool(cnot(rcond('rz', self.elem(ixs)))))
            return bool(mkbool(self.econd(ixs)))
        raise ValueError('The truth value of an array is ambiguous')

    def __float__(self):
        raise Unsupported('float() of a symbolic value')

    def __int__(self):
        raise Unsupported('int() of a symbolic value')

    def __index__(self):
        if self.ndim == 0 and self.kind == 'i':
            return SInt(self.elem(())).__index__()
        raise TypeError('only integer scalar arrays can be converted to a scalar index')

    def __array_ufunc__(self, uf, method, *inputs, **kwargs):
        if method == 'outer':
            a, b = [lift(x) for x in inputs]
            nb = b.ndim
            b1 = SymArray((1,) * a.ndim + b.shape_, (lambda f, k: lambda I: f(I[k:]))(b.elem, a.ndim), b.kind)
            a1 = SymArray(a.shape_ + (1,) * nb, (lambda f, k: lambda I: f(I[:k]))(a.elem, a.ndim), a.kind)
            return ufunc(uf.__name__, a1, b1)
        if method != '__call__':
            raise Unsupported('ufunc method ' + method)
        out = kwargs.pop('out', None)
        kwargs = {k: v for k, v in kwargs.items() if v is not None}
        for x in inputs:
            if not isinstance(x, (SymArray, _np.ndarray)) and hasattr(type(x), '__array_ufunc__') \
                    and not isinstance(x, (_np.generic, SInt)):
                return x.__array_ufunc__(uf, method, *inputs, **kwargs)
        if kwargs:
            raise Unsupported('ufunc keywords %s' % list(kwargs))
        r = ufunc(uf.__name__, *inputs)
        if out:
            o = out[0]
            if not isinstance(o, SymArray):
                raise Unsupported('out= of a concrete array')
            g, k = r.elem, o.kind
            o._write(lambda old: lambda I: cast(g(I), k))
            return o
        return r

    def __array_function__(self, func, types, args, kwargs):
        from . import npm
        m = npm.MODELS.get(func.__name__)
        if m is None:
            raise Unsupported('numpy.' + func.__name__)
        return m(*args, **kwargs)

    def __array__(self, *a, **k):
        raise Unsupported('conversion of a symbolic array to a concrete one')

    # -- methods delegating to the models
    def setflags(self, write=None, align=None, uic=None):
        if write is not None:
            self.flags['WRITEABLE'] = bool(write)

    def __getattr__(self, name):
        if name.startswith('_'):
            raise AttributeError(name)
        from . import npm
        m = npm.METHODS.get(name)
        if m is None:
            if hasattr(_np.ndarray, name):
                raise Unsupported('ndarray.' + name)
            raise AttributeError(name)
        return lambda *a, **k: m(self, *a, **k)


def cast(t, kind):
    if kind == 'f':
        return toreal(t)
    if kind == 'i' and isinstance(t, T):
        raise Unsupported('cast of a real to an integer')
    if kind == 'i' and isinstance(t, Cond):
        return iite(t, 1, 0)
    if kind == 'b' and isinstance(t, Ix):
        return cnot(ceq(t, 0))
    return t


def ite_kind(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if isinstance(a, T) or isinstance(b, T):
        return ite(c, toreal(a), toreal(b))
    if isinstance(a, Cond) and isinstance(b, Cond):
        return cor(cand(c, a), cand(cnot(c), b))
    if isinstance(a, Cond):
        a = iite(a, 1, 0)
    if isinstance(b, Cond):
        b = iite(b, 1, 0)
    return iite(c, a, b)


def slice_(k, n):
    """(start, length, step) of a slice on an axis of size n"""
    step = 1 if k.step is None else k.step
    if isinstance(step, SInt) or step not in (1, -1):
        if isinstance(step, int) and step > 1 and n.is_const:
            r = range(n.c)[k]
            return Ix(r.start), Ix(len(r)), r.step
        raise Unsupported('slice step %r' % (step,))

    def bound(x, default):
        if x is None:
            return default
        i = toix(x)
        if i.is_const and i.c < 0:
            j = iadd(n, i)
            if Engine.cur is not None and eng().facts.decide(cle(0, j)) is not True:
                j = j if eng().decide(cle(0, j)) else Ix(0)
            return j
        if Engine.cur is None:
            return i
        if not i.is_const and eng().facts.decide(cle(0, i)) is not True:
            if not eng().decide(cle(0, i)):
                i = iadd(n, i)
                if not eng().decide(cle(0, i)):
                    return Ix(0)
        if eng().facts.decide(cle(i, n)) is not True:
            return i if eng().decide(cle(i, n)) else n
        return i
    if step == 1:
        a, b = bound(k.start, Ix(0)), bound(k.stop, n)
        ln = isub(b, a)
        if ln.is_const:
            ln = Ix(max(ln.c, 0))
        elif Engine.cur is not None and eng().facts.decide(cle(0, ln)) is not True:
            ln = ln if eng().decide(cle(0, ln)) else Ix(0)
        return a, ln, 1
    if k.start is None and k.stop is None:
        return isub(n, 1), n, -1
    raise Unsupported('reversed slice')


def wrap_scalar(e, kind):
    if kind == 'f':
        return scalar(e)
    if kind == 'i':
        return mkint(e)
    return _np.bool_(e is TRUE) if e is TRUE or e is FALSE else SBool(e)


def scalar(t):
    return SymArray((), lambda I: t, 'f', scalar=True)


def is_sym(x):
    return isinstance(x, (SymArray, SInt, SBool))


def lift(x):
    """anything array-like -> SymArray"""
    if isinstance(x, SymArray):
        return x
    if isinstance(x, SInt):
        return SymArray((), lambda I: x.ix, 'i', scalar=True)
    if isinstance(x, SBool):
        return SymArray((), lambda I: x.c, 'b', scalar=True)
    if isinstance(x, (bool, _np.bool_)):
        c = cbool(bool(x))
        return SymArray((), lambda I: c, 'b', scalar=True)
    if isinstance(x, (int, _np.integer)):
        i = Ix(int(x))
        return SymArray((), lambda I: i, 'i', scalar=True)
    if isinstance(x, (float, _np.floating, Fraction)):
        t = const(float(x) if not isinstance(x, Fraction) else x)
        return SymArray((), lambda I: t, 'f', scalar=True)
    if isinstance(x, T):
        return scalar(x)
    if isinstance(x, _np.ndarray):
        return lift_nd(x)
    if isinstance(x, (list, tuple, range)):
        from . import npm
        return npm.from_list(x)
    if hasattr(x, '__array__') and not isinstance(x, type):
        return lift(x.__array__())
    raise Unsupported('cannot lift %r' % (type(x),))


def lift_nd(x):
    k = x.dtype.kind
    if k == 'O':
        vals = [v for v in x.ravel()]
        if builtins.all(is_intlike(v) for v in vals):
            kind, conv = 'i', toix
        elif builtins.all(isinstance(v, (bool, _np.bool_, SBool)) for v in vals):
            kind, conv = 'b', tocond
        else:
            kind, conv = 'f', toreal
    elif k in 'iu':
        kind, conv = 'i', toix
    elif k == 'b':
        kind, conv = 'b', tocond
    elif k == 'f':
        kind, conv = 'f', toreal
    else:
        raise Unsupported('dtype %s' % x.dtype)
    shape = x.shape
    tab = {}
    for I in _np.ndindex(*shape):
        tab[I] = conv(x[I])
    vals = set(tab.values())
    if len(vals) == 1:
        v, = vals
        return SymArray(shape, lambda I: v, kind)

    def elem(I):
        # an index outside of the array is in a branch that is not taken
        I = tuple(Ix(min(max(i.c, 0), n - 1)) if i.is_const else i for i, n in zip(I, shape))
        if builtins.all(i.is_const for i in I):
            return tab[tuple(i.c for i in I)]
        fixed = {k: i.c for k, i in enumerate(I) if i.is_const}
        cand_ = [J for J in tab if builtins.all(J[k] == c for k, c in fixed.items())]
        r = tab[cand_[-1]]
        for J in reversed(cand_[:-1]):
            r = ite_kind(cand(*[ceq(i, j) for i, j in zip(I, J)]), tab[J], r)
        return r
    if len(tab) > 400:
        raise Unsupported('concrete array too large to lift')
    return SymArray(shape, elem, kind)


def same_size(a, b):
    """decides (forking) whether two sizes are equal"""
    if a is b:
        return True
    if Engine.cur is None:
        raise Unsupported('sizes %s and %s' % (a, b))
    return eng().decide(ceq(a, b))


def bshape(shapes):
    n = max([len(s) for s in shapes] + [0])
    out = []
    for k in range(n):
        cur = Ix(1)
        for s in shapes:
            j = k - n + len(s)
            if j < 0:
                continue
            d = s[j]
            if d.is_const and d.c == 1 or d is cur:
                continue
            if cur.is_const and cur.c == 1:
                cur = d
            elif d.is_const and cur.is_const:
                raise ValueError('operands could not be broadcast together')
            elif not same_size(cur, d):
                if eng().decide(ceq(d, 1)):
                    raise Unsupported('symbolic size equal to one')
                if eng().decide(ceq(cur, 1)):
                    raise Unsupported('symbolic size equal to one')
                raise ValueError('operands could not be broadcast together with sizes %s %s' % (cur, d))
        out.append(cur)
    return tuple(out)


def bget(x, shape):
    """element function of x broadcast to shape"""
    f, k = x.elem, len(shape) - x.ndim
    own = x.shape_

    def g(I):
        I = I[k:]
        return f(tuple(Ix(0) if s.is_const and s.c == 1 else i for s, i in zip(own, I)))
    return g


def r1(f):
    return lambda a: f(toreal(a))


def _cmp(op):
    def f(a, b):
        if isinstance(a, T) or isinstance(b, T):
            a, b = toreal(a), toreal(b)
            if op == 'equal':
                return rcond('rz', sub(a, b))
            if op == 'not_equal':
                return cnot(rcond('rz', sub(a, b)))
            if op == 'less_equal':
                return rcond('rle', sub(a, b))
            if op == 'greater_equal':
                return rcond('rle', sub(b, a))
            if op == 'less':
                return cnot(rcond('rle', sub(b, a)))
            return cnot(rcond('rle', sub(a, b)))
        if isinstance(a, Cond):
            if isinstance(b, Cond):
                e = cor(cand(a, b), cand(cnot(a), cnot(b)))
                if op == 'equal':
                    return e
                if op == 'not_equal':
                    return cnot(e)
            a = iite(a, 1, 0)
        if isinstance(b, Cond):
            b = iite(b, 1, 0)
        return {'equal': ceq, 'not_equal': lambda x, y: cnot(ceq(x, y)),
                'less': clt, 'less_equal': cle,
                'greater': lambda x, y: clt(y, x),
                'greater_equal': lambda x, y: cle(y, x)}[op](a, b)
    return f


def as_index(t):
    """Ix with the value of an integer linear term, or None"""
    o, a = t.op, t.args
    if o == 'c':
        return Ix(int(a[0])) if a[0].denominator == 1 else None
    if o == 'int':
        return a[0]
    if o == 'add':
        r = Ix(0)
        for x in a[0]:
            y = as_index(x)
            if y is None:
                return None
            r = iadd(r, y)
        return r
    if o == 'mul':
        r = Ix(1)
        for x in a[0]:
            y = as_index(x)
            if y is None:
                return None
            r = imul(r, y)
        return r
    if o == 'ite' and a[0].op not in ('rz', 'rle'):
        x, y = as_index(a[1]), as_index(a[2])
        return None if x is None or y is None else iite(a[0], x, y)
    return None


def rcond(op, t):
    if t.op == 'c':
        return cbool(t.args[0] == 0 if op == 'rz' else t.args[0] <= 0)
    i = as_index(t)
    if i is None:
        # quotient of integers: clear the denominator (positive on this path)
        r = as_ratio(t)
        e = Engine.cur
        if r is not None and e is not None and not r[1].is_const \
                and e.facts.decide(cle(1, r[1])) is True:
            i = r[0]
    if i is not None:
        return ceq(i, 0) if op == 'rz' else cle(i, 0)
    return Cond(op, (t,))


def as_ratio(t):
    """(n, d) with t = n / d, integers, or None"""
    o, a = t.op, t.args
    i = as_index(t)
    if i is not None:
        return i, Ix(1)
    if o == 'c':
        return Ix(a[0].numerator), Ix(a[0].denominator)
    if o == 'pow' and a[1].op == 'c' and a[1].args[0] == -1:
        i = as_index(a[0])
        return None if i is None else (Ix(1), i)
    if o in ('add', 'mul'):
        n, d = (Ix(0) if o == 'add' else Ix(1)), Ix(1)
        for x in a[0]:
            r = as_ratio(x)
            if r is None:
                return None
            if o == 'mul':
                n, d = imul(n, r[0]), imul(d, r[1])
            elif d is r[1]:
                n = iadd(n, r[0])
            else:
                n, d = iadd(imul(n, r[1]), imul(r[0], d)), imul(d, r[1])
        return n, d
    return None


def _arith(fi, fr):
    def f(a, b):
        if isinstance(a, Cond):
            a = iite(a, 1, 0)
        if isinstance(b, Cond):
            b = iite(b, 1, 0)
        if isinstance(a, Ix) and isinstance(b, Ix) and fi is not None:
            return fi(a, b)
        return fr(toreal(a), toreal(b))
    return f


def _minmax(name):
    def f(a, b):
        if isinstance(a, Ix) and isinstance(b, Ix):
            c = cle(a, b)
            return iite(c, a, b) if name == 'min' else iite(c, b, a)
        a, b = toreal(a), toreal(b)
        if a.op == 'c' and b.op == 'c':
            return T('c', (min if name == 'min' else max)(a.args[0], b.args[0]))
        c = rcond('rle', sub(a, b))
        e = Engine.cur
        if isinstance(e, Engine) and c.op == 'rle':
            N = Norm(e.facts, e.rsubst)
            s = N.strict_sign(N.norm(sub(a, b)))
            if s is not None:
                c = cbool(s < 0)
        return ite(c, a, b) if name == 'min' else ite(c, b, a)
    return f


def _sign(a):
    if isinstance(a, Ix):
        return iite(ceq(a, 0), 0, iite(cle(a, 0), -1, 1))
    return fn('sign', toreal(a))


def _pow(a, b):
    if isinstance(a, Cond):
        a = iite(a, 1, 0)
    if isinstance(a, Ix) and isinstance(b, Ix) and b.is_const and b.c >= 0:
        r = Ix(1)
        for _ in range(b.c):
            r = imul(r, a)
        return r
    return power(toreal(a), toreal(b))


UF = {
    'add': (2, _arith(iadd, add)), 'subtract': (2, _arith(isub, sub)),
    'multiply': (2, _arith(imul, mul)), 'divide': (2, _arith(None, div)),
    'true_divide': (2, _arith(None, div)),
    'floor_divide': (2, _arith(idiv, lambda a, b: fn('floor', div(a, b)))),
    'remainder': (2, _arith(imod, lambda a, b: (_ for _ in ()).throw(Unsupported('mod')))),
    'power': (2, _pow), 'float_power': (2, _pow),
    'negative': (1, lambda a: ineg(a) if isinstance(a, Ix) else neg(toreal(a))),
    'positive': (1, lambda a: a),
    'exp': (1, r1(lambda a: fn('exp', a))), 'log': (1, r1(lambda a: fn('log', a))),
    'expm1': (1, r1(lambda a: sub(fn('exp', a), ONE))),
    'log1p': (1, r1(lambda a: fn('log', add(ONE, a)))),
    'sqrt': (1, r1(lambda a: power(a, const(0.5)))),
    'square': (1, lambda a: imul(a, a) if isinstance(a, Ix) else mul(toreal(a), toreal(a))),
    'reciprocal': (1, r1(inv)),
    'arctan': (1, r1(lambda a: fn('arctan', a))), 'tanh': (1, r1(lambda a: fn('tanh', a))),
    'sin': (1, r1(lambda a: fn('sin', a))), 'cos': (1, r1(lambda a: fn('cos', a))),
    'expit': (1, r1(lambda a: inv(add(ONE, fn('exp', neg(a)))))),
    'gammaln': (1, r1(lambda a: fn('gammaln', a))),
    'ndtri': (1, r1(lambda a: fn('ndtri', a))),
    'absolute': (1, lambda a: iite(cle(0, a), a, ineg(a)) if isinstance(a, Ix) else fn('abs', toreal(a))),
    'sign': (1, _sign),
    'minimum': (2, _minmax('min')), 'maximum': (2, _minmax('max')),
    'equal': (2, _cmp('equal')), 'not_equal': (2, _cmp('not_equal')),
    'less': (2, _cmp('less')), 'less_equal': (2, _cmp('less_equal')),
    'greater': (2, _cmp('greater')), 'greater_equal': (2, _cmp('greater_equal')),
    'logical_and': (2, lambda a, b: cand(tc(a), tc(b))),
    'logical_or': (2, lambda a, b: cor(tc(a), tc(b))),
    'bitwise_and': (2, lambda a, b: cand(tc(a), tc(b))),
    'bitwise_or': (2, lambda a, b: cor(tc(a), tc(b))),
    'logical_not': (1, lambda a: cnot(tc(a))), 'invert': (1, lambda a: cnot(tc(a))),
    'isfinite': (1, lambda a: TRUE), 'isnan': (1, lambda a: FALSE),
    'heaviside': None,
}


def tc(a):
    if isinstance(a, Cond):
        return a
    if isinstance(a, Ix):
        return cnot(ceq(a, 0))
    raise Unsupported('logical operation on reals')


def kind_of(e):
    return 'f' if isinstance(e, T) else 'i' if isinstance(e, Ix) else 'b'


KINDS = {'equal': 'b', 'not_equal': 'b', 'less': 'b', 'less_equal': 'b', 'greater': 'b',
         'greater_equal': 'b', 'logical_and': 'b', 'logical_or': 'b', 'logical_not': 'b',
         'invert': 'b', 'bitwise_and': 'b', 'bitwise_or': 'b', 'isfinite': 'b', 'isnan': 'b'}
KEEP = ('add', 'subtract', 'multiply', 'negative', 'positive', 'square', 'absolute', 'sign',
        'minimum', 'maximum', 'floor_divide', 'remainder')


def ufunc(name, *args):
    if UF.get(name) is None:
        raise Unsupported('ufunc ' + name)
    xs = [lift(a) for a in args]
    if name in ('multiply', 'add') and builtins.all(x.kind == 'b' for x in xs):
        name = 'logical_and' if name == 'multiply' else 'logical_or'
    n, f = UF[name]
    if len(xs) != n:
        raise Unsupported('ufunc %s with %d arguments' % (name, len(xs)))
    shp = bshape([x.shape_ for x in xs])
    gs = [bget(x, shp) for x in xs]
    if name in KINDS:
        kind = KINDS[name]
    elif name in KEEP and builtins.all(x.kind != 'f' for x in xs):
        kind = 'i'
    elif name in ('power',) and builtins.all(x.kind != 'f' for x in xs):
        e = f(*[g((Ix(0),) * len(shp)) for g in gs]) if not shp else None
        kind = kind_of(e) if e is not None else 'f'
        if kind == 'f':
            f0 = f
            f = lambda a, b: toreal(f0(a, b))
    else:
        kind = 'f'

    def elem(I):
        return f(*[g(I) for g in gs])
    if kind == 'f' and name in KEEP + ('power',):
        f1 = f

        def elem(I):
            return toreal(f1(*[g(I) for g in gs]))
    if not shp:
        e = elem(())
        if kind == 'i':
            return mkint(e)
        if kind == 'b':
            return wrap_scalar(e, "b")
        return scalar(e)
    return SymArray(shp, elem, kind)


def binop(name, a, b):
    for x in (b, a):
        if not isinstance(x, (SymArray, _np.ndarray, _np.generic, SInt, SBool)) and \
                getattr(type(x), '__array_ufunc__', None) is not None:
            return x.__array_ufunc__(getattr(_np, name), '__call__', a, b)
    for x in (a, b):
        if not (is_sym(x) or isinstance(x, (int, float, _np.ndarray, _np.generic, list, tuple, Fraction))):
            if hasattr(x, '__array__'):
                continue
            return NotImplemented
    return ufunc(name, a, b)


# --- boolean compression ---------------------------------------------------
def compress(a, mask):
    """a[mask]: contract of boolean indexing.  The k-th selected entry (row
    major) has coordinates POS(mask)(k)."""
    if mask.ndim > a.ndim:
        raise IndexError('too many indices for array')
    if mask.ndim != a.ndim:
        raise Unsupported('boolean mask of lower rank')
    for s, t in zip(mask.shape_, a.shape_):
        if not same_size(s, t):
            raise IndexError('boolean index did not match indexed array')
    from . import npm
    en = npm.enum_mask(mask)
    f = a.elem
    return SymArray((en.count,), lambda I: f(en.pos(I[0])), a.kind)
