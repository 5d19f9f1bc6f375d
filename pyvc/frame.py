"""Frame conditions of the real code.

Every call of a function of maxlike made by the code of an obligation (not the
calls made inside of it) is recorded: what its operands hold before and after
it, what it returns, and whether the calls return the same when they are
repeated at the end.  The sizes and values stay symbolic; a write to an operand
shows as a new element function of the array that owns the memory, through any
chain of views."""
import array as _array
import functools
import sys
import types
import numpy as _np
from . import sym as S
from .sym import SymArray, SInt, SBool, Unsupported
from .terms import Undefined
from .index import var
from .verify import Goal
from .norm import Limit
from .concrete import Concrete

PKG = 'maxlike'
# change the receiver on purpose
BUILD = {'__init__', 'add', 'add_param', 'add_constraint', 'add_regularization', 'reset_params', 'fit',
         '__setattr__', '__delattr__'}
SKIP = {'__new__', '__hash__', '__repr__', '__str__', '__getattr__', '__getattribute__', '__array__',
        '__init_subclass__', '__class_getitem__'}
ENGINE = (Unsupported, Undefined, Limit)


class Call(object):
    __slots__ = ('name', 'fun', 'args', 'kw', 'out', 'before', 'after', 'snap', 'exc', 'build', 'touched', 'version', 'again')


class Record(object):
    cur = None

    def __init__(self):
        self.depth = 0
        self.calls = []
        self.version = 0        # of the functions and models: how often they were extended
        self.operands = {}      # arrays, tensors, parameters passed: object, first snapshot


# --- what an object holds ------------------------------------------------------
def slots(o):
    d = {}
    for c in type(o).__mro__:
        for k in getattr(c, '__slots__', ()):
            try:
                d[k] = object.__getattribute__(o, k)
            except AttributeError:
                pass
    d.update(getattr(o, '__dict__', {}))
    return d


def ours(o):
    return (type(o).__module__ or '').split('.')[0] == PKG


def value(o):
    return type(o).__name__ in ('Tensor', 'GenericTensor', 'Param')


def values(x, depth=0):
    """arrays, tensors and parameters in the arguments"""
    if isinstance(x, (SymArray, _np.ndarray, _array.array)) or ours(x) and value(x) or hasattr(type(x), 'snapshot_of_frame'):
        yield x
    elif isinstance(x, (list, tuple)) and depth < 4:
        for e in x:
            yield from values(e, depth + 1)
    elif isinstance(x, dict) and depth < 4:
        for e in x.values():
            yield from values(e, depth + 1)


class Snap(object):
    """content of some objects; keeps them alive, so that identities stay"""

    def __init__(self, x, deep=False):
        self.deep = deep        # with the state of functions and models
        self.keep = []
        self.seen = {}
        self.v = self.take(x)

    def take(self, x):
        if x is None or isinstance(x, (bool, int, float, complex, str, bytes, types.FunctionType, type)):
            return ('v', repr(x) if isinstance(x, (float, complex)) else x)
        if id(x) in self.seen:
            return ('seen', self.seen[id(x)])
        self.seen[id(x)] = len(self.seen)
        self.keep.append(x)
        if isinstance(x, SymArray):
            r = x
            while r.base is not None:
                r = r.base[0]
            self.keep += [r, r._elem]
            return ('sym', tuple(str(s) for s in x.shape_), id(r), id(r._elem))
        if isinstance(x, _np.ma.MaskedArray):
            return ('ma', self.take(_np.asarray(x.data)), self.take(_np.asarray(x.mask)))
        if isinstance(x, _np.ndarray):
            if x.dtype == object:
                return ('obj', x.shape, tuple(self.take(e) for e in x.ravel().tolist()))
            return ('arr', x.shape, str(x.dtype), x.tobytes())
        if isinstance(x, _np.generic):
            return ('v', repr(x))
        if isinstance(x, _array.array):
            return ('map', x.typecode, x.tobytes())
        if isinstance(x, SInt):
            return ('int', str(x.ix))
        if isinstance(x, SBool):
            return ('bool', x.c.key)
        if isinstance(x, (list, tuple)):
            return (type(x).__name__, tuple(self.take(e) for e in x), self.attrs(x) if ours(x) else None)
        if isinstance(x, dict):
            return ('dict', tuple((self.take(k), self.take(v)) for k, v in x.items()))
        if isinstance(x, (set, frozenset)):
            return ('set', frozenset(map(repr, x)))
        if ours(x) and (self.deep or value(x)):
            return (type(x).__name__, self.attrs(x))
        if hasattr(type(x), 'snapshot_of_frame'):
            return x.snapshot_of_frame()
        return ('id', id(x))

    def attrs(self, x):
        return tuple((k, self.take(v)) for k, v in sorted(slots(x).items()))


def where(a, b, path=''):
    """first difference of two snapshots"""
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        for k, (x, y) in enumerate(zip(a, b)):
            if x != y:
                lab = x[0] if isinstance(x, tuple) and x and isinstance(x[0], str) else k
                return where(x, y, '%s.%s' % (path, lab))
    return path or 'operand'


# --- recording -----------------------------------------------------------------
def wrap(f, name, method):
    if getattr(f, '__frame__', False):
        return f
    build = method and name.split('.')[-1] in BUILD

    @functools.wraps(f)
    def call(*args, **kw):
        R = Record.cur
        if R is None or R.depth:
            return f(*args, **kw)
        c = Call()
        c.name, c.fun, c.args, c.kw, c.exc, c.snap, c.out = name, f, args, kw, None, None, None
        c.build = build
        ops = (args[1:] if build else args, kw)
        for x in values(ops):
            if id(x) not in R.operands:
                R.operands[id(x)] = x, Snap(x)
        c.before = Snap(ops)
        state = None if build else Snap((ops, STATE and [f() for f in STATE]), True)
        R.depth += 1
        try:
            c.out = f(*args, **kw)
        except Exception as e:
            c.exc = e
            raise
        finally:
            R.depth -= 1
            c.after = Snap(ops)
            c.touched = state is not None and Snap((ops, STATE and [f() for f in STATE]), True).v != state.v
            c.again = None
            R.version += build and name.split('.')[-1] != '__init__'
            c.version = R.version
            R.calls.append(c)
            if c.exc is None and not build:
                c.snap = Snap(c.out)
                if c.touched or Concrete.cur is not None:
                    R.depth += 1
                    try:
                        repeat(c)
                    finally:
                        R.depth -= 1
        return c.out
    call.__frame__ = True
    return call


DONE = set()


def wrap_cut(f):
    """f with its loops cut, recorded like the function itself"""
    if Record.cur is None:
        return f
    method = f.__code__.co_varnames[:1] == ('self',)
    return wrap(f, f.__name__, method)


def repeat(c):
    """goals: the call returns the same when it is made again"""
    try:
        r = c.fun(*c.args, **c.kw)
    except ENGINE + (S.PathEnd,):
        if c.touched:
            raise Unsupported('state of a function')
        return
    except Exception as e:
        c.again = (c.again or []) + [Goal('same result again', ok=False, why='%s, then %s(%s)' % (
            c.name, type(e).__name__, e))]
        return
    c.again = c.again or []
    same(c.out, r, 'same result again', c.again)


STATE = []      # of the modules and classes: functions that return it


def state_of(m):
    """mutable contents and plain values of a module or class, defaults of functions"""
    d = vars(m)
    plain = [k for k, v in d.items() if not k.startswith('__') and isinstance(
        v, (list, dict, set, _array.array, int, float, str, _np.ndarray)) and v is not Record]
    if plain:
        STATE.append(lambda: [d.get(k) for k in plain])
    for v in list(d.values()):
        if hasattr(v, 'cache_info'):
            STATE.append(lambda v=v: v.cache_info().misses)
        f = v
        while f is not None:
            for a in (getattr(f, '__defaults__', None) or ()) if isinstance(f, types.FunctionType) else ():
                if isinstance(a, (list, dict, set)):
                    STATE.append(lambda a=a: a)
            f = getattr(f, '__wrapped__', None) if isinstance(f, types.FunctionType) else None


def patch():
    """all functions of the package record their calls"""
    for mn, m in list(sys.modules.items()):
        if mn.split('.')[0] != PKG or m is None or 'tests' in mn:
            continue
        if mn in DONE:
            continue
        DONE.add(mn)
        state_of(m)
        for n, v in list(vars(m).items()):
            if isinstance(v, types.FunctionType) and (v.__module__ or '').split('.')[0] == PKG:
                setattr(m, n, wrap(v, v.__name__, False))
            elif isinstance(v, type) and (v.__module__ or '').split('.')[0] == PKG and v.__module__ == mn \
                    and not issubclass(v, Exception) and not hasattr(v, '_member_map_'):
                state_of(v)
                for k, f in list(vars(v).items()):
                    if k in SKIP or not isinstance(f, types.FunctionType):
                        continue
                    setattr(v, k, wrap(f, '%s.%s' % (v.__name__, k), True))


# --- the same result -----------------------------------------------------------
def same(a, b, name, out, depth=0):
    """goals: two results hold the same"""
    if a is b or depth > 6:
        return
    if isinstance(a, SymArray) or isinstance(b, SymArray):
        if not (isinstance(a, SymArray) and isinstance(b, SymArray)):
            a, b = S.lift(a), S.lift(b)
        if [str(s) for s in a.shape_] != [str(s) for s in b.shape_]:
            if a.ndim != b.ndim:
                out.append(Goal(name, ok=False, why='rank'))
            else:
                for s, t in zip(a.shape_, b.shape_):
                    out.append(Goal(name, cond=S.ceq(s, t)))
            return
        if a.kind != b.kind:
            out.append(Goal(name, ok=False, why='kind'))
            return
        ixs = tuple(var('_fr%d' % k) for k in range(a.ndim))
        out.append(('elem', name, a, b, ixs))
        return
    if isinstance(a, _np.ndarray) or isinstance(b, _np.ndarray) or isinstance(a, _np.generic) \
            or isinstance(a, (int, float, complex)) and not isinstance(a, bool):
        try:
            ok = _np.shape(a) == _np.shape(b) and bool(_np.array_equal(_np.asarray(a), _np.asarray(b), equal_nan=True)
                                                        or _np.allclose(a, b, rtol=1e-12, atol=1e-300, equal_nan=True))
        except TypeError:
            ok = True
        out.append(Goal(name, ok=ok, why='%r, then %r' % (a, b)))
        return
    if isinstance(a, SInt) or isinstance(b, SInt):
        out.append(Goal(name, cond=S.ceq(S.toix(a), S.toix(b))))
        return
    if type(a) is not type(b):
        out.append(Goal(name, ok=False, why='%s, then %s' % (type(a).__name__, type(b).__name__)))
        return
    if isinstance(a, _array.array):
        out.append(Goal(name, ok=a == b, why='%r, then %r' % (a, b)))
        return
    if isinstance(a, (list, tuple)):
        if len(a) != len(b):
            out.append(Goal(name, ok=False, why='%d, then %d parts' % (len(a), len(b))))
            return
        for x, y in zip(a, b):
            same(x, y, name, out, depth + 1)
        return
    if isinstance(a, dict):
        if set(a) != set(b):
            out.append(Goal(name, ok=False, why='keys'))
            return
        for k in a:
            same(a[k], b[k], name, out, depth + 1)
        return
    if isinstance(a, str):
        out.append(Goal(name, ok=a == b, why='%r, then %r' % (a, b)))
        return
    if ours(a):
        x, y = slots(a), slots(b)
        for k in sorted(set(x) & set(y) - {'hash'}):
            same(x[k], y[k], name, out, depth + 1)


def elementwise(g):
    _, name, a, b, ixs = g
    if a.kind == 'b':
        x, y = a.elem(ixs), b.elem(ixs)
        return Goal(name, ok=True) if x.key == y.key else Goal(
            name, cond=S.cor(S.cand(x, y), S.cand(S.cnot(x), S.cnot(y))))
    if a.kind == 'i':
        return Goal(name, cond=S.ceq(a.elem(ixs), b.elem(ixs)))
    return Goal(name, a.ereal(ixs), b.ereal(ixs))


def frozen(x, name, out, depth=0):
    """the tensors and parameters refuse assignment to their entries"""
    if depth > 4:
        return
    if isinstance(x, (list, tuple)):
        for e in x:
            frozen(e, name, out, depth + 1)
    elif ours(x) and type(x).__name__ in ('Tensor', 'Param'):
        out.append(Goal(name, ok=not x.values.flags['WRITEABLE'], why='entries can be assigned'))
    elif ours(x) and type(x).__name__ == 'GenericTensor':
        for e in x.elements:
            frozen(e, name, out, depth + 1)


def framed(run, keep=None):
    """run: code of an obligation; returns code whose goals are the frame, and
    its own if there is keep: the exceptions that it may raise"""
    def code():
        patch()
        R = Record()
        old, Record.cur = Record.cur, R
        try:
            own = None
            try:
                own = run()
            except ENGINE:
                raise
            except Exception as e:
                if type(e).__module__.startswith('pyvc') or keep is not None and not isinstance(e, keep):
                    raise
            out = []
            if not R.calls:
                raise Unsupported('no call recorded')
            if keep is not None:
                out += own or ()
            for c in R.calls:
                ok = c.before.v == c.after.v
                out.append(Goal('operands unchanged', ok=ok, why='' if ok else '%s changes %s' % (
                    c.name, where(c.before.v, c.after.v))))
                if c.snap is not None:
                    now = Snap(c.out).v
                    ok = now == c.snap.v
                    out.append(Goal('results unchanged', ok=ok, why='' if ok else 'what %s returned changes later: %s' % (
                        c.name, where(c.snap.v, now))))
                    frozen(c.out, 'results frozen', out)
            for x, sn in R.operands.values():
                now = Snap(x).v
                out.append(Goal('operands unchanged at the end', ok=now == sn.v, why='%s changes: %s' % (
                    type(x).__name__, where(sn.v, now))))
            # nothing changed: the same code on the same operands.  Where the
            # state of a function changed, its calls have to agree when repeated
            R.depth = 1
            for c in R.calls:
                if c.touched and c.exc is None:
                    if c.version != R.version:
                        raise Unsupported('state of a function')
                    repeat(c)
                for g in c.again or ():
                    g = elementwise(g) if isinstance(g, tuple) else g
                    g.weak = True
                    out.append(g)
            return out
        finally:
            Record.cur = old
    return code
