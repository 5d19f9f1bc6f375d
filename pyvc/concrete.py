"""Concrete execution of obligations: the `run` of an obligation is executed
with the unpatched numpy on numeric inputs; its goals are evaluated in floating
point.  Used to find the failing input of a refuted obligation and as a
run-time cross check of the symbolic execution."""
import math
import itertools
import random
import warnings
import numpy as _np
from .index import *
from .terms import *
from . import terms as TT
from .sym import *
from . import sym as S


class Concrete(object):
    cur = None


class Env(Interp):
    """Interpretation drawn lazily from a seed"""

    def __init__(self, seed, ranges=None, domains=None, maxsize=3):
        Interp.__init__(self, seed, {}, {}, domains)
        self.ranges = {k: v for k, v in (ranges or {}).items()}
        self.maxsize = maxsize
        self.wide = seed % 2 == 1
        self.arrays = {}
        self.inputs = {}
        self.count = 0

    def atom(self, x):
        if x in self.ints:
            return self.ints[x]
        if x[0] == 'v':
            if x in self.ranges:
                raise KeyError(x)
            v = 1 + int(hval(self.seed, 'size', x, 0, self.maxsize))
            self.ints[x] = v
            return v
        if x[0] == 'f':
            idx = tuple(self.ix(i) for i in x[2])
            k = (x[1], idx)
            if k not in self.ints:
                hook = IFUN.get(x[1])
                if hook is None:
                    raise KeyError(k)
                self.ints[k] = hook(self, idx)
            return self.ints[k]
        return Interp.atom(self, x)

    def array(self, name, idx):
        a = self.arrays.get(name)
        if a is not None:
            return float(a[idx])
        return Interp.array(self, name, idx)

    def register(self, a):
        self.count += 1
        n = '#%d' % self.count
        self.arrays[n] = a
        return n


class FakeFacts(object):
    def __init__(self, env):
        self.env = env
        self.conds = ()

    def decide(self, c):
        return self.env.cond(c)

    def add(self, c):
        return self

    def consistent(self):
        return True


class FakeEngine(object):
    """decides every condition with the interpretation"""

    def __init__(self, env):
        self.facts = FakeFacts(env)
        self.env = env
        self.rsubst = {}
        self.frame = []
        self.notes = []

    def assume(self, c):
        if not self.env.cond(c):
            raise PathEnd('assumption')

    def decide(self, c):
        return self.env.cond(c)

    def decide_real(self, op, t):
        v = self.env.ev(t)
        return abs(v) < 1e-12 if op == 'rz' else v <= 0

    def simplify(self, t):
        raise Unsupported('simplify')

    def branch(self, n=2):
        return 0


# --- inputs (both modes) ---------------------------------------------------
def size(a):
    """size of an axis"""
    c = Concrete.cur
    if c is None:
        return mkint(ix(a))
    return c.ix(ix(a))


def inp(name, shape, domain=None, fun=None, kind='f', owner=None, declare=True):
    """input array `name`: symbolic, or numeric with the values of the
    interpretation.  fun: index -> element (default: array `name`; literal
    axes of length one read at 0)"""
    c = Concrete.cur
    shape = list(shape)
    if declare and name not in SYMS:
        Sym(name, len(shape), base=True, domain=domain or (0.2, 0.8))
    if fun is None:
        def fun(I):
            return arr(name, *[Ix(0) if toix(s) is Ix(1) and not isinstance(s, SInt) else i
                               for i, s in zip(I, shape)])
    if c is None:
        a = SymArray(shape, fun, kind, name=name)
        return a
    dims = [c.ix(toix(s)) for s in shape]
    out = _np.empty(dims, dtype={'f': float, 'i': int, 'b': bool}[kind])
    for I in _np.ndindex(*dims):
        e = fun(tuple(Ix(int(i)) for i in I))
        out[I] = c.ix(e) if kind == 'i' else c.cond(e) if kind == 'b' else c.ev(e)
    c.inputs[name] = out
    return out


def num(name, domain=None):
    """symbolic number, or its value"""
    c = Concrete.cur
    if name not in SYMS:
        Sym(name, 0, base=True, domain=domain or (0.2, 0.8))
    if c is None:
        return scalar(arr(name))
    v = c.array(name, ())
    c.inputs[name] = v
    return v


def view(a):
    """the array `a` (result of the code) as a symbolic array"""
    from . import npm
    c = Concrete.cur
    if c is None:
        return npm.asarray(a)
    if isinstance(a, SymArray):
        return a
    a = _np.asarray(a)
    if a.dtype == object:
        return S.lift(a)
    if a.ndim == 0:
        return S.lift(_np.asarray(a))
    n = c.register(_np.array(a))
    return SymArray(a.shape, lambda I: arr(n, *I), 'f')


# --- execution -------------------------------------------------------------
def close(a, b, rtol=1e-6, atol=1e-8):
    if a != a or b != b:
        return (a != a) == (b != b)
    if math.isinf(a) or math.isinf(b):
        return a == b
    return abs(a - b) <= atol + rtol * max(abs(a), abs(b))


def show(v):
    if isinstance(v, _np.ndarray):
        return v.tolist()
    return v


def run_concrete(ob, seed, maxsize=3, points=40, hints=(), beyond=False):
    """None (holds), 'skip', or a dict describing the failure"""
    if ob.conc is not None:
        with warnings.catch_warnings(), _np.errstate(all='ignore'):
            warnings.simplefilter('ignore')
            return ob.conc(seed)
    env = Env(seed, ob.ranges, ob.domains, maxsize)
    env.hints, env.beyond = tuple(hints), beyond
    old = Concrete.cur, Engine.cur
    try:
        for c in ob.conds:
            try:
                if not env.cond(c):
                    return 'skip'
            except KeyError:
                pass
        Concrete.cur, Engine.cur = env, FakeEngine(env)
        try:
            with warnings.catch_warnings(), _np.errstate(all='ignore'):
                warnings.simplefilter('ignore')
                goals = ob.run() or ()
        except PathEnd:
            return 'skip'
        except (Unsupported, Undefined, KeyError) as e:
            if isinstance(e, S.NotNumber):
                return dict(what='the result is not a number: %s' % e,
                            inputs={k: show(v) for k, v in env.inputs.items()})
            if isinstance(e, KeyError) and 'maxlike' in repr(e.__traceback__):
                raise
            return 'skip'
        except ob.allowed:
            return None
        except Exception as e:
            from .verify import where_in_repo
            import traceback
            if not where_in_repo(e):
                # the contract cannot read the result
                return dict(what='the result has not the form of the contract: %s(%s)' % (type(e).__name__, e),
                            inputs={k: show(v) for k, v in env.inputs.items()})
            return dict(what='raises %s(%s) at %s' % (type(e).__name__, e, where_in_repo(e)),
                        inputs={k: show(v) for k, v in env.inputs.items()})
        vs = sorted(ob.ranges, key=str)
        rng = random.Random(seed)
        try:
            sizes = [env.ix(ix(ob.ranges[v])) for v in vs]
        except KeyError:
            sizes = None
        if sizes is not None:
            tot = 1
            for s in sizes:
                tot *= s
            if tot == 0:
                return 'skip'
            if tot <= points:
                pts = list(itertools.product(*[range(s) for s in sizes]))
            else:
                pts = [tuple(rng.randrange(s) for s in sizes) for _ in range(points)]
        else:
            pts = []
            for _ in range(points):
                p = []
                for v in vs:
                    s = env.ix(ix(ob.ranges[v]))
                    if s <= 0:
                        break
                    env.ints[v] = rng.randrange(s)
                    p.append(env.ints[v])
                else:
                    pts.append(tuple(p))
        for pt in pts:
            env.ints.update(zip(vs, pt))
            env.memo = {}
            try:
                if not all(env.cond(c) for c in ob.conds):
                    continue
            except KeyError:
                continue
            for g in goals:
                bad = None
                if g.ok is not None:
                    if not g.ok:
                        bad = g.why or 'false'
                elif g.cond is not None:
                    try:
                        if not env.cond(g.cond):
                            bad = '%s does not hold' % (g.cond,)
                    except (KeyError, ValueError, ZeroDivisionError, OverflowError):
                        continue
                elif g.ge is not None or g.gt is not None:
                    continue        # stated for the conditions of a symbolic path
                elif g.pos is not None:
                    try:
                        a = env.ev(g.pos)
                    except (KeyError, ValueError, ZeroDivisionError, OverflowError, TypeError):
                        continue
                    if a < -1e-9:
                        bad = 'is %r' % (a,)
                else:
                    try:
                        b = env.ev(g.rhs)
                    except (KeyError, IndexError, ValueError, ZeroDivisionError, OverflowError, TypeError):
                        continue
                    if isinstance(b, complex) or b != b:
                        continue
                    try:
                        a = env.ev(g.lhs)
                    except IndexError as e:
                        bad = 'is missing: %s' % e
                        a = b
                    except (KeyError, ValueError, ZeroDivisionError, OverflowError):
                        continue
                    if not close(a, b):
                        bad = 'is %r instead of %r' % (a, b)
                if bad:
                    return dict(what='%s %s' % (g.name, bad),
                                at={v[1]: int(i) for v, i in zip(vs, pt)},
                                sizes={k[1]: v for k, v in env.ints.items()
                                       if k[0] == 'v' and k not in ob.ranges},
                                inputs={k: show(v) for k, v in env.inputs.items()})
        return None
    finally:
        Concrete.cur, Engine.cur = old


def search(ob, seed=1, tries=40, maxsize=3):
    """looks for a failing input of the obligation on the real code"""
    for k in range(tries):
        s = seed * 1000 + k
        r = run_concrete(ob, s, maxsize if k % 2 else min(2, maxsize))
        if isinstance(r, dict):
            r['seed'] = s
            r['maxsize'] = maxsize if k % 2 else min(2, maxsize)
            return r
    return None
