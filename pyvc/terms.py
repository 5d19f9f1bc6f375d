"""Real terms: syntax, formal derivative, numeric evaluation."""
import math
from fractions import Fraction
from .index import *
from . import index as I

_cnt = [0]


def fresh(base='k'):
    _cnt[0] += 1
    return '%s~%d' % (base, _cnt[0])


class T(object):
    __slots__ = ('op', 'args', 'id', '_vars', '_key')
    _tab = {}

    def __new__(cls, op, *args):
        k = (op, args)
        r = cls._tab.get(k)
        if r is None:
            r = object.__new__(cls)
            r.op, r.args, r.id = op, args, len(cls._tab)
            r._vars = None
            r._key = None
            cls._tab[k] = r
        return r

    def __hash__(self):
        return self.id

    def __eq__(self, o):
        return self is o

    @property
    def key(self):
        if self._key is None:
            self._key = show(self)
        return self._key

    def ixvars(self):
        if self._vars is None:
            self._vars = _tvars(self)
        return self._vars

    def subst(self, m):
        return tsubst(self, m)

    def __repr__(self):
        s = show(self)
        return s if len(s) < 400 else s[:400] + '...'


def const(x):
    if isinstance(x, Fraction):
        return T('c', x)
    if isinstance(x, float) and x != x:
        return T('fn', 'nan', ())
    if isinstance(x, float) and x in (float('inf'), float('-inf')):
        return T('fn', 'inf' if x > 0 else 'ninf', ())
    return T('c', Fraction(x))


ZERO, ONE = T('c', Fraction(0)), T('c', Fraction(1))


def real(x):
    if isinstance(x, T):
        return x
    if isinstance(x, Ix):
        return fromint(x)
    return const(x)


def fromint(a):
    return T('c', Fraction(a.c)) if a.is_const else T('int', a)


def add(*xs):
    out, c = [], Fraction(0)
    for x in xs:
        if x.op == 'c':
            c += x.args[0]
        else:
            out.append(x)
    if c != 0:
        out.append(T('c', c))
    if not out:
        return ZERO
    return out[0] if len(out) == 1 else T('add', tuple(out))


def mul(*xs):
    out, c = [], Fraction(1)
    for x in xs:
        if x.op == 'c':
            c *= x.args[0]
        else:
            out.append(x)
    if c == 0:
        return ZERO
    if c != 1 or not out:
        out.insert(0, T('c', c))
    return out[0] if len(out) == 1 else T('mul', tuple(out))


def neg(x):
    return mul(T('c', Fraction(-1)), x)


def sub(a, b):
    return add(a, neg(b))


def power(a, e):
    e = real(e)
    if e.op == 'c':
        if e.args[0] == 0:
            return ONE
        if e.args[0] == 1:
            return a
        if a.op == 'c' and e.args[0].denominator == 1 and (
                a.args[0] != 0 or e.args[0] > 0):
            return T('c', a.args[0] ** int(e.args[0]))
    return T('pow', a, e)


def inv(a):
    return power(a, const(-1))


def div(a, b):
    return mul(a, inv(b))


def fn(name, *args):
    return T('fn', name, tuple(args))


def arr(name, *ixs):
    return T('arr', name, tuple(ix(i) for i in ixs))


def ite(c, a, b):
    if c is TRUE or a is b:
        return a
    if c is FALSE:
        return b
    return T('ite', c, a, b)


def delta(a, b):
    return ite(ceq(a, b), ONE, ZERO)


def fact(a):
    a = ix(a)
    if a.is_const and a.c >= 0:
        return T('c', Fraction(math.factorial(a.c)))
    return T('fact', a)


def tsum(v, n, body):
    """v: Ix variable"""
    n = ix(n)
    if body is ZERO or (n.is_const and n.c <= 0):
        return ZERO
    (atom, _), = v.t
    if n.is_const and n.c <= 4:
        return add(*[tsubst(body, {atom: Ix(i)}) for i in range(n.c)])
    return T('sum', atom, n, body)


# --- traversals ------------------------------------------------------------
def _tvars(t):
    o, a = t.op, t.args
    if o == 'c':
        return frozenset()
    if o in ('add', 'mul'):
        return frozenset().union(*[x.ixvars() for x in a[0]])
    if o == 'fn':
        return frozenset().union(*[x.ixvars() for x in a[1]])
    if o == 'pow':
        return a[0].ixvars() | a[1].ixvars()
    if o == 'arr':
        return frozenset().union(*[ivars(x) for x in a[1]]) if a[1] else frozenset()
    if o in ('int', 'fact'):
        return ivars(a[0])
    if o == 'ite':
        return cvars(a[0]) | a[1].ixvars() | a[2].ixvars()
    if o == 'sum':
        return ivars(a[1]) | (a[2].ixvars() - {a[0]})
    raise ValueError(o)


def tsubst(t, m, memo=None):
    """m: dict index atom -> Ix (binder names are globally unique)"""
    if not m:
        return t
    if memo is None:
        memo = {}
    keys = frozenset(m)
    simple = all(k[0] == 'v' for k in keys)

    def go(t):
        if simple and not (t.ixvars() & keys):
            return t
        r = memo.get(t)
        if r is not None:
            return r
        o, a = t.op, t.args
        if o == 'c':
            r = t
        elif o == 'add':
            r = add(*[go(x) for x in a[0]])
        elif o == 'mul':
            r = mul(*[go(x) for x in a[0]])
        elif o == 'fn':
            r = T('fn', a[0], tuple(go(x) for x in a[1]))
        elif o == 'pow':
            r = power(go(a[0]), go(a[1]))
        elif o == 'arr':
            r = T('arr', a[0], tuple(isubst(x, m) for x in a[1]))
        elif o == 'int':
            r = fromint(isubst(a[0], m))
        elif o == 'fact':
            r = fact(isubst(a[0], m))
        elif o == 'ite':
            r = ite(csubst(a[0], m), go(a[1]), go(a[2]))
        elif o == 'sum':
            r = tsum(Ix(0, ((a[0], 1),)), isubst(a[1], m), go(a[2]))
        else:
            raise ValueError(o)
        memo[t] = r
        return r
    return go(t)


def show(t):
    o, a = t.op, t.args
    if o == 'c':
        return str(a[0])
    if o == 'add':
        return '(' + ' + '.join(show(x) for x in a[0]) + ')'
    if o == 'mul':
        return '*'.join(show(x) for x in a[0])
    if o == 'fn':
        return '%s(%s)' % (a[0], ','.join(show(x) for x in a[1]))
    if o == 'pow':
        return '%s**(%s)' % (show(a[0]), show(a[1]))
    if o == 'arr':
        return '%s[%s]' % (a[0], ','.join(x.key for x in a[1]))
    if o == 'int':
        return '#' + a[0].key
    if o == 'fact':
        return '(%s)!' % a[0].key
    if o == 'ite':
        return 'ite(%s,%s,%s)' % (a[0].key, show(a[1]), show(a[2]))
    return 'SUM{%s<%s}(%s)' % (a[0][1], a[1].key, show(a[2]))


# --- arrays ----------------------------------------------------------------
class Sym(object):
    """Declaration of an uninterpreted real array (function of indices).

    deriv: dict  name of a base array -> function (ixs, wrt_ixs) -> T
           (the derivative contract of the array; absent = constant)
    positive: the contract states that every entry is > 0
    domain: (lo, hi) of the values used by the numeric refuter
    """

    def __init__(self, name, rank, deriv=None, domain=(0.2, 0.8), base=False,
                 positive=False, bounds=None, spread=None):
        self.spread = spread        # smallest value of concrete runs over orders of magnitude
        self.bounds = bounds        # the contract bounds every entry (open interval)
        self.name, self.rank, self.deriv = name, rank, deriv or {}
        self.domain, self.base, self.positive = domain, base, positive
        SYMS[name] = self

    def __getitem__(self, ixs):
        if not isinstance(ixs, tuple):
            ixs = (ixs,)
        return arr(self.name, *ixs)


SYMS = {}


def D(t, wrt, wix, memo=None):
    """Formal partial derivative of t with respect to the entry wix of the
    base array wrt (wix: tuple of Ix)."""
    if memo is None:
        memo = {}

    def go(t):
        r = memo.get(t)
        if r is None:
            r = memo[t] = step(t)
        return r

    def step(t):
        o, a = t.op, t.args
        if o in ('c', 'int', 'fact'):
            return ZERO
        if o == 'add':
            return add(*[go(x) for x in a[0]])
        if o == 'mul':
            xs = a[0]
            out = []
            for k, x in enumerate(xs):
                d = go(x)
                if d is not ZERO:
                    out.append(mul(*(xs[:k] + (d,) + xs[k + 1:])))
            return add(*out)
        if o == 'pow':
            b, e = a
            out = ZERO
            db, de = go(b), go(e)
            if db is not ZERO:
                out = mul(e, power(b, add(e, const(-1))), db)
            if de is not ZERO:
                out = add(out, mul(t, fn('log', b), de))
            return out
        if o == 'fn':
            f, xs = a
            out = []
            for k, x in enumerate(xs):
                d = go(x)
                if d is not ZERO:
                    out.append(mul(dfn(f, xs, k, t), d))
            return add(*out)
        if o == 'arr':
            name, ixs = a
            if name == wrt:
                return mul(*[delta(i, j) for i, j in zip(ixs, wix)])
            s = SYMS.get(name)
            if s is None:
                return ZERO
            d = s.deriv.get(wrt)
            if d is None and '*' in s.deriv:
                return s.deriv['*'](ixs, wrt, wix)
            return ZERO if d is None else d(ixs, wix)
        if o == 'ite':
            # outside of the boundary between the branches
            if a[0].op == 'rz' and go(a[0].args[0]) is not ZERO:
                raise Undefined('derivative across a real-valued branch')
            return ite(a[0], go(a[1]), go(a[2]))
        if o == 'sum':
            return tsum(Ix(0, ((a[0], 1),)), a[1], go(a[2]))
        raise ValueError(o)
    return go(t)


class Undefined(Exception):
    pass


def dfn(f, xs, k, t):
    x = xs[0]
    if f == 'exp':
        return t
    if f == 'log':
        return inv(x)
    if f == 'arctan':
        return inv(add(ONE, mul(x, x)))
    if f == 'sin':
        return fn('cos', x)
    if f == 'cos':
        return neg(fn('sin', x))
    if f == 'tanh':
        return sub(ONE, mul(t, t))
    if f == 'gammaln':
        return fn('digamma', x)
    raise Undefined('derivative of %s' % f)


# --- numeric evaluation ----------------------------------------------------
import hashlib


def hval(seed, name, idx, lo, hi):
    h = hashlib.blake2b(repr((seed, name, idx)).encode(), digest_size=8).digest()
    return lo + (hi - lo) * (int.from_bytes(h, 'big') / 2.0 ** 64)


class Interp(object):
    """A concrete interpretation: integers for index variables, hashed values
    for arrays and uninterpreted index functions."""

    wide = False        # values over several orders of magnitude
    hints = ()          # numbers the conditions compare with
    beyond = True       # values outside the domain, as far as the contract allows them

    def __init__(self, seed=0, ints=None, rsubst=None, domains=None):
        self.seed, self.ints = seed, dict(ints or {})
        self.rsubst = rsubst or {}
        self.domains = domains or {}
        self.memo = {}
        self.choices = {}

    def ix(self, a):
        r = a.c
        for x, m in a.t:
            r += m * self.atom(x)
        return r

    def atom(self, x):
        if x in self.ints:
            return self.ints[x]
        if x[0] == 'v':
            raise KeyError(x)
        if x[0] == 'f':
            idx = tuple(self.ix(i) for i in x[2])
            k = (x[1], idx)
            if k in self.ints:
                return self.ints[k]
            hook = IFUN.get(x[1])
            if hook is not None:
                return hook(self, idx)
            raise KeyError(k)
        if x[0] == 'ite':
            return self.ix(x[2] if self.cond(x[1]) else x[3])
        a, b = self.ix(x[1]), self.ix(x[2])
        return a * b if x[0] == 'mul' else a // b if x[0] == 'div' else a % b

    def cond(self, c):
        o = c.op
        if o == 'true':
            return True
        if o == 'false':
            return False
        if o == 'eq':
            return self.ix(c.args[0]) == 0
        if o == 'le':
            return self.ix(c.args[0]) <= 0
        if o == 'and':
            return all(self.cond(x) for x in c.args)
        if o == 'not':
            return not self.cond(c.args[0])
        if o == 'bf':
            idx = tuple(self.ix(i) for i in c.args[1])
            return hval(self.seed, c.args[0], idx, 0, 1) < 0.5
        if o == 'rz':
            return abs(self.ev(c.args[0])) < 1e-12
        return self.ev(c.args[0]) <= 0

    def array(self, name, idx):
        if (name, idx) in self.rsubst:
            return self.rsubst[name, idx]
        s = SYMS.get(name)
        lo, hi = self.domains.get(name, s.domain if s else (0.2, 0.8))
        if self.hints:
            v = self.hinted(s, name, idx, lo, hi)
            if v is not None:
                return v
        if s is not None and s.spread and self.wide:
            return math.exp(hval(self.seed, name, idx, math.log(s.spread), math.log(hi)))
        return hval(self.seed, name, idx, lo, hi)

    def hinted(self, s, name, idx, lo, hi):
        """a value at, or on either side of, a number of the conditions"""
        q = lambda what, n: min(n - 1, int(hval(self.seed, (what, name), idx, 0, n)))
        if q('hint?', 10) < 4:
            return None
        hs = self.hints
        if s is not None and s.bounds:
            hs = [h for h in hs if s.bounds[0] <= h <= s.bounds[1]]
            if not hs:
                return None
        h = hs[q('hint', len(hs))]
        k = q('side', 9)
        free = (lo, hi) == (0.2, 0.8) and not (s is not None and (s.positive or s.bounds))
        for j in range(k // 2, 9):
            v = h if k == 8 else h + (1, -1)[k % 2] * 10. ** -j * (max(1., abs(h)) if j else 1.) * hval(
                self.seed, ('step', name), idx, .2, 1)
            if s is not None and s.bounds and not s.bounds[0] < v < s.bounds[1]:
                continue
            if free or v > 0 >= -lo and (self.beyond or lo <= v <= hi) or lo < 0 and lo <= v <= hi:
                break
        else:
            return None
        return v

    def ev(self, t):
        closed = not any(v[1].find('~') > 0 for v in t.ixvars())
        if closed and t in self.memo:
            return self.memo[t]
        r = self._ev(t)
        if closed:
            self.memo[t] = r
        return r

    def _ev(self, t):
        o, a = t.op, t.args
        if o == 'c':
            return float(a[0])
        if o == 'add':
            return math.fsum(self.ev(x) for x in a[0])
        if o == 'mul':
            r = 1.0
            for x in a[0]:
                v = self.ev(x)
                if v == 0:
                    return 0.0
                r *= v
            return r
        if o == 'pow':
            b, e = self.ev(a[0]), self.ev(a[1])
            if b == 0 and e == 0:
                return 1.0
            return b ** e
        if o == 'fn':
            return NUM[a[0]](*[self.ev(x) for x in a[1]])
        if o == 'arr':
            return self.array(a[0], tuple(self.ix(i) for i in a[1]))
        if o == 'int':
            return float(self.ix(a[0]))
        if o == 'fact':
            return float(math.factorial(self.ix(a[0])))
        if o == 'ite':
            return self.ev(a[1] if self.cond(a[0]) else a[2])
        if o == 'sum':
            r = []
            old = self.ints.get(a[0])
            for i in range(self.ix(a[1])):
                self.ints[a[0]] = i
                r.append(self.ev(a[2]))
            if old is None:
                self.ints.pop(a[0], None)
            else:
                self.ints[a[0]] = old
            return math.fsum(r)
        raise ValueError(o)


IFUN = {}


def _digamma(x):
    from scipy.special import digamma
    return float(digamma(x))


def _ndtri(x):
    from scipy.special import ndtri
    return float(ndtri(x))


def _quantile(x):
    from scipy.special import ndtri
    return max(-999., min(999., float(ndtri(x))))


def _ncdf(x):
    from scipy.special import ndtr
    return float(ndtr(x))


def _phi2(x, y, r):
    from scipy.stats.mvn import mvnun
    return float(mvnun((-999, -999), (x, y), (0, 0), ((1, r), (r, 1)))[0])


NUM = {'quantile': _quantile, 'ncdf': _ncdf, 'phi2': _phi2, 'exp': math.exp, 'log': math.log, 'arctan': math.atan, 'sin': math.sin,
       'cos': math.cos, 'tanh': math.tanh, 'gammaln': math.lgamma, 'digamma': _digamma,
       'nan': lambda: float('nan'), 'inf': lambda: float('inf'),
       'ninf': lambda: float('-inf'), 'ndtri': _ndtri,
       'abs': abs, 'sign': lambda x: (x > 0) - (x < 0),
       'max': max, 'min': min, 'hash': lambda *a: hval(0, 'hash', a, 0.2, 0.8)}
