"""Normal forms of real terms: generalized polynomials over atoms, with sums
over index ranges, Iverson brackets and inverses; decision of equalities by
case splitting on the index conditions (z3) and normalisation."""
import itertools
import math
import time
from fractions import Fraction
from .index import *
from .terms import *
from . import terms as TT


class Atom(object):
    """kinds: arr(name, ixs) fn(name, polys) int(ixatom) fact(ix) br(cond)
    sum(binders, poly) poly(poly) cst(Fraction)"""
    __slots__ = ('kind', 'args', 'key', 'h', 'vars', '_h')
    _tab = {}

    def __new__(cls, kind, *args):
        if kind == 'arr':
            key = '%s[%s]' % (args[0], ','.join(i.key for i in args[1]))
        elif kind == 'fn':
            key = '%s(%s)' % (args[0], ';'.join(p.key for p in args[1]))
        elif kind == 'sum':
            key = 'S{%s}(%s)' % (','.join('%s<%s' % (v[1], n.key) for v, n in args[0]), args[1].key)
        elif kind == 'int':
            key = '#' + akey(args[0])
        elif kind == 'cst':
            key = 'K' + str(args[0])
        else:
            key = kind + '{' + args[0].key + '}'
        r = cls._tab.get(key)
        if r is None:
            r = object.__new__(cls)
            r.kind, r.args, r.key = kind, args, key
            r._h = hash(key)
            if kind == 'arr':
                r.vars = frozenset().union(*[ivars(i) for i in args[1]]) if args[1] else frozenset()
                r.h = 0
            elif kind == 'fn':
                r.vars = frozenset().union(*[p.vars for p in args[1]]) if args[1] else frozenset()
                r.h = max([p.h for p in args[1]] + [0])
            elif kind == 'sum':
                bs = frozenset(v for v, _ in args[0])
                r.vars = (args[1].vars | frozenset().union(*[ivars(n) for _, n in args[0]])) - bs
                r.h = args[1].h + 1
            elif kind == 'int':
                r.vars = frozenset(avars(args[0]))
                r.h = 0
            elif kind == 'fact':
                r.vars = ivars(args[0])
                r.h = 0
            elif kind == 'br':
                r.vars = frozenset(cvars(args[0]))
                r.h = 0
            elif kind == 'poly':
                r.vars, r.h = args[0].vars, args[0].h
            else:
                r.vars, r.h = frozenset(), 0
            cls._tab[key] = r
        return r

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return self is o

    def __repr__(self):
        return self.key


def ekey(e):
    return str(e) if isinstance(e, int) else '(' + e.key + ')'


def mkey(m):
    return '*'.join(a.key if e == 1 and isinstance(e, int) else a.key + '^' + ekey(e) for a, e in m)


class Poly(object):
    __slots__ = ('d', '_key', '_vars', '_h', '_hash')

    def __init__(self, d):
        self.d = d
        self._key = self._vars = self._h = self._hash = None

    @property
    def key(self):
        if self._key is None:
            self._key = '+'.join(sorted('%s*%s' % (c, mkey(m)) for m, c in self.d.items())) or '0'
        return self._key

    @property
    def vars(self):
        if self._vars is None:
            s = set()
            for m in self.d:
                for a, e in m:
                    s |= a.vars
                    if not isinstance(e, int):
                        s |= e.vars
            self._vars = frozenset(s)
        return self._vars

    @property
    def h(self):
        if self._h is None:
            self._h = max([max(a.h, 0 if isinstance(e, int) else e.h)
                           for m in self.d for a, e in m] + [0])
        return self._h

    def __hash__(self):
        if self._hash is None:
            self._hash = hash(self.key)
        return self._hash

    def __eq__(self, o):
        return isinstance(o, Poly) and self.d == o.d

    def __repr__(self):
        return self.key

    @property
    def is_zero(self):
        return not self.d

    def const(self):
        """the Fraction value of a constant polynomial, else None"""
        if not self.d:
            return Fraction(0)
        if len(self.d) == 1 and () in self.d:
            return self.d[()]
        return None


P0 = Poly({})
P1 = Poly({(): Fraction(1)})


def pconst(c):
    return Poly({(): Fraction(c)}) if c else P0


def padd(a, b):
    if not a.d:
        return b
    if not b.d:
        return a
    if len(a.d) < len(b.d):
        a, b = b, a
    d = dict(a.d)
    for m, c in b.d.items():
        s = d.get(m, 0) + c
        if s:
            d[m] = s
        else:
            d.pop(m, None)
    return Poly(d)


def pscale(a, k):
    if not k:
        return P0
    return a if k == 1 else Poly({m: c * k for m, c in a.d.items()})


def eadd(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a + b
    r = padd(a if isinstance(a, Poly) else pconst(a), b if isinstance(b, Poly) else pconst(b))
    return enorm(r)


def enorm(r):
    c = r.const()
    if c is not None and c.denominator == 1:
        return int(c)
    return r


class Limit(Exception):
    """Resource limit of the normaliser."""


class Norm(object):

    def __init__(self, facts, rsubst=None, deadline=None):
        self.facts = facts
        self.rsubst = rsubst or {}
        self.memo = {}
        self.smemo = {}
        self.deadline = deadline
        self.logpos = False
        self.ops = 0

    def tick(self, n=1):
        self.ops += n
        if self.deadline and self.ops % 64 == 0 and time.time() > self.deadline:
            raise Limit('time')

    # -- monomials ---------------------------------------------------------
    def mono_mul(self, m1, m2):
        """product of two monomials: Poly"""
        if not m1:
            return Poly({m2: Fraction(1)})
        if not m2:
            return Poly({m1: Fraction(1)})
        d = dict(m1)
        extra = False
        for a, e in m2:
            o = d.get(a)
            if o is None:
                d[a] = e
            else:
                n = eadd(o, e)
                if a.kind == 'br':
                    n = 1
                if isinstance(n, int) and n == 0:
                    del d[a]
                else:
                    d[a] = n
                    if a.kind in ('poly', 'cst') and isinstance(n, int):
                        extra = True
        ms = tuple(sorted(d.items(), key=lambda p: p[0].key))
        has_poly = any(a.kind == 'poly' for a, _ in ms)
        if not extra and not has_poly:
            return Poly({ms: Fraction(1)})
        return self.reduce(ms)

    def reduce(self, ms):
        """expands positive integer powers of poly atoms and reduces
        LM(P) * P^-k."""
        for i, (a, e) in enumerate(ms):
            if a.kind == 'cst' and isinstance(e, int):
                return pscale(self.reduce(ms[:i] + ms[i + 1:]), a.args[0] ** e)
            if a.kind == 'poly' and isinstance(e, int) and e > 0:
                rest = self.reduce(ms[:i] + ms[i + 1:])
                return self.mul(rest, self.ipow(a.args[0], e))
        for i, (a, e) in enumerate(ms):
            if a.kind == 'poly' and isinstance(e, int) and e < 0:
                P = a.args[0]
                lm, lc = self.lead(P)
                q = self.mono_div(ms, lm)
                if q is not None:
                    # ms = q * lm ; lm = (P - rest)/lc
                    self.tick()
                    d = dict(q)
                    n = d[a] + 1
                    if n:
                        d[a] = n
                    else:
                        del d[a]
                    up = self.reduce(tuple(sorted(d.items(), key=lambda p: p[0].key)))
                    rest = Poly({m: c for m, c in P.d.items() if m != lm})
                    low = self.mul(Poly({q: Fraction(1)}), rest)
                    return pscale(padd(up, pscale(low, -1)), 1 / lc)
        return Poly({ms: Fraction(1)})

    _lead = {}

    def lead(self, P):
        r = self._lead.get(P)
        if r is None:
            def order(m):
                deg = sum(e for _, e in m if isinstance(e, int))
                return (deg, mkey(m))
            m = max([m for m in P.d if all(isinstance(e, int) for _, e in m)] or P.d, key=order)
            r = self._lead[P] = (m, P.d[m])
        return r

    def mono_div(self, ms, lm):
        if not lm:
            return None
        d = dict(ms)
        for a, e in lm:
            o = d.get(a)
            if not isinstance(o, int) or not isinstance(e, int) or o < e or e < 0:
                return None
            if o == e:
                del d[a]
            else:
                d[a] = o - e
        return tuple(sorted(d.items(), key=lambda p: p[0].key))

    # -- polynomials -------------------------------------------------------
    def mul(self, a, b):
        if not a.d or not b.d:
            return P0
        c = a.const()
        if c is not None:
            return pscale(b, c)
        c = b.const()
        if c is not None:
            return pscale(a, c)
        out = {}
        self.tick(len(a.d) * len(b.d))
        if len(a.d) * len(b.d) > 400000:
            raise Limit('size')
        for m1, c1 in a.d.items():
            for m2, c2 in b.d.items():
                p = self.mono_mul(m1, m2)
                k = c1 * c2
                for m, c in p.d.items():
                    s = out.get(m, 0) + c * k
                    if s:
                        out[m] = s
                    else:
                        out.pop(m, None)
        return Poly(out)

    def ipow(self, a, n):
        r = P1
        while n:
            if n & 1:
                r = self.mul(r, a)
            n >>= 1
            if n:
                a = self.mul(a, a)
        return r

    def pow(self, a, e):
        """a ** e, e: int or Poly"""
        e = e if isinstance(e, int) else enorm(e)
        if isinstance(e, int) and e >= 0:
            if e == 0:
                return P1
            if len(a.d) != 1:
                return self.ipow(a, e)
        if a.is_zero:
            if isinstance(e, int) and e > 0:
                return P0
            if isinstance(e, Poly) and self.strict_sign(e) == 1:
                return P0
            return Poly({((Atom('fn', 'zero_pow', (e if isinstance(e, Poly) else pconst(e),)), 1),): Fraction(1)})
        if len(a.d) == 1:
            (m, c), = a.d.items()
            r = P1
            if c != 1:
                if isinstance(e, int):
                    r = pconst(c ** e)
                elif c > 0:
                    r = Poly({((Atom('cst', c), e),): Fraction(1)})
                elif self.psign(a) == 1:
                    # product of negative factors
                    return Poly({((Atom('poly', a), e),): Fraction(1)})
                else:
                    return self.opaque_pow(a, e)
            out = {}
            for x, k in m:
                n = self.emul(k, e)
                if x.kind == 'br' and not (isinstance(e, int) and e > 0):
                    return self.opaque_pow(a, e)
                out[x] = n
            ms = tuple(sorted(((x, 1 if x.kind == 'br' else n) for x, n in out.items()),
                              key=lambda p: p[0].key))
            return self.mul(r, self.reduce(ms))
        a = self.together(a)
        if len(a) == 2:
            num, den = a
            if den.const() != 1:
                return self.mul(self.pow(num, e), self.pow(den, self.emul(e, -1)))
            a = num
        # content extraction
        cont, prim, c = self.primitive(a)
        if not (isinstance(e, int) and e > 0):
            q = self.root(prim)
            if q is not None:
                r = self.pow(q[0], self.emul(e, q[1])) if q[1] % 2 or self.psign(q[0]) == 1 \
                    or isinstance(e, int) else None
                if r is not None:
                    if cont or c != 1:
                        r = self.mul(r, self.pow(Poly({cont: c}), e))
                    return r
        r = Poly({((Atom('poly', prim), e),): Fraction(1)}) \
            if prim.const() != 1 else P1
        if isinstance(e, int) and e > 0:
            return self.ipow(a, e)
        if cont or c != 1:
            r = self.mul(r, self.pow(Poly({cont: c}), e))
        return r

    _root = {}

    def root(self, p):
        """(q, k) with p = q ** k, k >= 2, or None"""
        if p in self._root:
            return self._root[p]
        r = None
        if 3 <= len(p.d) <= 15 and all(isinstance(e, int) and e > 0 for m in p.d for _, e in m):
            deg = max(e for m in p.d for _, e in m)
            if deg >= 2:
                import sympy
                atoms = sorted({x for m in p.d for x, _ in m}, key=lambda x: x.key)
                if len(atoms) <= 6 and all(x.kind != 'br' for x in atoms):
                    sy = sympy.symbols('x0:%d' % len(atoms))
                    ix_ = {x: k for k, x in enumerate(atoms)}
                    d = {}
                    for m, c in p.d.items():
                        ex = [0] * len(atoms)
                        for x, e in m:
                            ex[ix_[x]] = e
                        d[tuple(ex)] = sympy.Rational(c.numerator, c.denominator)
                    c0, fs = sympy.Poly(d, *sy).sqf_list()
                    if len(fs) == 1 and fs[0][1] >= 2 and c0 > 0:
                        k = fs[0][1]
                        w = sympy.root(c0, k)
                        if w.is_Rational:
                            q = Poly({tuple((atoms[i], e) for i, e in enumerate(ex) if e):
                                      Fraction(int(c.p), int(c.q)) * Fraction(int(w.p), int(w.q))
                                      for ex, c in ((a_, sympy.Rational(b_)) for a_, b_ in fs[0][0].terms())})
                            # one sign: the first term is positive
                            if k % 2 == 0 and self.psign(q) == -1:
                                q = pscale(q, -1)
                            r = (q, k)
        self._root[p] = r
        return r

    def opaque_pow(self, a, e):
        return Poly({((Atom('fn', 'pow', (a, e if isinstance(e, Poly) else pconst(e))), 1),): Fraction(1)})

    def emul(self, a, b):
        if isinstance(a, int) and isinstance(b, int):
            return a * b
        return enorm(self.mul(a if isinstance(a, Poly) else pconst(a),
                              b if isinstance(b, Poly) else pconst(b)))

    def primitive(self, a):
        """a = c * cont * prim"""
        common = None
        for m in a.d:
            d = {x: e for x, e in m if isinstance(e, int)}
            if common is None:
                common = d
            else:
                common = {x: min(common.get(x, 0), d.get(x, 0))
                          for x in set(common) | set(d)}
        # only keep atoms that appear in each one, or have negative powers
        common = {x: e for x, e in common.items() if e != 0 and x.kind != 'br'}
        cont = tuple(sorted(common.items(), key=lambda p: p[0].key))
        if cont:
            invm = tuple((x, -e) for x, e in cont)
            p = Poly({})
            for m, c in a.d.items():
                p = padd(p, pscale(self.mono_mul(m, invm), c))
        else:
            p = a
        _, lc = self.lead(p) if len(p.d) > 1 else (None, list(p.d.values())[0])
        # canonical sign and scale; keep positivity of log arguments
        lc = abs(lc) if True else lc
        sgn = 1
        return cont, pscale(p, 1 / lc), lc * sgn

    def together(self, a):
        """a as num/den, where den collects the negative powers of the poly
        atoms"""
        dens = {}
        for m in a.d:
            for x, e in m:
                if x.kind == 'poly' and isinstance(e, int) and e < 0:
                    dens[x] = max(dens.get(x, 0), -e)
        if not dens:
            return a, P1
        den = tuple(sorted(((x, e) for x, e in dens.items()), key=lambda p: p[0].key))
        num = P0
        for m, c in a.d.items():
            d = dict(m)
            mult = P1
            for x, e in den:
                k = d.get(x, 0)
                k = k if isinstance(k, int) else None
                if k is None:
                    return a, P1
                d.pop(x, None)
                if k + e:
                    mult = self.mul(mult, self.ipow(x.args[0], k + e))
            ms = tuple(sorted(d.items(), key=lambda p: p[0].key))
            num = padd(num, pscale(self.mul(Poly({ms: Fraction(1)}), mult), c))
        dp = P1
        for x, e in den:
            dp = self.mul(dp, self.ipow(x.args[0], e))
        # den as a product: keep factored for pow
        return num, Den(den, dp)

    # -- signs ---------------------------------------------------------------
    def asign(self, x):
        """strict sign of an atom, or None"""
        if x.kind == 'fn':
            if x.args[0] == 'log' and self.psign(x.args[1][0]) == 1:
                return self.strict_sign(padd(x.args[1][0], pconst(-1)))
            return 1 if x.args[0] == 'exp' else None
        if x.kind in ('fact', 'cst'):
            return 1
        if x.kind == 'arr':
            s = SYMS.get(x.args[0])
            return 1 if s is not None and s.positive else None
        if x.kind == 'poly':
            return self.psign(x.args[0])
        if x.kind == 'sum':
            # a sum that is not empty of terms of one sign
            if all(self.facts.decide(cle(1, n)) is True for _, n in x.args[0]):
                return self.psign(x.args[1])
            return None
        if x.kind == 'int':
            a = Ix(0, ((x.args[0], 1),))
            if self.facts.decide(cle(1, a)) is True:
                return 1
            return -1 if self.facts.decide(cle(a, -1)) is True else None
        return None

    def psign(self, p):
        """strict sign of a polynomial (sum of terms of one sign), or None"""
        s = None
        for m, c in p.d.items():
            t = 1 if c > 0 else -1
            for x, e in m:
                u = self.asign(x)
                if u is None:
                    return None
                if u < 0:
                    if not isinstance(e, int):
                        return None
                    if e % 2:
                        t = -t
            if s is None:
                s = t
            elif s != t:
                return None
        return s

    def nonzero(self, p):
        """is p a product of factors that are known not to be zero?"""
        num, den = self.together(p)
        if len(num.d) != 1:
            return False
        (m, c), = num.d.items()
        known = None
        for x, e in m:
            if isinstance(e, int) and e < 0 or self.asign(x):
                continue
            if known is None:
                known = set()
                for f in self.facts.conds:
                    if f.op == 'not' and f.args[0].op == 'rz':
                        q = self.norm(f.args[0].args[0])
                        if len(q.d) == 1:
                            known |= {y for w in q.d for y, _ in w}
            if x not in known:
                return False
        return True

    def strict_sign(self, p):
        s = self.psign(p)
        if s is None and 1 <= len(p.d) <= 2:
            s = self.bounded(p)
        if s is None and p.d:
            num, den = self.together(p)
            if isinstance(den, Den) and not num.is_zero:
                s = self.psign(num)
                for x, k in den.fac:
                    u = self.asign(x)
                    if s is None or u is None:
                        return None
                    if u < 0 and k % 2:
                        s = -s
        return s

    def bounded(self, p):
        """sign of k + c * a for a bounded entry a"""
        d = dict(p.d)
        k = d.pop((), Fraction(0))
        if len(d) != 1:
            return None
        (m, c), = d.items()
        if len(m) != 1 or m[0][1] != 1:
            return None
        if m[0][0].kind == 'fn' and m[0][0].args[0] == 'quantile':
            b = (-999, 999)
        elif m[0][0].kind == 'arr':
            s = SYMS.get(m[0][0].args[0])
            b = s.bounds if s is not None else None
        else:
            return None
        if not b:
            return None
        lo, hi = (k + c * Fraction(x) for x in b)
        lo, hi = min(lo, hi), max(lo, hi)
        return 1 if lo >= 0 else -1 if hi <= 0 else None

    # -- functions ---------------------------------------------------------
    def fn(self, name, ps):
        if name == 'exp':
            return self.exp(ps[0])
        if name == 'log':
            return self.log(ps[0])
        c = ps[0].const() if ps else None
        if name in ('arctan', 'sin', 'tanh') and ps and self.leading_negative(ps[0]):
            return pscale(self.fn(name, [pscale(ps[0], -1)]), -1)
        if name in ('arctan', 'sin', 'tanh') and c == 0:
            return P0
        if name == 'cos' and c == 0:
            return P1
        # the normal law: quantile is the inverse of ncdf, cut at 999 (beyond
        # every number); phi2 the joint distribution function
        if name == 'quantile' and c == 1:
            return pconst(999)
        if name == 'ncdf':
            (m, k), = ps[0].d.items() if len(ps[0].d) == 1 else (((), 0),)
            if c == 999:
                return P1
            if k == 1 and len(m) == 1 and m[0][1] == 1 and m[0][0].kind == 'fn' and m[0][0].args[0] == 'quantile':
                return m[0][0].args[1][0]
        if name == 'phi2':
            if ps[0].const() == 999:
                return self.fn('ncdf', [ps[1]])
            if ps[1].const() == 999:
                return self.fn('ncdf', [ps[0]])
            if ps[2].is_zero:
                return self.mul(self.fn('ncdf', [ps[0]]), self.fn('ncdf', [ps[1]]))
        if name == 'gammaln' and c is not None and c.denominator == 1 and c > 0:
            import math
            return self.log(pconst(math.factorial(int(c) - 1)))
        if name == 'abs' and c is not None:
            return pconst(abs(c))
        if name == 'sign' and c is not None:
            return pconst((c > 0) - (c < 0))
        if name == 'gammaln' and ps and all(
                len(m) == 0 or (len(m) == 1 and m[0][0].kind == 'int' and m[0][1] == 1
                                and cc.denominator == 1) for m, cc in ps[0].d.items()) \
                and ps[0].d.get((), Fraction(0)).denominator == 1:
            a = Ix(int(ps[0].d.get((), 0)) - 1)
            for m, cc in ps[0].d.items():
                if m:
                    a = iadd(a, Ix(0, ((m[0][0].args[0], int(cc)),)))
            return self.log(self.fact(a))
        return Poly({((Atom('fn', name, tuple(ps)), 1),): Fraction(1)})

    def leading_negative(self, p):
        if not p.d:
            return False
        m = min(p.d, key=mkey)
        return p.d[m] < 0

    def exp(self, p):
        r = P1
        for m, c in p.d.items():
            if len(m) == 1 and m[0][0].kind == 'fn' and m[0][0].args[0] == 'log' \
                    and m[0][1] == 1:
                r = self.mul(r, self.pow(m[0][0].args[1][0], enorm(pconst(c))))
                continue
            if len(m) >= 2:
                # exp(e * log a) = a ** e
                logs = [x for x, e in m if x.kind == 'fn' and x.args[0] == 'log' and e == 1]
                if len(logs) == 1:
                    rest = tuple((x, e) for x, e in m if x is not logs[0])
                    r = self.mul(r, self.pow(logs[0].args[1][0], enorm(Poly({rest: c}))))
                    continue
            if c.denominator == 1:
                r = self.mul(r, Poly({((Atom('fn', 'exp', (Poly({m: Fraction(1)}),)), int(c)),): Fraction(1)}))
            else:
                u = Fraction(1, c.denominator)
                r = self.mul(r, Poly({((Atom('fn', 'exp', (Poly({m: u}),)), int(c / u)),): Fraction(1)}))
        return r

    def log(self, p):
        self.logpos = True
        c = p.const()
        if c is not None:
            if c == 1:
                return P0
            if c > 0:
                import sympy
                out = P0
                for q, e in sympy.factorint(c.numerator).items():
                    out = padd(out, pscale(self.logatom(pconst(q)), e))
                for q, e in sympy.factorint(c.denominator).items():
                    out = padd(out, pscale(self.logatom(pconst(q)), -e))
                return out
            return self.logatom(p)
        if len(p.d) == 1:
            (m, c), = p.d.items()
            out = self.log(pconst(c)) if c > 0 else None
            if out is None:
                return self.logatom(p)
            if any(x.kind == 'br' for x, _ in m):
                return self.logatom(p)
            for x, e in m:
                if x.kind == 'fn' and x.args[0] == 'exp':
                    t = x.args[1][0]
                elif x.kind == 'cst':
                    t = self.log(pconst(x.args[0]))
                elif x.kind == 'poly':
                    t = self.logatom(x.args[0])
                else:
                    t = self.logatom(Poly({((x, 1),): Fraction(1)}))
                out = padd(out, pscale(t, e) if isinstance(e, int) else self.mul(t, e))
            return out
        t = self.together(p)
        if isinstance(t[1], Den):
            out = self.log(t[0])
            for x, e in t[1].fac:
                out = padd(out, pscale(self.logatom(x.args[0]), -e))
            return out
        cont, prim, c = self.primitive(p)
        out = self.logatom(prim)
        if cont or c != 1:
            out = padd(out, self.log(Poly({cont: c})))
        return out

    def logatom(self, p):
        return Poly({((Atom('fn', 'log', (p,)), 1),): Fraction(1)})

    def fact(self, a):
        a0 = a
        if a.is_const:
            if a.c >= 0:
                import math
                return pconst(math.factorial(a.c))
            return Poly({((Atom('fact', a), 1),): Fraction(1)})
        base = Ix(0, a.t)
        r = Poly({((Atom('fact', base), 1),): Fraction(1)})
        c = a.c
        k = 0
        while k < c:
            k += 1
            r = self.mul(r, self.fromix(iadd(base, k)))
        while k > c:
            # fact(base + k - 1) = fact(base + k) / (base + k), if >= 1
            if self.facts.decide(cle(1, iadd(base, k))) is not True:
                return Poly({((Atom('fact', a0), 1),): Fraction(1)})
            r = self.mul(r, self.pow(self.fromix(iadd(base, k)), -1))
            k -= 1
        return r

    def fromix(self, a):
        out = pconst(a.c)
        for x, m in a.t:
            if x[0] == 'ite':
                b = self.br(x[1])
                p = padd(self.mul(b, self.fromix(x[2])),
                         self.mul(padd(P1, pscale(b, -1)), self.fromix(x[3])))
            elif x[0] == 'mul':
                p = self.mul(self.fromix(x[1]), self.fromix(x[2]))
            else:
                p = Poly({((Atom('int', x), 1),): Fraction(1)})
            out = padd(out, pscale(p, m))
        return out

    # -- brackets ----------------------------------------------------------
    def br(self, c):
        if c is TRUE:
            return P1
        if c is FALSE:
            return P0
        if c.op == 'and':
            r = P1
            for x in c.args:
                r = self.mul(r, self.br(x))
                if r.is_zero:
                    return r
            return r
        if c.op == 'not':
            return padd(P1, pscale(self.br(c.args[0]), -1))
        if c.op in ('rz', 'rle'):
            return self.rbr(c)
        v = self.decide(c)
        if v is not None:
            return P1 if v else P0
        if c.op == 'le' and c.args[0].t[0][1] < 0:
            return padd(P1, pscale(self.br(cnot(c)), -1))
        return Poly({((Atom('br', c), 1),): Fraction(1)})

    def rbr(self, c):
        p = self.norm(c.args[0])
        k = p.const()
        if k is not None:
            return P1 if (k == 0 if c.op == 'rz' else k <= 0) else P0
        k = self.strict_sign(p)
        if k is not None:
            return P1 if c.op == 'rle' and k < 0 else P0
        f = self.facts
        for x in f.conds:
            if x is c:
                return P1
            if x.op == 'not' and x.args[0] is c:
                return P0
        return Poly({((Atom('fn', c.op, (p,)), 1),): Fraction(1)})

    def decide(self, c):
        return self.facts.decide(c)

    # -- terms -------------------------------------------------------------
    def norm(self, t):
        r = self.memo.get(t)
        if r is None:
            self.tick()
            r = self.memo[t] = self._norm(t)
        return r

    def _norm(self, t):
        o, a = t.op, t.args
        if o == 'c':
            return pconst(a[0])
        if o == 'add':
            out = {}
            for x in a[0]:
                for m, c in self.norm(x).d.items():
                    s = out.get(m, 0) + c
                    if s:
                        out[m] = s
                    else:
                        out.pop(m, None)
            return Poly(out)
        if o == 'mul':
            ps = [self.norm(x) for x in a[0]]
            ps.sort(key=lambda p: len(p.d))
            r = P1
            for p in ps:
                r = self.mul(r, p)
                if r.is_zero:
                    return r
            return r
        if o == 'pow':
            return self.pow(self.norm(a[0]), enorm(self.norm(a[1])))
        if o == 'fn':
            return self.fn(a[0], [self.norm(x) for x in a[1]])
        if o == 'arr':
            s = self.rsubst.get(t)
            if s is not None:
                return self.norm(s)
            return self.arr(a[0], a[1])
        if o == 'int':
            return self.fromix(a[0])
        if o == 'fact':
            return self.fact(a[0])
        if o == 'ite':
            b = self.br(a[0])
            c = b.const()
            if c == 1:
                return self.norm(a[1])
            if c == 0:
                return self.norm(a[2])
            p, q = self.norm(a[1]), self.norm(a[2])
            return padd(q, self.mul(b, padd(p, pscale(q, -1))))
        if o == 'sum':
            return self.sum(a[0], a[1], a[2])
        raise ValueError(o)

    def arr(self, name, ixs):
        # index-level ite
        for k, i in enumerate(ixs):
            for x, m in i.t:
                if x[0] == 'ite':
                    rest = isub(i, iscale(Ix(0, ((x, 1),)), m))
                    b = self.br(x[1])
                    p = self.arr(name, ixs[:k] + (iadd(rest, iscale(x[2], m)),) + ixs[k + 1:])
                    q = self.arr(name, ixs[:k] + (iadd(rest, iscale(x[3], m)),) + ixs[k + 1:])
                    return padd(q, self.mul(b, padd(p, pscale(q, -1))))
        return Poly({((Atom('arr', name, ixs), 1),): Fraction(1)})

    # -- sums --------------------------------------------------------------
    def sum(self, v, n, body):
        if self.decide(cle(n, 0)):
            return P0
        self.facts.ranges[v] = n
        bs = [(v, n)]
        while body.op == 'sum' and len(bs) < 3:
            w, k = body.args[0], body.args[1]
            if self.decide(cle(k, 0)):
                return P0
            self.facts.ranges[w] = k
            bs.insert(0, (w, k))
            body = body.args[2]
        return self.psum(bs, self.norm(body))

    def psum(self, binders, p):
        out = P0
        for m, c in p.d.items():
            out = padd(out, pscale(self.msum(binders, m), c))
        return out

    def msum(self, binders, m):
        """sum over the binders [(v, n)] (innermost first) of a monomial"""
        self.tick()
        key = (tuple(binders), m)
        r = self.smemo.get(key)
        if r is None:
            r = self.smemo[key] = self._msum(binders, m)
        return r

    def _msum(self, binders, m):
        bvars = {v for v, _ in binders}
        # merge nested sums that depend on the binders
        for i, (a, e) in enumerate(m):
            if a.kind == 'sum' and isinstance(e, int) and e > 0 and a.vars & bvars:
                rest = m[:i] + m[i + 1:]
                if e > 1:
                    rest = tuple(sorted(rest + ((a, e - 1),), key=lambda p: p[0].key))
                ren, extra = {}, []
                for v, n in a.args[0]:
                    w = ('v', fresh('s'))
                    ren[v] = Ix(0, ((w, 1),))
                    nn = isubst(n, ren)
                    self.facts.ranges[w] = nn
                    extra.append((w, nn))
                inner = self.psubst(a.args[1], ren)
                out = P0
                full = self.mul(Poly({rest: Fraction(1)}), inner)
                return self.psum(extra + list(binders), full)
        # eliminate deltas
        order = binders
        if len(binders) > 1:
            fs = [f for f in m if f[0].kind != 'br']
            order = [binders[k] for k in self.sigorders(binders, fs)[0]]
        for free in (True, False):
            for v, n in order:
                for i, (a, e) in enumerate(m):
                    if a.kind == 'br' and a.args[0].op == 'eq' and v in a.vars:
                        d = a.args[0].args[0]
                        co = dict(d.t).get(v)
                        if co not in (1, -1):
                            continue
                        rest_ix = isub(d, iscale(Ix(0, ((v, 1),)), co))
                        if v in ivars(rest_ix) or free and ivars(rest_ix) & bvars:
                            continue
                        sol = iscale(rest_ix, -co)
                        bound = cand(cle(0, sol), clt(sol, n))
                        rest = m[:i] + m[i + 1:]
                        # binders whose size depends on v
                        nb, ok = [], True
                        for w, nn in binders:
                            if w == v:
                                continue
                            if v in ivars(nn):
                                nn = isubst(nn, {v: sol})
                            if w in ivars(nn):
                                ok = False
                            nb.append((w, nn))
                        if not ok:
                            continue
                        body = self.msubst(rest, {v: sol})
                        loc = tuple(csubst(x.args[0], {v: sol}) for x, _ in rest if x.kind == 'br' and v in x.vars)
                        if loc:
                            bound = cand(*[x for x in (bound.args if bound.op == 'and' else (bound,))
                                           if self.facts.decide(x, loc) is not True])
                        body = self.mul(self.br(bound), body)
                        # a binder used in sol must stay outside of the others
                        return self.psum(nb, body) if nb else body
        # pull out the independent factors
        dep = [(a, e) for a, e in m if (a.vars | (frozenset() if isinstance(e, int) else e.vars)) & bvars]
        ind = tuple((a, e) for a, e in m if (a, e) not in dep)
        used = set()
        for a, e in dep:
            used |= a.vars
            if not isinstance(e, int):
                used |= e.vars
        change = True
        while change:
            change = False
            for v, n in binders:
                if v in used and not ivars(n) <= used:
                    used |= ivars(n)
                    change = True
        out = Poly({ind: Fraction(1)})
        left = []
        for v, n in binders:
            if v in used or any(v in ivars(nn) for _, nn in binders):
                left.append((v, n))
            else:
                out = self.mul(out, self.fromix(n))
        if not left:
            return out if not dep else self.mul(out, Poly({tuple(dep): Fraction(1)}))
        # connected components
        comps = []
        groups = {v: {v} for v, _ in left}

        def join(vs):
            vs = [v for v in vs if v in groups]
            if len(vs) > 1:
                u = set().union(*[groups[v] for v in vs])
                for w in u:
                    groups[w] = u
        for a, e in dep:
            join(set(a.vars) | (set() if isinstance(e, int) else set(e.vars)))
        for v, n in left:
            join({v} | set(ivars(n)))
        seen = set()
        for v, n in left:
            g = groups[v]
            if id(g) in seen:
                continue
            seen.add(id(g))
            bs = [(w, nn) for w, nn in left if w in g]
            fs = tuple((a, e) for a, e in dep if (a.vars | (frozenset() if isinstance(e, int) else e.vars)) & g)
            comps.append((bs, fs))
        for bs, fs in comps:
            out = self.mul(out, self.sumatom(bs, fs))
            if out.is_zero:
                return out
        return out

    def sumatom(self, bs, fs):
        # bounds v + c: the last terms are split off; constant bounds
        for q, (w, n) in enumerate(bs):
            c = n.c
            if not n.t and c <= 4:
                out = P0
                for k in range(max(c, 0)):
                    nb = [(v, isubst(m, {w: Ix(k)})) for v, m in bs[:q] + bs[q + 1:]]
                    body = self.msubst(fs, {w: Ix(k)})
                    out = padd(out, self.psum(nb, body) if nb else body)
                return out
            if not c or abs(c) > 4 or len(n.t) != 1 or n.t[0][1] != 1 or n.t[0][0][0] != 'v':
                continue
            base = Ix(0, n.t)
            if n.t[0][0] not in [v for v, _ in bs] and not self.decide(cle(0, base if c > 0 else n)):
                continue
            bs = list(bs)
            rest = bs[:q] + bs[q + 1:]
            self.facts.ranges[w] = base
            out = self.psum(bs[:q] + [(w, base)] + bs[q + 1:], Poly({tuple(fs): Fraction(1)}))
            for k in range(min(c, 0), max(c, 0)):
                at = iadd(base, k)
                body = self.msubst(fs, {w: at})
                nb = [(v, isubst(m, {w: at})) for v, m in rest]
                if k < 0:
                    body = self.mul(self.br(cle(0, at)), body)
                body = self.psum(nb, body) if nb else body
                out = padd(out, pscale(body, 1 if c > 0 else -1))
            return out
        # shift of a single binder (telescoping)
        if len(bs) == 1:
            v, n = bs[0]
            if not fs:
                return self.fromix(n)
            # range restriction
            for i, (a, e) in enumerate(fs):
                if a.kind == 'br' and a.args[0].op == 'le':
                    d = a.args[0].args[0]
                    co = dict(d.t).get(v)
                    if co == 1:        # v <= r
                        r1 = iadd(ineg(isub(d, Ix(0, ((v, 1),)))), 1)
                        if v in ivars(r1):
                            continue
                        rest = fs[:i] + fs[i + 1:]
                        if self.decide(cand(cle(0, r1), cle(r1, n))):
                            self.facts.ranges[v] = r1
                            return self.msum([(v, r1)], rest)
                        if self.decide(cle(n, r1)):
                            return self.msum([(v, n)], rest)
                        if self.decide(cle(r1, 0)):
                            return P0
                    elif co == -1:     # v >= r : 1 - [v <= r-1]
                        rest = fs[:i] + fs[i + 1:]
                        return padd(self.msum([(v, n)], rest), pscale(self.psum(
                            [(v, n)], self.mul(Poly({rest: Fraction(1)}), self.br(cnot(a.args[0])))), -1))
            offs = set()
            ok = True
            for a, e in fs:
                ok = ok and self.offsets(a, v, offs) and isinstance(e, int)
            if ok and offs:
                k = min(offs)
                if 0 < abs(k) <= 4:
                    sh = self.msubst(fs, {v: iadd(Ix(0, ((v, 1),)), -k)})
                    res = self.psum([(v, n)], sh)
                    if k > 0:
                        for j in range(k):
                            res = padd(res, self.msubst(fs, {v: iadd(n, j - k)}))
                            res = padd(res, pscale(self.msubst(fs, {v: Ix(j - k)}), -1))
                    else:
                        for j in range(-k):
                            res = padd(res, self.msubst(fs, {v: Ix(j)}))
                            res = padd(res, pscale(self.msubst(fs, {v: iadd(n, j)}), -1))
                    return res
        h = max([max(a.h, 0 if isinstance(e, int) else e.h) for a, e in fs] + [0]) + 1
        best = None
        plain = tuple((a, e) for a, e in fs if a.kind != 'br')
        mixed = len(plain) < len(fs) and len(bs) > 1
        perms = itertools.permutations(range(len(bs))) if len(bs) <= 4 else self.sigorders(bs, fs)
        for perm in perms:
            ren = {bs[p][0]: Ix(0, ((('v', '$%d.%d' % (h, i)), 1),)) for i, p in enumerate(perm)}
            nb = tuple((('v', '$%d.%d' % (h, i)), isubst(bs[p][1], ren)) for i, p in enumerate(perm))
            body = self.msubst(fs, ren, rename=True)
            # the order of the binders does not depend on the brackets, whose
            # orientation follows from it
            k = (','.join('%s<%s' % (v[1], n.key) for v, n in nb),
                 self.msubst(plain, ren, rename=True).key if mixed else '', len(body.d), body.key)
            if best is None or k < best[0]:
                best = (k, nb, body)
        _, nb, body = best
        if len(body.d) == 1:
            (mm, c), = body.d.items()
            return Poly({((Atom('sum', nb, Poly({mm: Fraction(1)})), 1),): c})
        if mixed and self.splits < 3:
            self.splits += 1
            try:
                ren, extra = {}, []
                for v, n in nb:
                    w = ('v', fresh('s'))
                    ren[v] = Ix(0, ((w, 1),))
                    self.facts.ranges[w] = isubst(n, ren)
                    extra.append((w, self.facts.ranges[w]))
                return self.psum(extra, self.psubst(body, ren))
            finally:
                self.splits -= 1
        return Poly({((Atom('sum', nb, body), 1),): Fraction(1)})

    splits = 0

    def sigorders(self, bs, fs):
        """orders of many binders, up to those that their occurrences do not
        tell apart (refinement of colours)"""
        names = {v: i for i, (v, n) in enumerate(bs)}
        col = [0] * len(bs)
        while True:
            sigs = []
            for p, (v, n) in enumerate(bs):
                own = []
                for a, e in fs:
                    if v not in a.vars:
                        continue
                    if a.kind == 'arr':
                        k = (a.args[0],) + tuple(
                            tuple(sorted(str(col[names[x]]) + ('@' if x == v else '') if x in names else str(x)
                                         for x in ivars(i))) + (str(i.c),) for i in a.args[1])
                    else:
                        k = (a.kind,) + tuple(sorted(str(col[names[x]]) + ('@' if x == v else '') if x in names
                                                     else str(x) for x in a.vars))
                    own.append((str(k), str(e) if isinstance(e, int) else ''))
                sigs.append((col[p], '' if ivars(n) & set(names) else n.key, sorted(own)))
            order = sorted(range(len(bs)), key=lambda p: sigs[p])
            new = [0] * len(bs)
            for q, p in enumerate(order):
                new[p] = new[order[q - 1]] if q and sigs[p] == sigs[order[q - 1]] else q
            if new == col:
                break
            col = new
        classes = [[p for p in order if col[p] == c] for c in sorted(set(col))]
        total = 1
        for c in classes:
            total *= math.factorial(len(c))
        if total > 150:
            return [order]
        return [sum(x, ()) for x in itertools.product(*[itertools.permutations(c) for c in classes])]

    def offsets(self, a, v, offs):
        """collects the offsets k of the occurrences v + k in the indices of
        atom a; False if v occurs in another way"""
        if v not in a.vars:
            return True
        if a.kind == 'arr':
            for i in a.args[1]:
                if v in ivars(i):
                    if len(i.t) == 1 and i.t[0] == (v, 1):
                        offs.add(i.c)
                    else:
                        return False
            return True
        if a.kind in ('fn', 'poly'):
            ps = a.args[1] if a.kind == 'fn' else (a.args[0],)
            for p in ps:
                for m in p.d:
                    for x, e in m:
                        if not self.offsets(x, v, offs):
                            return False
                        if not isinstance(e, int) and v in e.vars:
                            return False
            return True
        if a.kind == 'sum':
            for w, n in a.args[0]:
                if v in ivars(n):
                    if len(n.t) == 1 and n.t[0] == (v, 1):
                        offs.add(n.c)
                    else:
                        return False
            for m in a.args[1].d:
                for x, e in m:
                    if not self.offsets(x, v, offs):
                        return False
            return True
        return False

    # -- substitution of index variables in polynomials ---------------------
    def psubst(self, p, m):
        if not (p.vars & set(m)):
            return p
        out = P0
        for mm, c in p.d.items():
            out = padd(out, pscale(self.msubst(mm, m), c))
        return out

    def msubst(self, mm, m, rename=False):
        keys = set(m)
        out = P1
        plain = []
        for a, e in mm:
            ev = frozenset() if isinstance(e, int) else e.vars
            if not ((a.vars | ev) & keys):
                plain.append((a, e))
                continue
            p = self.asubst(a, m) if a.vars & keys else Poly({((a, 1),): Fraction(1)})
            ee = self.psubst(e, m) if ev & keys else e
            if isinstance(ee, Poly):
                ee = enorm(ee)
            out = self.mul(out, self.pow(p, ee) if not (isinstance(ee, int) and ee == 1) else p)
        if plain:
            out = self.mul(out, Poly({tuple(plain): Fraction(1)}))
        return out

    def asubst(self, a, m):
        k = a.kind
        if k == 'arr':
            return self.norm(T('arr', a.args[0], tuple(isubst(i, m) for i in a.args[1])))
        if k == 'fn':
            if a.args[0] in ('rz', 'rle'):
                return Poly({((Atom('fn', a.args[0], tuple(self.psubst(p, m) for p in a.args[1])), 1),): Fraction(1)})
            if a.args[0] == 'pow':
                return self.pow(self.psubst(a.args[1][0], m), enorm(self.psubst(a.args[1][1], m)))
            return self.fn(a.args[0], [self.psubst(p, m) for p in a.args[1]])
        if k == 'int':
            return self.fromix(isubst(Ix(0, ((a.args[0], 1),)), m))
        if k == 'fact':
            return self.fact(isubst(a.args[0], m))
        if k == 'br':
            return self.br(csubst(a.args[0], m))
        if k == 'poly':
            return self.psubst(a.args[0], m)
        if k == 'sum':
            nb = tuple((v, isubst(n, m)) for v, n in a.args[0])
            if any(i.t and not all(x[1].startswith('$') for x in ivars(i)) for i in m.values()) or True:
                # renormalise: sizes or brackets may have become decidable
                ren, bs = {}, []
                for v, n in nb:
                    w = ('v', fresh('s'))
                    ren[v] = Ix(0, ((w, 1),))
                    nn = isubst(n, ren)
                    self.facts.ranges[w] = nn
                    bs.append((w, nn))
                mm = dict(m)
                mm.update(ren)
                return self.psum(bs, self.psubst(a.args[1], mm))
        return Poly({((a, 1),): Fraction(1)})


class Den(object):
    """a factored denominator"""

    def __init__(self, fac, expanded):
        self.fac, self.expanded = fac, expanded

    def const(self):
        return None


def re_key(a, v):
    return a.key.replace(v[1], '$')


# Norm.pow needs denominators as factored powers
_pow = Norm.pow


def _pow_den(self, a, e):
    if isinstance(a, Den):
        out = P1
        for x, k in a.fac:
            out = self.mul(out, self.reduce(((x, self.emul(k, e)),)) if not (
                isinstance(self.emul(k, e), int) and self.emul(k, e) == 0) else P1)
        return out
    return _pow(self, a, e)


Norm.pow = _pow_den


# --------------------------------------------------------------------------
class Result(object):
    def __init__(self, status, **kw):
        self.status = status      # 'proved' 'refuted' 'unknown'
        self.info = kw
        self.logpos = kw.get('logpos', False)

    def __repr__(self):
        return '%s %s' % (self.status, self.info)


def brackets(p, out=None):
    """free bracket conditions (no bound variables) in a polynomial"""
    if out is None:
        out = []

    def atom(a):
        if a.kind == 'br':
            if not any(v[1].startswith('$') for v in a.vars):
                if a.args[0] not in out:
                    out.append(a.args[0])
        elif a.kind == 'fn':
            for q in a.args[1]:
                brackets(q, out)
        elif a.kind == 'sum':
            brackets(a.args[1], out)
        elif a.kind == 'poly':
            brackets(a.args[0], out)
    for m in p.d:
        for a, e in m:
            atom(a)
            if not isinstance(e, int):
                brackets(e, out)
    return out


def solve_eq(c):
    """c: eq condition -> (atom, Ix) substitution, or None"""
    d = c.args[0]
    cand_ = [(x, m) for x, m in d.t if x[0] == 'v' and m in (1, -1)]
    cand_ += [(x, m) for x, m in d.t if x[0] == 'f' and m in (1, -1)]
    for x, m in cand_:
        rest = isub(d, iscale(Ix(0, ((x, 1),)), m))
        if x[0] == 'v' and x in ivars(rest):
            continue
        return x, iscale(rest, -m)
    return None


def prove_zero(E, facts, rsubst=None, timeout=20, refute=True, seeds=3, domains=None,
               ints_hint=None):
    """Is the real term E zero under the facts, for every interpretation?"""
    t0 = time.time()
    deadline = t0 + timeout
    logpos = [False]
    stack = [(E, facts, rsubst or {}, 0)]
    leaves = 0
    unknown = None
    while stack:
        e, f, rs, depth = stack.pop()
        if not f.consistent():
            continue
        N = Norm(f, rs, deadline)
        try:
            p = N.norm(e)
        except Limit as x:
            unknown = ('limit %s' % x, e, f)
            break
        logpos[0] |= N.logpos
        if p.is_zero:
            leaves += 1
            continue
        bs = brackets(p)
        if bs and depth < 14:
            # prefer equalities
            bs.sort(key=lambda c: (c.op != 'eq', len(c.key)))
            c = bs[0]
            g = f.add(cnot(c))
            stack.append((e, g, rs, depth + 1))
            g = f.add(c)
            e2 = e
            if c.op == 'eq':
                s = solve_eq(c)
                if s:
                    m = {s[0]: s[1]}
                    e2 = tsubst(e, m)
                    rs2 = {tsubst(k, m): tsubst(v, m) for k, v in rs.items()}
                    g = Facts(tuple(csubst(x, m) for x in g.conds) + (c,), g.ranges)
                    stack.append((e2, g, rs2, depth + 1))
                    continue
            stack.append((e2, g, rs, depth + 1))
            continue
        try:
            num, den = N.together(p)
            if isinstance(den, Den) and num.is_zero:
                leaves += 1
                continue
            if merge_sums(N, p):
                leaves += 1
                continue
            if by_equations(N, p, f):
                leaves += 1
                continue
        except Limit as x:
            unknown = ('limit %s' % x, e, f)
            break
        m = (forced(e, f) or tight(e, f)) if depth < 20 else None
        if not m and 20 <= depth < 23:
            m = tight(e, f)
        if m:
            g = Facts(tuple(csubst(x, m) for x in f.conds), {
                k: isubst(n, m) for k, n in f.ranges.items() if k not in m})
            rs2 = {tsubst(k, m): tsubst(v, m) for k, v in rs.items()}
            stack.append((tsubst(e, m), g, rs2, depth + 20 if depth < 20 else depth + 1))
            continue
        unknown = ('normal form: %s' % (p.key if len(p.key) < 600 else p.key[:600] + '...'), e, f)
        unk_rs = rs
        break
    if unknown is None:
        return Result('proved', leaves=leaves, logpos=logpos[0], seconds=time.time() - t0)
    if refute:
        cm = refute_zero(unknown[1], unknown[2], rs, seeds, domains)
        if isinstance(cm, dict):
            return Result('refuted', model=cm, why=unknown[0], facts=unknown[2], seconds=time.time() - t0)
        return Result('unknown', why=unknown[0], sampled=cm, seconds=time.time() - t0)
    return Result('unknown', why=unknown[0], sampled=0, seconds=time.time() - t0)


def replace_atom(N, p, x, q):
    """p with the atom x replaced by the polynomial q"""
    out = P0
    for m, c in p.d.items():
        d = dict(m)
        e = d.pop(x, None)
        r = Poly({tuple(sorted(d.items(), key=lambda t: t[0].key)): c})
        if e is not None:
            r = N.mul(r, N.pow(q, e))
        out = padd(out, r)
    return out


def clear(N, p):
    """p times the atoms that it is divided by"""
    neg_ = {}
    for m in p.d:
        for x, e in m:
            if isinstance(e, int) and e < 0:
                neg_[x] = max(neg_.get(x, 0), -e)
    if not neg_:
        return p
    return N.mul(p, Poly({tuple(sorted(neg_.items(), key=lambda t: t[0].key)): Fraction(1)}))


def mono_reduce(N, p, m, k, rest):
    """p with the monomial m replaced by -rest / k wherever it divides"""
    out = P0
    hit = False
    for q, c in p.d.items():
        d = N.mono_div(q, m)
        if d is None:
            out = padd(out, Poly({q: c}))
        else:
            hit = True
            out = padd(out, pscale(N.mul(Poly({d: c}), rest), -1 / k))
    return out if hit else None


def by_equations(N, p, f):
    """zero by the equations between reals of the path (term == 0)?"""
    ts = []
    for c in f.conds:
        if c.op == 'rz':
            t, _ = N.together(N.norm(c.args[0]))
            if t.d and not any(t.d) and len(t.d) == 1:
                return True         # 0 == number: no state reaches this path
            if t.d and t not in ts:
                ts.append(t)
    if not ts:
        return False
    num, den = N.together(p)
    num = clear(N, num)
    ts = [clear(N, t) for t in ts]
    seen = set()
    stack = [num]
    while stack and len(seen) < 200:
        q = stack.pop()
        if q.is_zero:
            return True
        if q in seen:
            continue
        seen.add(q)
        for t in ts:
            for m, k in t.d.items():
                if not m:
                    continue
                rest = Poly({x: w for x, w in t.d.items() if x != m})
                if len(m) == 1 and m[0][1] == 1 and m[0][0].kind in ('fn', 'arr', 'sum'):
                    x = m[0][0]
                    if any(y is x for w in rest.d for y, _ in w):
                        continue
                    if not any(y is x for w in q.d for y, _ in w):
                        continue
                    r = replace_atom(N, q, x, pscale(rest, -1 / k))
                else:
                    r = mono_reduce(N, q, m, k, rest)
                    if r is None:
                        continue
                r, _ = N.together(r)
                if r.is_zero:
                    return True
                stack.append(r)
    return False


def tight(e, f):
    """an equality between indices that the facts force"""
    for c in f.conds:
        if c.op not in ('le', 'eq'):
            continue
        q = c.args[0]
        s = solve_eq(Cond('eq', (q,)))
        if s is None or tsubst(e, {s[0]: s[1]}) is e:
            continue
        if c.op == 'eq' or f.decide(ceq(q, 0)) is True:
            return {s[0]: s[1]}
    return None


def forced(e, f):
    """free index variables whose value is forced by the facts"""
    vs = {v for v in index_model(e, f) if '~' not in v[1]}
    if not vs:
        return None
    m = f.model(*[cle(Ix(0, ((v, 1),)), 10 ** 6) for v in vs])
    if m is None:
        return None
    out = {}
    for v in vs:
        k = m.eval(zatom(v), model_completion=True).as_long()
        i = Ix(0, ((v, 1),))
        if f.decide(ceq(i, k)) is True:
            out[v] = Ix(k)
    return out


def merge_sums(N, p):
    """tries to prove p == 0 by merging the sums with the same ranges and
    clearing the denominators below them"""
    groups = {}
    plain = P0
    for m, c in p.d.items():
        sums = [(a, e) for a, e in m if a.kind == 'sum']
        if not sums:
            plain = padd(plain, Poly({m: c}))
            continue
        if len(sums) != 1 or sums[0][1] != 1:
            return False
        a = sums[0][0]
        rest = tuple(x for x in m if x[0] is not a)
        groups.setdefault(tuple(n.key for _, n in a.args[0]), []).append((a, rest, c))
    if not groups or not (plain.is_zero or N.together(plain)[0].is_zero):
        return False
    for k, items in groups.items():
        n_b = len(k)
        ref = items[0][0].args[0]
        vs = [('v', fresh('m')) for _ in range(n_b)]
        ren0 = {ref[i][0]: Ix(0, ((vs[i], 1),)) for i in range(n_b)}
        for i in range(n_b):
            N.facts.ranges[vs[i]] = isubst(ref[i][1], ren0)
        ok = False
        opts = []
        for a, rest, c in items:
            o = []
            for perm in itertools.permutations(range(n_b)):
                ren = {a.args[0][i][0]: Ix(0, ((vs[perm[i]], 1),)) for i in range(n_b)}
                if any(isubst(a.args[0][i][1], ren) is not N.facts.ranges[vs[perm[i]]] for i in range(n_b)):
                    continue
                o.append(N.mul(Poly({rest: c}), N.psubst(a.args[1], ren)))
            if not o:
                return False
            opts.append(o)
        total = 1
        for o in opts:
            total *= len(o)
        if total > 64:
            return False
        for combo in itertools.product(*opts):
            s = P0
            for q in combo:
                s = padd(s, q)
            if s.is_zero:
                ok = True
                break
            num, den = N.together(s)
            if num.is_zero:
                ok = True
                break
        if not ok:
            return False
    return True


def index_model(E, facts, extra=(), lo_sizes=True):
    """z3 model of the facts, completed on the free index variables of E"""
    vs = set(E.ixvars())
    for c in facts.conds:
        vs |= cvars(c)
    todo = list(vs)
    while todo:
        v = todo.pop()
        n = facts.ranges.get(v)
        if n is not None:
            for w in ivars(n):
                if w not in vs:
                    vs.add(w)
                    todo.append(w)
    return vs


def refute_zero(E, facts, rsubst, seeds=3, domains=None, bad=None):
    """a point of the path where E != 0 (bad(E, scale))"""
    import random
    rnd = random.Random(1)
    vs = sorted(index_model(E, facts), key=str)
    s = z3.Solver()
    s.set('timeout', 3000)
    for c in facts.conds:
        s.add(zcond(c))
    s.add(*facts.range_of(vs))
    seen = 0
    hints = real_hints(E, *facts.conds)
    for k in range(seeds * 3 + (24 if hints else 0)):
        s.push()
        # small, varied models
        for v in vs:
            z = zatom(v)
            if not v[1].find('~') > 0:
                s.add(z >= -64, z <= 64) if False else None
        lim = 4 + k
        s.push()
        for v in vs:
            s.add(zatom(v) <= lim, zatom(v) >= -1)
        if rnd.random() < 0.7 and vs:
            for v in rnd.sample(vs, min(len(vs), 3)):
                s.push()
                s.add(zatom(v) == rnd.randint(0, 3))
                if s.check() != z3.sat:
                    s.pop()
        r = s.check()
        if r != z3.sat:
            while s.num_scopes() > 1:
                s.pop()
            r = s.check()
        if r != z3.sat:
            while s.num_scopes() > 0:
                s.pop()
            return seen
        m = s.model()
        ints = {}
        for v in vs:
            x = m.eval(zatom(v), model_completion=True)
            ints[v] = x.as_long()
        while s.num_scopes() > 0:
            s.pop()
        interp = Interp(seed=k, ints=ints, domains=domains)
        interp.hints = hints if k >= seeds * 3 else ()
        interp.model = m
        interp.facts = facts
        # uninterpreted index functions: read from the model
        try:
            interp.rsubst = {}
            for t, val in (rsubst or {}).items():
                if t.op == 'arr':
                    interp.rsubst[(t.args[0], tuple(interp.ix(i) for i in t.args[1]))] = interp.ev(val)
            if not all(interp.cond(c) for c in facts.conds if has_real(c)):
                continue
            v = interp.ev(E)
        except (KeyError, ZeroDivisionError, OverflowError, ValueError, TypeError):
            continue
        except RecursionError:
            return seen
        if v != v:
            continue
        if isinstance(v, complex):
            continue
        scale = magnitude(E, interp)
        if abs(v) > 1e-7 * max(1.0, scale) if bad is None else bad(v, 1e-7 * max(1.0, scale)):
            return dict(ints={a[1] if a[0] == 'v' else akey(a): i for a, i in ints.items()
                              if '~' not in akey(a)},
                        seed=k, value=v)
        seen += 1
    return seen


def real_hints(*roots):
    """numbers near which the conditions on reals among the terms change"""
    out, seen = set(), set()

    def consts(t, acc):
        if id(t) in seen2 or len(acc) > 12:
            return
        seen2.add(id(t))
        if t.op == 'c':
            acc.add(abs(float(t.args[0])))
            return
        walk(t, lambda u: consts(u, acc))

    def walk(t, f):
        stack = list(t.args)
        while stack:
            a = stack.pop()
            if isinstance(a, (T, Cond)):
                f(a)
            elif isinstance(a, (tuple, list)):
                stack.extend(a)

    def find(t):
        if id(t) in seen:
            return
        seen.add(id(t))
        if isinstance(t, Cond) and t.op in ('rz', 'rle'):
            acc = set()
            seen2.clear()
            consts(t.args[0], acc)
            acc |= {a / b for a in acc for b in acc if a and b} if len(acc) < 3 else set()
            for a in acc:
                out.update((a, -a))
            out.add(0.)
        walk(t, find)
    seen2 = set()
    for r in roots:
        find(r)
    return tuple(sorted(h for h in out if h == h and abs(h) < 1e12))[:40]


def has_real(c):
    if c.op in ('rz', 'rle'):
        return True
    return c.op in ('and', 'not') and any(has_real(x) for x in c.args)


def magnitude(E, interp):
    try:
        if E.op == 'add':
            return max(abs(interp.ev(x)) for x in E.args[0])
        return 1.0
    except Exception:
        return 1.0


def prove_equal(a, b, facts, rsubst=None, **kw):
    if a is b:
        return Result('proved', leaves=1, logpos=False, seconds=0.0)
    return prove_zero(sub(a, b), facts, rsubst, **kw)
