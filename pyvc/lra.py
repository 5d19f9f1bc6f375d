"""Inequalities between real terms from the real conditions of a path (z3,
real arithmetic over the atoms of the normal form)."""
import z3
from fractions import Fraction
from .norm import Norm, Poly
from .sym import *
from .terms import *


class Tr(object):
    def __init__(self, N, linear=False):
        """linear: products are opaque"""
        self.N, self.v, self.ax, self.inv, self.linear = N, {}, [], {}, linear

    def atom(self, a):
        if a not in self.v:
            self.v[a] = x = z3.Real('r%d' % len(self.v))
            s = self.N.asign(a)
            if s:
                self.ax.append(x > 0 if s > 0 else x < 0)
            if a.kind == 'fn' and a.args[0] == 'abs':
                p = self.poly(a.args[1][0])
                self.ax += [x >= 0, z3.Or(x == p, x == -p)]
            if a.kind == 'fn' and a.args[0] in ('rz', 'rle'):
                p = self.poly(a.args[1][0])
                c = p == 0 if a.args[0] == 'rz' else p <= 0
                self.ax.append(x == z3.If(c, z3.RealVal(1), z3.RealVal(0)))
            if a.kind == 'poly' and not self.linear:
                self.ax.append(x == self.poly(a.args[0]))
        return self.v[a]

    def power(self, a, e):
        if not isinstance(e, int) or abs(e) > 8:
            k = ('pow', a, e)
            if k not in self.v:
                self.v[k] = x = z3.Real('r%d' % len(self.v))
                q = e.const() if isinstance(e, Poly) else e
                if type(q) is Fraction and q.denominator % 2 == 0:
                    self.ax.append(x >= 0)
            return self.v[k]
        x = self.atom(a)
        if e < 0:
            if a not in self.inv:
                self.inv[a] = i = z3.Real('i%d' % len(self.inv))
                self.ax.append(x * i == 1)     # the quotient is defined
            x, e = self.inv[a], -e
        r = x
        for _ in range(e - 1):
            r = r * x
        return r

    def poly(self, p):
        out = z3.RealVal(0)
        for m, c in p.d.items():
            t = z3.RealVal(str(c))
            if self.linear and (len(m) > 1 or m and m[0][1] != 1 and isinstance(m[0][1], int)):
                k = ('mono', m)
                if k not in self.v:
                    self.v[k] = z3.Real('r%d' % len(self.v))
                    if all(isinstance(e, int) and e % 2 == 0 for _, e in m):
                        self.ax.append(self.v[k] >= 0)
                out = out + t * self.v[k]
                continue
            for a, e in m:
                t = t * self.power(a, e)
            out = out + t
        return out

    def term(self, t):
        return self.poly(self.N.norm(t))


def entails(facts, rsubst, t, strict=False, timeout=2000):
    """t >= 0 (strict: t > 0) follows: True; None: not known; False: the real
    conditions alone have a model in which it fails"""
    if solve(facts, rsubst, t, strict, timeout, True):
        return True
    return solve(facts, rsubst, t, strict, timeout, False)


def solve(facts, rsubst, t, strict, timeout, linear):
    N = Norm(facts, rsubst)
    tr = Tr(N, linear)
    s = z3.Solver()
    s.set('timeout', timeout)
    for c in facts.conds:
        neg_ = c.op == 'not'
        q = c.args[0] if neg_ else c
        if q.op not in ('rz', 'rle'):
            continue
        x = tr.term(q.args[0])
        f = x == 0 if q.op == 'rz' else x <= 0
        s.add(z3.Not(f) if neg_ else f)
    g = tr.term(t)
    s.add(z3.Not(g > 0 if strict else g >= 0))
    s.add(*tr.ax)
    r = s.check()
    return True if r == z3.unsat else False if r == z3.sat else None
