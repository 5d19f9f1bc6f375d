"""Integer index terms (linear normal form over atoms), conditions over them
and their translation to z3."""
import sys
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
import z3


class Ix(object):
    """c + sum coeff * atom.  Atoms are tuples: ('v', name),
    ('f', name, (Ix, ...)), ('mul', Ix, Ix), ('div', Ix, Ix), ('mod', Ix, Ix),
    ('ite', cond, Ix, Ix)."""
    __slots__ = ('c', 't', 'key', '_h')
    _tab = {}

    def __new__(cls, c=0, t=()):
        k = (c, t)
        r = cls._tab.get(k)
        if r is None:
            r = object.__new__(cls)
            r.c, r.t = c, t
            r.key = '+'.join(['%d' % c] + ['%d*%s' % (m, akey(a)) for a, m in t])
            r._h = hash(r.key)
            cls._tab[k] = r
        return r

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return self is o

    def __lt__(self, o):
        return self.key < o.key

    def __repr__(self):
        return self.key

    @property
    def is_const(self):
        return not self.t


def akey(a):
    if a[0] == 'v':
        return a[1]
    if a[0] == 'f':
        return '%s(%s)' % (a[1], ','.join(i.key for i in a[2]))
    if a[0] == 'ite':
        return 'ite(%s,%s,%s)' % (a[1].key, a[2].key, a[3].key)
    return '%s(%s,%s)' % (a[0], a[1].key, a[2].key)


def ix(x):
    if isinstance(x, Ix):
        return x
    return Ix(int(x))


def var(name):
    return Ix(0, ((('v', name), 1),))


def iapp(name, *args):
    return Ix(0, ((('f', name, tuple(ix(a) for a in args)), 1),))


def _mk(c, d):
    return Ix(c, tuple(sorted(((a, m) for a, m in d.items() if m),
                              key=lambda p: akey(p[0]))))


def iadd(a, b):
    a, b = ix(a), ix(b)
    if not a.t:
        if not b.t:
            return Ix(a.c + b.c)
        if a.c == 0:
            return b
    if not b.t and b.c == 0:
        return a
    d = dict(a.t)
    for k, m in b.t:
        d[k] = d.get(k, 0) + m
    return _mk(a.c + b.c, d)


def iscale(a, k):
    a = ix(a)
    return Ix(a.c * k, tuple((x, m * k) for x, m in a.t)) if k else Ix(0)


def ineg(a):
    return iscale(a, -1)


def isub(a, b):
    return iadd(a, ineg(b))


def imul(a, b):
    a, b = ix(a), ix(b)
    if a.is_const:
        return iscale(b, a.c)
    if b.is_const:
        return iscale(a, b.c)
    r = Ix(a.c * b.c)
    r = iadd(r, iscale(Ix(0, b.t), a.c))
    r = iadd(r, iscale(Ix(0, a.t), b.c))
    for x, m in a.t:
        for y, n in b.t:
            p, q = sorted((Ix(0, ((x, 1),)), Ix(0, ((y, 1),))))
            r = iadd(r, Ix(0, ((('mul', p, q), m * n),)))
    return r


def idiv(a, b):
    a, b = ix(a), ix(b)
    if a.is_const and b.is_const:
        return Ix(a.c // b.c)
    if b.is_const and b.c == 1:
        return a
    return Ix(0, ((('div', a, b), 1),))


def imod(a, b):
    a, b = ix(a), ix(b)
    if a.is_const and b.is_const:
        return Ix(a.c % b.c)
    return Ix(0, ((('mod', a, b), 1),))


def iite(c, a, b):
    a, b = ix(a), ix(b)
    if c is TRUE or a is b:
        return a
    if c is FALSE:
        return b
    return Ix(0, ((('ite', c, a, b), 1),))


class Cond(object):
    """op in: 'true','false','eq' (Ix == 0), 'le' (Ix <= 0), 'and','or','not',
    'bf' (uninterpreted boolean function of indices: name, (Ix,...)),
    'rz' (real term == 0: opaque key), 'rle' (real term <= 0)."""
    __slots__ = ('op', 'args', 'key', '_h')
    _tab = {}

    def __new__(cls, op, args=()):
        if op == 'bf':
            key = '%s(%s)' % (args[0], ','.join(i.key for i in args[1]))
        else:
            key = op + '(' + ','.join(getattr(a, 'key', str(a)) for a in args) + ')'
        r = cls._tab.get((op, key))
        if r is None:
            r = object.__new__(cls)
            r.op, r.args, r.key = op, tuple(args), key
            r._h = hash(key)
            cls._tab[(op, key)] = r
        return r

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return self is o

    def __repr__(self):
        return self.key


TRUE = Cond('true')
FALSE = Cond('false')


def cbool(b):
    return TRUE if b else FALSE


def _leaves(a):
    """a conditional integer whose cases are all constants"""
    return a[0] == 'ite' and all(x.is_const or (x.c == 0 and len(x.t) == 1 and x.t[0][1] == 1 and _leaves(x.t[0][0]))
                                 for x in a[2:])


def _lower(f, d):
    """f(d) for a difference d with a conditional over constants: the
    condition of each case"""
    for a, m in d.t:
        if _leaves(a):
            rest = isub(d, Ix(0, ((a, m),)))
            x, y = (f(iadd(rest, iscale(z, m))) for z in a[2:])
            return cor(cand(a[1], x), cand(cnot(a[1]), y))
    return None


def ceq(a, b=0):
    d = isub(a, b)
    if d.is_const:
        return cbool(d.c == 0)
    r = _lower(ceq, d)
    if r is not None:
        return r
    # canonical sign
    if d.t[0][1] < 0:
        d = ineg(d)
    return Cond('eq', (d,))


def cle(a, b=0):
    d = isub(a, b)
    if d.is_const:
        return cbool(d.c <= 0)
    r = _lower(cle, d)
    return Cond('le', (d,)) if r is None else r


def clt(a, b=0):
    return cle(iadd(a, 1), b)


def cnot(c):
    if c is TRUE:
        return FALSE
    if c is FALSE:
        return TRUE
    if c.op == 'not':
        return c.args[0]
    if c.op == 'le':
        return cle(isub(1, c.args[0]), 0)
    return Cond('not', (c,))


def cand(*cs):
    out = []
    for c in cs:
        if c is FALSE:
            return FALSE
        if c is TRUE:
            continue
        for x in (c.args if c.op == 'and' else (c,)):
            if x not in out:
                out.append(x)
    if not out:
        return TRUE
    if len(out) > 1:
        r = _tighten(out)
        if r is not None:
            return r
    return out[0] if len(out) == 1 else Cond('and', tuple(out))


def _tighten(cs):
    """d != 0 next to a bound of d on one side; None: nothing to do"""
    les = {c.args[0]: c for c in cs if c.op == 'le'}
    for c in cs:
        if cnot(c) in cs:
            return FALSE
        if c.op == 'not' and c.args[0].op == 'eq':
            d = c.args[0].args[0]
            for e in (d, ineg(d)):
                rest = [x for x in cs if x is not c]
                if iadd(e, 1) in les:
                    return cand(*rest)
                if e in les:
                    return cand(*([x for x in rest if x is not les[e]] + [cle(iadd(e, 1), 0)]))
    return None


def cor(*cs):
    return cnot(cand(*[cnot(c) for c in cs]))


# --- substitution ----------------------------------------------------------
def isubst(a, m):
    """m: dict atom -> Ix"""
    if not m or not a.t:
        return a
    r = Ix(a.c)
    for x, k in a.t:
        y = m.get(x)
        if y is None:
            y = _asub(x, m)
        r = iadd(r, iscale(y, k))
    return r


def _asub(x, m):
    if x[0] == 'v':
        return Ix(0, ((x, 1),))
    if x[0] == 'f':
        n = ('f', x[1], tuple(isubst(i, m) for i in x[2]))
        if n in m:
            return m[n]
        return Ix(0, ((n, 1),))
    if x[0] == 'ite':
        return iite(csubst(x[1], m), isubst(x[2], m), isubst(x[3], m))
    f = {'mul': imul, 'div': idiv, 'mod': imod}[x[0]]
    return f(isubst(x[1], m), isubst(x[2], m))


def csubst(c, m):
    if not m:
        return c
    if c.op == 'eq':
        return ceq(isubst(c.args[0], m))
    if c.op == 'le':
        return cle(isubst(c.args[0], m))
    if c.op == 'and':
        return cand(*[csubst(x, m) for x in c.args])
    if c.op == 'not':
        return cnot(csubst(c.args[0], m))
    if c.op == 'bf':
        return Cond('bf', (c.args[0], tuple(isubst(i, m) for i in c.args[1])))
    if c.op in ('rz', 'rle'):
        return Cond(c.op, (c.args[0].subst(m),))
    return c


# --- variables -------------------------------------------------------------
_vcache = {}


def ivars(a):
    r = _vcache.get(a)
    if r is None:
        s = set()
        for x, _ in a.t:
            s |= avars(x)
        r = _vcache[a] = frozenset(s)
    return r


def avars(x):
    if x[0] == 'v':
        return {x}
    if x[0] == 'f':
        return set().union(*[ivars(i) for i in x[2]]) if x[2] else set()
    if x[0] == 'ite':
        return cvars(x[1]) | ivars(x[2]) | ivars(x[3])
    return ivars(x[1]) | ivars(x[2])


def cvars(c):
    if c.op in ('eq', 'le'):
        return ivars(c.args[0])
    if c.op in ('and', 'not'):
        return frozenset().union(*[cvars(x) for x in c.args])
    if c.op == 'bf':
        return frozenset().union(*[ivars(x) for x in c.args[1]])
    if c.op in ('rz', 'rle'):
        return c.args[0].ixvars()
    return frozenset()


# --- z3 --------------------------------------------------------------------
_zv = {}


def zatom(x):
    if x[0] == 'v':
        if x not in _zv:
            _zv[x] = z3.Int(x[1])
        return _zv[x]
    if x[0] == 'f':
        f = z3.Function(x[1], *([z3.IntSort()] * (len(x[2]) + 1)))
        return f(*[zix(i) for i in x[2]])
    if x[0] == 'ite':
        return z3.If(zcond(x[1]), zix(x[2]), zix(x[3]))
    if x[0] == 'mul':
        return zix(x[1]) * zix(x[2])
    if x[0] == 'div':
        return zix(x[1]) / zix(x[2])
    return zix(x[1]) % zix(x[2])


def zix(a):
    r = z3.IntVal(a.c)
    for x, m in a.t:
        z = zatom(x)
        r = r + (z if m == 1 else m * z)
    return r


def zcond(c):
    o = c.op
    if o == 'true':
        return z3.BoolVal(True)
    if o == 'false':
        return z3.BoolVal(False)
    if o == 'eq':
        return zix(c.args[0]) == 0
    if o == 'le':
        return zix(c.args[0]) <= 0
    if o == 'and':
        return z3.And(*[zcond(x) for x in c.args])
    if o == 'not':
        return z3.Not(zcond(c.args[0]))
    if o == 'bf':
        f = z3.Function(c.args[0], *([z3.IntSort()] * len(c.args[1]) + [z3.BoolSort()]))
        return f(*[zix(i) for i in c.args[1]])
    return z3.Bool('R!' + c.key)


class Facts(object):
    """A conjunction of conditions with a decision procedure."""
    queries = 0
    seconds = 0.0

    def __init__(self, conds=(), ranges=None):
        self.conds = tuple(conds)
        self.ranges = dict(ranges or {})   # atom -> Ix size (0 <= v < size)
        self._memo = {}
        self._solver = None

    def add(self, *cs):
        return Facts(self.conds + tuple(c for c in cs if c is not TRUE), self.ranges)

    def solver(self):
        if self._solver is None:
            self._solver = z3.Solver()
            self._solver.set('timeout', 5000)
            for c in self.conds:
                self._solver.add(zcond(c))
        return self._solver

    def range_of(self, vs, seen=None):
        out = []
        seen = set()
        todo = list(vs)
        while todo:
            v = todo.pop()
            if v in seen:
                continue
            seen.add(v)
            n = self.ranges.get(v)
            if n is not None:
                z = zatom(v)
                out += [z >= 0, z < zix(n)]
                todo += ivars(n)
        return out

    def check(self, *zs):
        import time
        t = time.time()
        Facts.queries += 1
        s = self.solver()
        s.push()
        s.add(*zs)
        r = s.check()
        s.pop()
        Facts.seconds += time.time() - t
        return r

    def consistent(self, *cs):
        vs = frozenset().union(*[cvars(c) for c in cs]) if cs else ()
        return self.check(*([zcond(c) for c in cs] + self.range_of(vs))) != z3.unsat

    def decide(self, c, local=()):
        """True/False if c is forced, None otherwise.  `local` are extra
        conditions (ranges of bound variables)."""
        if c is TRUE:
            return True
        if c is FALSE:
            return False
        k = (c, local)
        if k in self._memo:
            return self._memo[k]
        vs = cvars(c)
        for l in local:
            vs = vs | cvars(l)
        hyp = [zcond(x) for x in local] + self.range_of(vs)
        if self.check(z3.Not(zcond(c)), *hyp) == z3.unsat:
            r = True
        elif self.check(zcond(c), *hyp) == z3.unsat:
            r = False
        else:
            r = None
        self._memo[k] = r
        return r

    def model(self, *cs):
        s = self.solver()
        vs = frozenset().union(*[cvars(c) for c in cs]) if cs else ()
        s.push()
        s.add(*[zcond(c) for c in cs])
        s.add(*self.range_of(vs))
        m = s.model() if s.check() == z3.sat else None
        s.pop()
        return m
