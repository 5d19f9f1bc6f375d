"""Flat (row major) order of arrays and enumerations of boolean masks.

An enumeration lists the true entries of a mask in row major order; it is
known by its contract:
  count; pos(k): coordinates of the k-th true entry; rank(I): number of true
  entries before I;  pos(rank(I)) = I for true entries, rank(pos(k)) = k.
The axioms are added to the facts of the path for the indices that occur."""
from .index import *
from . import terms as TT

# flat index -> coordinates, for the flat indices that were built from them
RAVEL = {}
UNRAVEL = {}
BYK = {}
PRODUCTS = {}


def product(shape):
    n = Ix(1)
    for s in shape:
        n = imul(n, s)
    return n


def ravel_ix(I, shape):
    shape = tuple(shape)
    if len(I) == 1:
        return I[0]
    k = UNRAVEL.get((tuple(I), shape))
    if k is not None:
        return k
    k = Ix(0)
    for i, s in zip(I, shape):
        k = iadd(imul(k, s), i)
    if I:
        RAVEL[k, shape] = tuple(I)
        BYK.setdefault(k, {})[shape] = tuple(I)
    return k


def unravel_ix(k, shape):
    shape = tuple(shape)
    if not shape:
        return ()
    if len(shape) == 1:
        return (k,)
    J = RAVEL.get((k, shape))
    if J is not None:
        return J
    big = [a for a, s in enumerate(shape) if s is not Ix(1)]
    if len(big) <= 1:
        return tuple(k if a in big else Ix(0) for a in range(len(shape)))
    for other, J in list(BYK.get(k, {}).items()):
        segs = segments(shape, other)
        if segs is not None and len(segs) > 1:
            return regroup(segs, shape, other)(J)
    J = []
    q = k
    for s in reversed(shape[1:]):
        J.append(imod(q, s))
        q = idiv(q, s)
    J.append(q)
    J = tuple(reversed(J))
    UNRAVEL[J, shape] = k
    return J


def register(shape):
    shape = tuple(shape)
    if len(shape) > 1 and not all(s.is_const for s in shape):
        n = product(shape)
        l = PRODUCTS.setdefault(n, [])
        if shape not in l:
            l.append(shape)


def segments(src, dst):
    """splits two shapes of the same number of entries into groups of axes of
    equal product: list of (axes of src, axes of dst), or None"""
    out = []
    i = j = 0
    n, m = len(src), len(dst)
    while i < n and j < m:
        found = None
        for tot in range(2, n - i + m - j + 1):
            for a in range(1, min(tot - 1, n - i) + 1):
                b = tot - a
                if b <= m - j and product(src[i:i + a]) is product(dst[j:j + b]):
                    found = a, b
                    break
            if found:
                break
        if not found:
            # axes of length one
            if src[i] is Ix(1):
                out.append(((i,), ()))
                i += 1
                continue
            if dst[j] is Ix(1):
                out.append(((), (j,)))
                j += 1
                continue
            return None
        a, b = found
        out.append((tuple(range(i, i + a)), tuple(range(j, j + b))))
        i, j = i + a, j + b
    while i < n:
        if src[i] is not Ix(1):
            return None
        out.append(((i,), ()))
        i += 1
    while j < m:
        if dst[j] is not Ix(1):
            return None
        out.append(((), (j,)))
        j += 1
    return out


def regroup(segs, src, dst):
    """index of dst -> index of src"""
    def f(I):
        J = [None] * len(src)
        for s, d in segs:
            if not s:
                continue
            if not d:
                for a in s:
                    J[a] = Ix(0)
                continue
            if len(s) == len(d) == 1:
                J[s[0]] = I[d[0]]
                continue
            k = ravel_ix(tuple(I[a] for a in d), tuple(dst[a] for a in d))
            for a, v in zip(s, unravel_ix(k, tuple(src[a] for a in s))):
                J[a] = v
        return tuple(J)
    return f


# --- enumerations ------------------------------------------------------------
def assume(*cs):
    from .sym import Engine
    e = Engine.cur
    if e is None or not hasattr(e, 'explore'):
        return
    seen = e.__dict__.setdefault('axioms', set())
    for c in cs:
        if c is TRUE or c in e.facts.conds:
            continue
        e.facts = e.facts.add(c)


def implies(a, b):
    return cor(cnot(a), b)


def inrange(I, shape):
    return cand(*[cand(cle(0, i), clt(i, s)) for i, s in zip(I, shape)])


class Enum(object):
    shape = ()

    def flat(self, k):
        return ravel_ix(self.pos(k), self.shape)

    @property
    def n(self):
        return product(self.shape)


class Base(Enum):
    """enumeration of an uninterpreted mask"""

    def __init__(self, name, shape, cond):
        self.name, self.shape, self.cond_ = name, tuple(shape), cond
        self.count_ = iapp('cnt!' + name)
        self.ranks = {}     # rank term -> coordinates
        self.poss = {}      # coordinates -> k
        self.co = Complement(self)
        self.hooks()

    def hooks(self):
        def entries(env, value):
            dims = [env.ix(s) for s in self.shape]
            import itertools
            out = []
            for J in itertools.product(*[range(d) for d in dims]):
                if env.cond(self.cond_(tuple(Ix(j) for j in J))) == value:
                    out.append(J)
            return out

        def count(env, idx):
            return len(entries(env, True))

        def rank(env, idx):
            return sum(1 for J in entries(env, True) if J < tuple(idx))
        TT.IFUN['cnt!' + self.name] = count
        TT.IFUN['rank!' + self.name] = rank
        for tag, value in (('pos!', True), ('npos!', False)):
            for a in range(len(self.shape)):
                def pos(env, idx, a=a, value=value):
                    L = entries(env, value)
                    if not 0 <= idx[0] < len(L):
                        raise KeyError(idx)
                    return L[idx[0]][a]
                TT.IFUN['%s%s!%d' % (tag, self.name, a)] = pos

    @property
    def count(self):
        assume(cle(0, self.count_), cle(self.count_, self.n))
        return self.count_

    def cond(self, I):
        return self.cond_(I)

    def pos(self, k):
        c = self.count
        I = self.ranks.get(k)
        J = tuple(iapp('pos!%s!%d' % (self.name, a), k) for a in range(len(self.shape)))
        if I is not None:
            b = self.cond_(I)
            d = decide(b)
            if d is True:
                return I
            if d is None:
                J = tuple(iite(b, i, j) for i, j in zip(I, J))
                return J
        self.poss[J] = k
        ok = cand(cle(0, k), clt(k, c))
        assume(implies(ok, cand(inrange(J, self.shape), self.cond_(J))))
        return J

    def rank(self, I):
        I = tuple(I)
        c = self.count
        if I in self.poss:
            return self.poss[I]
        if I in self.co.poss:
            return isub(ravel_ix(I, self.shape), self.co.poss[I])
        r = iapp('rank!' + self.name, *I)
        self.ranks[r] = I
        f = ravel_ix(I, self.shape)
        self.co.ranks[isub(f, r)] = I
        b = self.cond_(I)
        assume(implies(inrange(I, self.shape), cand(
            cle(0, r), cle(r, f), cle(r, c), cle(isub(f, r), isub(self.n, c)),
            implies(b, clt(r, c)), implies(cnot(b), clt(isub(f, r), isub(self.n, c))))))
        return r


def decide(c):
    from .sym import Engine
    e = Engine.cur
    if e is None or not hasattr(e, 'facts'):
        return None
    return e.facts.decide(c)


class Complement(Enum):
    def __init__(self, base):
        self.base = base
        self.shape = base.shape
        self.poss = {}
        self.ranks = {}

    @property
    def count(self):
        return isub(self.base.n, self.base.count)

    def cond(self, I):
        return cnot(self.base.cond(I))

    def pos(self, k):
        b = self.base
        c = self.count
        I = self.ranks.get(k)
        J = tuple(iapp('npos!%s!%d' % (b.name, a), k) for a in range(len(self.shape)))
        if I is not None:
            x = cnot(b.cond_(I))
            d = decide(x)
            if d is True:
                return I
            if d is None:
                return tuple(iite(x, i, j) for i, j in zip(I, J))
        self.poss[J] = k
        ok = cand(cle(0, k), clt(k, c))
        assume(implies(ok, cand(inrange(J, self.shape), cnot(b.cond_(J)))))
        return J

    def rank(self, I):
        I = tuple(I)
        if I in self.poss:
            return self.poss[I]
        return isub(ravel_ix(I, self.shape), self.base.rank(I))


class All(Enum):
    def __init__(self, shape):
        self.shape = tuple(shape)

    @property
    def count(self):
        return self.n

    def cond(self, I):
        return TRUE

    def pos(self, k):
        return unravel_ix(k, self.shape)

    def rank(self, I):
        return ravel_ix(tuple(I), self.shape)


class Never(Enum):
    def __init__(self, shape):
        self.shape = tuple(shape)

    count = Ix(0)

    def cond(self, I):
        return FALSE

    def pos(self, k):
        return (Ix(0),) * len(self.shape)

    def rank(self, I):
        return Ix(0)


class Both(Enum):
    """mask that is the product of two masks over the first and the last axes"""

    def __init__(self, a, b):
        self.a, self.b = a, b
        self.shape = a.shape + b.shape

    @property
    def count(self):
        register((self.a.count, self.b.count))
        return imul(self.a.count, self.b.count)

    def cond(self, I):
        n = len(self.a.shape)
        return cand(self.a.cond(I[:n]), self.b.cond(I[n:]))

    def pos(self, k):
        i, j = unravel_ix(k, (self.a.count, self.b.count))
        return self.a.pos(i) + self.b.pos(j)

    def rank(self, I):
        # entries before I: complete rows of the first mask, then the last one
        n = len(self.a.shape)
        a, b = self.a.rank(I[:n]), self.b.rank(I[n:])
        return iadd(imul(a, self.b.count), iite(self.a.cond(I[:n]), b, 0))


class Flat(Enum):
    """the same enumeration over the flattened mask"""

    def __init__(self, e):
        self.e = e
        self.shape = (e.n,)

    @property
    def count(self):
        return self.e.count

    def cond(self, I):
        return self.e.cond(unravel_ix(I[0], self.e.shape))

    def pos(self, k):
        return (ravel_ix(self.e.pos(k), self.e.shape),)

    def rank(self, I):
        return self.e.rank(unravel_ix(I[0], self.e.shape))


TAB = {}
KNOWN = []      # enumerations by which `insert` recognises its positions


def known(e):
    KNOWN.append(e)
    return e


def canon(n):
    return tuple(var('mk!%d' % k) for k in range(n))


def enum(shape, cond):
    """enumeration of the mask I -> cond(I)"""
    shape = tuple(shape)
    if len(shape) == 1 and shape[0] in PRODUCTS:
        for S in PRODUCTS[shape[0]]:
            # the mask of a flattened array
            k = 'flat', S
            I = canon(len(S))
            c = cond((ravel_ix(I, S),))
            if not divmods(c):
                return Flat(enum(S, lambda J: csubst(c, {i.t[0][0]: j for i, j in zip(I, J)})))
    I = canon(len(shape))
    return build(shape, cond(I), I)


def divmods(c):
    return 'div(' in c.key or 'mod(' in c.key


def build(shape, c, I):
    if c is TRUE:
        return All(shape)
    if c is FALSE:
        return Never(shape)
    vs = cvars(c)
    lead = 0
    while I[lead].t[0][0] not in vs:
        lead += 1
    tail = len(I)
    while I[tail - 1].t[0][0] not in vs:
        tail -= 1
    if lead:
        J = canon(len(shape) - lead)
        m = {i.t[0][0]: j for i, j in zip(I[lead:], J)}
        return Both(All(shape[:lead]), build(shape[lead:], csubst(c, m), J))
    if tail < len(I):
        return Both(build(shape[:tail], c, I[:tail]), All(shape[tail:]))
    if c.op == 'not':
        e = build(shape, c.args[0], I)
        if isinstance(e, Base):
            return e.co
        return build1(shape, c, I)
    if c.op == 'and':
        for n in range(1, len(shape)):
            first = {i.t[0][0] for i in I[:n]}
            last = {i.t[0][0] for i in I[n:]}
            a = [x for x in c.args if cvars(x) & first]
            b = [x for x in c.args if cvars(x) & last]
            if a and b and not set(a) & set(b):
                rest = [x for x in c.args if x not in a and x not in b]
                J = canon(len(shape) - n)
                m = {i.t[0][0]: j for i, j in zip(I[n:], J)}
                return Both(build(shape[:n], cand(*(a + rest)), I[:n]),
                            build(shape[n:], csubst(cand(*b), m), J))
    return build1(shape, c, I)


def build1(shape, c, I):
    k = (shape, c)
    if k not in TAB:
        TAB[k] = Base('m%d' % len(TAB), shape,
                      lambda J: csubst(c, {i.t[0][0]: j for i, j in zip(I, J)}))
    return TAB[k]
