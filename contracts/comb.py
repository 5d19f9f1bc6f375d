"""Contracts of the combinators.  The parts are arbitrary functions known by
their contract (fkit.Atom) or, one level up, combinations themselves, so that
every layout a combination can report is also met as the layout of a part."""
import itertools
import random
from contracts.fkit import *

POOL = ('T', 'U')


def inj(r, axes):
    return itertools.permutations(axes, r)


def argx(k):
    return lambda M, k=k: arr('x%d' % k, *M)


class Node(object):
    """a function: build() is the real object, V its value as a term"""

    def __init__(self, build, V, atoms, text=''):
        self.build, self.V, self.atoms, self.text = build, V, atoms, text


class Names(object):
    def __init__(self):
        self.k = 0

    def new(self, p='A'):
        self.k += 1
        return '%s%d' % (p, self.k)


def atom(nm, args, n, d, maps, null=None):
    a = Atom(nm, [s for s, _ in args], maps, n, d, null, at=[f for _, f in args])
    return Node(a.func, lambda N, E: a.V(tuple(N) + tuple(E)), [a], '%s%s%s' % (''.join(
        'F' if m is None else '-' if m == 'absent' else ''.join(map(str, m)) or '.' for m in maps),
        'n%dd%d' % (len(n), len(d)), '' if null is None else ' no ' + null))


def num(x):
    """a scalar: arbitrary (a name) or given"""
    return C.num(x) if isinstance(x, str) else x


def term(x):
    return arr(x) if isinstance(x, str) else const(x)


def scal(rnd, nm):
    """mostly arbitrary scalars while there are few of them"""
    nm.scalars = getattr(nm, 'scalars', 0)
    if nm.scalars < 2 and rnd.random() < 0.6:
        nm.scalars += 1
        return nm.new('w')
    return rnd.choice((1, 0, 2.0, -1, 0.5, 3))


def affine(b, a0, b0):
    """a0 * f + b0 through the class"""
    return Node(lambda: FB.Affine(b.build(), num(a0), num(b0)),
                lambda N, E: add(mul(term(a0), b.V(N, E)), term(b0)), b.atoms,
                'aff(%s %s %s)' % (b.text, a0, b0))


def compose(f, gs, op=False):
    def build():
        g = [x.build() for x in gs]
        if op:
            return f.build() @ (g[0] if len(g) == 1 else g)
        return FB.Compose(f.build(), g)
    return Node(build, f.V, [a for x in [f] + gs for a in x.atoms],
                'comp(%s;%s)' % (f.text, ','.join(x.text for x in gs)))


def wrapped(b, fmap, dmap, sizes, flip=()):
    """value of a part placed on the axes of the combination"""
    def V(N, E):
        N = [add_ix(iadd(sizes[a], -1), iscale(x, -1)) if a in flip else x for a, x in enumerate(N)]
        return b.V(tuple(N[f] for f in fmap), tuple(E[f] for f in dmap))
    return V


def add_ix(a, b):
    return iadd(a, b)


def wrap(b, pmap, fmap, n, dmap, d, flip=None, at=None):
    return Node(lambda: FO.FuncWrap(b.build(), pmap, fmap, len(n), dmap, len(d), flip),
                wrapped(b, fmap, dmap if dmap is not None else range(len(d)), n, flip or ()), b.atoms,
                'wrap(%s;p%s f%s/%d d%s/%d%s)' % (b.text, pmap, fmap, len(n), dmap, len(d),
                                                  '' if not flip else ' flip%s' % flip))


def short(m, k):
    """a map of one axis may be given as the number of the axis"""
    return m[0] if isinstance(m, (list, tuple)) and len(m) == 1 and k % 2 else m


def sum_node(parts, n, d, nested=False):
    """parts: (node, param_map, feat_map, dim_map, weight name or None)"""
    def build():
        s = FO.Sum(len(n), len(d))
        for b, pmap, fmap, dmap, w in parts:
            k = len(b.text)
            s.add(b.build(), short(pmap, k), short(fmap, k // 2), short(dmap, k // 4),
                  *([] if w is None else [num(w)]))
        return s

    def V(N, E):
        out = []
        for b, pmap, fmap, dmap, w in parts:
            t = wrapped(b, fmap, dmap, n)(N, E)
            out.append(t if w is None else mul(term(w), t))
        return add(*out)
    return Node(build, V, [a for p in parts for a in p[0].atoms], 'sum(%s)' % ','.join(
        '%s;p%s f%s d%s%s' % (b.text, p, f, q, '' if w is None else ' w%s' % w) for b, p, f, q, w in parts))


def prod_node(parts, n, d):
    def build():
        s = FO.Product(len(n), len(d))
        for b, pmap, fmap, dmap, w in parts:
            k = len(b.text)
            s.add(b.build(), short(pmap, k), short(fmap, k // 2), short(dmap, k // 4))
        return s

    def V(N, E):
        return mul(*[wrapped(b, f, q, n)(N, E) for b, p, f, q, w in parts])
    return Node(build, V, [a for p in parts for a in p[0].atoms], 'prod(%s)' % ','.join(
        '%s;p%s f%s d%s' % (b.text, p, f, q) for b, p, f, q, w in parts))


def collapse(b, n, d, sv, sd):
    """sum over the axes sv (True, False, int, list) and, if sd, the extra axes"""
    ax = list(range(len(n))) if sv is True else [] if sv is False else \
        [sv] if isinstance(sv, int) else list(sv)

    def V(N, E):
        N = list(N)
        vs = []
        full = []
        for a in range(len(n)):
            if a in ax:
                v = var(fresh('q'))
                vs.append((v, n[a]))
                full.append(v)
            else:
                full.append(N.pop(0))
        if sd:
            E = []
            for s in d:
                v = var(fresh('q'))
                vs.append((v, s))
                E.append(v)
        t = b.V(tuple(full), tuple(E))
        for v, s in reversed(vs):
            t = tsum(v, s, t)
        return t
    args = ((sv, sd) if sd is not True else (sv, ) if sv is not True else ())     # the rest by default
    return Node(lambda: FO.Collapse(b.build(), *args), V, b.atoms,
                'coll(%s;%s %s)' % (b.text, sv, sd)), \
        [s for a, s in enumerate(n) if a not in ax], [] if sd else d


def cfg(fn, node, sizes, n, d, case=None, **kw):
    kw.setdefault('max_paths', 300)
    return Cfg(fn, case or node.text, sizes, n, d, node.build, node.V, node.atoms,
               hess=not any(a.null == 'hess*' for a in node.atoms), **kw)


S = lambda *a: sz(*a)


def top(*sizes):
    """top-level parameters"""
    return [(list(s), argx(k)) for k, s in enumerate(sizes)]


# --- Affine and the operators of Func ---------------------------------------
def affines(tier):
    ops = [
        ('a*f', lambda f: C.num('a') * f, lambda v: mul(arr('a'), v)),
        ('f*a', lambda f: f * C.num('a'), lambda v: mul(arr('a'), v)),
        ('f/a', lambda f: f / C.num('a', (0.5, 2.)), lambda v: div(v, arr('a'))),
        ('f+b', lambda f: f + C.num('b'), lambda v: add(v, arr('b'))),
        ('b+f', lambda f: C.num('b') + f, lambda v: add(v, arr('b'))),
        ('f-b', lambda f: f - C.num('b'), lambda v: sub(v, arr('b'))),
        ('b-f', lambda f: C.num('b') - f, lambda v: sub(arr('b'), v)),
        ('-f', lambda f: -f, neg),
        ('Affine', lambda f: FB.Affine(f, C.num('a'), C.num('b')), lambda v: add(mul(arr('a'), v), arr('b'))),
        ('Affine a', lambda f: FB.Affine(f, C.num('a')), lambda v: mul(arr('a'), v)),
        ('c*(b-a*f)', lambda f: C.num('c') * (C.num('b') - C.num('a') * f),
         lambda v: mul(arr('c'), sub(arr('b'), mul(arr('a'), v)))),
        ('(a*f+b)/c-e', lambda f: (C.num('a') * f + C.num('b')) / C.num('c', (.5, 2.)) - C.num('e'),
         lambda v: sub(div(add(mul(arr('a'), v), arr('b')), arr('c')), arr('e'))),
        ('-(f+b)', lambda f: -(f + C.num('b')), lambda v: neg(add(v, arr('b')))),
        ('2*f', lambda f: 2 * f, lambda v: mul(const(2), v)),
        ('f+1', lambda f: f + 1, lambda v: add(v, const(1))),
        ('1-f', lambda f: 1 - f, lambda v: sub(const(1), v)),
        ('f/2', lambda f: f / 2, lambda v: div(v, const(2))),
    ]
    lay = [(['T'], ['T'], [], [(0,)]), (['T'], ['U'], ['R'], [None]), ([], ['T'], [], [()]),
           (['T'], ['T', 'U'], ['R'], [(0,)])]
    for k, (p, n, d, maps) in enumerate(lay):
        for null in (None, 'hess', 'grad'):
            for name, op, val in ops if k == 0 else ops[8:12]:
                b = atom('A', top(S(*p)), S(*n), S(*d), maps, null)
                node = Node(lambda op=op, b=b: op(b.build()),
                            lambda N, E, b=b, val=val: val(b.V(N, E)), b.atoms, '%s %s' % (name, b.text))
                yield cfg('Affine', node, [S(*p)], S(*n), S(*d))
    # two parameters
    for name, op, val in ops[8:12]:
        args = top(S('T'), S('U', 'T'))
        b = atom('A', args, S('T', 'U'), [], [(0,), (1, 0)])
        node = Node(lambda op=op, b=b: op(b.build()),
                    lambda N, E, b=b, val=val: val(b.V(N, E)), b.atoms, '%s %s' % (name, b.text))
        yield cfg('Affine', node, [a[0] for a in args], S('T', 'U'), [])


# --- Compose ---------------------------------------------------------------
def layouts(args, n, d, absent=False):
    """all maps of the arguments into the value axes"""
    opts = []
    for s, _ in args:
        o = [None]
        for m in inj(len(s), range(len(n))):
            if all(s[a] is n[f] for a, f in enumerate(m)):
                o.append(m)
        if absent:
            o.append('absent')
        opts.append(o)
    return itertools.product(*opts)


def composes(tier):
    # one inner function, one parameter: all small layouts
    for p in ((), ('T',), ('T', 'U')):
        for n, d in (((), ()), (('T',), ()), (('T',), ('R',)), (('U', 'T'), ()), ((), ('R',))):
            A = top(S(*p))
            for gm in layouts(A, S(*n), S(*d)):
                for fn_, fd in (((), ()), (('T',), ()), (('T', 'U'), ()), (('T',), ('R',)), (('U',), ())):
                    F0 = S(*n) + S(*d)
                    fa = [(F0, None)]
                    for fm in layouts(fa, S(*fn_) + S(*fd), []):
                        for null in (None, 'hess', 'grad') if len(p) < 2 else (None,):
                            g = atom('G', A, S(*n), S(*d), list(gm))
                            G = split(g, len(n))
                            f = atom('F', [(F0, G)], S(*fn_), S(*fd), list(fm), null)
                            yield cfg('Compose', compose(f, [g]), [S(*p)], S(*fn_), S(*fd),
                                      case='%s @ %s p%d' % (f.text, g.text, len(p)))
    # several inner functions and parameters
    rnd = random.Random(11)
    for k in range(160 if tier == 'quick' else 800):
        node, sizes, n, d = rand_compose(rnd, Names(), 1 + (k % 3), rnd.choice((1, 2, 2)))
        yield cfg('Compose', node, sizes, n, d, case='%d: %s' % (k, node.text))


def split(g, nn):
    return lambda M: g.V(tuple(M[:nn]), tuple(M[nn:]))


def rsizes(rnd, k, pool=POOL):
    return [rnd.choice(pool) for _ in range(k)]


def rmap(rnd, s, n, absent=True):
    c = [m for m in inj(len(s), range(len(n))) if all(s[a] is n[f] for a, f in enumerate(m))]
    r = rnd.random()
    if r < 0.15 and absent:
        return 'absent'
    if c and r < 0.75:
        return rnd.choice(c)
    return None


def ratom(rnd, nm, args, n, d, null=None, absent=True):
    """n, d: sizes"""
    return atom(nm.new(), args, n, d, [rmap(rnd, s, n, absent) for s, _ in args], null)


def rparams(rnd, m):
    return top(*[S(*rsizes(rnd, rnd.choice((0, 1, 1, 2)))) for _ in range(m)])


def rand_compose(rnd, nm, K, m):
    A = rparams(rnd, m)
    gs, fa = [], []
    for k in range(K):
        n = S(*rsizes(rnd, rnd.choice((0, 1, 1, 2))))
        d = S(*(['R'] if rnd.random() < 0.2 else []))
        g = ratom(rnd, nm, A, n, d)
        gs.append(g)
        fa.append((n + d, split(g, len(n))))
    n, d = S(*rsizes(rnd, rnd.choice((0, 1, 1, 2)))), S(*(['Q'] if rnd.random() < 0.3 else []))
    f = ratom(rnd, nm, fa, n, d, rnd.choice((None, None, None, 'hess')), absent=True)
    return compose(f, gs, op=rnd.random() < 0.5), [a[0] for a in A], n, d


# --- FuncWrap -----------------------------------------------------------------
def wraps(tier):
    rnd = random.Random(5)
    seen = set()
    for k in range(200 if tier == 'quick' else 800):
        m = rnd.choice((1, 2, 2, 3))
        A = rparams(rnd, m)
        na = rnd.choice((0, 1, 2, 2, 3))
        pmap = [rnd.randrange(m) for _ in range(na)]
        nf, nd = rnd.choice((0, 1, 2, 3)), rnd.choice((0, 0, 1, 2))
        n, d = S(*rsizes(rnd, nf)), S(*rsizes(rnd, nd, ('R', 'Q')))
        fmap = rnd.sample(range(nf), rnd.randint(0, nf))
        dmap = rnd.sample(range(nd), rnd.randint(0, nd))
        b = ratom(rnd, Names(), [A[p] for p in pmap], [n[f] for f in fmap], [d[f] for f in dmap],
                  rnd.choice((None, None, None, 'hess', 'grad')))
        a = b.atoms[0]
        used = {f for mp in a.maps if mp not in (None, 'absent') for f in mp}
        free = [fmap[x] for x in range(len(fmap)) if x not in used]
        flip = sorted(rnd.sample(free, rnd.randint(0, len(free)))) if rnd.random() < 0.4 else None
        node = wrap(b, pmap, fmap, n, dmap, d, flip)
        if node.text in seen:
            continue
        seen.add(node.text)
        yield cfg('FuncWrap', node, [x[0] for x in A], n, d, case='%d: %s' % (k, node.text))
    # defaults: no dimension map, single parameter index
    for null in (None, 'hess', 'grad'):
        b = atom('A', top(S('T')), S('T'), [], [(0,)], null)
        node = Node(lambda b=b: FO.FuncWrap(b.build(), 0, 1, 2),
                    lambda N, E, b=b: b.V((N[1],), ()), b.atoms, 'int maps %s' % null)
        yield cfg('FuncWrap', node, [S('T')], S('U', 'T'), [])
        b = atom('A', top(S('T')), S('T'), S('R'), [(0,)], null)
        node = Node(lambda b=b: FO.FuncWrap(b.build(), [0], [0], 1, None, 1),
                    lambda N, E, b=b: b.V(N, E), b.atoms, 'no dim map %s' % null)
        yield cfg('FuncWrap', node, [S('T')], S('T'), S('R'))


# --- Collapse -------------------------------------------------------------
def collapses(tier):
    for n, d in ((['T'], []), (['T'], ['R']), (['T', 'U'], []), (['T', 'U'], ['R']), ([], ['R']),
                 (['T', 'U', 'W'], [])):
        svs = [True, False] + [list(c) for r in range(1, len(n) + 1)
                               for c in itertools.combinations(range(len(n)), r)]
        svs += list(range(len(n)))
        for p in ([], ['T'], ['U', 'T']):
            A = top(S(*p))
            for mp in layouts(A, S(*n), [], absent=False):
                for sv in svs:
                    for sd in (True, False):
                        b = atom('A', A, S(*n), S(*d), list(mp))
                        node, n2, d2 = collapse(b, S(*n), S(*d), sv, sd)
                        yield cfg('Collapse', node, [S(*p)], n2, d2, case='%s p%d' % (node.text, len(p)))
    # of a sum: derivatives that are broadcast along the summed axes
    rnd = random.Random(3)
    for k in range(60 if tier == 'quick' else 300):
        node, sizes, n, d = rand_sum(rnd, Names(), rnd.choice((1, 2)), 2, full=True)
        sv = rnd.choice([True, False] + [list(c) for r in range(1, len(n) + 1)
                                         for c in itertools.combinations(range(len(n)), r)])
        node, n2, d2 = collapse(node, n, d, sv, rnd.random() < 0.6)
        yield cfg('Collapse', node, sizes, n2, d2, case='%d: %s' % (k, node.text))


# --- Sum and Product ----------------------------------------------------------
def rparts(rnd, nm, m, K, A, n, d, full, kinds, depth):
    parts = []
    cover, dcover = set(), set()
    for k in range(K):
        na = rnd.choice((1, 1, 2))
        pmap = [rnd.randrange(m) for _ in range(na)]
        fmap = rnd.sample(range(len(n)), rnd.randint(min(1, len(n)), len(n)))
        dmap = rnd.sample(range(len(d)), rnd.randint(0, len(d)))
        if full and k == K - 1:
            fmap += [f for f in range(len(n)) if f not in cover and f not in fmap]
            dmap += [f for f in range(len(d)) if f not in dcover and f not in dmap]
        cover |= set(fmap)
        dcover |= set(dmap)
        args, n_, d_ = [A[p] for p in pmap], [n[f] for f in fmap], [d[f] for f in dmap]
        kind = rnd.choice(kinds)
        if depth and kind in ('sum', 'prod'):
            sub_ = rparts(rnd, nm, na, 2, args, n_, d_, full, kinds, depth - 1)
            b = sum_node(sub_, n_, d_) if kind == 'sum' else prod_node(sub_, n_, d_)
        else:
            b = ratom(rnd, nm, args, n_, d_, rnd.choice((None, None, None, 'hess', 'grad')))
        if kind == 'aff':
            b = affine(b, scal(rnd, nm), scal(rnd, nm))
        elif kind == 'affaff':
            b = affine(affine(b, scal(rnd, nm), scal(rnd, nm)), scal(rnd, nm), scal(rnd, nm))
        elif kind == 'affsum' and depth:
            sub_ = rparts(rnd, nm, na, 2, args, n_, d_, full, ('atom', 'aff'), 0)
            b = affine(sum_node(sub_, n_, d_), scal(rnd, nm), scal(rnd, nm))
        w = scal(rnd, nm) if rnd.random() < 0.6 else None
        parts.append((b, pmap if rnd.random() < 0.8 or na > 1 else pmap[0],
                      fmap, dmap, w))
    return parts


def rand_sum(rnd, nm, m, K, full=False, prod=False, depth=0, kinds=('atom', 'aff')):
    A = rparams(rnd, m)
    n = S(*rsizes(rnd, rnd.choice((0, 1, 2, 2) if K < 3 else (1, 2))))
    d = S(*rsizes(rnd, rnd.choice((0, 0, 0, 1)), ('R',)))
    parts = rparts(rnd, nm, m, K, A, n, d, full, kinds, depth)
    parts = [(b, [p] if isinstance(p, int) else p, f, q, w) for b, p, f, q, w in parts]
    node = (prod_node if prod else sum_node)(parts, n, d)
    return node, [a[0] for a in A], n, d


def sums(tier):
    rnd = random.Random(7)
    for k in range(160 if tier == 'quick' else 800):
        K = (1, 2, 2, 3)[k % 4]
        node, sizes, n, d = rand_sum(rnd, Names(), rnd.choice((1, 2, 2, 3)), K, depth=k % 2,
                                     kinds=('atom', 'aff', 'affaff', 'sum', 'affsum'))
        yield cfg('Sum', node, sizes, n, d, case='%d: %s' % (k, node.text))
    # argument forms: integers and None
    for null in (None, 'hess'):
        b = atom('A', top(S('T')), S('T'), [], [(0,)], null)
        b2 = atom('B', [(S(), argx(1))], [], [], [()], null)

        def build(b=b, b2=b2):
            return FO.Sum(2).add(b.build(), 0, 1).add(b2.build(), 1, None)
        yield cfg('Sum', Node(build, lambda N, E, b=b, b2=b2: add(b.V((N[1],), ()), b2.V((), ())),
                              b.atoms + b2.atoms, 'integer maps %s' % null), [S('T'), S()], S('U', 'T'), [])
        b = atom('A', top(S('T')), S('T'), S('R'), [(0,)], null)
        b2 = atom('B', top(S('T')), S('T'), S('Q'), [(0,)], null)

        def build(b=b, b2=b2):
            return FO.Sum(1, 2).add(b.build(), 0, 0, 1).add(b2.build(), 0, 0, 0)
        yield cfg('Sum', Node(build, lambda N, E, b=b, b2=b2: add(b.V(N, (E[1],)), b2.V(N, (E[0],))),
                              b.atoms + b2.atoms, 'integer dims %s' % null), [S('T')], S('T'), S('Q', 'R'))


def products(tier):
    rnd = random.Random(9)
    for k in range(160 if tier == 'quick' else 800):
        K = (1, 2, 2, 3)[k % 4]
        node, sizes, n, d = rand_sum(rnd, Names(), rnd.choice((1, 2, 2)), K, prod=True, depth=k % 2 if K < 3 else 0,
                                     kinds=('atom', 'aff', 'prod'))
        yield cfg('Product', node, sizes, n, d, case='%d: %s' % (k, node.text))


# --- trees ------------------------------------------------------------------
def trees(tier):
    """compositions of combinations"""
    rnd = random.Random(21)
    for k in range(80 if tier == 'quick' else 500):
        nm = Names()
        m = rnd.choice((1, 2, 2))
        A = rparams(rnd, m)
        kind = ('sum', 'aff', 'prod', 'comp')[k % 4]
        gs, fa = [], []
        for q in range(1 + (k // 4) % 2):
            n, d = S(*rsizes(rnd, rnd.choice((1, 1, 2)))), []
            if kind in ('sum', 'prod'):
                parts = rparts(rnd, nm, m, 2, A, n, d, True, ('atom', 'aff'), 0)
                parts = [(b, [p] if isinstance(p, int) else p, f, e, w) for b, p, f, e, w in parts]
                g = (sum_node if kind == 'sum' else prod_node)(parts, n, d)
            elif kind == 'aff':
                g = affine(ratom(rnd, nm, A, n, d), scal(rnd, nm), scal(rnd, nm))
            else:
                i = ratom(rnd, nm, A, S(*rsizes(rnd, 1)), [], absent=False)
                g = compose(ratom(rnd, nm, [(i.atoms[0].n, split(i, 1))], n, d, absent=False), [i])
            gs.append(g)
            fa.append((n, split(g, len(n))))
        n, d = S(*rsizes(rnd, rnd.choice((0, 1, 1, 2)))), S(*(['R'] if rnd.random() < 0.3 else []))
        f = ratom(rnd, nm, fa, n, d, rnd.choice((None, None, None, 'hess')), absent=False)
        node = compose(f, gs)
        yield cfg('tree', node, [a[0] for a in A], n, d, case='%d: %s' % (k, node.text),
                  )


def many(tier):
    """more parts, inner functions and parameters"""
    rnd = random.Random(23)
    q = 3 if tier == "quick" else 10
    for k in range(8 * q):
        node, sizes, n, d = rand_sum(rnd, Names(), (2, 4, 5)[k % 3], 4 + k % 3, depth=0)
        yield cfg('Sum', node, sizes, n, d, case='many %d: %s' % (k, node.text))
    for k in range(6 * q):
        node, sizes, n, d = rand_sum(rnd, Names(), (2, 4)[k % 2], 4 + k % 2, prod=True, depth=0, kinds=('atom', ))
        yield cfg('Product', node, sizes, n, d, case='many %d: %s' % (k, node.text))
    for k in range(8 * q):
        K, m = ((4, 1), (5, 1), (2, 4), (1, 5))[k % 4]
        node, sizes, n, d = rand_compose(rnd, Names(), K, m)
        yield cfg('Compose', node, sizes, n, d, case='many %d: %s' % (k, node.text))


def elementary(tier):
    """the library's own functions as outer part"""
    one = const(1)
    el = [('Exp', FF.Exp, lambda x: fn('exp', x)), ('Log', FF.Log, lambda x: fn('log', x)),
          ('X', FF.X, lambda x: x),
          ('Logistic', FS.Logistic, lambda x: inv(add(one, fn('exp', neg(x))))),
          ('ArcTan', FS.ArcTan, lambda x: fn('arctan', x))]

    def total(n, d, f, V):
        vs = [(var(fresh('q')), s) for s in n + d]
        q = tuple(v for v, _ in vs)
        t = f(V(q[:len(n)], q[len(n):]))
        for v, s in reversed(vs):
            t = tsum(v, s, t)
        return t
    inner = []
    for p in ((), ('T',), ('U', 'T')):
        for n, d in (((), ()), (('T',), ()), (('T',), ('R',)), (('U', 'T'), ())):
            A = top(S(*p))
            for gm in layouts(A, S(*n), []):
                inner.append((A, S(*n), S(*d), lambda A=A, n=n, d=d, gm=gm: atom('G', A, S(*n), S(*d), list(gm))))
    rnd = random.Random(33)
    for k in range(12 if tier == 'quick' else 60):
        prod = k % 3 == 2
        nm = Names()
        nm.scalars = 2      # literal weights
        m = rnd.choice((1, 2))
        A = rparams(rnd, m)
        n = S(*rsizes(rnd, rnd.choice((1, 2))))
        parts = rparts(rnd, nm, m, 2, A, n, [], True, ('atom', 'aff'), 0)
        parts = [(b, [p] if isinstance(p, int) else p, f, e, w) for b, p, f, e, w in parts]
        inner.append((A, n, [], lambda parts=parts, n=n, prod=prod: (prod_node if prod else sum_node)(parts, n, [])))
    for q, (A, n, d, mk) in enumerate(inner):
        sizes = [a[0] for a in A]
        for name, cls, f in el:
            g = mk()
            node = Node(lambda cls=cls, g=g: cls() @ g.build(),
                        lambda N, E, f=f, g=g: f(g.V(N, E)), g.atoms, '')
            yield cfg(name + ' @', node, sizes, n, d, case='%d: %s p%d' % (q, g.text, len(A[0][0])),
                      domain=(0.3, 0.9) if name == 'Log' else None)
        g = mk()
        node = Node(lambda g=g: FF.Linear([C.num('lw')]) @ g.build(),
                    lambda N, E, g=g, n=n, d=d: mul(arr('lw'), total(n, d, lambda x: x, g.V)), g.atoms, '')
        yield cfg('Linear @', node, sizes, [], [], case='%d: %s p%d' % (q, g.text, len(A[0][0])))
        g = mk()
        node = Node(lambda g=g: FF.Quadratic(C.num('qu'), C.num('qs', (.5, 2.))) @ g.build(),
                    lambda N, E, g=g, n=n, d=d: total(
                        n, d, lambda x: power(div(sub(x, arr('qu')), arr('qs')), const(2)), g.V), g.atoms, '')
        yield cfg('Quadratic @', node, sizes, [], [], case='%d: %s p%d' % (q, g.text, len(A[0][0])))
        if not d:
            g = mk()
            node = Node(lambda g=g: FP.Poisson(C.size(S('K')[0])) @ g.build(),
                        lambda N, E, g=g: div(power(g.V(N, ()), fromint(E[0])), fact(E[0])), g.atoms, '')
            yield cfg('Poisson @', node, sizes, n, S('K'), case='%d: %s p%d' % (q, g.text, len(A[0][0])))

    # the library's two-level function
    for r in (0, 1, 2):
        A = top(S(*['T', 'U'][:r]))

        def nb(N, E):
            m, x, q = arr('x0', *N), fromint(E[0]), arr('nr')
            return fn('exp', add(fn('gammaln', add(q, x)), neg(fn('gammaln', q)), neg(fn('log', fact(E[0]))),
                                 mul(x, fn('log', m)), mul(q, fn('log', q)),
                                 neg(mul(add(x, q), fn('log', add(q, m))))))
        node = Node(lambda: FP.NegativeBinomial(C.size(S('K')[0]), C.num('nr', (.5, 2.))), nb, [], '')
        yield cfg('NegativeBinomial', node, [a[0] for a in A], A[0][0], S('K'), case='rank %d' % r)


def cfgs(tier):
    yield from elementary(tier)
    for g in (affines, composes, wraps, collapses, sums, products, trees, many):
        yield from g(tier)


def c07(tier):
    for c in cfgs(tier):
        yield from c.derivatives()


def c08(tier):
    for c in cfgs(tier):
        yield c.evaluation()


def c09(tier):
    for c in cfgs(tier):
        yield c.value()
