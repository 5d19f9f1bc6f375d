"""Contracts of the preprocessing of observations.

pandas is assumed by contract: the classes below state what the operations
that the code uses return, on tables of any number of observations.  The labels
of each level are concrete; which observation carries which label, and the
values, are arbitrary."""
import random
import numpy as np
import pandas as pd
import maxlike.preprocessing as PP
from contracts.fkit import *
from pyvc import masks as M
from pyvc import npm
from pyvc.npm import SymArray, lift
from pyvc.sym import eng, compress, toix, mkint, Unsupported
from pyvc.masks import implies

ALL = (PP,)
PATH = 'maxlike/preprocessing.py:'
N = var('zobs')
NAN = arr('NaN')


class Fake(object):
    def __getattr__(self, k):
        if k.startswith('__'):
            raise AttributeError(k)
        raise Unsupported('pandas %s.%s' % (type(self).__name__, k))


class FIndex(Fake, list):
    """labels, in order"""

    def __init__(self, labels, name=None, **kw):
        list.__init__(self, labels)
        self.name = name

    def sort_values(self):
        return FIndex(sorted(self), self.name)

    def unique(self):
        return FIndex(dict.fromkeys(self), self.name)

    def union(self, other):
        return FIndex(sorted(set(self) | set(other)), self.name)

    def tolist(self):
        return list(self)

    @property
    def values(self):
        return list(self)


class FLabels(Fake):
    """index of the observations: one level or several"""

    def __init__(self, levels, names):
        self.all = [FIndex(l, n) for l, n in zip(levels, names)]
        self.names = list(names)
        self.name = names[0]

    def mask(self, codes):
        """observations with the labels of these codes"""
        return SymArray((N,), lambda I: cand(*[ceq(iapp('lab%d' % k, I[0]), c) for k, c in enumerate(codes)]), 'b')

    def unique(self):
        return FIndex(self.all[0], self.name)


class FMulti(FLabels):
    @property
    def levels(self):
        return list(self.all)

    @property
    def nlevels(self):
        return len(self.all)

    @staticmethod
    def from_product(axes, names=None, **kw):
        return FProduct([list(a) for a in axes])


class FProduct(Fake):
    def __init__(self, axes):
        self.axes = axes


class FSeries(Fake):
    def __init__(self, index, elem, name=None, kind='f'):
        self.index, self.elem, self.name, self.kind = index, elem, name, kind

    @property
    def values(self):
        return SymArray((N,), lambda I: self.elem(I[0]), self.kind)

    def __len__(self):
        raise Unsupported('len')

    def __mul__(self, o):
        if isinstance(o, FSeries) and o.index is self.index:
            return FSeries(self.index, lambda i: mul(toreal(self.elem(i)), toreal(o.elem(i))))
        raise Unsupported('product')
    __rmul__ = __mul__

    def mul(self, o):
        return self * o

    def to_frame(self, name=None):
        return FFrame({name or self.name: self})

    def groupby(self, by=None, **kw):
        if by is not self.index or any(k not in ('sort', 'observed') for k in kw):
            raise Unsupported('groupby')
        return FGroups(self.index, {None: self})


class FFrame(Fake):
    def __init__(self, cols):
        self.cols = cols
        self.index = next(iter(cols.values())).index

    def __getitem__(self, k):
        return self.cols[k]

    def groupby(self, by=None, **kw):
        if by is not self.index or any(k not in ('sort', 'observed') for k in kw):
            raise Unsupported('groupby')
        return FGroups(self.index, self.cols)


def entry(f, s, codes):
    """(some observation has these labels, f of the observations with them)"""
    m = s.index.mask(codes)
    count = npm.enum_mask(m).count
    return cle(1, count), toreal(lift(f(compress(s.values, m))).elem(()))


class FGroups(Fake):
    def __init__(self, index, cols):
        self.index, self.cols = index, cols

    def one(self, f):
        return FTable(self.index, {k: (lambda codes, s=s: entry(f, s, codes)) for k, s in self.cols.items()})

    def sum(self):
        return self.one(npm.sum_)

    def size(self):
        return self.one(npm.np.size)

    count = size

    def agg(self, *a, **named):
        if a or list(self.cols) != [None]:
            raise Unsupported('agg')
        s = self.cols[None]
        return FTable(self.index, {k: (lambda codes, f=f: entry(f, s, codes)) for k, f in named.items()})


class FTable(Fake):
    """a row for each combination of labels that occurs"""

    def __init__(self, index, cols, rows=None, fill=NAN):
        self.index, self.cols, self.rows, self.fill = index, cols, rows, fill

    def reindex(self, index, fill_value=None):
        if isinstance(index, FProduct):
            axes = index.axes
            if not isinstance(self.index, FMulti):
                raise Unsupported('reindex')
        else:
            axes = [list(index)]
            if isinstance(self.index, FMulti):
                raise Unsupported('reindex')
        return FTable(self.index, self.cols, axes, self.fill if fill_value is None else real(fill_value))

    def fillna(self, v):
        return FTable(self.index, self.cols, self.rows, real(v)) if self.rows is not None else self

    def __getitem__(self, k):
        return FTable(self.index, {None: self.cols[k]}, self.rows, self.fill)

    @property
    def values(self):
        if self.rows is None:
            raise Unsupported('order of the groups')
        dims = [len(a) for a in self.rows]
        tab = []
        for col in self.cols.values():
            out = np.empty(int(np.prod(dims)), object)
            for r, J in enumerate(np.ndindex(*dims)):
                codes = [l.index(a[j]) if a[j] in l else None
                         for j, a, l in zip(J, self.rows, self.index.all)]
                if None in codes:
                    t = self.fill
                else:
                    c, t = col(codes)
                    t = ite(c, t, self.fill)
                out[r] = scalar(t)
            tab.append(out)
        if list(self.cols) == [None]:
            return lift(tab[0])
        return lift(np.stack(tab, 1))

    to_numpy = lambda self: self.values


class FOut(Fake):
    def __init__(self, data, index=None, columns=None):
        self.data, self.index, self.columns = data, index, columns


class FPd(Fake):
    Series, DataFrame, MultiIndex = FSeries, FOut, FMulti

    class Index(object):
        def __new__(cls, data, name=None, **kw):
            return data, name


LEVELS = [['b', 'a'], [3, 1, 2], ['y', 'x', 'z'], [7]]
NAMES = ['l0', 'l1', 'l2', 'l3']


def observations(levels):
    for k, l in enumerate(levels):
        M.TT.IFUN['lab%d' % k] = lambda env, idx, k=k, n=len(l): int(hval(env.seed, 'lab%d' % k, idx, 0, n)) if n else 0
    Sym('obs', 1, base=True)
    Sym('wgt', 1, base=True)


def index(levels, multi):
    return (FMulti if multi else FLabels)(levels, NAMES[:len(levels)])


def labels_of(levels, add):
    out = []
    for l, n in zip(levels, NAMES):
        out.append(sorted(set(l) | set((add or {}).get(n, ()))))
    return out


def other(x):
    """an arbitrary aggregate: depends on all the observations of the cell"""
    return npm.sum_(x * x) * 3. + npm.sum_(x)


def cells(out, res, axis, want, aggs, idx):
    if len(axis) != len(want) or any(list(a) != b for a, b in zip(axis, want)):
        out.append(Goal('axes', ok=False, why='%s' % (axis,)))
        return
    out.append(Goal('axes', ok=True))
    if set(res) != set(aggs):
        out.append(Goal('names', ok=False, why='%s' % sorted(res)))
        return
    for k, (f, s) in aggs.items():
        v = lift(res[k])
        if [x.c if x.is_const else None for x in v.shape_] != [len(a) for a in want]:
            out.append(Goal('shape', ok=False, why='%s' % (v.shape_,)))
            continue
        for J in np.ndindex(*[len(a) for a in want]):
            lab = [a[j] for a, j in zip(want, J)]
            got = toreal(v.elem(tuple(Ix(int(j)) for j in J)))
            if all(x in l for x, l in zip(lab, idx.all)):
                c, t = entry(f, s, [l.index(x) for x, l in zip(lab, idx.all)])
                out.append(Goal('cell of the observations: %s' % k, got, ite(c, t, ZERO)))
            else:
                out.append(Goal('cell of an added label: %s' % k, got, ZERO))


ADDS = [None, {'l0': ['a', 'aa']}, {'l1': [0, 2, 5]}, {'l0': ['c'], 'l2': ['w', 'x']}, {'other': [1]}, {}]


def series_cases():
    for r in (2, 3):
        for add in ADDS:
            yield True, [0, 1, 2][:r], add
    yield True, [1, 0], {'l0': [9]}
    yield True, [0, 3], None
    for add in (None, ['c', 'A'], ['a'], []):
        yield False, [0], add
    yield False, [1], [10, 0]
    yield False, [3], None


def c17(tier):
    TRANS = {
        'default': None,
        'sum': dict(X=np.sum), 'size and sum': dict(N=np.size, X=np.sum), 'other': dict(Y=other, N=np.size)}
    spec = {'sum': npm.sum_, 'size': npm.np.size}
    for multi, ls, add in series_cases():
        levels = [LEVELS[k] for k in ls]
        for tn in TRANS:
            def run(multi=multi, levels=levels, add=add, tn=tn):
                observations(levels)
                idx = index(levels, multi)
                s = FSeries(idx, lambda i: arr('obs', i), 'g')
                tr = TRANS[tn]
                if tr is not None:
                    tr = {k: getattr(npm.np, f.__name__) if f is not other else f for k, f in tr.items()}
                args = [s] + ([tr] if tr is not None or add is not None else []) + ([add] if add is not None else [])
                res, axis = PP.prepare_series(*args)
                tr = tr or {'N': npm.np.sum}
                want = labels_of(levels, add) if multi else [sorted(set(levels[0]) | set(add or ()))]
                out = []
                cells(out, res, axis if multi else [axis], want, {k: (f, s) for k, f in tr.items()}, idx)
                return out
            yield Ob('prepare_series/%s %s, %s, add %s' % ('levels' if multi else 'index', ls, tn, add),
                     [PATH + 'prepare_series'], run, mods=ALL, extra={PP.__name__: dict(pd=FPd())},
                     conds=[cle(0, N)], conc=bounded_series, require=('cell of the observations',))
    for multi, ls, add in series_cases():
        if not multi:
            continue
        levels = [LEVELS[k] for k in ls]
        for tn in ('sum', 'size and sum', 'other'):
            def run(levels=levels, add=add, tn=tn):
                observations(levels)
                idx = index(levels, True)
                s = FSeries(idx, lambda i: arr('obs', i), 'r')
                w = FSeries(idx, lambda i: arr('wgt', i), 'w')
                df = FFrame({'w': w, 'r': s})
                tr = {k if k != 'N' else 'M': getattr(npm.np, f.__name__) if f is not other else f
                      for k, f in TRANS[tn].items()}
                res, axis = PP.prepare_dataframe(df, 'w', 'r', tr, *([add] if add is not None else []))
                out = []
                rw = FSeries(idx, lambda i: mul(arr('obs', i), arr('wgt', i)))
                aggs = {k: (f, rw) for k, f in tr.items()}
                aggs['N'] = npm.np.sum, w
                cells(out, res, axis, labels_of(levels, add), aggs, idx)
                return out
            yield Ob('prepare_dataframe/%s, %s, add %s' % (ls, tn, add), [PATH + 'prepare_dataframe'], run,
                     mods=ALL, extra={PP.__name__: dict(pd=FPd())}, conds=[cle(0, N)], conc=bounded_frame,
                     require=('cell of the observations',))
    yield from counts()


# --- indicators --------------------------------------------------------------------
def equiv(a, b):
    return cor(cand(a, b), cand(cnot(a), cnot(b)))


def counts():
    Z = var('zcols')
    i, j = var('Io'), var('Ij')

    def table(size):
        idx = object()
        M.TT.IFUN['val'] = lambda env, x: int(hval(env.seed, 'val', x, -1, 6))
        s = FSeries(idx, lambda k: iapp('val', k), 'g', 'i')
        t = PP.df_count(s, size)
        out = [Goal('table', ok=isinstance(t, FOut) and t.index is idx)]
        if not isinstance(t, FOut):
            return out, None
        d = lift(t.data)
        cols, nm = t.columns if isinstance(t.columns, tuple) else (t.columns, None)
        cols = lift(cols)
        out.append(Goal('name', ok=nm == 'count'))
        if len(d.shape_) != 2 or len(cols.shape_) != 1:
            return out + [Goal('shape', ok=False)], None
        sz = toix(size)
        out += [Goal('rows', cond=ceq(d.shape_[0], N)), Goal('columns', cond=ceq(d.shape_[1], sz)),
                Goal('labels', cond=ceq(cols.shape_[0], sz)),
                Goal('labels', cond=implies(cand(cle(0, j), clt(j, sz)), ceq(cols.elem((j,)), j)))]
        return out, lambda a, b: asc(d.elem((a, b)))

    def asc(e):
        return e if isinstance(e, Cond) else cle(1, e) if isinstance(e, Ix) else cnot(rcond('rle', e))

    v = iapp('val', i)
    rows = [cle(0, N), cle(0, i), clt(i, N)]

    def fits(k, sz):
        """the column k is that of the value of observation i"""
        return iite(ceq(k, isub(sz, 1)), iite(cor(clt(v, 0), cle(isub(sz, 1), v)), 1, 0), iite(ceq(v, k), 1, 0))

    def exact(size, k, sz):
        out, e = table(size)
        if e is not None:
            out.append(Goal('column of its value, or the last one', cond=equiv(e(i, k), ceq(fits(k, sz), 1))))
        return out

    def either(size, sz):
        """the same, in either order of the last two columns"""
        out, e = table(size)
        if e is not None:
            p, q = isub(sz, 1), isub(sz, 2)
            out.append(Goal('other columns', cond=implies(cand(cle(0, j), clt(j, q)), equiv(e(i, j), ceq(v, j)))))
            over, last = cor(clt(v, 0), cle(p, v)), ceq(v, q)
            a, b = e(i, p), e(i, q)
            out.append(Goal('one of the last two columns', cond=cor(
                cand(equiv(a, over), equiv(b, last)), cand(equiv(b, over), equiv(a, last)))))
        return out
    kw = dict(mods=ALL, extra={PP.__name__: dict(pd=FPd())})
    yield Ob('df_count/column of its value', [PATH + 'df_count'],
             lambda: exact(C.size(Z), j, Z), conds=rows + [cle(2, Z), cle(0, j), clt(j, Z)], conc=lambda s: bounded_count(s, True), **kw)
    yield Ob('df_count/column of its value, one column', [PATH + 'df_count'],
             lambda: exact(1, Ix(0), Ix(1)), conds=rows, conc=lambda s: bounded_count(s, True, 1), **kw)
    yield Ob('df_count/columns', [PATH + 'df_count'], lambda: either(C.size(Z), Z), conds=rows + [cle(2, Z)],
             conc=lambda s: bounded_count(s, False), require=('one of the last',), **kw)
    for z in (2, 3, 4):
        yield Ob('df_count/%d columns' % z, [PATH + 'df_count'], lambda z=z: either(z, Ix(z)), conds=rows,
                 conc=lambda s, z=z: bounded_count(s, False, z), require=('one of the last',), **kw)


# --- bounded: real tables -----------------------------------------------------------
def naive(rows, f):
    """aggregate of the list of values of each combination of labels"""
    t = {}
    for lab, x in rows:
        t.setdefault(lab, []).append(x)
    return {k: f(np.array(x)) for k, x in t.items()}


def real_table(rng, multi=True):
    r = rng.choice([2, 2, 3]) if multi else 1
    pools = [rng.sample([['a', 'b', 'c', 'd'], [4, 1, 3, 2], [.5, -1., 2.], ['x']][k % 4], rng.randint(1, 3) if k % 4 != 3 else 1)
             for k in (rng.sample(range(3), r) if rng.random() < .8 else [rng.randrange(4) for _ in range(r)])]
    n = rng.randint(1, 12)
    rows = [tuple(rng.choice(p) for p in pools) for _ in range(n)]
    vals = [rng.choice([rng.uniform(-2, 2), float(rng.randint(-3, 3)), 0.]) for _ in rows]
    wts = [rng.choice([rng.uniform(0, 2), 1., 2., 0.]) for _ in rows]
    add = None
    if rng.random() < .6:
        more = [['aa', 'b', 'e'], [0, 2, 9], [-5., .5, 1.], ['w', 'x', 'y']]
        extra = [next((m for m in more if isinstance(m[0], type(p[0]))), []) for p in pools]
        add = {NAMES[k]: rng.sample(e, rng.randint(0, len(e))) for k, e in enumerate(extra) if rng.random() < .6}
        if rng.random() < .2:
            add['other'] = ['q']
    return rows, vals, wts, add, r


def compare(what, res, axis, r, rows, cols, add, aggs, multi=True):
    seen = [sorted({lab[k] for lab in rows}) for k in range(r)]
    want = [sorted(set(s) | set(((add or {}).get(NAMES[k], ())) if multi else (add or ()))) for k, s in enumerate(seen)]
    axis = axis if multi else [axis]
    if [list(a) for a in axis] != want:
        return '%s: axes %r instead of %r' % (what, [list(a) for a in axis], want)
    if set(res) != set(aggs):
        return '%s: returns %r' % (what, sorted(res))
    for k, (f, col) in aggs.items():
        t = naive(list(zip(rows, col)), f)
        v = np.asarray(res[k])
        if v.shape != tuple(len(a) for a in want):
            return '%s: shape %r' % (what, v.shape)
        for J in np.ndindex(*v.shape):
            lab = tuple(a[j] for a, j in zip(want, J))
            if not abs(float(v[J]) - float(t.get(lab, 0.))) <= 1e-9 * max(1, abs(t.get(lab, 0.))):
                return '%s: %s of %r is %r instead of %r; observations %r' % (
                    what, k, lab, v[J], t.get(lab, 0.), list(zip(rows, col)))
    return None


FUNCS = {'N': np.size, 'X': np.sum, 'S': lambda x: (np.asarray(x) ** 2).sum(), 'M': np.max}


def some(rng, without=()):
    ks = rng.sample(sorted(set(FUNCS) - set(without)), rng.randint(1, 3))
    return {k: FUNCS[k] for k in ks}


def many(seed, one, n=6):
    for k in range(n):
        r = one(random.Random('%s %s' % (seed, k)))
        if r:
            return dict(what=r, seed=seed, case=k)
    return None


def guarded(what, f, *a):
    try:
        return f(*a), None
    except Exception as e:
        return None, '%s raises %s(%s)' % (what, type(e).__name__, e)


def bounded_series(seed):
    def one(rng):
        multi = rng.random() < .7
        rows, vals, wts, add, r = real_table(rng, multi)
        if not multi and add is not None:
            add = add.get(NAMES[0], [])
        idx = pd.MultiIndex.from_tuples(rows, names=NAMES[:r]) if multi else pd.Index([l[0] for l in rows])
        s = pd.Series(vals, index=idx)
        if multi and rng.random() < .2:      # labels that are not used any more
            keep = rows[0][0]
            sel = [l[0] == keep for l in rows]
            s = s[np.array(sel)]
            s.index = s.index.remove_unused_levels()
            vals, rows = [v for v, c in zip(vals, sel) if c], [l for l, c in zip(rows, sel) if c]
        tr = some(rng) if rng.random() < .8 else None
        if tr is None:
            tr, args = {'N': np.sum}, (s, None, add)
        else:
            args = (s, tr, add)
        case = 'prepare_series of %r, %s, add %r' % (dict(enumerate(zip(rows, vals))), sorted(tr), add)
        out, bad = guarded(case, PP.prepare_series, *args)
        if bad:
            return bad
        return compare(case, out[0], out[1], r, rows, None, add, {k: (f, vals) for k, f in tr.items()}, multi)
    return many(seed, one)


def bounded_frame(seed):
    def one(rng):
        rows, vals, wts, add, r = real_table(rng)
        idx = pd.MultiIndex.from_tuples(rows, names=NAMES[:r])
        df = pd.DataFrame({'w': wts, 'r': vals}, index=idx)
        tr = some(rng, ('N',))
        case = 'prepare_dataframe of %r, %s, add %r' % (list(zip(rows, vals, wts)), sorted(tr), add)
        out, bad = guarded(case, PP.prepare_dataframe, df, 'w', 'r', tr, add)
        if bad:
            return bad
        aggs = {k: (f, [a * b for a, b in zip(vals, wts)]) for k, f in tr.items()}
        aggs['N'] = np.sum, wts
        return compare(case, out[0], out[1], r, rows, None, add, aggs)
    return many(seed, one)


def bounded_count(seed, exact, size=None):
    def one(rng):
        z = size or rng.randint(2, 6)
        vals = [rng.choice([rng.randint(-3, 9), rng.randint(0, 3), z - 1, z - 2, z]) for _ in range(rng.randint(1, 6))]
        s = pd.Series(vals, index=[rng.choice('abc') for _ in vals])
        case = 'df_count of %r in %d columns' % (vals, z)
        t, bad = guarded(case, PP.df_count, s, z)
        if bad:
            return bad
        if list(t.columns) != list(range(z)) or list(t.index) != list(s.index) or t.columns.name != 'count':
            return case + ': labels'
        want = np.array([[float(v == k if k < z - 1 else not 0 <= v < z - 1) for k in range(z)] for v in vals])
        got = t.values.astype(float)
        if np.array_equal(got, want):
            return None
        if not exact and z > 1:
            sw = list(range(z - 2)) + [z - 1, z - 2]
            if np.array_equal(got, want[:, sw]):
                return None
        return case + ' is %r' % got.tolist()
    return many(seed, one)
