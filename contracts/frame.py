"""Frame conditions: the obligations of the other properties, executed once
more, with the frame of every call as the goal."""
import copy
import re
import registry
import numpy as np
from contracts import elem, tennis, mats, comb, tensors, prep
from contracts.fkit import *
from pyvc.frame import framed, patch, same, elementwise, Snap, slots

SHARE = dict(C01=8, C02=6, C03=6, C07=6, C08=4, C09=2, C14=4, C18=4)     # quick: one in so many


# specifications of closures and of terms: no function of the package is called
NOCALL = re.compile(r'[A-Za-z]+/copula/|[A-Za-z ()]+/convex generator|derivative of the probability')


def c19(tier):
    patch()
    for pid in sorted(registry.PROPS):
        if pid == 'C19':
            continue
        k = SHARE.get(pid, 1) if tier == 'quick' else 1
        for n, ob in enumerate(registry.load(pid).obligations(tier)):
            if n % k or NOCALL.match(ob.name):
                continue
            o = copy.copy(ob)
            o.name = 'frame of %s: %s' % (pid, ob.name)
            o.run = framed(ob.run)
            o.require = ()
            if ob.conc is not None:
                o.conc, o.concrete = None, False
            o.replay = None
            for pat, f in CONC:
                if re.match('frame of ' + pat, o.name):
                    o.conc, o.concrete = f, True
            yield o
    yield from histories(tier)
    yield from refusals(tier)


# --- histories of one function ---------------------------------------------------
def others(c):
    """parameters of the same shapes with other values"""
    return [param("y%d" % k, s, f, dm, c.domain, bounds=c.pbounds)
            for k, (s, f, dm) in enumerate(zip(c.sizes, c.forms, c.pdims))]


def attempt(f, *a):
    try:
        return f(*a)
    except NotImplementedError:
        return None


def history(c, both=True):
    """value, derivatives and evaluation at two points, in any of two orders,
    from one function object and from fresh ones"""
    def run(sp, I):
        P, Q = c.params(), others(c)
        F = c.build()
        first = [attempt(F, P), attempt(F.grad, P), attempt(F.hess, P), attempt(F.eval, P)]
        at_q = [attempt(F, Q), attempt(F.eval, Q), attempt(F.grad, Q), attempt(F.hess, Q)]
        again = [attempt(F, P), attempt(F.grad, P), attempt(F.hess, P), attempt(F.eval, P)]
        out = []
        same(first, again, 'same result again', out)
        G = c.build()
        other = [attempt(G.eval, Q), attempt(G.hess, Q), attempt(G, Q), attempt(G.grad, Q)]
        same(at_q, [other[2], other[0], other[3], other[1]], 'same result after other calls', out)
        out = [elementwise(g) if isinstance(g, tuple) else g for g in out]
        for g in out:
            g.weak = True
        if Run.goals:
            Run.goals.clear()       # what the parts of a combination note
        return out
    o = c.ob('history', None, None, run)
    o.funcs = ['%s.%s' % (f, w) for f in c.funcs for w in ('__call__', 'grad', 'hess', 'eval')]
    o.run = framed(o.run, keep=(AssertionError,))    # refusals are the goals of other properties
    o.ranges = {}
    return o


def kept(c):
    """a function that becomes a part of other functions stays what it was"""
    def run(sp, I):
        P = c.params()
        F = c.build()
        ask = lambda: [attempt(F, P), attempt(F.grad, P), attempt(F.hess, P), attempt(F.eval, P)]
        first = ask()
        n, d, m = list(range(len(c.n))), list(range(len(c.d))), list(range(len(P)))
        w, b = C.num('kw'), C.num('kb')
        s = FO.Sum(len(n), len(d)).add(F, m, n, d, w)
        t = FO.Sum(len(n), len(d)).add(w * F + b, m, n, d).add(s, m, n, d, w).add(F, m, n, d)
        q = FO.Product(len(n), len(d)).add(F, m, n, d).add(-F, m, n, d)
        q = FO.Product(len(n), len(d)).add(q, m, n, d).add(t, m, n, d)
        u = [FO.FuncWrap(F, m, n, len(n), d, len(d)), FO.Collapse(F), FF.Exp() @ F, FB.Affine(FB.Affine(F, w, b), b)]
        for k, f in enumerate([s, t] + u[:1] + u[3:]):
            attempt(f.eval if k == 1 else f, P)
        out = []
        same(first, ask(), 'same result as a part', out)
        same(attempt(s, P), attempt(FO.Sum(len(n), len(d)).add(F, m, n, d, w), P), 'same result as a part', out)
        out = [elementwise(g) if isinstance(g, tuple) else g for g in out]
        for g in out:
            g.weak = True
        if Run.goals:
            Run.goals.clear()
        return out
    o = c.ob('part', None, None, run)
    o.funcs = ['%s.%s' % (f, w) for f in c.funcs + ['Sum', 'Product'] for w in ('add', '__call__')]
    o.run = framed(o.run, keep=())
    o.ranges = {}
    return o


def histories(tier):
    cfgs = list(elem.cfgs(tier)) + list(tennis.cfgs(tier, (0, 1, 2)))
    comb_ = list(comb.cfgs(tier))
    cfgs += comb_[::20 if tier == 'quick' else 3]
    cfgs += list(mats.collapse_cfgs(tier))[::4]
    for c in cfgs:
        if tier != 'quick' or c.fn != 'Linear' or len(c.sizes) == 1 or 'tensor' not in c.forms:
            yield history(c)
    by = {}
    for c in comb_:
        if c.n or c.d:
            by.setdefault(c.fn, []).append(c)
    for f, cs in sorted(by.items()):
        if tier == 'quick':
            cs = [] if f == 'tree' else sorted(cs, key=lambda c: len(c.case))[:len(cs) // 2 + 1]
            cs = cs[len(cs) % 7::max(1, len(cs) // 6)][:6]
        for c in cs[::1 if tier == 'quick' else 4]:
            yield kept(c)
    for kind in ('matrix', 'vector'):
        for skew in (True, False):
            for size, steps in ((1, 1), (2, 1)):
                Z = sz('p0')
                n = (size, size) if kind == 'matrix' else (2 * size - 1,)
                yield history(Cfg(
                    'Markov' + kind.capitalize(), 'size %d steps %d%s' % (size, steps, ' skew' if skew else ''),
                    [Z, Z], Z, [Ix(k) for k in n],
                    lambda kind=kind, size=size, steps=steps, skew=skew, n=n: mats.markov_cls(kind)(
                        size, steps, C.inp('skew', list(n), domain=(.2, .9)) if skew else None),
                    None, domain=(.1, .4)))


# --- bounded: the real code ---------------------------------------------------------
def content(x):
    return Snap([x]).v


def markov_history(kind, seed):
    rng = np.random.default_rng(seed)
    S, T = int(rng.integers(1, 4)), int(rng.integers(1, 5))
    n = [S, S] if kind == 'matrix' else [2 * S - 1]
    skew = rng.uniform(.3, 1, n) if rng.random() < .6 else None
    shp = tuple(rng.integers(1, 3, rng.integers(0, 3)))
    P, Q = ([rng.uniform(.2, .45 * T, shp) for _ in (0, 1)] for _ in (0, 1))
    build = lambda: mats.markov_cls(kind)(S, T, skew)
    return sequence(build, P, Q, [P, Q, skew], rng, 'Markov%s size %d steps %d' % (kind, S, T))


def sequence(build, P, Q, operands, rng, what):
    """calls in some order, from one object; each compared with a fresh one"""
    before = content(operands)
    F = build()
    got = []
    calls = [(m, X) for m in ('__call__', 'grad', 'hess', 'eval') for X in (P, Q)]
    for k in list(rng.permutation(len(calls))) + list(rng.permutation(len(calls))):
        m, X = calls[k]
        r = getattr(F, m)(X)
        got.append((m, X, r, content(r)))
    for m, X, r, c in got:
        if content(r) != c:
            return dict(what='%s: what %s returned changes later' % (what, m))
        goals = []
        same(r, getattr(build(), m)(X), '', goals)
        if any(g.ok is False for g in goals):
            return dict(what='%s: %s differs from that of a fresh function' % (what, m))
    if content(operands) != before:
        return dict(what='%s changes its operands' % what)
    return None


def tables(x):
    return [(list(x.index), list(x.index.names), x.to_numpy().tolist(), list(getattr(x, 'columns', ())))]


def prep_history(which, seed):
    rng = prep.random.Random('frame %s' % seed)
    rows, vals, wts, add, r = prep.real_table(rng, which != 'count')
    idx = prep.pd.MultiIndex.from_tuples(rows, names=prep.NAMES[:r]) if which != 'count' else prep.pd.Index(
        [l[0] for l in rows])
    if which == 'frame':
        x = prep.pd.DataFrame({'w': wts, 'r': vals}, index=idx)
        tr = prep.some(rng, ('N',))
        f = lambda: prep.PP.prepare_dataframe(x, 'w', 'r', tr, add)
    elif which == 'series':
        x = prep.pd.Series(vals, index=idx)
        tr = prep.some(rng)
        f = lambda: prep.PP.prepare_series(x, tr, add)
    else:
        tr = add = None
        x = prep.pd.Series([rng.randint(0, 5) for _ in rows], index=idx)
        f = lambda: prep.PP.df_count(x, 4)
    before = tables(x), sorted(tr or ()), repr(add)
    show = lambda o: repr(o) if which == 'count' else repr((sorted((k, v.tolist()) for k, v in o[0].items()), [list(a) for a in o[1]]))
    a = show(f())
    after = tables(x), sorted(tr or ()), repr(add)
    if before != after:
        return dict(what='%s changes its arguments: %r, then %r' % (which, before, after))
    b = show(f())
    if a != b:
        return dict(what='%s returns %s, then %s' % (which, a, b))
    return None


def fit_history(seed):
    """a fit of the real code: what it was given stays as it was"""
    from maxlike import Poisson
    from maxlike.func import Sum, X, Linear, Exp
    rng = np.random.default_rng(seed)
    n, k = int(rng.integers(2, 5)), int(rng.integers(2, 4))
    a, b = rng.normal(0, .3, n), rng.normal(0, .3, k)
    ma = rng.random(n) < .3
    N = rng.integers(1, 9, (n, k)).astype(float)
    Z = rng.poisson(N * np.exp(a[:, None] + b[None, :])).astype(float) + 1
    m = Poisson()
    s = Sum(2)
    s.add(X(), 0, 0)
    s.add(X(), 1, 1)
    m.model = Exp() @ s if rng.random() < .5 else Exp() @ s
    a0, b0 = a.copy(), b.copy()
    given = [a0, b0, ma, N, Z]
    before = content(given)
    m.add_param(a0, ma)
    m.add_param(b0)
    m.add_constraint([0], Linear([1.]))
    P = m.params
    hold = content(list(P))
    try:
        m.fit(N=N, X=Z, method=['newton', 'broyden'][int(rng.integers(2))], tol=1e-6, max_steps=int(rng.integers(1, 30)))
    except Exception:
        pass        # property of other checks
    if content(given) != before:
        return dict(what='fit changes the arrays it was given')
    if content(list(P)) != hold:
        return dict(what='fit changes the parameters of before')
    y = m.model(m.params)
    der, hess = m.model.grad(m.params), m.model.hess(m.params)
    args = [y, der, hess, list(m.params)]
    c0 = content(args + [m.N, m.X])
    calls = [lambda: m.like(m.params, y), lambda: m.grad_like(m.params, y, der),
             lambda: m.hess_like(m.params, y, der, hess), lambda: m.g(m.params),
             lambda: m.flat_grad(m.params, y, der), lambda: m.flat_hess(m.params, y, der, hess)]
    first = [f() for f in calls]
    c1 = [content([r]) for r in first]
    again = [calls[k]() for k in rng.permutation(len(calls))]
    if content(args + [m.N, m.X]) != c0:
        return dict(what='a likelihood method changes its arguments')
    if [content([r]) for r in first] != c1:
        return dict(what='what a likelihood method returned changes later')
    goals = []
    for k, f in enumerate(calls):
        same(first[k], f(), 'call %d' % k, goals)
    bad = [g for g in goals if g.ok is False]
    if bad:
        return dict(what='a likelihood method returns something else when repeated: %s' % bad[0].why)
    return None


CONC = [(r'C06: MarkovMatrix', lambda s: markov_history('matrix', s)),
        (r'C06: MarkovVector', lambda s: markov_history('vector', s)),
        (r'C17: prepare_series/', lambda s: prep_history('series', s)),
        (r'C17: prepare_dataframe/', lambda s: prep_history('frame', s)),
        (r'C17: df_count/', lambda s: prep_history('count', s)),
        (r'C13: .*fit/', fit_history)]


# --- refusals -------------------------------------------------------------------
def refused(f, *a):
    """the operation raises, and not for want of an engine"""
    try:
        f(*a)
    except (Unsupported, Undefined):
        raise
    except Exception:
        return True
    return False


def put(x, k, v):
    x[k] = v


def refusals(tier):
    def check(x, entries):
        before = Snap([x]).v
        out = []
        for k in sorted(slots(x)) + ['other', '__dict__', 'values', 'elements', 'mask']:
            out.append(Goal('assignment of attributes', ok=refused(setattr, x, k, 1.), why='%s can be assigned' % k))
            out.append(Goal('assignment of attributes', ok=refused(delattr, x, k), why='%s can be deleted' % k))
        for a in entries:
            for k in (Ellipsis, 0, (0,)):
                out.append(Goal('assignment of entries', ok=refused(put, a, k, 7.), why='%r' % (k,)))
        out.append(Goal('assignment of entries', ok=refused(put, x, 0, 7.), why='by item'))
        out.append(Goal('unchanged', ok=Snap([x]).v == before))
        return out
    def ob(what, case, run, sp):
        return Ob('%s refuses assignment/%s' % (what, case), [what], run, sp.uni.conds(), {}, mods=MODS)
    for la in tensors.layouts(1, 1, 1, 1) if tier == 'quick' else tensors.layouts(2, 2, 2, 1):
        sp = tensors.Space([la])
        yield ob('Tensor', '%r' % la, lambda la=la, sp=sp: (lambda t: check(t, [t.values]))(tensors.make(la, sp, 'A')), sp)
    for ls in tensors.generic_lists(tier)[:40 if tier == 'quick' else None]:
        sp = tensors.Space(ls)

        def run(ls=ls, sp=sp):
            t, _ = tensors.make_generic(ls, sp)
            return check(t, [t.elements] + [e.values for e in t.elements])
        yield ob('GenericTensor', '%r' % (ls,), run, sp)
    for r in (0, 1, 2):
        for masked in (False, True):
            sp = tensors.Space([tensors.Layout(n=r)])

            def run(r=r, sp=sp, masked=masked):
                shape = [C.size(sp.size('n', k)) for k in range(r)]
                v, m = C.inp('A', shape), None
                if masked:
                    m = C.inp('M', shape, fun=lambda I: ceq(iapp('fixed', *I), 1), kind='b')
                p = MB.Param(v, m)
                return check(p, [p.values, p.mask])
            yield ob('Param', 'rank %d%s' % (r, ' with mask' if masked else ''), run, sp)
