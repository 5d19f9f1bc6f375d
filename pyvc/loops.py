"""Loop invariants on the real code.

`cut(f, specs)` takes the source of the real function on every run and
replaces each loop by the three steps of the invariant rule: the invariant
holds on entry (goals), an arbitrary iteration from an arbitrary state that
satisfies it re-establishes it (goals), and the code after the loop continues
from an arbitrary state that satisfies it.  Nothing else of the function
changes."""
import ast
import inspect
import textwrap
from pyvc.sym import *
from pyvc.sym import eng, mkint, toix
from pyvc.index import *


class LoopEnd(BaseException):
    """end of the path that checks one iteration"""


class NotCut(Unsupported):
    """the loops of the function are not those of the contract"""


class Inv(object):
    """invariant of a loop.

    state: names of the variables carried by the loop
    fresh(env) -> {name: value}: an arbitrary state satisfying the invariant
    goals(env, tag) -> goals stating the invariant of the state in env"""
    state = ()

    def fresh(self, env):
        raise NotImplementedError

    def goals(self, env, tag):
        raise NotImplementedError


class SymRange(object):
    """range with symbolic bounds"""

    def __init__(self, lo, hi, step=1):
        self.lo, self.hi, self.step = lo, hi, step

    def __iter__(self):
        return iter(range(*[k.__index__() if isinstance(k, SInt) else k for k in (self.lo, self.hi, self.step)]))


def symrange(*a):
    if len(a) == 1:
        return SymRange(0, a[0])
    return SymRange(*a)


def symreversed(x):
    if isinstance(x, SymRange) and x.step == 1:
        return SymRange(x.hi - 1, x.lo - 1, -1)
    return reversed(x)


class Loop(object):
    """pos: number of iterations done; None outside of the loop"""

    def __init__(self, inv, report, k):
        self.inv, self.report, self.k = inv, report, k
        inv.loop = self
        self.pos = None

    def enter(self, it, env):
        """it: the iterable of a `for` loop"""
        self.it = it
        self.pos = Ix(0)
        self.report += self.inv.goals(env, 'invariant of loop %d on entry' % self.k)
        body = eng().branch(2) == 0
        if it is None:
            pass        # a `while` loop: termination is stated by a measure
        elif body:
            self.element_(env)
        else:
            self.pos = self.count()
        self.now = self.inv.fresh(env)
        return body

    def get(self, n):
        return self.now[n]

    def bounds(self):
        it = self.it
        if not isinstance(it, (SymRange, range)):
            raise NotCut('iteration over %s' % type(it).__name__)
        lo, hi, st = (it.lo, it.hi, it.step) if isinstance(it, SymRange) else (it.start, it.stop, it.step)
        if isinstance(st, SInt) or abs(st) != 1:
            raise NotCut('step')
        return toix(lo), toix(hi), st

    def count(self):
        lo, hi, st = self.bounds()
        n = isub(hi, lo) if st == 1 else isub(lo, hi)
        if eng().decide(cle(n, 0)):
            return Ix(0)
        return n

    def element_(self, env):
        lo, hi, st = self.bounds()
        v = var(fresh('it'))
        en = eng()
        n = isub(hi, lo) if st == 1 else isub(lo, hi)
        en.assume(cle(0, v))
        en.assume(clt(v, n))
        self.pos = v
        self.value = mkint(iadd(lo, iscale(v, st)))

    def element(self):
        return self.value

    def check(self, env):
        if self.it is not None:
            self.pos = iadd(self.pos, 1)
        self.report += self.inv.goals(env, 'invariant of loop %d is kept' % self.k)
        raise LoopEnd()

    def stop(self):
        raise LoopEnd()

    def exit(self):
        pass


def names_in(node, ctx):
    return {n.id for n in ast.walk(node) if isinstance(n, ast.Name) and isinstance(n.ctx, ctx)}


def assigned(stmts):
    out = set()
    for s in stmts:
        for n in ast.walk(s):
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                out.add(n.id)
            elif isinstance(n, (ast.Subscript, ast.Attribute)) and isinstance(n.ctx, (ast.Store, ast.Del)):
                b = n
                while isinstance(b, (ast.Subscript, ast.Attribute)):
                    b = b.value
                if isinstance(b, ast.Name):
                    out.add(b.id)
    return out


class First(ast.NodeVisitor):
    """names whose first use, in order of evaluation, may be a read"""

    def __init__(self):
        self.set, self.reads = set(), set()

    def visit_Name(self, n):
        if isinstance(n.ctx, ast.Load):
            if n.id not in self.set:
                self.reads.add(n.id)
        else:
            self.set.add(n.id)

    def visit_Assign(self, n):
        self.visit(n.value)
        for t in n.targets:
            self.visit(t)

    def visit_AugAssign(self, n):
        self.visit(n.value)
        if isinstance(n.target, ast.Name) and n.target.id not in self.set:
            self.reads.add(n.target.id)
        self.visit(n.target)

    def visit_For(self, n):
        self.visit(n.iter)
        old = set(self.set)
        self.visit(n.target)
        for s in n.body:
            self.visit(s)
        self.set = old
        for s in n.orelse:
            self.visit(s)

    def visit_If(self, n):
        self.visit(n.test)
        old = set(self.set)
        for s in n.body:
            self.visit(s)
        a, self.set = self.set, set(old)
        for s in n.orelse:
            self.visit(s)
        self.set = self.set & a

    def visit_While(self, n):
        self.visit(n.test)
        old = set(self.set)
        for s in n.body:
            self.visit(s)
        self.set = old

    def visit_Try(self, n):
        old = set(self.set)
        for f in (n.body, n.orelse):
            for s in f:
                self.visit(s)
        self.set = old
        for h in n.handlers:
            self.visit(h)
        for s in n.finalbody:
            self.visit(s)


class Cutter(ast.NodeTransformer):
    def __init__(self, specs, fdef):
        self.specs, self.fdef, self.k = specs, fdef, 0
        self.used = []

    def visit_FunctionDef(self, n):
        if n is not self.fdef:
            return n
        return self.generic_visit(n)

    def visit_Lambda(self, n):
        return n

    def loop(self, n):
        k = self.k
        self.k += 1
        if callable(self.specs):
            spec = self.specs(n)
        else:
            spec = self.specs[k] if k < len(self.specs) else None
        tail = self.after(n)
        n = self.generic_visit(n)
        if spec is None:
            return n
        self.used.append((k, spec))
        st = assigned(n.body)
        first = First()
        for s in n.body:
            first.visit(s)
        target = names_in(n.target, ast.Store) if isinstance(n, ast.For) else set()
        reads = first.reads | (names_in(n.test, ast.Load) if isinstance(n, ast.While) else set())
        carried = {x for x in st if (x in reads or x in tail)} - target
        carried -= set(getattr(spec, 'ignore', ()))
        if hasattr(spec, 'choose'):
            spec.state = spec.choose(carried)
        miss = carried - set(spec.state)
        if miss:
            raise NotCut('loop %d carries %s' % (k, sorted(miss)))
        unknown = set(spec.state) - names_in(self.fdef, (ast.Store, ast.Load))
        if unknown:
            raise NotCut('no variables %s' % sorted(unknown))
        L = '__loop%d' % k
        havoc = ['%s = %s.get(%r)' % (x, L, x) for x in spec.state]
        src = 'for __once in (0,):\n    if %s.enter(%s, locals()):\n' % (L, '__ITER__' if isinstance(n, ast.For) else 'None')
        src += ''.join('        %s\n' % h for h in havoc)
        if isinstance(n, ast.For):
            src += '        __TARGET__ = %s.element()\n' % L
        else:
            src += '        if not (__TEST__):\n            %s.stop()\n' % L
        src += '        __BODY__\n        %s.check(locals())\n    else:\n' % L
        src += ''.join('        %s\n' % h for h in havoc)
        if isinstance(n, ast.While):
            src += '        if __TEST__:\n            %s.stop()\n' % L
        src += '        %s.exit()\n        __ELSE__\n' % L
        t = ast.parse(src).body
        body = [Continue(L).visit(s) for s in n.body]

        class Fill(ast.NodeTransformer):
            def visit_Name(self, m):
                if m.id == '__TARGET__':
                    return n.target
                if m.id == '__ITER__':
                    return n.iter
                if m.id == '__TEST__':
                    return n.test
                return m

            def visit_Expr(self, m):
                if isinstance(m.value, ast.Name) and m.value.id == '__BODY__':
                    return body
                if isinstance(m.value, ast.Name) and m.value.id == '__ELSE__':
                    return n.orelse or []
                return self.generic_visit(m)
        return [Fill().visit(s) for s in t]

    visit_For = visit_While = loop

    def after(self, loop):
        """names that may be read after the loop before they are set again"""
        chain = self.path(self.fdef, loop)
        first, extra = First(), set()
        for node, block, k in reversed(chain):
            for st in block[k + 1:]:
                first.visit(st)
            if isinstance(node, (ast.For, ast.While)) and block is node.body:
                again = First()
                if isinstance(node, ast.While):
                    again.visit(node.test)
                for st in node.body:
                    again.visit(st)
                extra |= again.reads
                for st in node.orelse:
                    first.visit(st)
                first.set = set()
            if isinstance(node, ast.Try):
                for h in node.handlers:
                    q = First()
                    q.visit(h)
                    extra |= q.reads
                for st in node.finalbody:
                    q = First()
                    q.visit(st)
                    extra |= q.reads
        return first.reads | extra

    def path(self, node, loop):
        for f in ('body', 'orelse', 'finalbody', 'handlers'):
            block = getattr(node, f, None)
            if not isinstance(block, list):
                continue
            for k, st in enumerate(block):
                if st is loop:
                    return [(node, block, k)]
                if isinstance(st, (ast.FunctionDef, ast.ClassDef)):
                    continue
                r = self.path(st, loop)
                if r:
                    return [(node, block if f != 'handlers' else [st], k if f != 'handlers' else 0)] + r
        return []


class Continue(ast.NodeTransformer):
    """`continue` of the loop ends the iteration"""

    def __init__(self, L):
        self.L = L

    def visit_Continue(self, n):
        return ast.parse('%s.check(locals())' % self.L).body

    def visit_For(self, n):
        return n

    visit_While = visit_FunctionDef = visit_Lambda = visit_For


class Format(ast.NodeTransformer):
    """the text of messages is dropped: 'text %d' % x evaluates x only"""

    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Mod) and isinstance(n.left, ast.Constant) and isinstance(n.left.value, str):
            return ast.Call(ast.Name('__text', ast.Load()), [n.left, n.right], [])
        return n


def text_(s, x):
    return s


class Counted(ast.NodeTransformer):
    """a `while` loop that counts, `while v < E: ...; v += 1`, as the `for`
    loop over the same values; only if v is not read after it"""

    def __init__(self, fdef):
        self.fdef = fdef

    def visit_While(self, n):
        self.generic_visit(n)
        t, last = n.test, n.body[-1]
        if not (isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.ops[0], ast.Lt)
                and isinstance(t.left, ast.Name) and not n.orelse and len(n.body) > 1):
            return n
        v = t.left.id
        if not (isinstance(last, ast.AugAssign) and isinstance(last.op, ast.Add) and isinstance(last.target, ast.Name)
                and last.target.id == v and isinstance(last.value, ast.Constant) and last.value.value == 1):
            return n
        if assigned(n.body[:-1]) & ({v} | names_in(t.comparators[0], ast.Load)):
            return n
        if any(isinstance(m, (ast.Continue, ast.Call)) for m in
               [m for m in ast.walk(n) if isinstance(m, ast.Continue)] +
               [m for m in ast.walk(t) if isinstance(m, ast.Call)]):
            return n
        inside = set(map(id, ast.walk(n)))
        if any(isinstance(m, ast.Name) and m.id == v and isinstance(m.ctx, ast.Load) and id(m) not in inside
               for m in ast.walk(self.fdef)):
            return n
        return ast.copy_location(ast.For(
            target=ast.Name(v, ast.Store()),
            iter=ast.Call(ast.Name('range', ast.Load()), [ast.Name(v, ast.Load()), t.comparators[0]], []),
            body=n.body[:-1], orelse=[], type_comment=None), n)


def cut(f, specs, report, extra=None):
    """f with its loops cut; report: list that receives the goals"""
    f = inspect.unwrap(f)
    src = textwrap.dedent(inspect.getsource(f))
    tree = ast.parse(src)
    fdef = tree.body[0]
    if not isinstance(fdef, ast.FunctionDef):
        raise NotCut('source')
    fdef.decorator_list = []
    tree = ast.fix_missing_locations(Counted(fdef).visit(tree))
    c = Cutter(specs, fdef)
    c.visit(tree)
    tree = Format().visit(tree)
    if not callable(specs) and c.k != len(specs):
        raise NotCut('%d loops instead of %d' % (c.k, len(specs)))
    if not c.used and (callable(specs) or any(specs)):
        raise NotCut('no loop')
    free = f.__code__.co_freevars
    g = f.__globals__
    add = {'__loop%d' % k: Loop(s, report, k) for k, s in c.used}
    add['__text'] = text_
    add.update(extra or {})
    if free:
        add.update(inspect.getclosurevars(f).nonlocals)
    ast.fix_missing_locations(tree)
    code = compile(tree, '<cut %s>' % f.__qualname__, 'exec')
    d = {}
    d.update(g)
    d.update(add)
    exec(code, d)
    from . import frame
    return frame.wrap_cut(d[fdef.name])

