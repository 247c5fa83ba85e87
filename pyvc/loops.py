"""Loop invariants.

`cut` rewrites the k-th while loop of a function of /repo, mechanically and
on every run, from the current source: the head of the loop becomes

    while (t := loop.head(values), x := t[0], ..., <condition>)[-1]:

and nothing else is changed.  The first time the head is reached the
invariant is an obligation on the values of the variables that the body
assigns, and the variables get the values of an arbitrary state in which the
invariant holds; when the head is reached again the invariant (and a
decrease of the variant) is an obligation and the path ends.  break, continue
and the code behind the loop are executed as they are.
"""
import ast
import inspect
import textwrap
import types

from . import sym
from .sym import Unsupported


class EndPath(BaseException):
    """The loop body kept the invariant."""


class Invariant:
    names = ()          # the variables the loop assigns
    reads = ()          # other variables the invariant is about

    def fresh(self, c, L, L0):
        """A new dict for names: all states that satisfy holds()."""
        raise NotImplementedError

    def holds(self, c, L, L0):
        """[(label, condition)]; L0: the values on entry"""
        raise NotImplementedError

    def variant(self, c, L):
        """A number that decreases and is not negative in the body."""
        return None


class Head:
    def __init__(self, inv, env, label):
        self.inv, self.env, self.label = inv, env, label
        self.run = None

    def __call__(self, L):
        from .engine import SymCtx
        r = sym.run()
        c = SymCtx(r, self.env)
        # a variable that is not bound yet is None
        L = {n: L.get(n) for n in tuple(self.inv.names) +
             tuple(self.inv.reads)}
        if self.run is not r:
            self.run, self.L0 = r, dict(L)
            for label, cond in self.inv.holds(c, L, self.L0):
                c.require(f'{self.label}:entry:{label}', cond, L)
            new = self.inv.fresh(c, dict(L), self.L0)
            self.start = dict(L, **new)
            return [new[n] for n in self.inv.names]
        for label, cond in self.inv.holds(c, L, self.L0):
            c.require(f'{self.label}:kept:{label}', cond, L)
        v0 = self.inv.variant(c, self.start)
        if v0 is not None:
            v1 = self.inv.variant(c, L)
            c.require(f'{self.label}:terminates', c.all(v0 >= 0, v1 < v0), L)
        raise EndPath()


def assigned(nodes):
    out = []
    for n in nodes:
        for x in ast.walk(n):
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store) and \
                    x.id not in out:
                out.append(x.id)
            elif isinstance(x, (ast.Global, ast.Nonlocal, ast.FunctionDef,
                                ast.Lambda, ast.comprehension)):
                raise Unsupported('scope in a loop body')
            elif isinstance(x, (ast.Attribute, ast.Subscript)) and \
                    isinstance(x.ctx, ast.Store):
                raise Unsupported('store in a loop body')
    return out


def cut(env, cls, name, k, inv):
    """Put the invariant on the k-th while loop of cls.name."""
    if name not in cls.__dict__:
        raise Unsupported(f'{name} is missing')
    fn = cls.__dict__[name]
    try:
        tree = ast.parse(textwrap.dedent(inspect.getsource(fn)))
    except (OSError, SyntaxError) as e:
        raise Unsupported(f'no source of {name}: {e}')
    loops = [n for n in ast.walk(tree) if isinstance(n, ast.While)]
    loops.sort(key=lambda n: n.lineno)
    if len(loops) <= k:
        raise Unsupported(f'{name} has no loop {k}')
    w = loops[k]
    if w.orelse:
        raise Unsupported('while-else')
    names = assigned(w.body)
    if set(names) != set(inv.names):
        raise Unsupported(f'the loop of {name} assigns {names}')
    for n in inv.reads:
        if n not in fn.__code__.co_varnames:
            raise Unsupported(f'{name} has no variable {n}')
    head = '(__pyvc_t := __pyvc_head(locals()), ' + ''.join(
        f'{n} := __pyvc_t[{i}], ' for i, n in enumerate(inv.names)) + 'None)'
    t = ast.parse(head, mode='eval').body
    test = w.test
    t.elts[-1] = test
    w.test = ast.Subscript(value=t, slice=ast.Constant(-1), ctx=ast.Load())
    f = tree.body[0]
    f.decorator_list = []
    ast.increment_lineno(tree, fn.__code__.co_firstlineno - 1)
    ast.fix_missing_locations(tree)
    code = compile(tree, fn.__code__.co_filename, 'exec')
    code = [x for x in code.co_consts if isinstance(x, types.CodeType)][0]
    if code.co_freevars:
        raise Unsupported(f'{name} uses an enclosing scope')
    glob = dict(fn.__globals__,
                __pyvc_head=Head(inv, env, f'{name} loop'))
    new = types.FunctionType(code, glob, name, fn.__defaults__)
    new.__kwdefaults__ = fn.__kwdefaults__
    setattr(cls, name, new)
    env.stubs.append(f'{cls.__name__}.{name} loop {k} invariant')

