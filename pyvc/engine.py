"""
The verification condition engine of PyVC.

A unit is a Python function `unit(c)` that calls the functions of /repo under
their preconditions and states their postconditions:

    y = c.int('y', -1842, 1161)
    c.assume(...)                      precondition
    r = c.m.td_utils._ymd2ord(y, ...)  the real function
    c.require('label', r == ...)       postcondition

In a proof (SymCtx) the inputs are symbolic and CPython executes the real
code; each branch on a symbolic condition splits the proof, the unit is run
again for every feasible combination, and every `require` on every path is an
obligation for the solver.  All paths are explored, none is bounded: a loop
whose number of iterations depends on the input either has finitely many
feasible path conditions or the unit is undecided.

The same unit runs with concrete values (ConcCtx) to replay a counter-model,
to check boundary and random inputs, and to enumerate finite domains.
"""
import ast
import random
import subprocess
import sys
import time
from fractions import Fraction as F

import z3

from . import sym
from .loops import EndPath
from .sym import (SBool, SInt, SReal, STd, SStr, Unsupported, Infeasible,
                  is_sym)


class Budget(BaseException):
    """Out of paths or time."""


class Skip(Exception):
    """The concrete input does not satisfy a precondition."""


class Failed(Exception):
    """A concrete violation."""

    def __init__(self, label, detail=''):
        super().__init__(label)
        self.label, self.detail = label, detail


# ------------------------------------------------------------ message spots

_MSG = {}


def _message_spans(filename):
    """The source spans of assert messages and raise statements."""
    if filename not in _MSG:
        spans = []
        try:
            tree = ast.parse(open(filename, encoding='utf-8').read())
            for n in ast.walk(tree):
                t = None
                if isinstance(n, ast.Assert) and n.msg is not None:
                    t = n.msg
                elif isinstance(n, ast.Raise) and n.exc is not None:
                    t = n.exc
                elif isinstance(n, ast.Assign) and any(
                        isinstance(x, ast.Name) and x.id in ('msg', 'message')
                        for x in n.targets):
                    t = n.value
                if t is not None:
                    spans.append(((t.lineno, t.col_offset),
                                  (t.end_lineno, t.end_col_offset)))
        except (OSError, SyntaxError):
            pass
        _MSG[filename] = spans
    return _MSG[filename]


def in_message():
    f = sys._getframe(2)
    for _ in range(6):
        if f is None:
            return False
        fn = f.f_code.co_filename
        if 'badidatetime' in fn:
            pos = list(f.f_code.co_positions())[f.f_lasti // 2]
            if pos[0] is None:
                return False
            at = (pos[0], pos[2] or 0)
            return any(a <= at < b for a, b in _message_spans(fn))
        f = f.f_back
    return False


# --------------------------------------------------------------------- runs


STATS = {'z3_calls': 0, 'z3_s': 0.0, 'cvc5_calls': 0, 'cvc5_s': 0.0}


def _solve(s, *cs):
    t = time.perf_counter()
    r = s.check(*cs)
    STATS['z3_calls'] += 1
    STATS['z3_s'] += time.perf_counter() - t
    return r


class Run:
    """One path."""

    def __init__(self, eng, prefix):
        self.eng = eng
        self.prefix = prefix
        self.pos = 0
        self.trace = []
        self.solver = z3.Solver()
        self.solver.set('timeout', 1500)
        self.asserted = []
        self.memo = {}
        self.count = 0
        self.chars = {}
        self.chars_of = {}      # character -> (number, position, digits)
        self.decided = {}
        self.havoc = False      # a value was over-approximated on this path
        self.inputs = []        # (name, kind, value) in order of creation
        self.keep = []

    # constraints
    def add(self, *cs):
        for c in cs:
            self.asserted.append(c)
            self.solver.add(c)

    def fresh(self, name, sort):
        self.count += 1
        if name in ('fl', 'mul', 'div', 'sin', 'cos', 'asin', 'acos', 'atan',
                    'atan2', 'havoc', 'round'):
            self.havoc = True
        return z3.Const(f'{name}!{self.count}', sort)

    def _check_budget(self):
        if time.time() > self.eng.deadline:
            raise Budget('time')

    def _next(self):
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
            self.pos += 1
            return d
        return None

    def branch(self, cond):
        c = z3.simplify(cond)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        k = c.get_id()
        if k in self.decided:
            return self.decided[k]
        d = self._next()
        if d is None:
            self._check_budget()
            t = _solve(self.solver, c) != z3.unsat
            f = _solve(self.solver, z3.Not(c)) != z3.unsat
            if not t and not f:
                raise Infeasible()
            if t and f:
                self.eng.push(self.trace + [False])
            d = t
        self.trace.append(d)
        self.decided[k] = d
        self.keep.append(c)
        self.add(c if d else z3.Not(c))
        return d

    def valid(self, cond):
        c = z3.simplify(cond)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        d = self._next()
        if d is None:
            self._check_budget()
            d = ('v', _solve(self.solver, z3.Not(c)) == z3.unsat)
        self.trace.append(d)
        return d[1]

    def concretize(self, e, limit=400):
        e = z3.simplify(e)
        if z3.is_int_value(e):
            return e.as_long()
        n = 0
        while True:
            d = self._next()
            if d is None:
                self._check_budget()
                r = _solve(self.solver)
                if r == z3.unsat:
                    raise Infeasible()
                if r != z3.sat:
                    raise Unsupported('no model to enumerate')
                v = self.solver.model().eval(e, True)
                v = v.as_long()
                if n >= limit:
                    raise Unsupported('too many values to enumerate')
                if _solve(self.solver, e != v) != z3.unsat:
                    self.eng.push(self.trace + [('!=', v)])
                d = ('=', v)
            self.trace.append(d)
            if d[0] == '=':
                self.add(e == d[1])
                return d[1]
            self.add(e != d[1])
            n += 1

    def bounds(self, e):
        return None, None

    def name_int(self, x):
        if z3.is_int_value(x.e) or z3.is_const(x.e):
            return x
        k = self.fresh('i', z3.IntSort())
        self.add(k == x.e)
        return SInt(k, x.lo, x.hi)

    # symbolic characters
    @property
    def in_message(self):
        return in_message()

    def opaque(self, x, spec):
        if in_message():
            return '?'
        raise Unsupported('formatting a symbolic float')

    def digit(self, e, of=None):
        if z3.is_int_value(e):
            return str(e.as_long())
        c = chr(sym._PUA + len(self.chars))
        self.chars[c] = e
        if of is not None:
            self.chars_of[c] = of
        return c

    def charval(self, c):
        if c in self.chars:
            return self.chars[c]
        if '0' <= c <= '9':
            return z3.IntVal(int(c))
        return None

    # obligations
    def prove(self, goal):
        """'proved', 'unknown', or a model."""
        g = z3.simplify(goal)
        if z3.is_true(g):
            return 'proved', 'simplifier'
        self._check_budget()
        self.solver.set('timeout', 8000)
        r = _solve(self.solver, z3.Not(g))
        self.solver.set('timeout', 1500)
        if r == z3.unsat:
            return 'proved', 'z3'
        if r == z3.sat:
            return self.solver.model(), 'z3'
        s = z3.SimpleSolver()
        s.set('timeout', 20000)
        s.add(*self.asserted)
        r = _solve(s, z3.Not(g))
        if r == z3.unsat:
            return 'proved', 'z3'
        if r == z3.sat:
            return s.model(), 'z3'
        s = z3.Solver()
        s.add(*self.asserted)
        s.add(z3.Not(g))
        t = time.perf_counter()
        try:
            p = subprocess.run(
                ['cvc5', '--lang=smt2', '--tlimit=20000'], text=True,
                input='(set-logic ALL)\n' + s.to_smt2(),
                capture_output=True, timeout=40)
            out = p.stdout.strip()
        except (OSError, subprocess.SubprocessError):
            out = ''
        STATS['cvc5_calls'] += 1
        STATS['cvc5_s'] += time.perf_counter() - t
        if out.startswith('unsat'):
            return 'proved', 'cvc5'
        return 'unknown', 'z3, cvc5'


# ----------------------------------------------------------------- contexts

class Ctx:
    symbolic = False

    def date_fields(self, name, lo=-1842, hi=1161, special=()):
        """Fields of a valid supported date in short form."""
        raise NotImplementedError

    def implies(self, a, b):
        return sym.simp(a, b)

    def all(self, *xs):
        return sym.sand(*xs)

    def any(self, *xs):
        return sym.sor(*xs)

    def no(self, x):
        return sym.snot(x)

    def ite(self, c, a, b):
        return sym.ite(c, a, b)

    def eq(self, a, b):
        return sym.deep_eq(a, b)


def _num(v):
    if z3.is_int_value(v):
        return v.as_long()
    if z3.is_rational_value(v):
        return float(F(v.numerator_as_long(), v.denominator_as_long()))
    if z3.is_algebraic_value(v):
        return float(v.approx(20).as_fraction())
    raise ValueError(str(v))


class SymCtx(Ctx):
    symbolic = True

    def __init__(self, run, env):
        self.run = run
        self.m = env
        self.seen = set()

    def int(self, name, lo, hi, special=()):
        if name in self.run.eng.fixed:
            v = self.run.eng.fixed[name]
            if not lo <= v <= hi:
                raise Infeasible()
            return v
        v = z3.Int(name)
        self.run.add(v >= lo, v <= hi)
        self.run.inputs.append((name, 'int', v))
        return SInt(v, lo, hi)

    def float(self, name, lo, hi, special=(), grid=None):
        v = z3.Real(name)
        self.run.add(v >= sym._q(F(lo)), v <= sym._q(F(hi)))
        self.run.inputs.append((name, 'float', v))
        g = None
        if grid is not None:       # a multiple of 2**grid
            # used for the exactness of sums only: that the value is such a
            # multiple is not asserted (the proof covers more)
            g = grid
        return SReal(v, F(lo), F(hi), g)

    def td(self, name, lo, hi, special=()):
        D = sym.DAY_US
        d, t, u = z3.Ints(f'{name}.d {name}.s {name}.u')
        e = (d * 86400 + t) * 10 ** 6 + u
        self.run.add(t >= 0, t < 86400, u >= 0, u < 10 ** 6, d >= lo // D,
                     d <= hi // D)
        if lo % D or hi % D != D - 1:
            self.run.add(e >= lo, e <= hi)
        self.run.inputs.append((name, 'int', e))
        return STd(SInt(d, lo // D, hi // D), SInt(t, 0, 86399),
                   SInt(u, 0, 10 ** 6 - 1))

    def bool(self, name):
        if name in self.run.eng.fixed:
            return bool(self.run.eng.fixed[name])
        v = z3.Int(name)
        self.run.add(v >= 0, v <= 1)
        self.run.inputs.append((name, 'int', v))
        return self.run.branch(v == 1)

    def choice(self, name, seq):
        if name in self.run.eng.fixed:
            return seq[self.run.eng.fixed[name]]
        v = z3.Int(name)
        self.run.add(v >= 0, v < len(seq))
        self.run.inputs.append((name, 'int', v))
        return seq[self.run.concretize(v)]

    def assume(self, cond):
        if isinstance(cond, SBool):
            self.run.add(cond.e)
            if _solve(self.run.solver) == z3.unsat:
                raise Infeasible()
        elif not cond:
            raise Infeasible()

    def known(self, name, cond):
        """Inputs of a known finding: outside of the proof."""
        self.assume(sym.snot(cond) if isinstance(cond, SBool) else not cond)

    def require(self, label, cond, detail=None):
        eng = self.run.eng
        goal = cond.e if isinstance(cond, SBool) else z3.BoolVal(bool(cond))
        t = time.perf_counter()
        res, by = self.run.prove(goal)
        eng.obligation(label, res, by, time.perf_counter() - t, self.run,
                       goal)
        if not isinstance(res, str) and z3.is_false(z3.simplify(goal)):
            return
        self.run.add(goal)

    def exc(self, f, *exc):
        """(result, None) or (None, exception) of f()."""
        try:
            return f(), None
        except exc as e:
            return None, e

    def hint(self, *xs):
        """Integers that quotients of the code are expected to equal; each
        is used only where that is proved."""
        self.run.memo['hints'] = [sym.to_int(x) for x in xs]

    def integral(self, x, g):
        """Make the grid that the engine knows a float to lie on visible to
        the solver."""
        if x.g is None or x.g < g:
            raise sym.Unsupported('grid unknown')
        k = self.run.fresh('grid', z3.IntSort())
        self.run.add(x.e == z3.ToReal(k) * sym._q(F(2) ** g))

    def sstr(self, s):
        """A formatted text as a symbolic string."""
        return SStr(s)

    def hash(self, x):
        return sym.x_hash(x)


class ConcCtx(Ctx):
    """Concrete inputs: given, or drawn from a random source."""

    def __init__(self, env, vals=None, rng=None):
        self.m = env
        self.vals = dict(vals or {})
        self.rng = rng
        self.used = {}
        self.known_hit = None
        self.checked = 0

    def _get(self, name, draw, lo=None, hi=None):
        if name in self.vals:
            v = self.vals[name]
        elif self.rng is not None:
            v = draw(self.rng)
        else:
            v = draw(random.Random(0))
        self.used[name] = v
        return v

    def int(self, name, lo, hi, special=()):
        def draw(r):
            k = r.random()
            if k < 0.12:
                return r.choice((lo, hi))
            if k < 0.2:
                return min(hi, max(lo, r.choice((lo, hi, 0)) +
                                   r.randint(-3, 3)))
            if special and k < 0.45:
                return min(hi, max(lo, r.choice(list(special))))
            if hi - lo > 10 ** 6 and k < 0.7:
                w = r.randint(1, max(abs(lo), abs(hi)).bit_length())
                return min(hi, max(lo, r.choice((-1, 1)) *
                                   r.getrandbits(w)))
            return r.randint(lo, hi)
        v = self._get(name, draw)
        if not isinstance(v, int) or isinstance(v, bool):
            v = int(v)
        if not lo <= v <= hi:
            raise Skip
        return v

    def float(self, name, lo, hi, special=(), grid=None):
        def draw(r):
            k = r.random()
            if k < 0.05:
                return float(r.choice((lo, hi)))
            if special and k < 0.3:
                return float(r.choice(list(special)))
            if k < 0.5:
                return float(r.randint(int(lo), int(hi)))
            if k < 0.65:
                x = r.randint(int(lo), int(hi)) + r.choice(
                    (1e-6, -1e-6, 1e-9, -1e-9, 1e-12, -1e-12, .5, .25))
                return min(hi, max(lo, x))
            if k < 0.75:
                x = r.choice((-1, 1)) * 10 ** r.uniform(-12, 3)
                return min(hi, max(lo, x))
            return r.uniform(lo, hi)
        v = float(self._get(name, draw))
        if grid is not None:
            v = round(v / 2.0 ** grid) * 2.0 ** grid
        if not lo <= v <= hi:
            raise Skip
        return v

    def td(self, name, lo, hi, special=()):
        import datetime
        return datetime.timedelta(microseconds=self.int(
            name, lo, hi, special=special))

    def bool(self, name):
        return bool(self._get(name, lambda r: r.randint(0, 1)))

    def choice(self, name, seq):
        i = self._get(name, lambda r: r.randrange(len(seq)))
        if not 0 <= i < len(seq):
            raise Skip
        return seq[i]

    def assume(self, cond):
        if not cond:
            raise Skip

    def known(self, name, cond):
        if cond:
            self.known_hit = name

    def require(self, label, cond, detail=None):
        self.checked += 1
        if not cond:
            raise Failed(label, str(detail)[:300] if detail is not None
                         else '')

    def exc(self, f, *exc):
        try:
            return f(), None
        except exc as e:
            return None, e

    def hint(self, *xs):
        pass

    def integral(self, x, g):
        pass

    def sstr(self, s):
        return s

    def hash(self, x):
        return hash(x)


# -------------------------------------------------------------- exploration

class Engine:
    def __init__(self, unit, env, deadline, max_paths=20000, fixed=None):
        self.unit, self.env = unit, env
        self.deadline = deadline
        self.fixed = fixed or {}
        self.max_paths = max_paths
        self.work = [[]]
        self.paths = self.infeasible = 0
        self.obl = {}           # label -> counts
        self.refuted = []       # (label, model values, exact?)
        self.refined = {}
        self.undecided = []     # reasons
        self.by = {}

    def push(self, prefix):
        self.work.append(prefix)

    def obligation(self, label, res, by, dt, run, goal=None):
        o = self.obl.setdefault(label, {'n': 0, 'discharged': 0,
                                        'unknown': 0, 'refuted': 0,
                                        's': 0.0})
        o['n'] += 1
        o['s'] += dt
        if res == 'proved':
            o['discharged'] += 1
            self.by[by] = self.by.get(by, 0) + 1
        elif res == 'unknown':
            o['unknown'] += 1
            self.undecided.append(f'{label}: solver gave no answer')
        else:
            o['refuted'] += 1
            if len(self.refuted) < 40:
                vals = dict(self.fixed)
                for name, kind, v in run.inputs:
                    try:
                        vals[name] = _num(res.eval(v, True))
                    except Exception as e:
                        vals[name] = repr(e)
                self.refuted.append((label, vals, not run.havoc))
                self.refine(label, goal, run)

    WINDOWS = (range(179, 187), range(-4, 3), range(1154, 1163),
               range(-1843, -1836))

    def refine(self, label, goal, run):
        """Look for counter-models in which the year table is the real
        one, which the real code can replay."""
        if goal is None or self.refined.get(label, 0) >= 3 or not any(
                k in run.memo for k in ('ords', 'leaps', 'Y-terms')):
            return
        self.refined[label] = self.refined.get(label, 0) + 1
        from . import contracts
        for w in self.WINDOWS:
            try:
                cs = contracts.reality(run, self.env, list(w))
            except (KeyError, Unsupported):
                continue
            s = z3.Solver()
            s.set('timeout', 4000)
            s.add(*run.asserted)
            s.add(*cs)
            s.add(z3.Not(goal))
            if _solve(s) != z3.sat:
                continue
            m = s.model()
            vals = dict(self.fixed)
            for name, kind, v in run.inputs:
                try:
                    vals[name] = _num(m.eval(v, True))
                except Exception as e:
                    vals[name] = repr(e)
            self.refuted.append((label, vals, not run.havoc))
            return

    def explore(self):
        seen = set()
        while self.work:
            if self.paths >= self.max_paths or time.time() > self.deadline:
                self.undecided.append('budget: paths or time used up')
                break
            run = Run(self, self.work.pop())
            sym.RUN = run
            ctx = SymCtx(run, self.env)
            try:
                self.unit(ctx)
                self.paths += 1
            except EndPath:
                self.paths += 1
            except Infeasible:
                self.infeasible += 1
            except Budget as e:
                self.undecided.append(f'budget: {e}')
                break
            except Unsupported as e:
                self.paths += 1
                msg = f'unsupported: {e} at {_where(e)}'
                if msg not in seen:
                    seen.add(msg)
                    self.undecided.append(msg)
            except RecursionError:
                self.undecided.append('recursion')
            except Exception as e:
                # the code raised where the unit expects it not to
                self.paths += 1
                label = f'no-exception'
                r = _solve(run.solver)
                if r == z3.unsat:
                    self.infeasible += 1
                    continue
                if r == z3.sat and not _proxy_trouble(e):
                    n = len(self.refuted)
                    self.obligation(label, run.solver.model(), 'z3', 0, run,
                                    z3.BoolVal(False))
                    self.refuted[n:] = [x[:2] + (False,)
                                        for x in self.refuted[n:]]
                msg = (f'exception {type(e).__name__}: {str(e)[:120]} at '
                       f'{_where(e)}')
                if msg not in seen:
                    seen.add(msg)
                    self.undecided.append(msg)
            finally:
                sym.RUN = None
        return self

    def result(self):
        n = sum(o['n'] for o in self.obl.values())
        d = sum(o['discharged'] for o in self.obl.values())
        return {'paths': self.paths, 'infeasible': self.infeasible,
                'obligations': n, 'discharged': d,
                'labels': {k: dict(v, s=round(v['s'], 3))
                           for k, v in self.obl.items()},
                'refuted': self.refuted, 'undecided': self.undecided[:20],
                'by': self.by}


def _where(e):
    tb = e.__traceback__
    out = []
    while tb is not None:
        f = tb.tb_frame
        out.append(f'{f.f_code.co_filename.rsplit("/", 1)[-1]}:'
                   f'{tb.tb_lineno}')
        tb = tb.tb_next
    return ' < '.join(reversed(out[-4:]))


def _proxy_trouble(e):
    s = str(e)
    return any(n in s for n in ('SInt', 'SReal', 'SBool', 'STd', 'SStr',
                                'SHash', 'SBytes', 'x_int', 'TdClass',
                                'sequence item'))
