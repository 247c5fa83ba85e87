"""
Symbolic values for PyVC.

The functions of /repo are executed by CPython itself, on the values defined
here in place of numbers; every operation on them builds a z3 term, and every
decision taken on them is a branch of the verification (engine.py).  There is
no translation of the source, so the verified text is the code that runs.

  SInt   a mathematical integer (Python's int is unbounded: nothing is lost)
  SBool  a truth value
  SReal  a float: the real number it stands for.  Every operation that is not
         provably exact yields a fresh value constrained to be a correctly
         rounded result (error at most half an ulp of the largest magnitude
         possible, sign, zero and monotonicity preserved).
  STd    a datetime.timedelta, as an exact number of microseconds
  SStr   a string of known length whose characters may be symbolic digits

Anything that would force a symbolic value into C code that cannot handle it
raises Unsupported, which makes the obligation undecided, never discharged.
"""
import builtins
import datetime as _dt
import math as _math
from fractions import Fraction as F

import z3

real_isinstance = builtins.isinstance
real_int = builtins.int
real_float = builtins.float


class Unsupported(BaseException):
    """The engine cannot follow this; the unit is undecided."""


class Infeasible(BaseException):
    """The current path has a contradictory path condition."""


RUN = None  # the current engine.Run


def run():
    if RUN is None:
        raise Unsupported('symbolic value outside of a run')
    return RUN


def _q(x):
    """A Fraction as a z3 rational."""
    x = F(x)
    return z3.Q(x.numerator, x.denominator)


def _add(a, b):
    return None if a is None or b is None else a + b


def _hull(vals):
    return min(vals), max(vals)


def _imul(a, b):
    if None in a or None in b:
        return None, None
    return _hull([x * y for x in a for y in b])


# ---------------------------------------------------------------- booleans

class SBool:
    __slots__ = ('e',)

    def __init__(self, e):
        self.e = e

    def __bool__(self):
        return run().branch(self.e)

    def _i(self):
        return SInt(z3.If(self.e, z3.IntVal(1), z3.IntVal(0)), 0, 1)

    def __eq__(self, o):
        if real_isinstance(o, SBool):
            return SBool(self.e == o.e)
        if real_isinstance(o, bool):
            return SBool(self.e if o else z3.Not(self.e))
        return self._i() == o

    def __ne__(self, o):
        return snot(self == o)

    def __and__(self, o):
        if real_isinstance(o, (SBool, bool)):
            return sand(self, o)
        return NotImplemented
    __rand__ = __and__

    def __or__(self, o):
        if real_isinstance(o, (SBool, bool)):
            return sor(self, o)
        return NotImplemented
    __ror__ = __or__

    def __invert__(self):
        return ~self._i()

    def __hash__(self):
        return hash(bool(self))

    def __index__(self):
        return real_int(bool(self))

    def __int__(self):
        return real_int(bool(self))

    def __repr__(self):
        return f'SBool({self.e})'

    def __format__(self, spec):
        return format(bool(self), spec)


for _n in ('add radd sub rsub mul rmul truediv rtruediv floordiv rfloordiv '
           'mod rmod neg pos abs lt le gt ge round floor ceil').split():
    def _mk(n):
        def f(self, *a):
            return getattr(self._i(), n)(*a)
        return f
    setattr(SBool, f'__{_n}__', _mk(f'__{_n}__'))


def _be(x):
    if real_isinstance(x, SBool):
        return x.e
    return z3.BoolVal(bool(x))


def sand(*xs):
    xs = [x for x in xs if x is not True]
    if any(x is False for x in xs):
        return False
    if not xs:
        return True
    return SBool(z3.And(*[_be(x) for x in xs]))


def sor(*xs):
    xs = [x for x in xs if x is not False]
    if any(x is True for x in xs):
        return True
    if not xs:
        return False
    return SBool(z3.Or(*[_be(x) for x in xs]))


def snot(x):
    return SBool(z3.Not(x.e)) if real_isinstance(x, SBool) else not x


def simp(a, b):
    return sor(snot(a), b)


def ite(c, a, b):
    """A conditional without a branch."""
    if not real_isinstance(c, SBool):
        return a if c else b
    if real_isinstance(a, (SReal, real_float)) or real_isinstance(
            b, (SReal, real_float)):
        a, b = to_real(a), to_real(b)
        lo = None if None in (a.lo, b.lo) else min(a.lo, b.lo)
        hi = None if None in (a.hi, b.hi) else max(a.hi, b.hi)
        g = None if None in (a.g, b.g) else min(a.g, b.g)
        if a.ip is not None or b.ip is not None:
            z = z3.IntVal(0)
            return SReal(z3.If(c.e, a.re, b.re), lo, hi, g,
                         ip=z3.If(c.e, z if a.ip is None else a.ip,
                                  z if b.ip is None else b.ip),
                         rlo=None if None in (a.rlo, b.rlo) else min(
                             a.rlo, b.rlo),
                         rhi=None if None in (a.rhi, b.rhi) else max(
                             a.rhi, b.rhi))
        return SReal(z3.If(c.e, a.re, b.re), lo, hi, g)
    a, b = to_int(a), to_int(b)
    lo = None if None in (a.lo, b.lo) else min(a.lo, b.lo)
    hi = None if None in (a.hi, b.hi) else max(a.hi, b.hi)
    return SInt(z3.If(c.e, a.e, b.e), lo, hi)


# ---------------------------------------------------------------- integers

def to_int(x):
    if real_isinstance(x, SInt):
        return x
    if real_isinstance(x, SBool):
        return x._i()
    if real_isinstance(x, (bool, real_int)):
        return SInt(z3.IntVal(real_int(x)), real_int(x), real_int(x))
    return None


class SInt:
    __slots__ = ('e', 'lo', 'hi')

    def __init__(self, e, lo=None, hi=None):
        self.e, self.lo, self.hi = e, lo, hi

    # arithmetic
    def _bin(self, o, f, interval):
        if real_isinstance(o, (SReal, real_float)):
            return NotImplemented
        o2 = to_int(o)
        if o2 is None:
            return NotImplemented
        lo, hi = interval(self, o2)
        return SInt(f(self.e, o2.e), lo, hi)

    def __add__(self, o):
        if real_isinstance(o, (SReal, real_float)):
            return to_real(self) + o
        return self._bin(o, lambda a, b: a + b, lambda a, b: (
            _add(a.lo, b.lo), _add(a.hi, b.hi)))
    __radd__ = __add__

    def __neg__(self):
        return SInt(-self.e, None if self.hi is None else -self.hi,
                    None if self.lo is None else -self.lo)

    def __pos__(self):
        return self

    def __sub__(self, o):
        if real_isinstance(o, (SReal, real_float)):
            return to_real(self) - o
        o2 = to_int(o)
        return NotImplemented if o2 is None else self + (-o2)

    def __rsub__(self, o):
        if real_isinstance(o, (SReal, real_float)):
            return o - to_real(self)
        o2 = to_int(o)
        return NotImplemented if o2 is None else o2 + (-self)

    def __mul__(self, o):
        if real_isinstance(o, (SReal, real_float)):
            return to_real(self) * o
        if real_isinstance(o, (list, tuple, str, bytes)):
            return o * self.__index__()
        if real_isinstance(o, STd):
            return NotImplemented
        o2 = to_int(o)
        if o2 is None:
            return NotImplemented
        lo, hi = _imul((self.lo, self.hi), (o2.lo, o2.hi))
        for a, b in ((self, o2), (o2, self)):
            # a 0/1 factor is a conditional, which keeps the terms linear
            if a.lo is not None and a.hi is not None and (
                    0 <= a.lo and a.hi <= 1) and a.lo != a.hi:
                return SInt(z3.If(a.e == 0, z3.IntVal(0), b.e), lo, hi)
            if a.lo is not None and a.lo == a.hi:
                return SInt(z3.IntVal(a.lo) * b.e, lo, hi)
        return SInt(self.e * o2.e, lo, hi)
    __rmul__ = __mul__

    def __floordiv__(self, o):
        if real_isinstance(o, (SReal, real_float)):
            return to_real(self) // o
        n = to_int(o)
        if n is None:
            return NotImplemented
        n = n.const()
        if n is None:
            n = real_int(o.__index__())
        if n == 0:
            raise ZeroDivisionError('integer division or modulo by zero')
        if n < 0:
            return (-self) // -n
        return divm(self, n)[0]

    def __rfloordiv__(self, o):
        return to_int(o) // self.__index__()

    def __mod__(self, o):
        if real_isinstance(o, (SReal, real_float)):
            return to_real(self) % o
        n = to_int(o)
        if n is None:
            return NotImplemented
        n = n.const()
        if n is None:
            n = real_int(o.__index__())
        if n == 0:
            raise ZeroDivisionError('integer modulo by zero')
        if n < 0:
            return -((-self) % -n)
        return divm(self, n)[1]

    def __rmod__(self, o):
        if real_isinstance(o, str):
            raise Unsupported('string formatting of a symbolic value')
        return to_int(o) % self.__index__()

    def __divmod__(self, o):
        return self // o, self % o

    def __rdivmod__(self, o):
        return to_int(o) // self, to_int(o) % self

    def __truediv__(self, o):
        return to_real(self) / o

    def __rtruediv__(self, o):
        return to_real(o) / to_real(self)

    def __pow__(self, o):
        if real_isinstance(o, real_int) and 0 <= o <= 3:
            r = to_int(1)
            for _ in range(o):
                r = r * self
            return r
        raise Unsupported('power')

    def __abs__(self):
        if self.lo is not None and self.lo >= 0:
            return self
        hi = (None if None in (self.lo, self.hi)
              else max(abs(self.lo), abs(self.hi)))
        return SInt(z3.If(self.e >= 0, self.e, -self.e), 0, hi)

    def __lshift__(self, n):
        return self * (1 << n)

    def __rshift__(self, n):
        return self // (1 << n)

    def to_bytes(self, length=1, byteorder='big', *, signed=False):
        if signed or byteorder not in ('big', 'little'):
            raise Unsupported('to_bytes')
        if not (0 <= self) or not (self < 256 ** length):
            raise OverflowError('int too big to convert')
        v = [(self // 256 ** i) % 256 for i in range(length)]
        return SBytes(v[::-1] if byteorder == 'big' else v)

    def __or__(self, o):
        # disjoint bit fields, as in (a << 8) | b with 0 <= b < 256
        for a, b in ((self, to_int(o)), (to_int(o), self)):
            if b.lo is not None and b.lo >= 0 and b.hi is not None:
                n = 1 << b.hi.bit_length()
                if run().valid(a.e % n == 0):
                    return a + b
        raise Unsupported('bitwise or')
    __ror__ = __or__

    def __and__(self, o):
        if real_isinstance(o, real_int) and o >= 0 and (o & (o + 1)) == 0:
            return self % (o + 1)
        raise Unsupported('bitwise and')
    __rand__ = __and__

    # comparison
    def _cmp(self, o, f):
        if real_isinstance(o, (SReal, real_float)):
            return f(to_real(self), o)
        o2 = to_int(o)
        if o2 is None:
            return NotImplemented
        return SBool(f(self.e, o2.e))

    def __eq__(self, o):
        return self._cmp(o, lambda a, b: a == b)

    def __ne__(self, o):
        return self._cmp(o, lambda a, b: a != b)

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    def __bool__(self):
        return run().branch(self.e != 0)

    # conversions
    def const(self):
        if self.lo is not None and self.lo == self.hi:
            return self.lo
        return None

    def __index__(self):
        c = self.const()
        return c if c is not None else run().concretize(self.e)

    __int__ = __index__

    def __float__(self):
        return real_float(self.__index__())

    def __hash__(self):
        return hash(self.__index__())

    def __round__(self, n=None):
        if n is not None and n < 0:
            raise Unsupported('round to tens')
        return self

    def __floor__(self):
        return self
    __ceil__ = __trunc__ = __floor__

    def __repr__(self):
        return token(self, '')

    def __format__(self, spec):
        return token(self, spec)

    def is_integer(self):
        return True

    @property
    def real(self):
        return self


# ------------------------------------------------------------------ floats

def _fl(x):
    """The float nearest to a Fraction, as a Fraction."""
    return F(x.numerator / x.denominator) if x else F(0)


def _half_ulp(m):
    """Half an ulp of the floats of magnitude up to m."""
    if m == 0:
        return F(0)
    f = real_float(m)
    return F(_math.ulp(f)) / 2


def _gran(x):
    """The largest g such that the float x is a multiple of 2**g."""
    if x == 0:
        return 1000
    n, d = real_float(x).as_integer_ratio()
    if d > 1:
        return -(d.bit_length() - 1)
    return (n & -n).bit_length() - 1


def to_real(x):
    if real_isinstance(x, SReal):
        return x
    if real_isinstance(x, SBool):
        x = x._i()
    if real_isinstance(x, SInt):
        if x.lo is None or x.hi is None or max(
                abs(x.lo), abs(x.hi)) > 2 ** 53:
            raise Unsupported('int to float conversion of unknown size')
        return SReal(_q(0), F(x.lo), F(x.hi), 0, ip=x.e, rlo=F(0), rhi=F(0))
    if real_isinstance(x, (bool, real_int, real_float)):
        if real_isinstance(x, real_float) and not _math.isfinite(x):
            raise Unsupported('inf or nan')
        v = F(real_float(x))
        return SReal(_q(v), v, v, _gran(x))
    return None


def _max(*a):
    a = [x for x in a if x is not None]
    return max(a) if a else None


def _min(*a):
    a = [x for x in a if x is not None]
    return min(a) if a else None


def _exact_at(r, big):
    """Every integer plus r, of magnitude up to big, is a float."""
    d = r.denominator
    return d & (d - 1) == 0 and (big + 1) * d <= 2 ** 53


def rounded(x, g=None, tighten=True):
    """The float nearest to the real number x (an SReal that stands for an
    exact result), which is a multiple of 2**g if g is given."""
    r = run()
    if x.lo is None or x.hi is None:
        raise Unsupported('float operation of unknown magnitude')
    if x.is_const():
        v = _fl(x.lo)
        return SReal(_q(v), v, v, _gran(v))
    big = max(abs(x.lo), abs(x.hi))
    if x.ip is not None and x.rlo is not None and x.rlo == x.rhi and (
            x.rlo.denominator & (x.rlo.denominator - 1)) == 0:
        gi = 1 - x.rlo.denominator.bit_length()
        g = gi if g is None else max(g, gi)
    if g is not None and big <= F(2) ** (53 + g):
        x.g = g if x.g is None else max(x.g, g)
        return x
    key = ('fl',) + x.key()
    if key in r.memo:
        return r.memo[key][0]
    if tighten and g is not None:
        # a difference of two nearby values: try whether it is small enough
        # to be exact
        lim = F(2) ** (53 + g)
        L = SReal(_q(lim), lim, lim)
        if r.valid(z3.And(_be(_le(x, L)), _be(_le(-L, x)))):
            res = SReal(x.re, max(x.lo, -lim), min(x.hi, lim), g, ip=x.ip,
                        rlo=x.rlo, rhi=x.rhi)
            r.memo[key] = (res, x)
            return res
    flo, fhi = _fl(x.lo), _fl(x.hi)
    eps = _half_ulp(big)
    v = r.fresh('fl', z3.RealSort())
    r.add(v - x.re <= _q(eps), x.re - v <= _q(eps))
    if x.ip is None:
        r.add(v >= _q(flo), v <= _q(fhi))
        res = SReal(v, flo, fhi, g, exact=x)
    else:
        # a bound that is a float is not passed: rounding is monotonic
        rlo, rhi = x.rlo, x.rhi
        if rlo is not None:
            if _exact_at(rlo, big):
                r.add(v >= _q(rlo))
            else:
                rlo -= eps
        if rhi is not None:
            if _exact_at(rhi, big):
                r.add(v <= _q(rhi))
            else:
                rhi += eps
        res = SReal(v, flo, fhi, g, exact=x, ip=x.ip, rlo=rlo, rhi=rhi)
    if x.lo < 0 < x.hi:
        Z = SReal(_q(0), F(0), F(0))
        r.add(z3.Implies(_be(_le(Z, x)), _be(_le(Z, res))),
              z3.Implies(_be(_le(x, Z)), _be(_le(res, Z))))
    r.memo[key] = (res, x)
    return res


def _diff(x, y):
    """x - y as (integer term or None, real term, bounds of it)"""
    if x.ip is None and y.ip is None:
        d = None
    elif y.ip is None:
        d = x.ip
    elif x.ip is None:
        d = -y.ip
    else:
        d = z3.simplify(x.ip - y.ip)
    R = z3.simplify(x.re - y.re)
    rlo = None if None in (x.rlo, y.rhi) else x.rlo - y.rhi
    rhi = None if None in (x.rhi, y.rlo) else x.rhi - y.rlo
    if z3.is_rational_value(R):
        rlo = rhi = F(R.numerator_as_long(), R.denominator_as_long())
    if d is not None and z3.is_int_value(d):
        n = d.as_long()
        d, R = None, z3.simplify(R + n)
        rlo = None if rlo is None else rlo + n
        rhi = None if rhi is None else rhi + n
    return d, R, rlo, rhi


def _rel0(d, R, rlo, rhi, strict):
    """The condition d + R < 0 (or <= 0)."""
    if d is None:
        if strict:
            if rhi is not None and rhi < 0:
                return z3.BoolVal(True)
            if rlo is not None and rlo >= 0:
                return z3.BoolVal(False)
            return R < 0
        if rhi is not None and rhi <= 0:
            return z3.BoolVal(True)
        if rlo is not None and rlo > 0:
            return z3.BoolVal(False)
        return R <= 0
    if rlo is None or rhi is None:
        e = z3.ToReal(d) + R
        return e < 0 if strict else e <= 0
    k0, k1 = _math.floor(rlo), _math.floor(rhi)
    if k1 - k0 > 4:
        e = z3.ToReal(d) + R
        return e < 0 if strict else e <= 0
    out = [d <= -k1 - 1]
    if strict:
        for k in range(k0, k1):
            out.append(z3.And(d == -k - 1, R < k + 1))
    else:
        for k in range(k0, k1 + 1):
            if rlo > k:
                continue
            out.append(z3.And(d == -k, R <= k) if rhi > k else d == -k)
    return z3.Or(*out) if len(out) > 1 else out[0]


def _lt(x, y):
    if None not in (x.hi, y.lo) and x.hi < y.lo:
        return SBool(z3.BoolVal(True))
    if None not in (x.lo, y.hi) and x.lo >= y.hi:
        return SBool(z3.BoolVal(False))
    return SBool(_rel0(*_diff(x, y), True))


def _le(x, y):
    if None not in (x.hi, y.lo) and x.hi <= y.lo:
        return SBool(z3.BoolVal(True))
    if None not in (x.lo, y.hi) and x.lo > y.hi:
        return SBool(z3.BoolVal(False))
    return SBool(_rel0(*_diff(x, y), False))


def _with_lin(x, a, c):
    """x, which is a * c before it was rounded (c a rational)."""
    if a.exact is None and a.ip is not None and a.rlo == a.rhi and \
            a.rlo is not None and x.lo is not None and not x.is_const():
        p, q = a.rlo.numerator, a.rlo.denominator
        D = q * c.denominator
        if D < 2 ** 40:
            x.lin = (z3.simplify((a.ip * q + p) * c.numerator), D)
    return x


class SReal:
    """The real number ip + re: an integer term (or None) and a real term
    with bounds rlo..rhi.  lo..hi bound the number, which is a multiple of
    2**g if g is given; exact is the number before it was rounded."""
    __slots__ = ('ip', 're', 'rlo', 'rhi', 'lo', 'hi', 'exact', 'g', 'lin')

    def __init__(self, re, lo=None, hi=None, g=None, exact=None, ip=None,
                 rlo=None, rhi=None):
        if ip is not None:
            ip = z3.simplify(ip)
            if z3.is_int_value(ip):
                n = ip.as_long()
                re, ip = z3.simplify(re + n), None
                lo = _max(lo, None if rlo is None else rlo + n)
                hi = _min(hi, None if rhi is None else rhi + n)
        if ip is None:
            rlo, rhi = lo, hi
        self.ip, self.re, self.rlo, self.rhi = ip, z3.simplify(re), rlo, rhi
        self.lo, self.hi, self.exact = lo, hi, exact
        self.lin = None         # (n, D): n / D before it was rounded
        # every float of magnitude at least 2**k is a multiple of 2**(k-52)
        if g is not True and lo is not None and hi is not None and (
                lo > 0 or hi < 0):
            m = lo if lo > 0 else -hi
            k = _math.frexp(real_float(m))[1] - 1
            if F(2) ** k > m:
                k -= 1
            g = k - 52 if g is None else max(g, k - 52)
        self.g = None if g is True else g

    @property
    def e(self):
        if self.ip is None:
            return self.re
        return z3.ToReal(self.ip) + self.re

    def key(self):
        # the terms stay alive with the memo entry that holds self
        return (0 if self.ip is None else self.ip.get_id(),
                self.re.get_id())

    def __add__(self, o):
        o = to_real(o)
        if o is None:
            return NotImplemented
        g = None if None in (self.g, o.g) else min(self.g, o.g)
        ip = (self.ip if o.ip is None else o.ip if self.ip is None
              else z3.simplify(self.ip + o.ip))
        re = z3.simplify(self.re + o.re)
        rlo, rhi = _add(self.rlo, o.rlo), _add(self.rhi, o.rhi)
        if z3.is_rational_value(re):
            rlo = rhi = F(re.numerator_as_long(), re.denominator_as_long())
        res = rounded(SReal(re, _add(self.lo, o.lo), _add(self.hi, o.hi),
                            True, ip=ip, rlo=rlo, rhi=rhi), g)
        # rounding is monotonic: a term of known sign does not move the sum
        # to the other side of the other term, which is a float
        for a, b in ((self, o), (o, self)):
            if b.ip is None and res.ip is a.ip and (
                    not a.is_const()) and not b.is_const() and (
                    b.lo is not None and b.hi is not None):
                if b.lo >= 0:
                    run().add(res.re >= a.re)
                elif b.hi <= 0:
                    run().add(res.re <= a.re)
        return res
    __radd__ = __add__

    def __neg__(self):
        n = lambda v: None if v is None else -v     # noqa: E731
        return SReal(z3.simplify(-self.re), n(self.hi), n(self.lo), self.g,
                     None if self.exact is None else -self.exact,
                     ip=None if self.ip is None else -self.ip,
                     rlo=n(self.rhi), rhi=n(self.rlo))

    def __pos__(self):
        return self

    def __sub__(self, o):
        o = to_real(o)
        if o is None:
            return NotImplemented
        return self + (-o)

    def __rsub__(self, o):
        return (-self) + o

    def __mul__(self, o):
        o = to_real(o)
        if o is None:
            return NotImplemented
        lo, hi = _imul((self.lo, self.hi), (o.lo, o.hi))
        g = None if None in (self.g, o.g) else self.g + o.g
        if self.is_const() or o.is_const():
            a, c = (o, self.lo) if self.is_const() else (self, o.lo)
            if c.denominator == 1 and a.ip is not None:
                rlo, rhi = _imul((a.rlo, a.rhi), (c, c))
                x = SReal(a.re * _q(c), lo, hi, True, ip=a.ip * int(c),
                          rlo=rlo, rhi=rhi)
            else:
                x = SReal(a.e * _q(c), lo, hi, True)
            return _with_lin(rounded(x, g, tighten=False), a, c)
        if lo is None:
            raise Unsupported('product of unknown magnitude')
        r = run()
        key = ('mul', *sorted((self.key(), o.key())))
        if key not in r.memo:
            v = r.fresh('mul', z3.RealSort())
            flo, fhi = _fl(lo), _fl(hi)
            r.add(v >= _q(flo), v <= _q(fhi))
            if getattr(r, 'nonlinear', False):
                # the product itself, to within the rounding of its bounds
                e = F(1, 2 ** 52) * max(abs(flo), abs(fhi), F(1, 2 ** 900))
                r.add(v - self.e * o.e <= _q(e), self.e * o.e - v <= _q(e))
            r.memo[key] = (SReal(v, flo, fhi, None), self, o)
        return r.memo[key][0]
    __rmul__ = __mul__

    def __truediv__(self, o):
        o = to_real(o)
        if o is None:
            return NotImplemented
        if o.is_const():
            if o.lo == 0:
                raise ZeroDivisionError('float division by zero')
            c = o.lo
            lo = None if self.lo is None else self.lo / c
            hi = None if self.hi is None else self.hi / c
            if c < 0:
                lo, hi = hi, lo
            n, d = abs(c).numerator, abs(c).denominator
            g = None
            if self.g is not None and n & (n - 1) == 0 and d & (d - 1) == 0:
                g = self.g - (n.bit_length() - 1) + (d.bit_length() - 1)
            return _with_lin(rounded(
                SReal(self.e / _q(c), lo, hi, True), g, tighten=False),
                self, 1 / c)
        r = run()
        if o.lo is None or self.lo is None or o.lo <= 0 <= o.hi:
            raise Unsupported('division by a symbolic float')
        lo, hi = _hull([a / b for a in (self.lo, self.hi)
                        for b in (o.lo, o.hi)])
        key = ('div', self.key(), o.key())
        if key not in r.memo:
            v = r.fresh('div', z3.RealSort())
            flo, fhi = _fl(lo), _fl(hi)
            r.add(v >= _q(flo), v <= _q(fhi))
            if getattr(r, 'nonlinear', False):
                # the product itself, to within the rounding of its bounds
                e = F(1, 2 ** 52) * max(abs(flo), abs(fhi), F(1, 2 ** 900))
                r.add(v - self.e * o.e <= _q(e), self.e * o.e - v <= _q(e))
            r.memo[key] = (SReal(v, flo, fhi, None), self, o)
        return r.memo[key][0]

    def __rtruediv__(self, o):
        return to_real(o) / self

    def __mod__(self, o):
        o = to_real(o)
        if o is None:
            return NotImplemented
        if not o.is_const() or o.lo <= 0:
            raise Unsupported('float modulo')
        c = o.lo
        g = None if self.g is None else min(self.g, _gran(c))
        if c == 1 and self.ip is not None:
            part = SReal(self.re, self.rlo, self.rhi, True)
            fl = part.__floor__()
            x = SReal(z3.simplify(self.re - z3.ToReal(fl.e)), F(0), c, True)
        else:
            e = self.e
            h = hinted(('mod', c) + self.key(), self, lambda h: z3.And(
                z3.ToReal(h.e) * _q(c) <= e, e < z3.ToReal(h.e + 1) * _q(c)))
            k = z3.ToInt(e / _q(c)) if h is None else h.e
            x = SReal(e - _q(c) * z3.ToReal(k), F(0), c, True)
        if self.lo is not None and self.lo >= 0 or run().valid(
                _be(self >= 0)):
            x.g = g
            return x
        return rounded(x, g, tighten=False)

    def __rmod__(self, o):
        return to_real(o) % self

    def __floordiv__(self, o):
        o = to_real(o)
        if o is None or not o.is_const() or o.lo <= 0:
            raise Unsupported('float floor division')
        if o.lo == 1:
            return to_real(self.__floor__())
        f = SInt(z3.ToInt(self.e / _q(o.lo)),
                 None if self.lo is None else _math.floor(self.lo / o.lo),
                 None if self.hi is None else _math.floor(self.hi / o.lo))
        return to_real(f)

    def __rfloordiv__(self, o):
        return to_real(o) // self

    def __divmod__(self, o):
        return self // o, self % o

    def __pow__(self, o):
        if real_isinstance(o, real_int) and 1 <= o <= 8:
            r = self
            for _ in range(o - 1):
                r = r * self
            return r
        raise Unsupported('float power')

    def __abs__(self):
        if self.lo is not None and self.lo >= 0:
            return self
        if self.hi is not None and self.hi <= 0:
            return -self
        hi = None if None in (self.lo, self.hi) else max(-self.lo, self.hi)
        c = _be(self >= 0)
        if self.ip is not None and self.rlo is not None:
            m = max(abs(self.rlo), abs(self.rhi))
            return SReal(z3.If(c, self.re, -self.re), F(0), hi, self.g,
                         ip=z3.If(c, self.ip, -self.ip),
                         rlo=-m, rhi=m)
        return SReal(z3.If(c, self.e, -self.e), F(0), hi, self.g)

    def is_const(self):
        return self.lo is not None and self.lo == self.hi

    # comparison
    def _cmp(self, o, f):
        o2 = to_real(o)
        if o2 is None:
            return NotImplemented
        r = run()
        for a, b in ((self, o2), (o2, self)):
            if a.exact is not None:     # rounding is monotonic
                r.add(z3.Implies(_be(_le(b, a.exact)), _be(_le(b, a))),
                      z3.Implies(_be(_le(a.exact, b)), _be(_le(a, b))))
        return f(self, o2)

    def __eq__(self, o):
        return self._cmp(o, lambda a, b: sand(_le(a, b), _le(b, a)))

    def __ne__(self, o):
        return snot(self == o)

    def __lt__(self, o):
        return self._cmp(o, _lt)

    def __le__(self, o):
        return self._cmp(o, _le)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: _lt(b, a))

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: _le(b, a))

    def __bool__(self):
        return bool(self != 0)

    # conversions
    def __floor__(self):
        lo = None if self.lo is None else _math.floor(self.lo)
        hi = None if self.hi is None else _math.floor(self.hi)
        if lo is not None and lo == hi:
            return to_int(lo)
        if 'hints' in run().memo:
            e = self.e
            h = hinted(('floor',) + self.key(), self, lambda h: z3.And(
                z3.ToReal(h.e) <= e, e < z3.ToReal(h.e + 1)))
            if h is not None:
                return h
        if self.lin is not None and lo is not None:
            n, D = self.lin
            if self.exact is None or _half_ulp(max(
                    abs(self.lo), abs(self.hi))) < F(1, D):
                ex = self if self.exact is None else self.exact
                return divm(SInt(n, _math.ceil(ex.lo * D),
                                 _math.floor(ex.hi * D)), D)[0]
        if self.rlo is None or self.rhi is None:
            f = z3.ToInt(self.re)
        else:
            k0, k1 = _math.floor(self.rlo), _math.floor(self.rhi)
            if k1 - k0 <= 3:
                f = z3.IntVal(k1)
                for k in range(k1 - 1, k0 - 1, -1):
                    f = z3.If(self.re < k + 1, z3.IntVal(k), f)
            else:
                f = z3.ToInt(self.re)
            if k0 != k1:
                self._int_axioms()
        if self.ip is not None:
            f = self.ip + f
        return SInt(z3.simplify(f), lo, hi)

    def _int_axioms(self):
        """floor(fl(x)) is floor(x) or, if the rounding reached it, the next
        integer; an integer that x does not pass is not passed by fl(x)."""
        if self.exact is not None:
            f = self.exact.__floor__()
            a = SReal(_q(0), None, None, ip=f.e, rlo=F(0), rhi=F(0))
            b = SReal(_q(1), None, None, ip=f.e, rlo=F(1), rhi=F(1))
            run().add(_be(_le(a, self)), _be(_le(self, b)))

    def __ceil__(self):
        return -((-self).__floor__())

    def __trunc__(self):
        if self.lo is not None and self.lo >= 0:
            return self.__floor__()
        if self.hi is not None and self.hi <= 0:
            return self.__ceil__()
        a, b = self.__floor__(), self.__ceil__()
        return ite(SBool(_be(self >= 0)), a, b)

    def __round__(self, n=None):
        r = run()
        p = 10 ** (n or 0)
        m = None if self.lo is None or self.hi is None else (
            self.lo if self.lo > 0 else -self.hi)
        if n and m is not None and m > 0 and self.g is not None and (
                F(1, 2 * p) < F(2) ** (_math.frexp(real_float(m))[1] - 55)):
            return self     # the floats are further apart than 10**-n
        key = ('round', self.key(), n or 0)
        if key not in r.memo:
            rlo = None if self.rlo is None else _math.ceil(
                self.rlo * p - F(1, 2))
            rhi = None if self.rhi is None else _math.floor(
                self.rhi * p + F(1, 2))
            # ties go to even; here they may go either way
            if rlo is not None and rlo == rhi:
                kr = z3.IntVal(rlo)
            else:
                kr = r.fresh('k', z3.IntSort())
                r.add(z3.ToReal(kr) - self.re * p <= z3.Q(1, 2),
                      self.re * p - z3.ToReal(kr) <= z3.Q(1, 2))
                if rlo is not None:
                    r.add(kr >= rlo)
                if rhi is not None:
                    r.add(kr <= rhi)
            lo = None if self.lo is None else _math.ceil(
                self.lo * p - F(1, 2))
            hi = None if self.hi is None else _math.floor(
                self.hi * p + F(1, 2))
            r.memo[key] = (kr, lo, hi, rlo, rhi, self)
        kr, lo, hi, rlo, rhi, _ = r.memo[key]
        if n is None:
            e = kr if self.ip is None else self.ip + kr
            return SInt(z3.simplify(e), lo, hi)
        if lo is None or hi is None:
            raise Unsupported('round of unknown magnitude')
        # the float nearest to k / 10**n; an integer if that is one
        key = ('roundn', self.key(), n)
        if key in r.memo:
            return r.memo[key][0]
        x = SReal(z3.ToReal(kr) / z3.RealVal(p), F(lo) / p, F(hi) / p, True,
                  ip=self.ip, rlo=None if rlo is None else F(rlo) / p,
                  rhi=None if rhi is None else F(rhi) / p)
        if self.exact is None and self.g is not None and self.g >= 0:
            res = self      # an integer stays as it is
        else:
            res = rounded(x)
            if not res.is_const() and p > 1 and not (
                    x.rlo is not None and x.rlo == x.rhi):
                f = z3.ToInt(z3.ToReal(kr) / z3.RealVal(p))
                r.add(z3.Implies(kr == p * f, res.re == z3.ToReal(f)))
        r.memo[key] = (res, self)
        return res

    def __int__(self):
        raise Unsupported('int() of a symbolic float')

    def __index__(self):
        raise TypeError("'float' object cannot be interpreted as an integer")

    def __float__(self):
        raise Unsupported('float() of a symbolic float')

    def __hash__(self):
        raise Unsupported('hash of a symbolic float')

    def is_integer(self):
        return self == to_real(self.__floor__())

    def __repr__(self):
        return token(self, '')

    def __format__(self, spec):
        return token(self, spec)


# ------------------------------------------------------------- timedeltas

def hinted(key, keep, test):
    """The integer among the hints of the unit that is proved to satisfy
    `test`, to keep the terms small; None if there is none."""
    r = run()
    hints = r.memo.get('hints')
    if not hints:
        return None
    key = ('hint',) + key
    if key not in r.memo:
        r.memo[key] = None, keep
        for h in hints:
            if r.valid(test(h)):
                r.memo[key] = h, keep
                break
    return r.memo[key][0]


_US = _dt.timedelta(microseconds=1)
DAY_US = 86400 * 10 ** 6


def divm(x, n):
    """(x // n, x % n) of a SInt and a positive constant, named by fresh
    integers with linear constraints."""
    c = x.const()
    if c is not None:
        return to_int(c // n), to_int(c % n)
    lo = None if x.lo is None else x.lo // n
    hi = None if x.hi is None else x.hi // n
    if lo is not None and lo == hi:
        return to_int(lo), x - n * lo
    r = run()
    e = z3.simplify(x.e)
    if z3.is_int_value(e):
        return to_int(e.as_long() // n), to_int(e.as_long() % n)
    key = ('divm', e.get_id(), n)
    h = hinted(key, e, lambda h: z3.And(h.e * n <= e, e < h.e * n + n))
    if h is not None:
        return h, SInt(z3.simplify(e - n * h.e), 0, n - 1)
    if key not in r.memo:
        q = r.fresh('q', z3.IntSort())
        m = e - n * q
        r.add(m >= 0, m < n)
        if lo is not None:
            r.add(q >= lo)
        if hi is not None:
            r.add(q <= hi)
        r.memo[key] = (SInt(q, lo, hi), SInt(z3.simplify(m), 0, n - 1), e)
    return r.memo[key][:2]


def td_parts(x):
    """(days, seconds, microseconds) of a timedelta, else None."""
    if real_isinstance(x, STd):
        return x.d, x.s, x.u
    if real_isinstance(x, _dt.timedelta):
        return to_int(x.days), to_int(x.seconds), to_int(x.microseconds)
    return None


class STd:
    """datetime.timedelta: days, seconds (0..86399), microseconds
    (0..999999), normalised as CPython does."""
    __slots__ = ('d', 's', 'u')

    def __init__(self, d, s, u):
        c, self.u = divm(to_int(u), 10 ** 6)
        c, self.s = divm(to_int(s) + c, 86400)
        self.d = to_int(d) + c

    @property
    def t(self):
        return (self.d * 86400 + self.s) * 10 ** 6 + self.u

    @property
    def days(self):
        return self.d

    @property
    def seconds(self):
        return self.s

    @property
    def microseconds(self):
        return self.u

    def total_seconds(self):
        # an exact quotient of integers, rounded once
        w = self.d * 86400 + self.s
        if w.lo is None or w.hi is None or max(-w.lo, w.hi) > 2 ** 50:
            raise Unsupported('total_seconds of unknown size')
        return rounded(SReal(z3.ToReal(self.u.e) / 10 ** 6, F(w.lo),
                             F(w.hi + 1), True, ip=w.e, rlo=F(0), rhi=F(1)))

    def __add__(self, o):
        o = td_parts(o)
        if o is None:
            return NotImplemented
        return STd(self.d + o[0], self.s + o[1], self.u + o[2])
    __radd__ = __add__

    def __neg__(self):
        return STd(-self.d, -self.s, -self.u)

    def __sub__(self, o):
        o = td_parts(o)
        if o is None:
            return NotImplemented
        return STd(self.d - o[0], self.s - o[1], self.u - o[2])

    def __rsub__(self, o):
        return -self + o

    def __pos__(self):
        return self

    def __abs__(self):
        return -self if self.d < 0 else self

    def __mul__(self, o):
        if real_isinstance(o, (real_int, SInt)):
            return STd(self.d * o, self.s * o, self.u * o)
        raise Unsupported('timedelta * float')
    __rmul__ = __mul__

    def __divmod__(self, o):
        if real_isinstance(o, (STd, real_int, SInt)):
            raise Unsupported('timedelta division')
        if not real_isinstance(o, _dt.timedelta):
            return NotImplemented
        n = o // _US
        if n <= 0:
            raise Unsupported('division by a timedelta')
        if n % 10 ** 6 == 0 and DAY_US % n == 0:
            q, m = divm(self.s, n // 10 ** 6)
            return self.d * (DAY_US // n) + q, STd(0, m, self.u)
        q, m = divm(self.t, n)
        return q, STd(0, 0, m)

    def __floordiv__(self, o):
        r = self.__divmod__(o)
        return r if r is NotImplemented else r[0]

    def __mod__(self, o):
        r = self.__divmod__(o)
        return r if r is NotImplemented else r[1]

    def __truediv__(self, o):
        if real_isinstance(o, _dt.timedelta):
            return self.t / (o // _US)
        raise Unsupported('timedelta / number')

    # comparison
    def _lex(self, o, strict):
        o = td_parts(o)
        if o is None:
            return NotImplemented
        a = (self.d, self.s, self.u)
        r = a[2] < o[2] if strict else a[2] <= o[2]
        for x, y in ((a[1], o[1]), (a[0], o[0])):
            r = sor(x < y, sand(x == y, r))
        return r

    def __eq__(self, o):
        o = td_parts(o)
        if o is None:
            return NotImplemented
        return sand(self.d == o[0], self.s == o[1], self.u == o[2])

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else snot(r)

    def __lt__(self, o):
        return self._lex(o, True)

    def __le__(self, o):
        return self._lex(o, False)

    def __gt__(self, o):
        r = self._lex(o, False)
        return r if r is NotImplemented else snot(r)

    def __ge__(self, o):
        r = self._lex(o, True)
        return r if r is NotImplemented else snot(r)

    def __bool__(self):
        return bool(snot(self == _dt.timedelta(0)))

    def __hash__(self):
        raise Unsupported('hash of a symbolic timedelta')

    def __repr__(self):
        return '<timedelta>'
    __str__ = __repr__


class TdMeta(type):
    def __instancecheck__(cls, x):
        return real_isinstance(x, (STd, _dt.timedelta))


class TdClass(metaclass=TdMeta):
    """Stands for datetime.timedelta inside the verified modules."""
    min, max, resolution = (_dt.timedelta.min, _dt.timedelta.max,
                            _dt.timedelta.resolution)

    def __new__(cls, days=0, seconds=0, microseconds=0, milliseconds=0,
                minutes=0, hours=0, weeks=0):
        args = (days, seconds, microseconds, milliseconds, minutes, hours,
                weeks)
        if not any(real_isinstance(a, (SInt, SReal, SBool)) for a in args):
            return _dt.timedelta(*args)
        d = s = u = 0
        total = None
        for a, n in zip(args, ((1, 0, 0), (0, 1, 0), (0, 0, 1), (0, 0, 1000),
                               (0, 60, 0), (0, 3600, 0), (7, 0, 0))):
            if real_isinstance(a, SReal):
                # CPython adds the fractions up and rounds the total to
                # microseconds
                k = (n[0] * 86400 + n[1]) * 10 ** 6 + n[2]
                if a.lo is None or a.hi is None:
                    raise Unsupported('timedelta of an unbounded float')
                x = a.e * k
                total = (x, a.lo * k, a.hi * k) if total is None else (
                    total[0] + x, total[1] + a.lo * k, total[2] + a.hi * k)
                continue
            if real_isinstance(a, real_float):
                if a != real_int(a):
                    raise Unsupported('timedelta of a fraction')
                a = real_int(a)
            d, s, u = d + a * n[0], s + a * n[1], u + a * n[2]
        if total is not None:
            x, lo, hi = total
            r, half = run(), _q(F(1, 2) + F(1, 10 ** 4))
            v = r.fresh('round', z3.IntSort())
            r.add(z3.ToReal(v) - x <= half, x - z3.ToReal(v) <= half)
            u = u + SInt(v, _math.floor(lo) - 1, _math.ceil(hi) + 1)
        r = STd(d, s, u)
        if (r.d.lo is None or r.d.lo <= -10 ** 9 or r.d.hi is None or
                r.d.hi >= 10 ** 9):
            if not sand(r.d > -10 ** 9, r.d < 10 ** 9):
                raise OverflowError('days; must have magnitude <= 999999999')
        return r


# ----------------------------------------------------------------- strings

# A symbolic character is one private-use code point standing for a digit;
# token() expands a formatted integer into such characters once its sign and
# number of digits are known on the path.
_PUA = 0xF0000


def token(x, spec):
    """The text of a symbolic number: a native string whose symbolic digits
    are private-use characters registered with the run."""
    r = run()
    if real_isinstance(x, SReal):
        return r.opaque(x, spec)
    c = x.const()
    if c is not None:
        return format(c, spec)
    s = spec[:-1] if spec.endswith('d') else spec
    if s[:1] == '>' and s[1:2] != '0':      # the default of numbers
        s = s[1:]
    sign = ''
    if s[:1] in ('+', '-'):
        sign, s = s[0], s[1:]
    if s == '':
        fill, width = ' ', 0
    elif s.isdigit():
        fill, width = ('0' if s[0] == '0' else ' '), real_int(s)
    else:
        raise Unsupported(f'format spec {spec!r}')
    if r.in_message:
        return '?'
    neg = r.branch(x.e < 0)
    mag = -x.e if neg else x.e
    head = '-' if neg else ('+' if sign == '+' else '')
    n = max(1, width - len(head)) if fill == '0' else 1
    while r.branch(mag >= 10 ** n):
        n += 1
        if n > 12:
            raise Unsupported('formatting a long number')
    mag = z3.simplify(mag)
    digits = ''.join(r.digit(z3.simplify((mag / 10 ** (n - 1 - i)) % 10),
                             (mag, i, n)) for i in range(n))
    return ' ' * max(0, width - len(head) - n) + head + digits


def is_symchar(c):
    return ord(c) >= _PUA


class SStr:
    """A string of known length with symbolic digits among its characters."""
    __slots__ = ('s',)

    def __init__(self, s):
        self.s = s.s if real_isinstance(s, SStr) else s

    def _sym(self):
        return any(ord(c) >= _PUA for c in self.s)

    def __len__(self):
        return len(self.s)

    def __getitem__(self, k):
        return SStr(self.s[k])

    def __iter__(self):
        return iter([SStr(c) for c in self.s])

    def __add__(self, o):
        return SStr(self.s + (o.s if real_isinstance(o, SStr) else o))

    def __radd__(self, o):
        return SStr((o.s if real_isinstance(o, SStr) else o) + self.s)

    def __eq__(self, o):
        if real_isinstance(o, SStr):
            o = o.s
        if not real_isinstance(o, str):
            return NotImplemented
        if len(o) != len(self.s):
            return False
        r = run()
        cs = []
        for a, b in zip(self.s, o):
            if a == b:
                continue
            va, vb = r.charval(a), r.charval(b)
            if va is None or vb is None:
                return False
            cs.append(va == vb)
        if not cs:
            return True
        return SBool(z3.And(*cs))

    def __ne__(self, o):
        return snot(self.__eq__(o))

    def __bool__(self):
        return len(self.s) > 0

    def __hash__(self):
        if self._sym():
            raise Unsupported('hash of a symbolic string')
        return hash(self.s)

    def _plain(self, what, arg):
        # a search for something that is no digit is exact on self.s
        arg = arg.s if real_isinstance(arg, SStr) else arg
        if any(c.isdigit() or ord(c) >= _PUA for c in arg):
            raise Unsupported(f'{what} of a digit')
        return arg

    def count(self, x, *a):
        return self.s.count(self._plain('count', x), *a)

    def find(self, x, *a):
        return self.s.find(self._plain('find', x), *a)

    def rfind(self, x, *a):
        return self.s.rfind(self._plain('rfind', x), *a)

    def index(self, x, *a):
        return self.s.index(self._plain('index', x), *a)

    def split(self, x=None, *a):
        return [SStr(p) for p in self.s.split(
            x if x is None else self._plain('split', x), *a)]

    def partition(self, x):
        return tuple(SStr(p) for p in self.s.partition(
            self._plain('partition', x)))

    def rpartition(self, x):
        return tuple(SStr(p) for p in self.s.rpartition(
            self._plain('rpartition', x)))

    def startswith(self, x):
        xs = x if real_isinstance(x, tuple) else (x,)
        return self.s.startswith(tuple(self._plain('startswith', y)
                                       for y in xs))

    def endswith(self, x):
        return self.s.endswith(self._plain('endswith', x))

    def replace(self, a, b, *n):
        return SStr(self.s.replace(self._plain('replace', a),
                                   b.s if real_isinstance(b, SStr) else b,
                                   *n))

    def strip(self, *a):
        return SStr(self.s.strip(*[self._plain('strip', x) for x in a]))

    def lstrip(self, *a):
        return SStr(self.s.lstrip(*[self._plain('strip', x) for x in a]))

    def rstrip(self, *a):
        return SStr(self.s.rstrip(*[self._plain('strip', x) for x in a]))

    def ljust(self, n, fill=' '):
        fill = fill.s if real_isinstance(fill, SStr) else fill
        return SStr(self.s.ljust(n, fill))

    def rjust(self, n, fill=' '):
        fill = fill.s if real_isinstance(fill, SStr) else fill
        return SStr(self.s.rjust(n, fill))

    def zfill(self, n):
        return SStr(self.s.zfill(n))

    def __mul__(self, n):
        return SStr(self.s * n)
    __rmul__ = __mul__

    def removeprefix(self, x):
        return SStr(self.s.removeprefix(self._plain('removeprefix', x)))

    def removesuffix(self, x):
        return SStr(self.s.removesuffix(self._plain('removesuffix', x)))

    def upper(self):
        return SStr(self.s.upper())

    def lower(self):
        return SStr(self.s.lower())

    def __contains__(self, x):
        return self._plain('in', x) in self.s

    def _all_digits(self, f):
        return bool(self.s) and all(ord(c) >= _PUA or f(c) for c in self.s)

    def isdigit(self):
        return self._all_digits(str.isdigit)

    def isnumeric(self):
        return self._all_digits(str.isnumeric)

    def isdecimal(self):
        return self._all_digits(str.isdecimal)

    def join(self, items):
        out = ''
        for i, x in enumerate(items):
            out += (self.s if i else '') + (x.s if real_isinstance(x, SStr)
                                            else x)
        return SStr(out)

    def __repr__(self):
        return '?'
    __str__ = __repr__

    def __format__(self, spec):
        return '?'

    def encode(self, *a):
        raise Unsupported('encode')


def digits_value(s):
    """The number that a text of digits stands for.  Consecutive digits i..j
    of an n digit number x are (x div 10**(n-1-j)) mod 10**(j-i+1)."""
    r = run()
    v = to_int(0)
    k = 0
    while k < len(s):
        x, i, n = r.chars_of.get(s[k], (None, 0, 0))
        if x is None:
            v = v * 10 + SInt(r.charval(s[k]), 0, 9)
            k += 1
            continue
        j = k
        while j + 1 < len(s) and s[j + 1] in r.chars_of:
            y, i2, n2 = r.chars_of[s[j + 1]]
            if not (y.eq(x) and n2 == n and i2 == i + (j + 1 - k)):
                break
            j += 1
        w = j - k + 1
        e = x
        if i + w < n:
            e = e / 10 ** (n - i - w)
        if i > 0:
            e = e % 10 ** w
        v = v * 10 ** w + SInt(e, 0, 10 ** w - 1)
        k = j + 1
    return v


def str_int(s):
    """int(s) for a SStr."""
    s = s.s
    neg = False
    if s[:1] in ('+', '-'):
        neg, s = s[0] == '-', s[1:]
    if not s or not all(ord(c) >= _PUA or c.isdigit() for c in s):
        raise ValueError(
            'invalid literal for int() with base 10: symbolic string')
    v = digits_value(s)
    return -v if neg else v


def str_float(s):
    """float(s) for a SStr: correctly rounded decimal."""
    s = s.s
    neg = False
    if s[:1] in ('+', '-'):
        neg, s = s[0] == '-', s[1:]
    a, dot, b = s.partition('.')
    digs = a + b
    if not digs or not all(ord(c) >= _PUA or c.isdigit() for c in digs):
        raise ValueError('could not convert string to float')
    r = run()
    v = digits_value(digs)
    p = 10 ** len(b)
    if len(digs) > 15:
        raise Unsupported('float() of a long string')
    k = r.name_int(v)
    x = SReal(z3.ToReal(k.e) / z3.RealVal(p), F(k.lo) / p, F(k.hi) / p, True)
    res = to_real(k) if p == 1 else rounded(x)
    if p > 1 and not res.is_const():
        f = z3.ToInt(z3.ToReal(k.e) / z3.RealVal(p))
        r.add(z3.Implies(k.e == p * f, res.re == z3.ToReal(f)))
    return -res if neg else res


# -------------------------------------------------------- bytes and hashes

class SBytes:
    """bytes built from symbolic integers."""
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = list(v)
        for x in self.v:
            if not (0 <= x) or not (x <= 255):
                raise ValueError('bytes must be in range(0, 256)')

    def __len__(self):
        return len(self.v)

    def __iter__(self):
        return iter(self.v)

    def __getitem__(self, k):
        return SBytes(self.v[k]) if real_isinstance(k, slice) else self.v[k]

    def __add__(self, o):
        if not real_isinstance(o, (SBytes, bytes)):
            return NotImplemented
        return SBytes([*self.v, *o])

    def __radd__(self, o):
        return SBytes([*o, *self.v]) if real_isinstance(o, bytes) else (
            NotImplemented)

    def __eq__(self, o):
        if not real_isinstance(o, (SBytes, bytes)) or len(o) != len(self.v):
            return False
        return all(a == b for a, b in zip(self.v, o))

    def __hash__(self):
        raise Unsupported('hash')


class SHash:
    """hash(x): equal for equal x, nothing else is known (the hashes of
    different values may or may not be equal)."""
    __slots__ = ('k',)

    def __init__(self, k):
        self.k = k

    def __eq__(self, o):
        if o is self:
            return True
        if real_isinstance(o, SHash):
            same = deep_eq(self.k, o.k)
            if same is True:
                return True
            return sor(same, SBool(run().fresh('collision', z3.BoolSort())))
        return False            # -1, the "not yet computed" mark

    def __ne__(self, o):
        return snot(self.__eq__(o))

    def __hash__(self):
        raise Unsupported('hash of a hash')


def deep_eq(a, b):
    """Equality of two values as one condition, without branching."""
    if real_isinstance(a, (tuple, list)) and real_isinstance(
            b, (tuple, list)):
        if len(a) != len(b):
            return False
        return sand(*[deep_eq(x, y) for x, y in zip(a, b)])
    if real_isinstance(a, SBytes) or real_isinstance(b, SBytes):
        if not real_isinstance(a, (SBytes, bytes)) or not real_isinstance(
                b, (SBytes, bytes)):
            return False
        return deep_eq(list(a), list(b))
    r = a == b
    return r if real_isinstance(r, (bool, SBool)) else bool(r)


def is_sym(x):
    if real_isinstance(x, (SInt, SBool, SReal, STd, SStr, SBytes, SHash)):
        return True
    if real_isinstance(x, (tuple, list)):
        return any(is_sym(y) for y in x)
    return False


# ------------------------------------------------- replacements of builtins

class _Num(type):
    def __instancecheck__(cls, x):
        return x_isinstance(x, cls.real)

    def __subclasscheck__(cls, c):
        return issubclass(c, cls.real)

    def __eq__(cls, o):
        return o is cls or o is cls.real

    def __hash__(cls):
        return hash(cls.real)


class x_int(metaclass=_Num):
    real = real_int

    def __new__(cls, x=0, *a):
        if real_isinstance(x, (SInt, SBool)):
            return to_int(x)
        if real_isinstance(x, SReal):
            return x.__trunc__()
        if real_isinstance(x, SStr) and not a:
            return str_int(x)
        return real_int(x, *a)

    @staticmethod
    def from_bytes(b, byteorder='big', *, signed=False):
        if not real_isinstance(b, SBytes):
            return real_int.from_bytes(b, byteorder, signed=signed)
        if signed or byteorder not in ('big', 'little'):
            raise Unsupported('from_bytes')
        n = 0
        for x in b.v if byteorder == 'big' else reversed(b.v):
            n = n * 256 + x
        return n


class x_float(metaclass=_Num):
    real = real_float

    def __new__(cls, x=0.0):
        if real_isinstance(x, (SInt, SBool, SReal)):
            return to_real(x)
        if real_isinstance(x, SStr):
            return str_float(x)
        return real_float(x)


class x_bytes(metaclass=_Num):
    real = bytes

    def __new__(cls, x=b'', *a):
        if real_isinstance(x, (list, tuple)) and is_sym(x):
            return SBytes(x)
        return bytes(x, *a)


class x_str(metaclass=_Num):
    real = str

    def __new__(cls, x='', *a):
        if real_isinstance(x, SStr):
            return x
        return str(x, *a)

    join = str.join
    format = str.format
    maketrans = str.maketrans


def x_isinstance(x, t):
    if real_isinstance(t, tuple):
        return any(x_isinstance(x, y) for y in t)
    t = {x_int: real_int, x_float: real_float, x_bytes: bytes,
         x_str: str}.get(t, t) if real_isinstance(t, type) else t
    if t is TdClass:
        t = _dt.timedelta
    if real_isinstance(x, SInt):
        return issubclass(real_int, t)
    if real_isinstance(x, SBool):
        return issubclass(bool, t)
    if real_isinstance(x, SReal):
        return issubclass(real_float, t)
    if real_isinstance(x, STd):
        return issubclass(_dt.timedelta, t)
    if real_isinstance(x, SStr):
        return issubclass(str, t)
    if real_isinstance(x, SBytes):
        return issubclass(bytes, t)
    return real_isinstance(x, t)


def x_hash(x):
    if is_sym(x):
        return SHash(x)
    h = getattr(type(x), '__hash__', None)
    if h is not None and type(x).__module__.startswith('badidatetime'):
        return x.__hash__()
    if real_isinstance(x, tuple):
        return SHash(x) if is_sym(x) else hash(x)
    if real_isinstance(x, _dt.timedelta):     # may equal a symbolic one
        return SHash(x)
    return hash(x)


def x_ord(x):
    if real_isinstance(x, SBytes):
        if len(x) != 1:
            raise TypeError('ord() expected a character')
        return x.v[0]
    return ord(x)


class x_range:
    """range with membership of a symbolic integer as one condition."""

    def __init__(self, *a):
        self.r = range(*[x.__index__() for x in a])

    def __iter__(self):
        return iter(self.r)

    def __len__(self):
        return len(self.r)

    def __getitem__(self, k):
        return self.r[k]

    def __reversed__(self):
        return reversed(self.r)

    def __contains__(self, x):
        if real_isinstance(x, (SInt, SReal, SBool)):
            if not len(self.r):
                return False
            if self.r.step != 1:
                return any(x == v for v in self.r)
            ok = sand(x >= self.r.start, x < self.r.stop)
            if real_isinstance(x, SReal):
                ok = sand(ok, x.is_integer())
            return bool(ok)
        return x in self.r


class x_math:
    """The math module on symbolic values."""

    def __getattr__(self, n):
        f = getattr(_math, n)
        if not callable(f):
            return f

        def g(*a):
            if any(is_sym(x) for x in a):
                raise Unsupported(f'math.{n}')
            return f(*a)
        return g

    def floor(self, x):
        return x.__floor__() if is_sym(x) else _math.floor(x)

    def ceil(self, x):
        return x.__ceil__() if is_sym(x) else _math.ceil(x)

    def trunc(self, x):
        return x.__trunc__() if is_sym(x) else _math.trunc(x)

    def fmod(self, x, y):
        if not is_sym(x) and not is_sym(y):
            return _math.fmod(x, y)
        x, y = to_real(x), to_real(y)
        if not y.is_const() or y.lo <= 0:
            raise Unsupported('fmod')
        c = y.lo
        q = z3.ToReal(z3.If(x.e >= 0, z3.ToInt(x.e / _q(c)),
                            -z3.ToInt(-x.e / _q(c))))
        lo = F(0) if x.lo is not None and x.lo >= 0 else -c
        hi = F(0) if x.hi is not None and x.hi <= 0 else c
        r = run()
        key = ('fmod', x.key(), c)
        if key not in r.memo:
            v = r.fresh('fmod', z3.RealSort())
            r.add(v == x.e - _q(c) * q, v > -_q(c), v < _q(c))
            r.memo[key] = (SReal(v, lo, hi, None if x.g is None else
                                 min(x.g, _gran(c))), x)
        return r.memo[key][0]

    def modf(self, x):
        if not is_sym(x):
            return _math.modf(x)
        i = to_real(x).__trunc__()
        return to_real(x) - i, to_real(i)

    def fabs(self, x):
        return abs(to_real(x)) if is_sym(x) else _math.fabs(x)

    def _bounded(self, n, lo, hi):
        def f(x):
            if not is_sym(x):
                return getattr(_math, n)(x)
            x = to_real(x)
            r = run()
            key = (n, x.key())
            if key not in r.memo:
                v = r.fresh(n, z3.RealSort())
                r.add(v >= _q(lo), v <= _q(hi))
                r.memo[key] = (SReal(v, F(lo), F(hi), None), x)
            return r.memo[key][0]
        return f

    @property
    def sin(self):
        return self._bounded('sin', -1, 1)

    @property
    def cos(self):
        return self._bounded('cos', -1, 1)

    @property
    def atan(self):
        return self._bounded('atan', F(-_math.pi / 2), F(_math.pi / 2))

    def _dom(self, n, lo, hi):
        def f(x):
            if not is_sym(x):
                return getattr(_math, n)(x)
            if (x < -1) or (x > 1):
                raise ValueError('math domain error')
            return self._bounded(n, lo, hi)(x)
        return f

    @property
    def asin(self):
        return self._dom('asin', F(-_math.pi / 2), F(_math.pi / 2))

    @property
    def acos(self):
        return self._dom('acos', 0, F(_math.pi))

    def atan2(self, y, x):
        if not is_sym(y) and not is_sym(x):
            return _math.atan2(y, x)
        r = run()
        y, x = to_real(y), to_real(x)
        key = ('atan2', y.key(), x.key())
        if key not in r.memo:
            v = r.fresh('atan2', z3.RealSort())
            p = F(_math.pi)
            r.add(v >= _q(-p), v <= _q(p))
            r.memo[key] = (SReal(v, -p, p, None), x, y)
        return r.memo[key][0]

    def radians(self, x):
        if not is_sym(x):
            return _math.radians(x)
        return to_real(x) * (_math.pi / 180)

    def degrees(self, x):
        if not is_sym(x):
            return _math.degrees(x)
        return to_real(x) * (180 / _math.pi)

    def isclose(self, *a, **k):
        raise Unsupported('isclose')


def x_any(it):
    return builtins.any(it)


INJECT = {'int': x_int, 'float': x_float, 'bytes': x_bytes, 'str': x_str,
          'isinstance': x_isinstance, 'hash': x_hash, 'ord': x_ord,
          'range': x_range}
