"""Symbolic values: SymBool, SymInt, SymReal, SymStr, SymBytes.

SymStr is a list of code points of concrete length; each code point is a
Python int or a z3 Int.  Only ASCII/Latin-1 style character classification is
modelled (harness alphabets stay inside ASCII unless they say otherwise).
"""
from fractions import Fraction
import math
from math import gcd
import z3
from .core import Engine, SxControl, ev_int, ev_real, TRUE, FALSE

WS = (9, 10, 11, 12, 13, 28, 29, 30, 31, 32, 0x85, 0xa0)


def E():
    return Engine.cur


def z(x):
    """z3 expression of a (symbolic or concrete) scalar."""
    if isinstance(x, (SymInt, SymReal, SymBool)):
        return x.e
    if isinstance(x, bool):
        return z3.BoolVal(x)
    if isinstance(x, int):
        return z3.IntVal(x)
    if isinstance(x, float):
        return rval(x)
    raise TypeError(type(x))


_rv = {}


def rval(x):
    r = _rv.get(x)
    if r is None:
        f = Fraction(x)
        r = z3.RealVal('%d/%d' % (f.numerator, f.denominator)) if f.denominator != 1 \
            else z3.RealVal(f.numerator)
        if len(_rv) < 10000:
            _rv[x] = r
    return r


def mkbool(e):
    if isinstance(e, bool):
        return e
    e = z3.simplify(e)
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return SymBool(e)


def mkint(e):
    if isinstance(e, int):
        return e
    e = z3.simplify(e)
    if z3.is_int_value(e):
        return e.as_long()
    return SymInt(e)


def mkreal(e):
    e = z3.simplify(e)
    if z3.is_rational_value(e):
        n, d = e.numerator_as_long(), e.denominator_as_long()
        return float(Fraction(n, d))
    return SymReal(e)


def _ident(xs):
    return tuple(x if type(x) is int else ('e', x.get_id()) for x in xs)


def remember(kind, xs, v):
    """note what the expressions xs of this path were computed from"""
    # (xs are kept so that their identity stays unique)
    E().hooks.setdefault(kind, {})[_ident(xs)] = (list(xs), v)


def recall(kind, xs):
    t = E().hooks.get(kind)
    r = t.get(_ident(xs)) if t else None
    return r[1] if r is not None else None


def And(*xs):
    out = []
    for x in xs:
        if isinstance(x, bool):
            if not x:
                return False
            continue
        x = x.e if isinstance(x, SymBool) else x
        out.append(x)
    if not out:
        return True
    return out[0] if len(out) == 1 else z3.And(*out)


def Or(*xs):
    out = []
    for x in xs:
        if isinstance(x, bool):
            if x:
                return True
            continue
        x = x.e if isinstance(x, SymBool) else x
        out.append(x)
    if not out:
        return False
    return out[0] if len(out) == 1 else z3.Or(*out)


def Not(x):
    if isinstance(x, bool):
        return not x
    return z3.Not(x.e if isinstance(x, SymBool) else x)


def dec(e):
    """decide a z3 Bool / bool"""
    if isinstance(e, bool):
        return e
    return E().decide(e)


def concretise(v, why):
    """Fallback for operations with no symbolic model: fix v to one model value."""
    en = E()
    if en is None:
        raise RuntimeError('symbolic value used outside a path (%s)' % why)
    mdl = en.get_model()
    val = v.sx_value(mdl)
    en.stats.concretised += 1
    en.conc_path = True
    import sys
    f = sys._getframe(1)
    site = why
    while f is not None:
        fn = f.f_code.co_filename
        if '/symx/' not in fn:
            site = '%s@%s:%d' % (why, fn.split('/')[-1], f.f_lineno)
            break
        f = f.f_back
    en.stats.conc_sites[site] = en.stats.conc_sites.get(site, 0) + 1
    en.assume(v.sx_equals(val))
    return val


class Sym(object):
    __slots__ = ()


class SymBool(Sym):
    __slots__ = ('e',)

    def __init__(self, e):
        self.e = e

    def __bool__(self):
        return E().decide(self.e)

    def sx_value(self, mdl):
        return z3.is_true(mdl.eval(self.e, model_completion=True))

    def sx_equals(self, v):
        return self.e if v else z3.Not(self.e)

    def _b(self, o):
        if isinstance(o, SymBool):
            return o.e
        if isinstance(o, bool):
            return z3.BoolVal(o)
        return None

    def __eq__(self, o):
        b = self._b(o)
        if b is None:
            if isinstance(o, (int, SymInt)):
                return self._i() == o
            return NotImplemented
        return mkbool(self.e == b)

    def __ne__(self, o):
        r = self.__eq__(o)
        if r is NotImplemented:
            return r
        return mkbool(Not(r))

    def __and__(self, o):
        b = self._b(o)
        if b is None:
            return NotImplemented
        return mkbool(z3.And(self.e, b))
    __rand__ = __and__

    def __or__(self, o):
        b = self._b(o)
        if b is None:
            return NotImplemented
        return mkbool(z3.Or(self.e, b))
    __ror__ = __or__

    def __xor__(self, o):
        b = self._b(o)
        if b is None:
            return NotImplemented
        return mkbool(z3.Xor(self.e, b))
    __rxor__ = __xor__

    def __hash__(self):
        return hash(bool(self))

    def __repr__(self):
        return '<SymBool>'

    def __str__(self):
        return str(bool(self))

    def __format__(self, spec):
        return format(bool(self), spec)

    def _i(self):
        return SymInt(z3.If(self.e, z3.IntVal(1), z3.IntVal(0)))

    def __int__(self):
        return int(bool(self))

    def __index__(self):
        return int(bool(self))

    def __add__(self, o):
        return self._i() + o
    __radd__ = __add__

    def __mul__(self, o):
        return self._i() * o
    __rmul__ = __mul__


def _isnum(x):
    return isinstance(x, (int, float, SymInt, SymReal, SymBool))


class SymInt(Sym):
    __slots__ = ('e', 'lz', 'h')

    def __init__(self, e, lz=0):
        self.e = e
        self.lz = lz
        self.h = None

    def sx_value(self, mdl):
        return ev_int(mdl, self.e)

    def sx_equals(self, v):
        return self.e == v

    # arithmetic
    def _arith(self, o, f, rev=False):
        if isinstance(o, SymBool):
            o = o._i()
        if isinstance(o, bool):
            o = int(o)
        if isinstance(o, (int, SymInt)):
            a, b = self.e, z(o)
            if rev:
                a, b = b, a
            return mkint(f(a, b))
        if isinstance(o, (float, SymReal)):
            if isinstance(o, float) and not math.isfinite(o):
                return NotImplemented
            a, b = z3.ToReal(self.e), z(o)
            if rev:
                a, b = b, a
            return mkreal(f(a, b))
        return NotImplemented

    def __add__(self, o):
        return self._arith(o, lambda a, b: a + b)
    __radd__ = __add__

    def __sub__(self, o):
        return self._arith(o, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._arith(o, lambda a, b: a - b, True)

    def __mul__(self, o):
        if isinstance(o, (str, bytes, list, tuple, SymStr)):
            return o * int(self.__index__())
        return self._arith(o, lambda a, b: a * b)
    __rmul__ = __mul__

    def __neg__(self):
        return mkint(-self.e)

    def __pos__(self):
        return self

    def __abs__(self):
        return mkint(z3.If(self.e >= 0, self.e, -self.e))

    def __invert__(self):
        return mkint(-self.e - 1)

    def __floordiv__(self, o):
        if isinstance(o, (float, SymReal)):
            return SymReal(z3.ToReal(self.e)).__floordiv__(o)
        if isinstance(o, int):
            if o == 0:
                raise ZeroDivisionError('integer division or modulo by zero')
            if o > 0:
                return mkint(self.e / o)
            return mkint((-self.e) / (-o))
        if isinstance(o, SymInt):
            return _sdiv(self.e, o.e)
        return NotImplemented

    def __rfloordiv__(self, o):
        if isinstance(o, int):
            return _sdiv(z3.IntVal(o), self.e)
        return NotImplemented

    def __mod__(self, o):
        if isinstance(o, (float, SymReal)):
            return SymReal(z3.ToReal(self.e)).__mod__(o)
        if isinstance(o, int):
            if o == 0:
                raise ZeroDivisionError('integer division or modulo by zero')
            if o > 0:
                return mkint(self.e % o)
            q = (-self.e) / (-o)
            return mkint(self.e - q * o)
        if isinstance(o, SymInt):
            q = _sdiv(self.e, o.e)
            return self - q * o
        return NotImplemented

    def __rmod__(self, o):
        if isinstance(o, int):
            q = _sdiv(z3.IntVal(o), self.e)
            return o - q * self
        return NotImplemented

    def __divmod__(self, o):
        return (self // o, self % o)

    def __truediv__(self, o):
        return SymReal(z3.ToReal(self.e)).__truediv__(o)

    def __rtruediv__(self, o):
        return SymReal(z3.ToReal(self.e)).__rtruediv__(o)

    def __pow__(self, o):
        if isinstance(o, int) and 0 <= o <= 4:
            r = 1
            for _ in range(o):
                r = self * r
            return r
        return concretise(self, 'pow') ** o

    def __rpow__(self, o):
        return o ** self.__index__()

    def __lshift__(self, k):
        k = k.__index__()
        r = mkint(self.e * (1 << k))
        if isinstance(r, SymInt):
            r.lz = self.lz + k
        return r

    def __rlshift__(self, o):
        return o << self.__index__()

    def __rshift__(self, k):
        return mkint(self.e / (1 << k.__index__()))

    def __and__(self, o):
        if isinstance(o, int) and o >= 0:
            if o == 0:
                return 0
            a = (o & -o).bit_length() - 1
            w = o >> a
            if w & (w + 1) == 0:   # contiguous ones
                e = self.e / (1 << a) if a else self.e
                return mkint((e % (w + 1)) * (1 << a))
            # sum over contiguous runs
            r = 0
            bit = 0
            while o >> bit:
                if (o >> bit) & 1:
                    n = 0
                    while (o >> (bit + n)) & 1:
                        n += 1
                    e = self.e / (1 << bit) if bit else self.e
                    r = r + mkint((e % (1 << n)) * (1 << bit))
                    bit += n
                else:
                    bit += 1
            return r
        if isinstance(o, int):
            return self - (self & ~o)
        return concretise(self, 'and') & o

    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, (int, SymInt)):
            for x, y in ((self, o), (o, self)):
                if isinstance(x, SymInt):
                    lz = x.lz
                else:
                    lz = (x & -x).bit_length() - 1 if x > 0 else 0
                if lz and E().must(And(z(y) >= 0, z(y) < (1 << lz))):
                    return x + y
            if isinstance(o, int):
                return self + o - (self & o)
        return concretise(self, 'or') | o
    __ror__ = __or__

    def __xor__(self, o):
        if isinstance(o, int):
            base, m = recall('xor', [self.e]) or (self, 0)
            m ^= o
            if m == 0:
                return base
            a = base & m
            r = base + m - a - a
            if isinstance(r, SymInt):
                remember('xor', [r.e], (base, m))
            return r
        return concretise(self, 'xor') ^ o
    __rxor__ = __xor__

    # comparisons
    def _cmp(self, o, f):
        if isinstance(o, (bool, SymBool)):
            o = int(o) if isinstance(o, bool) else o._i()
        if isinstance(o, (int, SymInt)):
            return mkbool(f(self.e, z(o)))
        if isinstance(o, (float, SymReal)):
            if isinstance(o, float) and not math.isfinite(o):
                return f(0.0, o)
            return mkbool(f(z3.ToReal(self.e), z(o)))
        return NotImplemented

    def __eq__(self, o):
        return self._cmp(o, lambda a, b: a == b)

    def __ne__(self, o):
        return self._cmp(o, lambda a, b: a != b)

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    def __bool__(self):
        return dec(mkz(self.e != 0))

    def sx_enum(self):
        """Fork over all feasible concrete values (small domains)."""
        en = E()
        n = 0
        while True:
            v = ev_int(en.get_model(), self.e)
            if en.decide(z3.simplify(self.e == v)):
                return v
            n += 1
            if n > en.max_conc:
                return concretise(self, 'index')

    def __index__(self):
        return self.sx_enum()

    def __int__(self):
        return self.sx_enum()

    def __float__(self):
        return float(concretise(self, 'float'))

    def __hash__(self):
        if self.h is None:
            return hash(self.sx_enum())
        return self.h

    def sx_mark_key(self):
        if self.h is None:
            self.h = id(self)

    def __str__(self):
        return str(concretise(self, 'str(int)'))

    def __repr__(self):
        return '<SymInt>'

    def __format__(self, spec):
        return format(concretise(self, 'format(int)'), spec)

    def __round__(self, n=None):
        return self

    def __trunc__(self):
        return self

    def __floor__(self):
        return self

    def __ceil__(self):
        return self

    def bit_length(self):
        return concretise(self, 'bit_length').bit_length()

    def to_bytes(self, length=1, byteorder='big', signed=False):
        if not signed and not dec(mkz(z3.And(self.e >= 0, self.e < (1 << (8 * length))))):
            raise OverflowError('int too big to convert')
        chars = []
        for i in range(length):
            chars.append(chz((self.e / (1 << (8 * i))) % 256))
        if byteorder == 'big':
            chars.reverse()
        remember('tobytes', chars, (byteorder, self))
        return SymBytes.of(chars)

    def is_integer(self):
        return True

    @property
    def real(self):
        return self

    def conjugate(self):
        return self


def mkz(e):
    e = z3.simplify(e)
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return e


def chz(e):
    e = z3.simplify(e)
    if z3.is_int_value(e):
        return e.as_long()
    return e


def _sdiv(a, b):
    """floor division of z3 ints with symbolic divisor"""
    if dec(mkz(b == 0)):
        raise ZeroDivisionError('integer division or modulo by zero')
    if dec(mkz(b > 0)):
        return mkint(a / b)
    return mkint((-a) / (-b))


def toint(e):
    """floor of a real expression; a sum of integers over constants is divided as integers"""
    e = z3.simplify(e, som=True)
    whole, part, const = [], [], Fraction(0)
    for p in (e.children() if z3.is_add(e) else [e]):
        q = Fraction(1)
        if z3.is_mul(p) and p.num_args() == 2 and z3.is_rational_value(p.arg(0)):
            q = p.arg(0).as_fraction()
            p = p.arg(1)
        if z3.is_rational_value(p):
            const += q * p.as_fraction()
        elif z3.is_to_real(p):
            (whole if q.denominator == 1 else part).append((q, p.arg(0)))
        else:
            return z3.ToInt(e)
    k = const.numerator // const.denominator
    r = z3.Sum(*[q.numerator * x for q, x in whole], z3.IntVal(k))
    if part:
        const -= k
        den = const.denominator
        for q, x in part:
            den = den * q.denominator // gcd(den, q.denominator)
        r = r + z3.Sum(*[int(q * den) * x for q, x in part], z3.IntVal(int(const * den))) / den
    return r


class SymReal(Sym):
    __slots__ = ('e',)

    def __init__(self, e):
        self.e = e

    def sx_value(self, mdl):
        return ev_real(mdl, self.e)

    def sx_equals(self, v):
        return self.e == rval(v)

    def _o(self, o):
        if isinstance(o, SymReal):
            return o.e
        if isinstance(o, SymInt):
            return z3.ToReal(o.e)
        if isinstance(o, bool):
            return rval(float(o))
        if isinstance(o, int):
            return z3.RealVal(o)
        if isinstance(o, float):
            if not math.isfinite(o):
                return None
            return rval(o)
        return None

    def _ar(self, o, f, rev=False):
        b = self._o(o)
        if b is None:
            return NotImplemented
        return mkreal(f(b, self.e) if rev else f(self.e, b))

    def __add__(self, o):
        return self._ar(o, lambda a, b: a + b)
    __radd__ = __add__

    def __sub__(self, o):
        return self._ar(o, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._ar(o, lambda a, b: a - b, True)

    def __mul__(self, o):
        return self._ar(o, lambda a, b: a * b)
    __rmul__ = __mul__

    def __truediv__(self, o):
        b = self._o(o)
        if b is None:
            return NotImplemented
        if dec(mkz(b == 0)):
            raise ZeroDivisionError('float division by zero')
        return mkreal(self.e / b)

    def __rtruediv__(self, o):
        b = self._o(o)
        if b is None:
            return NotImplemented
        if dec(mkz(self.e == 0)):
            raise ZeroDivisionError('float division by zero')
        return mkreal(b / self.e)

    def __floordiv__(self, o):
        q = self.__truediv__(o)
        if q is NotImplemented or isinstance(q, float):
            return q if q is NotImplemented else float(math.floor(q))
        return mkreal(z3.ToReal(toint(q.e)))

    def __mod__(self, o):
        q = self.__floordiv__(o)
        if q is NotImplemented:
            return q
        return self - q * o

    def __rmod__(self, o):
        return concretise(self, 'rmod').__rmod__(o)

    def __neg__(self):
        return mkreal(-self.e)

    def __pos__(self):
        return self

    def __abs__(self):
        return mkreal(z3.If(self.e >= 0, self.e, -self.e))

    def __pow__(self, o):
        if isinstance(o, int) and 0 <= o <= 4:
            r = 1.0
            for _ in range(o):
                r = self * r
            return r
        return concretise(self, 'pow') ** o

    def _cmp(self, o, f):
        b = self._o(o)
        if b is None:
            if isinstance(o, float):
                return f(0.0, o)
            return NotImplemented
        return mkbool(f(self.e, b))

    def __eq__(self, o):
        return self._cmp(o, lambda a, b: a == b)

    def __ne__(self, o):
        return self._cmp(o, lambda a, b: a != b)

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    def __bool__(self):
        return dec(mkz(self.e != 0))

    def __hash__(self):
        return hash(concretise(self, 'hash(real)'))

    def __float__(self):
        return concretise(self, 'float')

    def __int__(self):
        return int(concretise(self, 'int(real)'))

    def sx_toint(self):
        """int(): truncation"""
        if dec(mkz(self.e >= 0)):
            return mkint(toint(self.e))
        return mkint(-toint(-self.e))

    def __trunc__(self):
        return self.sx_toint()

    def __floor__(self):
        return mkint(toint(self.e))

    def __ceil__(self):
        return mkint(-toint(-self.e))

    def __round__(self, n=None):
        if n in (None, 0):
            # round half to even; ties are modelled exactly
            fl = toint(self.e)
            fr = z3.simplify(self.e - z3.ToReal(fl))
            half = z3.RealVal('1/2')
            up = z3.Or(fr > half, z3.And(fr == half, fl % 2 == 1))
            r = mkint(fl + 1 if dec(mkz(up)) else fl)
            return r if n is None else r * 1.0
        m = 10 ** n
        return round(self * m) / m

    def __str__(self):
        return str(concretise(self, 'str(real)'))

    def __repr__(self):
        return '<SymReal>'

    def __format__(self, spec):
        return format(concretise(self, 'format(real)'), spec)

    def is_integer(self):
        return mkbool(z3.IsInt(self.e))


# ---------------------------------------------------------------- strings

def ceq(a, b):
    """equality of two chars -> bool | z3"""
    if type(a) is int and type(b) is int:
        return a == b
    return a == b  # z3 expr


def cin(c, codes):
    """c in a small set of codes (collapsed to ranges)"""
    if type(c) is int:
        return c in codes
    rs = _ranges(codes)
    return Or(*[(c == lo) if lo == hi else z3.And(c >= lo, c <= hi) for lo, hi in rs])


_rc = {}


def _ranges(codes):
    k = tuple(codes)
    r = _rc.get(k)
    if r is None:
        cs = sorted(set(codes))
        r = []
        for c in cs:
            if r and r[-1][1] == c - 1:
                r[-1][1] = c
            else:
                r.append([c, c])
        r = _rc[k] = tuple((a, b) for a, b in r)
    return r


_DIG = tuple(range(48, 58))
_ALPHA = tuple(range(65, 91)) + tuple(range(97, 123))
_UP = tuple(range(65, 91))
_LOW = tuple(range(97, 123))


def cdig(c):
    return 48 <= c <= 57 if type(c) is int else z3.And(c >= 48, c <= 57)


def codes_of(s):
    if isinstance(s, SymStr):
        return s.c
    if isinstance(s, (bytes, bytearray)):
        return list(s)
    return [ord(x) for x in s]


class SymStr(Sym):
    __slots__ = ('c', 'h', 'name')
    BYTES = False

    def __init__(self, c):
        self.c = c
        self.h = None
        self.name = None

    @classmethod
    def of(cls, c):
        """codes -> real str when all concrete, SymStr otherwise"""
        for x in c:
            if type(x) is not int:
                return cls(list(c))
        return bytes(c) if cls.BYTES else ''.join(map(chr, c))

    def _mk(self, c):
        return type(self).of(c)

    def _peer(self, o):
        """codes of a same-kind string, or None"""
        if isinstance(o, SymStr):
            return o.c if o.BYTES == self.BYTES else None
        if self.BYTES:
            return list(o) if isinstance(o, (bytes, bytearray)) else None
        return [ord(x) for x in o] if isinstance(o, str) else None

    def _need(self, o):
        p = self._peer(o)
        if p is None:
            raise TypeError('a %s-like object is required, not %r' %
                            ('bytes' if self.BYTES else 'str', type(o).__name__))
        return p

    def sx_value(self, mdl):
        cs = [x if type(x) is int else ev_int(mdl, x) for x in self.c]
        return bytes(cs) if self.BYTES else ''.join(map(chr, cs))

    def sx_equals(self, v):
        return z3.And([z3.BoolVal(True)] + [(a == (b if isinstance(b, int) else ord(b)))
                       if type(a) is not int else z3.BoolVal(True) for a, b in zip(self.c, v)])

    # -- protocol
    def __len__(self):
        return len(self.c)

    def __bool__(self):
        return len(self.c) > 0

    def __iter__(self):
        if self.BYTES:
            return iter([x if type(x) is int else SymInt(x) for x in self.c])
        return iter([self._mk([x]) for x in self.c])

    def __getitem__(self, i):
        if isinstance(i, slice):
            return self._mk(self.c[_ix(i.start):_ix(i.stop):_ix(i.step)])
        if isinstance(i, (SymInt, SymBool)):
            i = i.__index__()
        if self.BYTES:
            x = self.c[i]
            return x if type(x) is int else SymInt(x)
        return self._mk([self.c[i]])

    def _eqz(self, oc):
        if len(oc) != len(self.c):
            return False
        cs = []
        for a, b in zip(self.c, oc):
            if type(a) is int and type(b) is int:
                if a != b:
                    return False
            else:
                cs.append(a == b)
        if not cs:
            return True
        return mkz(z3.And(*cs) if len(cs) > 1 else cs[0])

    def __eq__(self, o):
        oc = self._peer(o)
        if oc is None:
            return False if isinstance(o, (str, bytes, SymStr)) else NotImplemented
        r = self._eqz(oc)
        return r if isinstance(r, bool) else SymBool(r)

    def __ne__(self, o):
        r = self.__eq__(o)
        if r is NotImplemented:
            return r
        return (not r) if isinstance(r, bool) else mkbool(z3.Not(r.e))

    def _lt(self, a, b, strict):
        # lexicographic comparison, forking
        for x, y in zip(a, b):
            if dec(mkq(ceq(x, y))):
                continue
            return dec(mkq(zc(x) < zc(y)))
        return len(a) < len(b) if strict else len(a) <= len(b)

    def __lt__(self, o):
        return self._lt(self.c, self._need(o), True)

    def __le__(self, o):
        return self._lt(self.c, self._need(o), False)

    def __gt__(self, o):
        return self._lt(self._need(o), self.c, True)

    def __ge__(self, o):
        return self._lt(self._need(o), self.c, False)

    def __hash__(self):
        if self.h is None:
            v = concretise(self, 'hash(str)')
            return hash(v)
        return self.h

    def sx_mark_key(self):
        if self.h is None:
            self.h = id(self)

    def __add__(self, o):
        oc = self._peer(o)
        if oc is None:
            return NotImplemented
        return self._mk(self.c + oc)

    def __radd__(self, o):
        oc = self._peer(o)
        if oc is None:
            return NotImplemented
        return self._mk(oc + self.c)

    def __mul__(self, n):
        return self._mk(self.c * int(n))
    __rmul__ = __mul__

    def __contains__(self, o):
        if self.BYTES and isinstance(o, (int, SymInt)):
            return dec(mkq(Or(*[ceq(x, o if isinstance(o, int) else o.e) for x in self.c])))
        oc = self._need(o)
        return dec(mkq(self._has(oc)))

    def _at(self, oc, i):
        cs = []
        for k, b in enumerate(oc):
            a = self.c[i + k]
            if type(a) is int and type(b) is int:
                if a != b:
                    return False
            else:
                cs.append(a == b)
        if not cs:
            return True
        return z3.And(*cs) if len(cs) > 1 else cs[0]

    def _has(self, oc):
        n, m = len(self.c), len(oc)
        if m == 0:
            return True
        return Or(*[self._at(oc, i) for i in range(0, n - m + 1)])

    def __str__(self):
        return str(concretise(self, 'str'))

    def __repr__(self):
        return '<%s %s>' % (type(self).__name__, ''.join(
            chr(x) if type(x) is int else '\u00b7' for x in self.c))

    def __format__(self, spec):
        return format(concretise(self, 'format'), spec)

    def __mod__(self, args):
        from . import builtins_ as B
        return B.str_mod(self, args)

    # -- searching
    def _bounds(self, start, end):
        n = len(self.c)
        s, e, _ = slice(_ix(start), _ix(end)).indices(n)
        return s, e

    def find(self, sub, start=None, end=None):
        oc = self._sub(sub)
        s, e = self._bounds(start, end)
        if start is not None and _ix(start) > len(self.c):
            return -1
        for i in range(s, e - len(oc) + 1):
            if dec(mkq(self._at(oc, i))):
                return i
        return -1

    def _sub(self, sub):
        if self.BYTES and isinstance(sub, int):
            return [sub]
        return self._need(sub)

    def rfind(self, sub, start=None, end=None):
        oc = self._sub(sub)
        s, e = self._bounds(start, end)
        for i in range(e - len(oc), s - 1, -1):
            if dec(mkq(self._at(oc, i))):
                return i
        return -1

    def index(self, sub, start=None, end=None):
        r = self.find(sub, start, end)
        if r == -1:
            raise ValueError('substring not found')
        return r

    def rindex(self, sub, start=None, end=None):
        r = self.rfind(sub, start, end)
        if r == -1:
            raise ValueError('substring not found')
        return r

    def count(self, sub, start=None, end=None):
        oc = self._sub(sub)
        s, e = self._bounds(start, end)
        if len(oc) == 1:
            n = 0
            terms = []
            for i in range(s, e):
                c = mkq(ceq(self.c[i], oc[0]))
                if isinstance(c, bool):
                    n += c
                else:
                    terms.append(z3.If(c, z3.IntVal(1), z3.IntVal(0)))
            if not terms:
                return n
            return mkint(z3.Sum(*terms, z3.IntVal(n)))
        n = 0
        i = s
        while i <= e - len(oc):
            if dec(mkq(self._at(oc, i))):
                n += 1
                i += max(1, len(oc))
            else:
                i += 1
        return n

    def startswith(self, p, start=None, end=None):
        if isinstance(p, tuple):
            return mkb(Or(*[self._sw(x, start, end) for x in p]))
        return mkb(self._sw(p, start, end))

    def _sw(self, p, start, end):
        oc = self._need(p)
        s, e = self._bounds(start, end)
        if e - s < len(oc):
            return False
        return self._at(oc, s)

    def endswith(self, p, start=None, end=None):
        if isinstance(p, tuple):
            return mkb(Or(*[self._ew(x, start, end) for x in p]))
        return mkb(self._ew(p, start, end))

    def _ew(self, p, start, end):
        oc = self._need(p)
        s, e = self._bounds(start, end)
        if e - s < len(oc):
            return False
        return self._at(oc, e - len(oc))

    # -- splitting
    def split(self, sep=None, maxsplit=-1):
        maxsplit = _ix(maxsplit)
        if sep is None:
            return self._splitws(maxsplit)
        oc = self._need(sep)
        if len(oc) == 0:
            raise ValueError('empty separator')
        out = []
        pos = i = 0
        n = len(self.c)
        while i <= n - len(oc):
            if maxsplit >= 0 and len(out) >= maxsplit:
                break
            if dec(mkq(self._at(oc, i))):
                out.append(self._mk(self.c[pos:i]))
                i += len(oc)
                pos = i
            else:
                i += 1
        out.append(self._mk(self.c[pos:]))
        return out

    def _ws(self, c):
        return dec(mkq(cin(c, WS)))

    def _splitws(self, maxsplit):
        out = []
        i = 0
        n = len(self.c)
        while True:
            while i < n and self._ws(self.c[i]):
                i += 1
            if i >= n:
                break
            if maxsplit >= 0 and len(out) >= maxsplit:
                out.append(self._mk(self.c[i:]))
                break
            j = i
            while j < n and not self._ws(self.c[j]):
                j += 1
            out.append(self._mk(self.c[i:j]))
            i = j
        return out

    def rsplit(self, sep=None, maxsplit=-1):
        maxsplit = _ix(maxsplit)
        if sep is None:
            if maxsplit < 0:
                return self._splitws(-1)
            r = self._mk(self.c[::-1])
            if not isinstance(r, SymStr):
                return self._mk(self.c).rsplit(None, maxsplit)
            return [x[::-1] for x in r._splitws(maxsplit)][::-1]
        oc = self._need(sep)
        out = []
        end = n = len(self.c)
        i = n - len(oc)
        while i >= 0:
            if maxsplit >= 0 and len(out) >= maxsplit:
                break
            if i + len(oc) <= end and dec(mkq(self._at(oc, i))):
                out.append(self._mk(self.c[i + len(oc):end]))
                end = i
                i -= len(oc)
            else:
                i -= 1
        out.append(self._mk(self.c[:end]))
        out.reverse()
        return out

    def partition(self, sep):
        i = self.find(sep)
        if i == -1:
            return (self._mk(self.c), self._mk([]), self._mk([]))
        m = len(sep)
        return (self._mk(self.c[:i]), sep, self._mk(self.c[i + m:]))

    def rpartition(self, sep):
        i = self.rfind(sep)
        if i == -1:
            return (self._mk([]), self._mk([]), self._mk(self.c))
        m = len(sep)
        return (self._mk(self.c[:i]), sep, self._mk(self.c[i + m:]))

    def splitlines(self, keepends=False):
        out = []
        pos = i = 0
        n = len(self.c)
        brk = (10, 13) if self.BYTES else (10, 11, 12, 13, 28, 29, 30, 0x85, 0x2028, 0x2029)
        while i < n:
            if dec(mkq(cin(self.c[i], brk))):
                j = i + 1
                if j < n and dec(mkq(ceq(self.c[i], 13))) and dec(mkq(ceq(self.c[j], 10))):
                    j += 1
                out.append(self._mk(self.c[pos:j if keepends else i]))
                i = pos = j
            else:
                i += 1
        if pos < n:
            out.append(self._mk(self.c[pos:]))
        return out

    def _stripset(self, chars):
        return WS if chars is None else tuple(self._need(chars))

    def _instrip(self, c, st):
        if all(type(x) is int for x in st):
            return dec(mkq(cin(c, st)))
        return dec(mkq(Or(*[ceq(c, x) for x in st])))

    def lstrip(self, chars=None):
        st = self._stripset(chars)
        i = 0
        while i < len(self.c) and self._instrip(self.c[i], st):
            i += 1
        return self._mk(self.c[i:])

    def rstrip(self, chars=None):
        st = self._stripset(chars)
        j = len(self.c)
        while j > 0 and self._instrip(self.c[j - 1], st):
            j -= 1
        return self._mk(self.c[:j])

    def strip(self, chars=None):
        r = self.lstrip(chars)
        return r.rstrip(chars)

    def removeprefix(self, p):
        if dec(mkq(self._sw(p, None, None))):
            return self._mk(self.c[len(p):])
        return self

    def removesuffix(self, p):
        if len(p) and dec(mkq(self._ew(p, None, None))):
            return self._mk(self.c[:len(self.c) - len(p)])
        return self

    def replace(self, old, new, count=-1):
        oc, nc = self._need(old), self._need(new)
        if len(oc) == 0:
            return self._mk(codes_of(self.sx_conc('replace').replace(old, new, count)))
        out = []
        i = n = 0
        while i < len(self.c):
            if (count < 0 or n < count) and i <= len(self.c) - len(oc) and \
                    dec(mkq(self._at(oc, i))):
                out += nc
                i += len(oc)
                n += 1
            else:
                out.append(self.c[i])
                i += 1
        return self._mk(out)

    def sx_conc(self, why):
        return concretise(self, why)

    def join(self, it):
        out = []
        for k, x in enumerate(it):
            if k:
                out += self.c
            out += self._need(x)
        return self._mk(out)

    # -- case and classes
    def lower(self):
        return self._mk([_low(c) for c in self.c])

    casefold = lower

    def upper(self):
        return self._mk([_up(c) for c in self.c])

    def swapcase(self):
        return self._mk([(ord(chr(c).swapcase()) if type(c) is int else
                          chz(z3.If(z3.And(c >= 65, c <= 90), c + 32,
                              z3.If(z3.And(c >= 97, c <= 122), c - 32, c)))) for c in self.c])

    def capitalize(self):
        return self._mk([_up(c) for c in self.c[:1]] + [_low(c) for c in self.c[1:]])

    def title(self):
        out = []
        prev = False
        for c in self.c:
            al = dec(mkq(cin(c, _ALPHA)))
            out.append((_low(c) if prev else _up(c)) if al else c)
            prev = al
        return self._mk(out)

    def _all(self, f):
        if not self.c:
            return False
        return mkb(And(*[mkq(f(c)) for c in self.c]))

    def isdigit(self):
        return self._all(cdig)

    isdecimal = isnumeric = isdigit

    def isalpha(self):
        return self._all(lambda c: cin(c, _ALPHA))

    def isalnum(self):
        return self._all(lambda c: cin(c, _ALPHA + _DIG))

    def isspace(self):
        return self._all(lambda c: cin(c, WS))

    def isascii(self):
        return mkb(And(*[c < 128 for c in self.c]))

    def isupper(self):
        if not self.c:
            return False
        return mkb(And(Or(*[cin(c, _UP) for c in self.c]), *[Not(cin(c, _LOW)) for c in self.c]))

    def islower(self):
        if not self.c:
            return False
        return mkb(And(Or(*[cin(c, _LOW) for c in self.c]), *[Not(cin(c, _UP)) for c in self.c]))

    def isprintable(self):
        return mkb(And(*[And(c >= 32, c < 127) for c in self.c]))

    def isidentifier(self):
        return str(self.sx_conc('isidentifier')).isidentifier()

    def zfill(self, w):
        return self.rjust(w, '0')

    def rjust(self, w, f=' '):
        n = max(0, w - len(self.c))
        return self._mk([ord(f)] * n + self.c)

    def ljust(self, w, f=' '):
        n = max(0, w - len(self.c))
        return self._mk(self.c + [ord(f)] * n)

    def center(self, w, f=' '):
        return self.sx_conc('center').center(w, f)

    def expandtabs(self, n=8):
        return self.sx_conc('expandtabs').expandtabs(n)

    def translate(self, table):
        out = []
        for c in self.c:
            if type(c) is not int:
                for k in table:
                    if dec(mkq(c == k)):
                        c = k
                        break
            r = table.get(c, c) if type(c) is int else c
            if r is None:
                continue
            if isinstance(r, str):
                out += [ord(x) for x in r]
            else:
                out.append(r)
        return self._mk(out)

    def format(self, *a, **k):
        return self.sx_conc('format').format(*a, **k)

    def encode(self, encoding='utf-8', errors='strict'):
        out = []
        for c in self.c:
            if type(c) is int:
                out += list(chr(c).encode(encoding, errors))
            elif dec(mkq(c < 128)):
                out.append(c)
            elif dec(mkq(c < 0x800)):
                out += [chz(0xc0 + c / 64), chz(0x80 + c % 64)]
            else:
                out += [chz(0xe0 + c / 4096), chz(0x80 + (c / 64) % 64), chz(0x80 + c % 64)]
        return SymBytes.of(out)

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self


class SymBytes(SymStr):
    __slots__ = ()
    BYTES = True

    def decode(self, encoding='utf-8', errors='strict'):
        out = []
        i = 0
        cs = self.c
        while i < len(cs):
            c = cs[i]
            if dec(mkq(c < 128 if type(c) is int else c < 128)):
                out.append(c)
                i += 1
                continue
            n = 2 if dec(mkq(And(c >= 0xc2, c < 0xe0))) else \
                3 if dec(mkq(And(c >= 0xe0, c < 0xf0))) else 0
            cont = cs[i + 1:i + n] if n else []
            if n and len(cont) == n - 1 and all(dec(mkq(And(x >= 0x80, x < 0xc0))) for x in cont):
                if n == 2:
                    out.append(chz(zc((zc(c) - 0xc0) * 64 + (zc(cont[0]) - 0x80))))
                else:
                    out.append(chz((zc(c) - 0xe0) * 4096 + (zc(cont[0]) - 0x80) * 64 + zc(cont[1]) - 0x80))
                i += n
                continue
            if errors == 'strict':
                raise UnicodeDecodeError('utf-8', b'\xff', 0, 1, 'invalid byte (symbolic)')
            if errors == 'backslashreplace':
                out += [92, 120]
                for d in ((c // 16, c % 16) if type(c) is int else (c / 16, c % 16)):
                    out.append((48 + d if d < 10 else 87 + d) if type(d) is int else
                               chz(z3.If(d < 10, 48 + d, 87 + d)))
            elif errors == 'replace':
                out.append(0xfffd)
            i += 1
        return SymStr.of(out)

    def hex(self):
        out = []
        for c in self.c:
            for d in ((c // 16, c % 16) if type(c) is int else (c / 16, c % 16)):
                out.append((48 + d if d < 10 else 87 + d) if type(d) is int else
                           chz(z3.If(d < 10, 48 + d, 87 + d)))
        return SymStr.of(out)

    def format(self, *a, **k):
        raise AttributeError('format')


def zc(c):
    return z3.IntVal(c) if type(c) is int else c


def mkq(e):
    """normalise bool | z3 | SymBool for dec()"""
    if isinstance(e, bool):
        return e
    if isinstance(e, SymBool):
        return e.e
    return mkz(e)


def mkb(e):
    if isinstance(e, bool):
        return e
    return mkbool(e)


def _low(c):
    if type(c) is int:
        s = chr(c).lower()
        return ord(s) if len(s) == 1 else c
    return chz(z3.If(z3.And(c >= 65, c <= 90), c + 32, c))


def _up(c):
    if type(c) is int:
        s = chr(c).upper()
        return ord(s) if len(s) == 1 else c
    return chz(z3.If(z3.And(c >= 97, c <= 122), c - 32, c))


def _ix(i):
    if isinstance(i, (SymInt, SymBool)):
        return i.__index__()
    return i


# ------------------------------------------------------------ conversions

def int_to_codes(v, mind=1):
    """decimal digits of a SymInt (forks on sign and number of digits)"""
    en = E()
    e = v.e
    neg = False
    if dec(mkq(e < 0)):
        neg = True
        e = z3.simplify(-e)
    n = 1
    while not dec(mkq(e < 10 ** n)):
        n += 1
        if n > 20:
            raise RuntimeError('int too wide')
    key = ('digits', z3.simplify(e).get_id(), n)
    ds = en.memo.get(key)
    if ds is None:
        if n == 1:
            ds = [chz(e + 48)]
        else:
            stem = en.fresh('dig')
            vs = [z3.Int('%s_%d' % (stem, i)) for i in range(n)]
            cons = [z3.And(x >= 0, x <= 9) for x in vs]
            en.add(z3.And(*cons, e == z3.Sum(*[vs[i] * 10 ** (n - 1 - i) for i in range(n)])))
            ds = [x + 48 for x in vs]
        en.memo[key] = ds
        en.memo[('keep', key)] = e
    ds = list(ds)
    while len(ds) < mind:
        ds.insert(0, 48)
    return ([45] if neg else []) + ds


def int_to_str(v):
    return SymStr.of(int_to_codes(v))


def str_to_int(s, base=10):
    """int(str) for symbolic strings; forks on syntactic validity"""
    if base != 10:
        if base in (16, 0):
            return _hex_to_int(s, base)
        return int(concretise(s, 'int(base)'), base)
    bad = lambda: ValueError("invalid literal for int() with base 10: %r" % (s,))
    t = s.strip()
    if not isinstance(t, SymStr):
        return int(t)
    cs = t.c
    neg = False
    if dec(mkq(cin(cs[0], (43, 45)))):
        neg = dec(mkq(ceq(cs[0], 45)))
        cs = cs[1:]
    if not cs:
        raise bad()
    if dec(mkq(And(*[mkq(cdig(c)) for c in cs]))):
        digs = cs
    else:
        digs = []
        prevd = False
        for i, c in enumerate(cs):
            if dec(mkq(cdig(c))):
                digs.append(c)
                prevd = True
            elif prevd and i < len(cs) - 1 and dec(mkq(ceq(c, 95))):
                prevd = False
            else:
                raise bad()
        if not prevd:
            raise bad()
    n = len(digs)
    v = mkint(z3.Sum(*[(zc(c) - 48) * 10 ** (n - 1 - i) for i, c in enumerate(digs)])
              if n > 1 else zc(digs[0]) - 48)
    return -v if neg else v


def _hex_to_int(s, base):
    t = s.strip()
    if not isinstance(t, SymStr):
        return int(t, base)
    cs = t.c
    if base == 0:
        return int(concretise(s, 'int(base 0)'), 0)
    neg = False
    if dec(mkq(cin(cs[0], (43, 45)))):
        neg = dec(mkq(ceq(cs[0], 45)))
        cs = cs[1:]
    if len(cs) > 2 and dec(mkq(And(mkq(ceq(cs[0], 48)), mkq(cin(cs[1], (88, 120)))))):
        cs = cs[2:]
    if not cs:
        raise ValueError('invalid literal for int() with base 16')
    v = 0
    for c in cs:
        if dec(mkq(cdig(c))):
            d = zc(c) - 48
        elif dec(mkq(cin(c, tuple(range(97, 103))))):
            d = zc(c) - 87
        elif dec(mkq(cin(c, tuple(range(65, 71))))):
            d = zc(c) - 55
        elif dec(mkq(ceq(c, 95))):
            return int(concretise(s, 'int(_)'), base)
        else:
            raise ValueError('invalid literal for int() with base 16')
        v = mkint(z(v) * 16 + d)
    return -v if neg else v


def str_to_float(s):
    t = s.strip()
    if not isinstance(t, SymStr):
        return float(t)
    cs = t.c
    bad = lambda: ValueError('could not convert string to float: %r' % (s,))
    neg = False
    if cs and dec(mkq(cin(cs[0], (43, 45)))):
        neg = dec(mkq(ceq(cs[0], 45)))
        cs = cs[1:]
    ip, fp, dot = [], [], False
    for c in cs:
        if dec(mkq(cdig(c))):
            (fp if dot else ip).append(c)
        elif not dot and dec(mkq(ceq(c, 46))):
            dot = True
        elif not dec(mkq(cin(c, tuple(sorted(map(ord, 'eE_infatyINFATY+-')))))):
            raise bad()
        else:
            # exponents, inf, nan, underscores: decided on a concrete value
            return float(concretise(s, 'float(str)'))
    if not ip and not fp:
        raise bad()
    tot = z3.RealVal(0)
    for i, c in enumerate(ip):
        tot = tot + z3.ToReal(zc(c) - 48) * 10 ** (len(ip) - 1 - i)
    for i, c in enumerate(fp):
        tot = tot + z3.ToReal(zc(c) - 48) / (10 ** (i + 1))
    r = mkreal(tot)
    return -r if neg else r


def real_to_codes(v, prec):
    """'%.<prec>f'"""
    m = 10 ** prec
    if dec(mkq(v.e < 0)):
        return [45] + real_to_codes(-v, prec) if isinstance(-v, SymReal) else codes_of('%.*f' % (prec, -v))
    n = round(v * m)
    if not isinstance(n, SymInt):
        n = int(n)
        s = str(n).rjust(prec + 1, '0')
        return codes_of(s[:-prec] + '.' + s[-prec:]) if prec else codes_of(s)
    cs = int_to_codes(n, prec + 1)
    return cs[:-prec] + [46] + cs[-prec:] if prec else cs


def is_sym(x):
    return isinstance(x, Sym)
