"""Exact models of time.gmtime and time.strftime (proleptic Gregorian calendar, years 1970-2199, UTC)."""
import time
import z3
from .values import SymStr, SymInt, SymReal, mkint, chz, zc, dec, mkz, is_sym, codes_of
from .core import Engine
from .builtins_ import PATCH, sx_int

MON = ['Jan', 'Feb', 'Mar', 'Apr', 'May', 'Jun', 'Jul', 'Aug', 'Sep', 'Oct', 'Nov', 'Dec']
DAY = ['Mon', 'Tue', 'Wed', 'Thu', 'Fri', 'Sat', 'Sun']
_gmtime, _localtime, _strftime = time.gmtime, time.localtime, time.strftime


# first days of the months
FIRST = []
_d = 0
for _y in range(1970, 2200):
    for _m, _l in enumerate((31, 29 if _y % 4 == 0 and (_y % 100 or _y % 400 == 0) else 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31)):
        FIRST.append((_d, _y, _m + 1))
        _d += _l


def only(e):
    """its value when there is just one"""
    if type(e) is int:
        return e
    en = Engine.cur
    v = en.get_model().eval(e, model_completion=True)
    return v.as_long() if en.must(e == v) else e


def divmod_(e, k):
    """(e div k, e mod k) with multiples of k taken out of the sum first"""
    e = z3.simplify(e, som=True)
    out, rest, c = [], [], 0
    for p in (e.children() if z3.is_add(e) else [e]):
        q, x = 1, p
        if z3.is_mul(p) and p.num_args() == 2 and z3.is_int_value(p.arg(0)):
            q, x = p.arg(0).as_long(), p.arg(1)
        if z3.is_int_value(p):
            c += p.as_long()
        elif q % k == 0:
            out.append((q // k) * x)
        else:
            rest.append(p)
    w = z3.Sum(*out, z3.IntVal(c // k))
    if not rest:
        return z3.simplify(w), z3.IntVal(c % k)
    r = z3.Sum(*rest, z3.IntVal(c % k))
    return z3.simplify(w + r / k), z3.simplify(r % k)


class SymTime(object):
    """struct_time with symbolic fields (z3 ints)"""

    def __init__(self, s):
        self.tm_hour, self.tm_min, self.tm_sec = (mkint(x) for x in (
            divmod_(s, 86400)[1] / 3600, divmod_(s, 3600)[1] / 60, divmod_(s, 60)[1]))
        d = only(chz(divmod_(s, 86400)[0]))
        # year and month are decided on, then the day is linear
        lo, hi = 0, len(FIRST) - 1
        while hi - lo > 1:
            mid = (lo + hi) // 2
            if (d >= FIRST[mid][0] if type(d) is int else dec(mkz(d >= FIRST[mid][0]))):
                lo = mid
            else:
                hi = mid
        day0, self.tm_year, self.tm_mon = FIRST[lo]
        self.tm_mday = mkint(d - day0 + 1)
        self.tm_wday = mkint((d + 3) % 7)


def gmtime(t=None):
    if not is_sym(t):
        return _gmtime(t) if t is not None else _gmtime()
    t = sx_int(t.__floor__()) if isinstance(t, SymReal) else t
    if not is_sym(t):
        return _gmtime(t)
    return SymTime(t.e)


def localtime(t=None):
    if is_sym(t):
        if time.timezone or time.daylight:
            t = float(t)
        else:
            return gmtime(t)
    return _localtime(t) if t is not None else _localtime()


def _num(v, n):
    v = v.e if is_sym(v) else z3.IntVal(v)
    return [chz((v / 10 ** (n - 1 - i)) % 10 + 48) for i in range(n)]


def _name(v, names, off):
    if not is_sym(v):
        return codes_of(names[v - off])
    out = []
    for i in range(3):
        e = z3.IntVal(ord(names[-1][i]))
        for k in range(len(names) - 2, -1, -1):
            e = z3.If(v.e == k + off, ord(names[k][i]), e)
        out.append(chz(e))
    return out


def strftime(fmt, t=None):
    if not isinstance(t, SymTime):
        if isinstance(fmt, SymStr):
            fmt = str(fmt)
        return _strftime(fmt, t) if t is not None else _strftime(fmt)
    cs = codes_of(fmt)
    out = []
    i = 0
    while i < len(cs):
        c = cs[i]
        if not (type(c) is int and c == 37):
            out.append(c)
            i += 1
            continue
        k = chr(cs[i + 1])
        i += 2
        if k == '%':
            out.append(37)
        elif k == 'b':
            out += _name(t.tm_mon, MON, 1)
        elif k == 'a':
            out += _name(t.tm_wday, DAY, 0)
        elif k in 'YmdHMS':
            out += _num({'Y': t.tm_year, 'm': t.tm_mon, 'd': t.tm_mday, 'H': t.tm_hour, 'M': t.tm_min,
                         'S': t.tm_sec}[k], 4 if k == 'Y' else 2)
        else:
            raise ValueError('strftime directive %s is not modelled' % k)
    return SymStr.of(out)


def install():
    PATCH[time.gmtime] = gmtime
    PATCH[time.localtime] = localtime
    PATCH[time.strftime] = strftime
