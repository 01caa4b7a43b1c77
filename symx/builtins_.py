"""Runtime helpers the instrumented code calls instead of native operations."""
import builtins
import functools
import hashlib
import re as _re
import z3
from .core import Engine, SxControl
from .values import (Sym, SymBool, SymInt, SymReal, SymStr, SymBytes, concretise, codes_of, dec, mkq,
                     int_to_str, int_to_codes, str_to_int, str_to_float, real_to_codes, mkint, mkbool, z,
                     And, Or, Not, is_sym, mkreal, chz, zc, remember, recall)

_str = str
_bytes = bytes
_isinstance = isinstance
_type = type
_len = len
_getattr = getattr

SYM2PY = {SymStr: str, SymBytes: bytes, SymInt: int, SymReal: float, SymBool: bool}


def sx_isinstance(o, cls):
    t = SYM2PY.get(_type(o))
    if t is None:
        return _isinstance(o, cls)
    if _isinstance(cls, tuple):
        for c in cls:
            if sx_isinstance(o, c):
                return True
        return False
    return issubclass(t, cls)


def sx_type(*a):
    if len(a) == 1:
        return SYM2PY.get(_type(a[0])) or _type(a[0])
    return _type(*a)


def to_str(x):
    """str(x) keeping symbols"""
    t = _type(x)
    if t is str:
        return x
    if t is SymStr:
        return x
    if issubclass(t, SymStr) and SYM2PY.get(t) not in (bytes,):
        return SymStr(list(x.c))      # instance of a subclass of str
    if t is SymInt:
        return int_to_str(x)
    if t is SymReal:
        return str(concretise(x, 'str(real)'))
    if t is SymBool:
        return 'True' if x else 'False'
    if t in (int, float, bool, type(None), bytes):
        return str(x)
    if t in (list, tuple, dict, set) or issubclass(t, BaseException):
        if issubclass(t, BaseException):
            if t.__str__ is not BaseException.__str__ and t.__str__ is not Exception.__str__ \
                    and not hasattr(t.__str__, '__objclass__'):
                return t.__str__(x)
            if len(x.args) == 0:
                return ''
            if issubclass(t, KeyError):
                return to_repr(x.args[0] if len(x.args) == 1 else x.args)
            if issubclass(t, (OSError, UnicodeError, SyntaxError)):
                return str(x)
            return to_str(x.args[0]) if len(x.args) == 1 else to_repr(x.args)
        return to_repr(x)
    f = t.__str__
    if f is object.__str__:
        return to_repr(x)
    return f(x)   # may legitimately return a SymStr


def to_repr(x):
    t = _type(x)
    if t is SymStr:
        return SymStr.of([39] + x.c + [39])     # quotes/escapes not modelled
    if t in (SymInt, SymReal, SymBool):
        return to_str(x)
    if t is list:
        return SymStr.of(codes_of('[') + _jn(x) + codes_of(']'))
    if t is tuple:
        return SymStr.of(codes_of('(') + _jn(x) + codes_of(',)' if len(x) == 1 else ')'))
    if t is dict:
        out = codes_of('{')
        for i, (k, v) in enumerate(x.items()):
            out += (codes_of(', ') if i else []) + codes_of(to_repr(k)) + codes_of(': ') + codes_of(to_repr(v))
        return SymStr.of(out + codes_of('}'))
    if has_sym_attr_repr(t):
        return t.__repr__(x)
    return repr(x)


def has_sym_attr_repr(t):
    f = t.__repr__
    return hasattr(f, '__code__')


def _jn(x):
    out = []
    for i, e in enumerate(x):
        if i:
            out += codes_of(', ')
        out += codes_of(to_repr(e))
    return out


def contains_sym(x, depth=3):
    if _isinstance(x, Sym):
        return True
    if depth and _type(x) in (tuple, list):
        for e in x:
            if contains_sym(e, depth - 1):
                return True
    return False


# -------------------------------------------------------------- formatting
_pct = _re.compile(r'%(?:\((\w+)\))?([#0\- +]*)(\*|\d+)?(?:\.(\*|\d+))?[hlL]?([diouxXeEfFgGcrsa%])')


def str_mod(fmt, args):
    if _isinstance(fmt, SymStr):
        fmt = concretise(fmt, '%-format')
    if _isinstance(fmt, bytes):
        return fmt % args
    seq = args if _type(args) is tuple else (args,)
    out = []
    pos = ai = 0
    n_used = 0
    for m in _pct.finditer(fmt):
        out += codes_of(fmt[pos:m.start()])
        pos = m.end()
        name, flags, width, prec, conv = m.groups()
        if conv == '%':
            out.append(37)
            continue
        if name is not None:
            v = args[name]
        else:
            if width == '*':
                width = seq[ai]
                ai += 1
            if prec == '*':
                prec = seq[ai]
                ai += 1
            if ai >= len(seq):
                raise TypeError('not enough arguments for format string')
            v = seq[ai]
            ai += 1
        width = int(width) if width is not None else 0
        out += _fmt1(v, conv, flags, width, None if prec is None else int(prec))
    rest = fmt[pos:]
    if '%' in rest:
        return fmt % args
    out += codes_of(rest)
    if ai < len(seq) and not _isinstance(args, dict):
        raise TypeError('not all arguments converted during string formatting')
    return SymStr.of(out)


def _fmt1(v, conv, flags, width, prec):
    if conv in 'sa':
        cs = codes_of(to_str(v))
        if prec is not None:
            cs = cs[:prec]
    elif conv == 'r':
        cs = codes_of(to_repr(v))
    elif conv in 'diu':
        if _isinstance(v, SymReal):
            v = v.sx_toint()
        if _isinstance(v, SymBool):
            v = int(v)
        if _isinstance(v, SymInt):
            cs = int_to_codes(v, prec or 1)
        elif _isinstance(v, SymStr):
            raise TypeError('%d format: a real number is required, not str')
        else:
            cs = codes_of(('%' + ('.%d' % prec if prec is not None else '') + 'd') % v)
    elif conv in 'fF':
        if _isinstance(v, SymInt):
            v = v * 1.0
        if _isinstance(v, SymReal):
            cs = real_to_codes(v, 6 if prec is None else prec)
        else:
            cs = codes_of('%.*f' % (6 if prec is None else prec, v))
    elif conv == 'c' and _isinstance(v, (SymStr, SymInt)):
        cs = codes_of(v) if _isinstance(v, SymStr) else [v.e]
    elif conv in 'xX' and _isinstance(v, SymInt):
        cs = _hex_codes(v, conv)
        while prec is not None and len(cs) < prec:
            cs.insert(0, 48)
    else:
        if _isinstance(v, Sym):
            v = concretise(v, '%' + conv)
        spec = '%' + flags + (str(width) if width else '') + \
            ('.%d' % prec if prec is not None else '') + conv
        return codes_of(spec % v)
    if '+' in flags and conv in 'dif' and not (cs and cs[0] == 45):
        cs = [43] + cs
    if len(cs) < width:
        pad = width - len(cs)
        if '-' in flags:
            cs = cs + [32] * pad
        elif '0' in flags and conv not in 'sr':
            if cs and cs[0] in (43, 45):
                cs = cs[:1] + [48] * pad + cs[1:]
            else:
                cs = [48] * pad + cs
        else:
            cs = [32] * pad + cs
    return cs


def _hex_codes(v, conv):
    base = 87 if conv == 'x' else 55
    if dec(mkq(v.e < 0)):
        v = -v
        return [45] + (_hex_codes(v, conv) if isinstance(v, SymInt) else codes_of(format(v, conv)))
    n = 1
    while not dec(mkq(v.e < 16 ** n)):
        n += 1
    out = []
    for i in range(n - 1, -1, -1):
        d = (v.e / 16 ** i) % 16 if i else v.e % 16
        out.append(chz(z3.If(d < 10, 48 + d, base + d)))
    return out


def sx_mod(a, b):
    t = _type(a)
    if t is str:
        if contains_any(b):
            return str_mod(a, b)
        return a % b
    return a % b


def contains_any(b):
    """conservative: objects with Python-level __str__ may yield symbols"""
    if _type(b) is tuple:
        for x in b:
            if contains_any(x):
                return True
        return False
    if _isinstance(b, Sym):
        return True
    return _type(b) not in (str, int, float, bool, type(None), bytes)


def sx_fstr(*parts):
    out = []
    for p in parts:
        out += codes_of(p)
    return SymStr.of(out)


def sx_fmtval(v, conv, spec):
    if conv == 114:
        v = to_repr(v)
    elif conv == 115:
        v = to_str(v)
    elif conv == 97:
        v = ascii(v)
    return sx_format(v, spec)


def sx_format(v, spec=''):
    if _isinstance(spec, SymStr):
        spec = str(spec)
    if not spec:
        if _isinstance(v, Sym) or _type(v).__format__ is object.__format__:
            return to_str(v)
        return format(v, spec)
    if _isinstance(v, Sym):
        m = _re.fullmatch(r'(0?)(\d*)(?:\.(\d+))?([dfsxX]?)', spec)
        if m:
            zf, w, p, c = m.groups()
            if not c:
                c = 's' if _isinstance(v, SymStr) else 'd' if _isinstance(v, SymInt) else 'f'
            if not (c == 'f' and p is None and not m.group(4)):
                cs = _fmt1(v, c, '0' if zf else ('-' if c == 's' else ''), int(w or 0), int(p) if p else None)
                return SymStr.of(cs)
        return format(concretise(v, 'format'), spec)
    return format(v, spec)


def sx_strformat(fmt, args, kw):
    """'...'.format(): simple fields only, else native"""
    if not contains_any(tuple(args) + tuple(kw.values())):
        return fmt.format(*args, **kw)
    import string
    out = []
    auto = 0
    for lit, field, spec, conv in string.Formatter().parse(fmt):
        out += codes_of(lit)
        if field is None:
            continue
        if field == '':
            field = str(auto)
            auto += 1
        m = _re.match(r'(\w+)(.*)', field)
        first, rest = m.groups()
        v = args[int(first)] if first.isdigit() else kw[first]
        for a, i in _re.findall(r'\.(\w+)|\[(\w+)\]', rest):
            v = _getattr(v, a) if a else v[int(i) if i.isdigit() else i]
        out += codes_of(sx_fmtval(v, {None: -1, 'r': 114, 's': 115, 'a': 97}[conv], spec))
    return SymStr.of(out)


# ---------------------------------------------------------- dicts and sets

def _keysym(k):
    t = _type(k)
    if t is str or t is int:
        return False
    if _isinstance(k, Sym):
        return True
    if t is tuple:
        for x in k:
            if _keysym(x):
                return True
    return False


_symdicts = None


def _markkey(k):
    if _isinstance(k, (SymStr, SymInt)):
        k.sx_mark_key()
        return k
    if _isinstance(k, (SymReal, SymBool)):
        return k.__index__() if not _isinstance(k, SymReal) else concretise(k, 'key')
    if _type(k) is tuple:
        return tuple(_markkey(x) for x in k)
    return k


def sx_eq(a, b):
    """equality that is symbolic through tuples/lists; returns bool|SymBool"""
    ta, tb = _type(a), _type(b)
    if ta is tb and ta in (tuple, list):
        if _len(a) != _len(b):
            return False
        return mkb_and([sx_eq(x, y) for x, y in zip(a, b)])
    return a == b


def mkb_and(xs):
    r = And(*[x if _isinstance(x, (bool, SymBool)) else bool(x) for x in xs])
    return r if _isinstance(r, bool) else mkbool(r)


def canon(d, k):
    """The key object of d equal to k, or k itself."""
    if not _keysym(k):
        # concrete key: an equal symbolic key may be present
        try:
            if k in d:
                return k
        except TypeError:
            return k
        for kk in d:
            if _type(kk) not in (str, int) and _keysym(kk):
                if sx_eq(kk, k):
                    return kk
        return k
    for kk in list(d):
        if kk is k:
            return kk
    for kk in list(d):
        if sx_eq(kk, k):
            return kk
    return _markkey(k)


class DW(object):
    """dict wrapper used for subscript expressions"""
    __slots__ = ('d',)

    def __init__(self, d):
        self.d = d

    def __getitem__(self, k):
        k = canon(self.d, k)
        if _isinstance(k, Sym):
            k2 = _markkey(k)
            for kk in self.d:
                if kk is k2:
                    return self.d[kk]
            raise KeyError(k2)
        return self.d[k]

    def __setitem__(self, k, v):
        self.d[_markkey(canon(self.d, k))] = v

    def __delitem__(self, k):
        del self.d[canon(self.d, k)]


def w(d):
    """wrap the base of a subscript expression"""
    if _type(d) is dict:
        return DW(d)
    return d


_MISS = object()


def _dict_call(d, name, args, kw):
    if name in ('get', 'pop', 'setdefault') and args:
        k = canon(d, args[0])
        if _isinstance(k, (SymInt, SymReal, SymBool)) and not any(kk is k for kk in d):
            if name == 'setdefault':
                k = _markkey(k)
            else:
                if name == 'pop' and _len(args) < 2:
                    raise KeyError(k)
                return args[1] if _len(args) > 1 else kw.get('default')
        return _getattr(d, name)(k, *args[1:], **kw)
    if name == 'update':
        if args:
            src = args[0]
            items = src.items() if hasattr(src, 'items') else src
            for k, v in items:
                d[_markkey(canon(d, k))] = v
        for k, v in kw.items():
            d[k] = v
        return None
    return _getattr(d, name)(*args, **kw)


def _set_call(s, name, args, kw):
    if name in ('add', 'remove', 'discard') and args:
        k = canon(s, args[0])
        return _getattr(s, name)(_markkey(k))
    return _getattr(s, name)(*args, **kw)


def mkdict(*a, **kw):
    if not a:
        return dict(**kw)
    src = a[0]
    d = {}
    items = list(src.items()) if hasattr(src, 'keys') else list(src)
    for it in items:
        k, v = it
        d[_markkey(canon(d, k))] = v
    d.update(kw)
    return d


def mkset(cls, it=()):
    it = list(it)
    if not any(_keysym(x) for x in it):
        return cls(it)
    out = []
    tmp = set()
    for x in it:
        k = canon(tmp, x)
        tmp.add(_markkey(k))
    return cls(tmp) if cls is not set else tmp


def sx_in(a, b):
    t = _type(b)
    if t is str:
        if _isinstance(a, SymStr):
            return SymStr(codes_of(b)).__contains__(a)
        return a in b
    if t in (dict, set, frozenset):
        k = canon(b, a)
        if _isinstance(k, Sym) and not _isinstance(k, SymStr):
            return any(kk is k for kk in b)
        return k in b
    if t in (_DKEYS, ):
        return any(sx_eq(a, x) for x in b)
    if t in (list, tuple):
        if _isinstance(a, SymStr) and len(b) > 1 and all(_type(x) is str and len(x) == 1 for x in b):
            # a set of characters: one decision instead of one per character
            rs = [sx_eq(x, a) for x in b]
            if any(r is True for r in rs):
                return True
            rs = [r.e for r in rs if _isinstance(r, SymBool)]
            return mkbool(z3.Or(*rs)) if rs else False
        if _isinstance(a, Sym) or contains_sym(a) or True:
            for x in b:
                if x is a:
                    return True
                r = sx_eq(x, a)
                if r:
                    return True
            return False
    return a in b


_DKEYS = _type({}.keys())


def sx_notin(a, b):
    return not sx_in(a, b)


# -------------------------------------------------------------- hashing
class SymHash(object):
    """collision-free uninterpreted hash of possibly symbolic bytes"""

    def __init__(self, name, f, data=b''):
        self.sxname = name
        self.f = f
        self.data = data

    def update(self, d):
        self.data = self.data + d

    def copy(self):
        return SymHash(self.sxname, self.f, self.data)

    def _val(self):
        en = Engine.cur
        d = self.data
        if en is None:
            return self.f(d).digest()
        for name, prev, val in en.hash_log:
            if name != self.sxname:
                continue
            if prev is d:
                return val
            if _type(prev) is bytes and _type(d) is bytes:
                if prev == d:
                    return val
                continue
            if prev == d:
                return val
        if _isinstance(d, SymBytes):
            # distinct from every earlier input: a fresh distinct digest
            val = self.f(b'sx-fresh-%d-%d' % (len(en.hash_log), len(d))).digest()
        else:
            val = self.f(d).digest()
        en.hash_log.append((self.sxname, d, val))
        return val

    def digest(self):
        return self._val()

    def hexdigest(self):
        return self._val().hex()


def _mk_hash(name, f):
    def h(data=b'', **kw):
        return SymHash(name, f, data)
    return h


HASHES = {}
for _n in ('md5', 'sha1', 'sha224', 'sha256', 'sha384', 'sha512'):
    HASHES[_getattr(hashlib, _n)] = _mk_hash(_n, _getattr(hashlib, _n))
_sha512_256 = lambda d=b'': hashlib.new('sha512_256', d)


def sx_hashnew(name, data=b'', **kw):
    return SymHash(name, lambda d: hashlib.new(name, d), data)


HASHES[hashlib.new] = sx_hashnew


# ---------------------------------------------------- patched builtins
def sx_int(*a, **kw):
    if a:
        x = a[0]
        if _isinstance(x, SymStr):
            if x.BYTES:
                x = x.decode()
            if not _isinstance(x, SymStr):
                return int(x, *a[1:], **kw)
            return str_to_int(x, *(a[1:] or ((kw['base'],) if 'base' in kw else ())))
        if _isinstance(x, SymInt):
            return x
        if _isinstance(x, SymReal):
            return x.sx_toint()
        if _isinstance(x, SymBool):
            return x._i()
    return int(*a, **kw)


def sx_float(*a):
    if a:
        x = a[0]
        if _isinstance(x, SymStr):
            return str_to_float(x)
        if _isinstance(x, SymReal):
            return x
        if _isinstance(x, SymInt):
            return mkreal(z3.ToReal(x.e))
    return float(*a)


def sx_str(*a, **kw):
    if len(a) == 1 and not kw:
        return to_str(a[0])
    if a and _isinstance(a[0], SymBytes):
        return a[0].decode(*a[1:], **kw)
    return str(*a, **kw)


def sx_bytes(*a, **kw):
    if a and _isinstance(a[0], SymStr):
        return a[0] if a[0].BYTES else a[0].encode(*a[1:], **kw)
    if a and _type(a[0]) in (list, tuple) and contains_sym(a[0]):
        return SymBytes.of([x.e if _isinstance(x, SymInt) else x for x in a[0]])
    return bytes(*a, **kw)


def sx_bool(*a):
    if a and _isinstance(a[0], Sym):
        return bool(a[0])
    return bool(*a)


def sx_ord(x):
    if _isinstance(x, SymStr):
        if len(x.c) != 1:
            raise TypeError('ord() expected a character')
        return SymInt(x.c[0])
    return ord(x)


def sx_chr(x):
    if _isinstance(x, SymInt):
        return SymStr([x.e])
    return chr(x)


def _mm(isless):
    def f(*a, **kw):
        key = kw.pop('key', None)
        if len(a) == 1:
            seq = list(a[0])
            if not seq:
                if 'default' in kw:
                    return kw['default']
                raise ValueError('min()/max() arg is an empty sequence')
        else:
            seq = list(a)
        if key is None and all(_type(x) in (int, SymInt) for x in seq) and any(
                _type(x) is SymInt for x in seq):
            e = z(seq[0])
            for x in seq[1:]:
                xe = z(x)
                e = z3.If(xe < e, xe, e) if isless else z3.If(xe > e, xe, e)
            return mkint(e)
        best = seq[0]
        bk = key(best) if key else best
        for x in seq[1:]:
            xk = key(x) if key else x
            if (xk < bk) if isless else (xk > bk):
                best, bk = x, xk
        return best
    return f


sx_min = _mm(True)
sx_max = _mm(False)


def sx_sum(it, start=0):
    r = start
    for x in it:
        r = r + x
    return r


def sx_any(it):
    for x in it:
        if x:
            return True
    return False


def sx_all(it):
    for x in it:
        if not x:
            return False
    return True


def sx_round(x, *a):
    if _isinstance(x, Sym):
        return x.__round__(*a)
    return round(x, *a)


def sx_abs(x):
    return abs(x)


def sx_repr(x):
    return to_repr(x)


def sx_hash(x):
    return hash(x)


def sx_print(*a, **kw):
    en = Engine.cur
    if en is None:
        return print(*a, **kw)


def sx_divmod(a, b):
    return (a // b, a % b)


def sx_list_extend(*a):
    pass


PATCH = {
    isinstance: sx_isinstance, type: sx_type, int: sx_int, float: sx_float, str: sx_str,
    bytes: sx_bytes, bool: sx_bool, ord: sx_ord, chr: sx_chr, min: sx_min, max: sx_max,
    sum: sx_sum, any: sx_any, all: sx_all, round: sx_round, repr: sx_repr, print: sx_print,
    dict: mkdict, divmod: sx_divmod, format: sx_format,
    set: lambda *a: mkset(set, *a), frozenset: lambda *a: mkset(frozenset, *a),
}
PATCH.update(HASHES)
EXTRA = {}        # harness supplied models: callable -> replacement


def call(f, *args, **kw):
    try:
        p = PATCH.get(f)
    except TypeError:
        p = None
    if p is not None:
        return p(*args, **kw)
    return f(*args, **kw)


_SM = frozenset(x for x in dir(SymStr) if not x.startswith('_') and not x.startswith('sx')) | {'decode', 'hex'}
_NOARG = frozenset(('lower', 'upper', 'isdigit', 'isalpha', 'title', 'capitalize', 'encode', 'items',
                    'keys', 'values', 'copy', 'clear', 'splitlines', 'decode'))


def callm(obj, name, /, *args, **kw):
    t = _type(obj)
    if t is str or t is bytes:
        if name in _NOARG or name not in _SM:
            return _getattr(obj, name)(*args, **kw)
        if name == 'join':
            seq = list(args[0])
            for x in seq:
                if _type(x) not in (str, bytes):
                    if _isinstance(x, SymStr):
                        return (SymStr if t is str else SymBytes)(codes_of(obj)).join(seq)
                    break
            return obj.join(seq)
        if name == 'format':
            return sx_strformat(obj, args, kw)
        for x in args:
            if _isinstance(x, SymStr) or (_type(x) is tuple and contains_sym(x)):
                return _getattr((SymStr if t is str else SymBytes)(codes_of(obj)), name)(*args, **kw)
        return _getattr(obj, name)(*args, **kw)
    if t is dict:
        return _dict_call(obj, name, args, kw)
    if t is set:
        return _set_call(obj, name, args, kw)
    if t is list and name in ('index', 'count', 'remove') and args and (contains_sym(args[0])):
        return _list_call(obj, name, args)
    if t is int and name == 'from_bytes':
        pass
    f = _getattr(obj, name)
    if f is int.from_bytes or (obj is int and name == 'from_bytes'):
        return sx_from_bytes(*args, **kw)
    try:
        p = PATCH.get(f) or EXTRA.get(f)
    except TypeError:
        p = None
    if p is not None:
        return p(*args, **kw)
    return f(*args, **kw)


def _list_call(lst, name, args):
    x = args[0]
    if name == 'count':
        return sum(1 for e in lst if sx_eq(e, x))
    for i, e in enumerate(lst):
        if e is x or sx_eq(e, x):
            if name == 'index':
                return i
            del lst[i]
            return None
    raise ValueError('not in list')


def sx_from_bytes(data, byteorder='big', signed=False):
    if not _isinstance(data, SymBytes):
        return int.from_bytes(data, byteorder, signed=signed)
    cs = list(data.c)
    src = recall('tobytes', cs)
    if src is not None and src[0] == byteorder and not signed:
        return src[1]
    if byteorder == 'big':
        cs.reverse()
    v = mkint(z3.Sum(*[zc(c) * (1 << (8 * i)) for i, c in enumerate(cs)], z3.IntVal(0)))
    return v


def sx_ident(x):
    return x


HELPERS = {
    '_sx_call': call, '_sx_callm': callm, '_sx_w': w, '_sx_in': sx_in, '_sx_notin': sx_notin,
    '_sx_mod': sx_mod, '_sx_fstr': sx_fstr, '_sx_fmtval': sx_fmtval, '_sx_Control': SxControl,
    '_sx_mkdict': mkdict, '_sx_set': lambda it: mkset(set, it),
}


# -------------------------------------------------- further library models
import types as _types
import urllib.parse as _up

_ALWAYS_SAFE = frozenset(b'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789_.-~')


def sx_quote(s, safe='/', encoding=None, errors=None):
    if not _isinstance(s, SymStr):
        return _up.quote(s, safe, encoding, errors)
    keep = tuple(sorted(_ALWAYS_SAFE | frozenset(safe.encode('ascii', 'ignore') if _isinstance(safe, str) else safe)))
    out = []
    for c in codes_of(s if s.BYTES else s.encode()):
        if _type(c) is int:
            out += codes_of(_up.quote(bytes([c]), safe))
        elif dec(mkq(_cin(c, keep))):
            out.append(c)
        else:
            out.append(37)
            for d in (c / 16, c % 16):
                out.append(chz(z3.If(d < 10, 48 + d, 55 + d)))
    return SymStr.of(out)


def _cin(c, codes):
    from .values import cin
    return cin(c, codes)


_HEXC = tuple(range(48, 58)) + tuple(range(65, 71)) + tuple(range(97, 103))


def _hexval(c):
    if _type(c) is int:
        return int(chr(c), 16)
    return z3.If(c < 58, c - 48, z3.If(c < 71, c - 55, c - 87))


def sx_unquote(s, encoding='utf-8', errors='replace'):
    if not _isinstance(s, SymStr):
        return _up.unquote(s, encoding, errors)
    from .values import ceq
    if s.BYTES:
        s = s.decode()
    cs = codes_of(s)
    out = []
    i = 0
    while i < len(cs):
        c = cs[i]
        if i + 2 < len(cs) and dec(mkq(ceq(c, 37))) and dec(mkq(_cin(cs[i + 1], _HEXC))) \
                and dec(mkq(_cin(cs[i + 2], _HEXC))):
            v = mkint(zc(_hexval(cs[i + 1])) * 16 + zc(_hexval(cs[i + 2])))
            if dec(mkq(z(v) < 128)):
                out.append(v if _type(v) is int else v.e)
                i += 3
                continue
            return _up.unquote(str(concretise(s, 'unquote-utf8')), encoding, errors)
        out.append(c)
        i += 1
    return SymStr.of(out)


def _wrapf(f):
    try:
        p = PATCH.get(f)
    except TypeError:
        p = None
    return p or f


def sx_map(f, *its):
    return map(_wrapf(f), *its)


def sx_filter(f, it):
    return filter(_wrapf(f) if f is not None else None, it)


def sx_sorted(it, **kw):
    if kw.get('key') is not None:
        kw['key'] = _wrapf(kw['key'])
    return sorted(it, **kw)


def sx_partial(f, *a, **kw):
    return functools.partial(_wrapf(f), *a, **kw)


def sx_reduce(f, *a):
    return functools.reduce(_wrapf(f), *a)


def _attrfn(f):
    def wrapped(obj, name, /, *args):
        if _isinstance(name, SymStr):
            # the names the object has, one path for each that is possible
            for n in dir(obj):
                if name == n:
                    name = n
                    break
            else:
                name = concretise(name, 'attribute name')
        return f(obj, name, *args)
    return wrapped


for _f in (getattr, setattr, hasattr):
    PATCH[_f] = _attrfn(_f)
PATCH.update({_up.quote: sx_quote, _up.unquote: sx_unquote, map: sx_map, filter: sx_filter,
              sorted: sx_sorted, functools.partial: sx_partial, functools.reduce: sx_reduce})


def _unbound(name):
    return lambda s, *a, **k: callm(s, name, *a, **k)


for _n in _SM:
    if hasattr(str, _n):
        PATCH[_getattr(str, _n)] = _unbound(_n)

def _to_bytes(v, length=1, byteorder='big', **kw):
    return v.to_bytes(length, byteorder, **kw)


PATCH[int.to_bytes] = _to_bytes
PATCH[int.from_bytes] = sx_from_bytes

_CTYPES = (_types.BuiltinFunctionType, _types.MethodDescriptorType, _types.WrapperDescriptorType,
           _types.MethodWrapperType)


def _conc_args(args, kw, why):
    n = 0

    def one(x, depth=2):
        nonlocal n
        if _isinstance(x, Sym):
            n += 1
            return concretise(x, why)
        if depth and _type(x) in (list, tuple):
            return _type(x)(one(e, depth - 1) for e in x)
        return x
    a = [one(x) for x in args]
    k = {i: one(x) for i, x in kw.items()}
    return n, a, k


_strsub = {}


def _str_subclass(f, x):
    """instance of a class derived from str with symbolic text"""
    d = _strsub.get(f)
    if d is None:
        ns = {}
        for c in reversed(f.__mro__[:f.__mro__.index(str)]):
            ns.update({k: v for k, v in c.__dict__.items() if k not in ('__dict__', '__weakref__', '__slots__')})
        ns['_mk'] = lambda self, c: SymStr.of(c)
        ns['__hash__'] = SymStr.__hash__
        d = _strsub[f] = _type(f.__name__, (SymStr,), ns)
        SYM2PY[d] = f
    return d(list(x.c))


def _native(f, args, kw):
    """call f; C code rejecting a symbolic argument gets concrete ones"""
    if _type(f) is type and str in f.__mro__ and f is not str and len(args) == 1 and not kw and _isinstance(args[0], SymStr) \
            and f.__new__ is str.__new__ and f.__init__ is str.__init__:
        return _str_subclass(f, args[0])
    try:
        return f(*args, **kw)
    except TypeError:
        if not (_isinstance(f, _CTYPES) or (_isinstance(f, type) and f.__module__ not in ('',)
                                            and not hasattr(f.__init__, '__code__'))):
            raise
        if _isinstance(_getattr(f, '__self__', None), (list, dict, set)):
            raise
        n, a, k = _conc_args(args, kw, 'C:' + _getattr(f, '__name__', '?'))
        if n == 0:
            raise
        return f(*a, **k)


def call(f, *args, **kw):
    try:
        p = PATCH.get(f) or EXTRA.get(f)
    except TypeError:
        p = None
    if p is not None:
        return p(*args, **kw)
    if _isinstance(f, _types.FunctionType) or _isinstance(f, _types.MethodType):
        if f.__module__ in ('re',):
            n, args, kw = _conc_args(args, kw, 're')
        return f(*args, **kw)
    return _native(f, args, kw)


HELPERS['_sx_call'] = call
_callm0 = callm


def callm(obj, name, /, *args, **kw):
    t = _type(obj)
    if t in (str, bytes, dict, set, list):
        return _callm0(obj, name, *args, **kw)
    f = _getattr(obj, name)
    try:
        p = PATCH.get(f) or EXTRA.get(f)
    except TypeError:
        p = None
    if p is not None:
        return p(*args, **kw)
    if obj is int and name == 'from_bytes':
        return sx_from_bytes(*args, **kw)
    if t is _re.Pattern or obj is _re:
        n, args, kw = _conc_args(args, kw, 're.' + name)
        return f(*args, **kw)
    if _isinstance(f, _CTYPES):
        return _native(f, args, kw)
    return f(*args, **kw)


HELPERS['_sx_callm'] = callm
