"""Harness API: the same harness runs symbolically and, for replay, concretely."""
import sys
from .core import Engine, SxControl, SxInfeasible, SxStop, SxBudget, SxInconclusive


class Violation(BaseException):
    """concrete mode: a check failed"""


ASCII_PRINT = ''.join(chr(i) for i in range(32, 127))
ALNUM = ''.join(chr(i) for i in range(33, 127) if chr(i).isalnum())
DIGITS = '0123456789'


class SymH(object):
    """symbolic mode context"""
    sym = True

    def __init__(self, engine):
        self.en = engine

    def _decl(self, name, kind, v):
        n = name
        i = 1
        while n in self.en.inputs:
            i += 1
            n = '%s#%d' % (name, i)
        self.en.inputs[n] = (kind, v)
        return v

    def _nm(self, name):
        n = name
        i = 1
        while n in self.en.inputs:
            i += 1
            n = '%s#%d' % (name, i)
        return n

    def int(self, name, lo, hi):
        import z3
        from .values import SymInt
        n = self._nm(name)
        if lo == hi:
            self.en.inputs[n] = ('int', lo)
            return lo
        v = SymInt(z3.Int('i_' + n))
        self.en.inputs[n] = ('int', v)
        self.en.assume(z3.And(v.e >= lo, v.e <= hi))
        return v

    def real(self, name, lo, hi):
        import z3
        from .values import SymReal, rval
        n = self._nm(name)
        v = SymReal(z3.Real('r_' + n))
        self.en.inputs[n] = ('real', v)
        self.en.assume(z3.And(v.e >= rval(float(lo)), v.e <= rval(float(hi))))
        return v

    def time(self, name, lo, hi, res=64):
        """time on a 1/res second grid: exactly representable, so replays are exact"""
        import z3
        from .values import SymReal, SymInt, mkreal
        n = self._nm(name)
        k = z3.Int('t_' + n)
        e = z3.ToReal(k) / res
        v = SymReal(e)
        self.en.inputs[n] = ('real', v)
        self.en.assume(z3.And(k >= int(lo * res), k <= int(hi * res)))
        return v

    def bool(self, name):
        import z3
        from .values import SymBool
        n = self._nm(name)
        v = SymBool(z3.Bool('b_' + n))
        self.en.inputs[n] = ('bool', v)
        return v

    def str(self, name, minlen, maxlen=None, alphabet=ASCII_PRINT, exclude=''):
        """string over alphabet, length minlen..maxlen (forked)"""
        import z3
        from .values import SymStr, cin
        if maxlen is None:
            maxlen = minlen
        n = self._nm(name)
        L = self.choose(name + '.len', list(range(minlen, maxlen + 1))) if maxlen > minlen else minlen
        codes = tuple(sorted(set(ord(c) for c in alphabet) - set(ord(c) for c in exclude)))
        cs = [z3.Int('s_%s_%d' % (n, i)) for i in range(L)]
        if L == 0:
            self.en.inputs[n] = ('str', '')
            return ''
        v = SymStr(cs)
        v.name = n
        self.en.inputs[n] = ('str', v)
        from .values import And
        self.en.assume(And(*[cin(c, codes) for c in cs]))
        return v

    def bytes(self, name, n, lo=0, hi=255):
        """n symbolic octets"""
        import z3
        from .values import SymBytes
        nm = self._nm(name)
        cs = [z3.Int('y_%s_%d' % (nm, i)) for i in range(n)]
        v = SymBytes(cs)
        v.name = nm
        self.en.inputs[nm] = ('bytes', v)
        for c in cs:
            self.en.assume(z3.And(c >= lo, c <= hi))
        return v

    def choose(self, name, options):
        """one of options; a symbolic index decided (forked) here"""
        import z3
        options = list(options)
        n = self._nm(name)
        if len(options) == 1:
            self.en.inputs[n] = ('idx', 0)
            return options[0]
        k = z3.Int('k_' + n)
        self.en.assume(z3.And(k >= 0, k < len(options)))
        for i in range(len(options) - 1):
            if self.en.decide(k == i):
                self.en.inputs[n] = ('idx', i)
                return options[i]
        self.en.inputs[n] = ('idx', len(options) - 1)
        return options[-1]

    def assume(self, c):
        from .values import SymBool
        if isinstance(c, SymBool):
            self.en.assume(c.e)
        elif not c:
            raise SxInfeasible()

    def check(self, c, label, **info):
        import z3
        from .values import SymBool
        en = self.en
        en.stats.checks += 1
        en.stats.labels[label] = en.stats.labels.get(label, 0) + 1
        en.path_log.append(label)
        if isinstance(c, SymBool):
            e = c.e
            if en.pos < len(en.prefix):
                # replaying a prefix: already decided on the path that forked it
                en.add(e)
                return True
            en.stats.checks_solver += 1
            r = en.query(z3.Not(e))
            if r is None:
                raise SxInconclusive('check %s unknown' % label)
            if r:
                self._violate(label, info, en.last_model)
            en.assume(e)
            return True
        if not c:
            if en.pos < len(en.prefix):
                raise SxStop()
            # feasibility of the path is the solver's verdict
            en.stats.checks_solver += 1
            self._violate(label, info, en.get_model())
            raise SxStop()
        return True

    def fail(self, label, **info):
        self.check(False, label, **info)

    def _violate(self, label, info, mdl):
        vals = self.en.input_values(mdl)
        ii = {}
        for k, v in info.items():
            try:
                ii[k] = v.sx_value(mdl) if hasattr(v, 'sx_value') else v
                if isinstance(ii[k], bytes):
                    ii[k] = repr(ii[k])
                elif not isinstance(ii[k], (str, int, float, bool, type(None))):
                    ii[k] = repr(ii[k])
            except SxControl:
                raise
            except Exception:
                ii[k] = '?'
        self.en.violations.append({'label': label, 'inputs': vals, 'info': ii,
                                   'kinds': {k: v[0] for k, v in self.en.inputs.items()}})

    def reach(self, label):
        """vacuity witness: this point is reachable under the assumptions"""
        self.en.stats.reach[label] = self.en.stats.reach.get(label, 0) + 1
        self.en.path_log.append('@' + label)

    def eq(self, a, b):
        from .builtins_ import sx_eq
        return sx_eq(a, b)

    def all(self, *cs):
        from .builtins_ import mkb_and
        return mkb_and(list(cs))

    def any(self, *cs):
        from .values import Or, mkbool
        r = Or(*[c for c in cs])
        return r if isinstance(r, bool) else mkbool(r)

    def implies(self, a, b):
        return self.any(self.neg(a), b)

    def neg(self, a):
        from .values import Not, mkbool
        r = Not(a)
        return r if isinstance(r, bool) else mkbool(r)

    def ite(self, c, a, b):
        import z3
        from .values import SymBool, z, mkint
        if not isinstance(c, SymBool):
            return a if c else b
        return mkint(z3.If(c.e, z(a), z(b)))

    def is_sym(self, x):
        from .values import Sym
        return isinstance(x, Sym)


class ConH(object):
    """concrete replay context"""
    sym = False

    def __init__(self, values):
        self.values = values
        self.used = {}
        self.failed = []
        self.reached = {}
        self.log = []

    def _nm(self, name):
        n = name
        i = 1
        while n in self.used:
            i += 1
            n = '%s#%d' % (name, i)
        self.used[n] = 1
        return n

    def _get(self, name, default):
        n = self._nm(name)
        return self.values.get(n, default)

    def int(self, name, lo, hi):
        return int(self._get(name, lo))

    def real(self, name, lo, hi):
        return float(self._get(name, lo))

    def time(self, name, lo, hi, res=64):
        return float(self._get(name, lo))

    def bool(self, name):
        return bool(self._get(name, False))

    def str(self, name, minlen, maxlen=None, alphabet=ASCII_PRINT, exclude=''):
        n = self._nm(name)
        if maxlen is not None and maxlen > minlen:
            self._nm(name + '.len')
        return self.values.get(n, alphabet[0] * minlen)

    def bytes(self, name, n, lo=0, hi=255):
        v = self._get(name, '')
        b = v.encode('latin-1') if isinstance(v, str) else bytes(v)
        return b.ljust(n, bytes([lo]))

    def choose(self, name, options):
        return list(options)[self._get(name, 0)]

    def assume(self, c):
        if not c:
            raise SxInfeasible()

    def check(self, c, label, **info):
        self.log.append(label)
        if not c:
            self.failed.append((label, {k: repr(v) for k, v in info.items()}))
            raise Violation(label)
        return True

    def fail(self, label, **info):
        self.check(False, label, **info)

    def reach(self, label):
        self.reached[label] = 1
        self.log.append('@' + label)

    def eq(self, a, b):
        return a == b

    def all(self, *cs):
        return all(cs)

    def any(self, *cs):
        return any(cs)

    def implies(self, a, b):
        return (not a) or b

    def neg(self, a):
        return not a

    def ite(self, c, a, b):
        return a if c else b

    def is_sym(self, x):
        return False
