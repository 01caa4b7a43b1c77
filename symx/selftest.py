"""Differential self-test of the symbolic value layer against CPython.

For each operation every path is explored; on each path the solver's model is
turned into concrete inputs and the operation is repeated by CPython.  Both
results (or exceptions) must agree.
"""
import sys
from .core import Engine, SxControl
from . import builtins_ as B
from . import loader
from .api import SymH

ALPHA = 'aZ0 9,;"<=%\r\n\t'
SRC = '''
from urllib.parse import quote, unquote
def op_split(s, t): return s.split(',')
def op_split1(s, t): return s.split(';', 1)
def op_splitws(s, t): return s.split()
def op_splitws1(s, t): return s.split(None, 1)
def op_splitws2(s, t): return s.split(None, 2)
def op_rsplit(s, t): return s.rsplit(',', 1)
def op_rsplitws(s, t): return s.rsplit(None, 1)
def op_splitlines(s, t): return s.splitlines()
def op_strip(s, t): return s.strip()
def op_strip2(s, t): return (s.strip('"'), s.lstrip(' a'), s.rstrip('9 '))
def op_lower(s, t): return (s.lower(), s.upper(), s.title(), s.capitalize())
def op_find(s, t): return (s.find(','), s.rfind(';'), s.find('a', 1), s.count('"'))
def op_find2(s, t): return (s.find(t), s.count(t))
def op_in(s, t): return (',' in s, 'a;' in s, t in s)
def op_startswith(s, t): return (s.startswith('a'), s.endswith(('9', ';')), s.startswith(t))
def op_cmp(s, t): return (s == t, s < t, s <= 'a0', s != 'Z', s > t)
def op_replace(s, t): return s.replace('"', '\\\\"').replace('a', '')
def op_partition(s, t): return (s.partition('='), s.rpartition(','))
def op_is(s, t): return (s.isdigit(), s.isalnum(), s.isalpha(), s.isspace(), s.isupper(), s.islower())
def op_int(s, t): return int(s)
def op_int16(s, t): return int(s, 16)
def op_float(s, t): return float(s)
def op_slice(s, t): return (s[1:], s[:-1], s[::-1], s[0], s[-1], len(s))
def op_concat(s, t): return s + t + ',' + s
def op_join(s, t): return ';'.join([s, t, 'x'])
def op_mod(s, t): return '%s=%s|%5s|%-5s|' % (s, t, s, t)
def op_fmt(s, t): return f'{s}:{t!s}:{len(s)}' + '{}-{x}'.format(s, x = t)
def op_quote(s, t): return (quote(s), quote(s, '=;'), unquote(s))
def op_dict(s, t):
    d = {'a': 1, 'Z': 2}
    d[s] = 3
    d.setdefault(t, 4)
    return (d.get('a'), d[s], t in d, len(d), sorted(d.items()), d.pop('Z', None))
def op_set(s, t): return (len(set((s, t, 'a'))), s in ('a', 'Z'), s in ['a', t])
def op_enc(s, t): return (s.encode(), s.encode() + b'x' == t.encode(), s.encode().split(b','), s.encode().decode())
def op_trans(s, t): return s.translate(str.maketrans('a,', 'b;'))
def op_sort(s, t): return (sorted([s, t, 'b']), min(s, t), max(s, t))
def op_ord(s, t): return ([ord(c) for c in s], chr(ord(s[0]) + 1))
def op_list(s, t): return ([x for x in s if x != 'a'], list(reversed(s)), [(i, c) for i, c in enumerate(s)])
def op_idx(s, t): return (s.index(','), [s, t].index(t), (s, t).count(s))
def op_expand(s, t): return (s.zfill(5), s.ljust(4), s.center(5, '*'), s * 2)
def iop_arith(a, b): return (a + b, a - b, a * 3, a // 7, a % 7, -a // 4, a % -3, abs(a), divmod(a, 10))
def iop_cmp(a, b): return (a < b, a == b, a >= 3, min(a, b), max(a, 5), a != 4, bool(a))
def iop_bits(a, b): return (a & 0xff, a >> 3, a << 2, (a << 8) | (b & 0xff), a & ~1, a ^ 5, a | 3)
def iop_str(a, b): return (str(a), '%d' % a, '%03d' % b, f'{a}', f'{a:x}', '%X' % b, str(a) + 'x', repr(b))
def iop_div(a, b): return (a / 4, a / b, a // b, a % b)
def iop_float(a, b): return (float(a) / 2 + b, int(a / 8), round(a / 4), a * 0.5)
def iop_bytes(a, b): return (a.to_bytes(2, 'big'), b.to_bytes(2, 'little'), bytes([a % 256, 1]))
def iop_parse(a, b): return (int(str(a)), int('%d' % b) == b, int(hex(a), 16) if a >= 0 else None, ('%x' % a).upper())
def iop_range(a, b): return ([x for x in range(a % 4)], [0] * (b % 3), 'abcdef'[a % 6])
'''


def norm(x, mdl, tree=True):
    if hasattr(x, 'sx_value'):
        return x.sx_value(mdl)
    if isinstance(x, (list, tuple)):
        return type(x)(norm(y, mdl) for y in x)
    return x


def run(verbose=False, maxpaths=160):
    ns = {}
    exec(compile(SRC, 'ref', 'exec'), ns)
    si = dict(B.HELPERS)
    tree = loader.transform(SRC, '/selftest/ops')
    exec(compile(tree, '/selftest/ops', 'exec'), si)
    bad = 0
    total = 0
    for name in [n for n in ns if n.startswith(('op_', 'iop_'))]:
        en = Engine()
        Engine.cur = en
        h = SymH(en)
        work = [[]]
        n = 0
        while work and n < maxpaths:
            en.reset_path(work.pop(0) if n % 2 else work.pop())
            n += 1
            try:
                if name.startswith('op_'):
                    a = h.str('a', 0, 3, alphabet=ALPHA)
                    b = h.str('b', 1, 1, alphabet=ALPHA)
                else:
                    a = h.int('a', -1000, 1000) if name not in ('iop_bytes', 'iop_parse') else h.int('a', 0, 999)
                    b = h.int('b', 0, 300)
                try:
                    r = si[name](a, b)
                    ex = None
                except Exception as e:
                    r, ex = None, type(e).__name__
                    exo = e
                mdl = en.get_model()
                ca, cb = norm(a, mdl), norm(b, mdl)
                try:
                    cr = ns[name](ca, cb)
                    cex = None
                except Exception as e:
                    cr, cex = None, type(e).__name__
                r = norm(r, mdl)
                total += 1
                if r != cr or ex != cex:
                    bad += 1
                    if verbose or bad < 10:
                        print('MISMATCH %s(%r, %r): sym %r %s  real %r %s' % (name, ca, cb, r, ex, cr, cex))
                        if ex and verbose:
                            import traceback
                            traceback.print_exception(exo)
            except SxControl as e:
                pass
            work.extend(en.alts)
        if verbose:
            print('%-14s %4d paths %s' % (name, n, en.stats.conc_sites or ''))
    print('selftest: %d paths compared, %d mismatches' % (total, bad))
    return bad


if __name__ == '__main__':
    sys.exit(1 if run(True) else 0)
