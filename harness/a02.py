"""A02: a nonce is accepted only if issued here, for that algorithm, and not expired."""
from symx.runner import scenario, quick
from symx.env import CLK
from harness.sip import *

VALID = 32 * 10**9      # nanoseconds
ALGS = [None, 'MD5', 'MD5-sess', 'SHA-256', 'SHA-256-sess', 'SHA-512-256', 'SHA-512-256-sess']
B64 = 'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/'


def same(a, b):
    return (a or 'MD5') == (b or 'MD5')


def masks(*algs):
    from sippy.SipAuthorization import NameList2AlgMask
    return NameList2AlgMask(algs)


def oracle(key=None):
    from sippy.Security.SipNonce import HashOracle
    if key is None:
        return HashOracle()
    k = (hash_bytes(key) * 4)[:64]
    return type('OtherServer', (HashOracle,), {'key': k})()


def hash_bytes(k):
    return bytes([(k * 37 + i * 11) % 256 for i in range(16)])


@scenario('A02', reach=('fresh', 'last', 'expired', 'before', 'other'),
          bounds='a nonce issued for each of 7 algorithms at 4 clock readings (0 to 2**62 ns) and presented for any of the '
                 'algorithms to the same or another oracle of the server, at any time from 2**40 ns before to 2**50 ns after')
def expiry(h):
    issue = h.choose('t', [0, 999999999, 123456789012345678, 1 << 62])
    a = h.choose('alg', ALGS)
    b = h.choose('answer', ALGS)
    ho = oracle()
    CLK.ns = issue
    n = ho.emit_challenge(masks(a))
    h.check(len(n) > 0 and '"' not in n and '\\' not in n, 'text of the nonce')
    d = h.int('age', -(1 << 40), 1 << 50)
    CLK.ns = issue + d
    if h.choose('shared', [False, True]):
        ho = oracle()
    r = ho.validate_challenge(n, masks(b))
    if not same(a, b):
        h.reach('other')
        h.check(r is False, 'refused for another algorithm')
        return
    h.check(h.eq(r, h.all(d >= 0, d <= VALID)), 'accepted exactly while valid', age=d, got=r)
    if d < 0:
        h.reach('before')
    elif d > VALID:
        h.reach('expired')
    elif d == VALID:
        h.reach('last')
    else:
        h.reach('fresh')


@scenario('A02', reach=('ok', 'no'),
          bounds='a nonce issued for any set of two algorithms at any time below 2**40 ns, presented within any time for one or two '
                 'algorithms')
def issue(h):
    t = h.int('t', 0, 1 << 40)
    i = h.choose('a', [1, 2, 3, 6] if quick() else [1, 2, 3, 4, 5, 6])
    j = h.choose('b', [1, 2, 4, 5] if quick() else [1, 2, 3, 4, 5, 6])
    k = h.choose('c', [1, 3, 5] if quick() else [1, 2, 3, 4, 5, 6])
    two = h.choose('two', [False, True])
    ho = oracle()
    CLK.ns = t
    n = ho.emit_challenge(masks(ALGS[i], ALGS[j]))
    d = h.int('age', -(1 << 40), 1 << 50)
    CLK.ns = t + d
    want = (ALGS[k],) if not two else (ALGS[k], ALGS[i])
    r = ho.validate_challenge(n, masks(*want))
    if k in (i, j):
        h.reach('ok')
        h.check(h.eq(r, h.all(d >= 0, d <= VALID)), 'accepted exactly while valid', age=d, got=r)
    else:
        h.reach('no')
        h.check(r is False, 'refused for an algorithm it was not issued for')


@scenario('A02', reach=('bad', 'alike'),
          bounds='a nonce (64 characters) altered by replacing one or two neighbouring characters at any position with any '
                 'characters of the first 256, inserting up to two anywhere, cutting off or repeating a part, or '
                 'combining it with another nonce issued at the same time')
def altered(h):
    ho = oracle()
    CLK.ns = 77 * 10**9
    n = ho.emit_challenge(masks('MD5'))
    m = ho.emit_challenge(masks('SHA-256'))
    CLK.ns = 80 * 10**9
    alpha = ''.join(chr(i) for i in range(256))
    what = h.choose('what', ['replace', 'two', 'insert', 'insert2', 'cut', 'head', 'double', 'mix'] +
                    ([] if quick() else ['pair']))
    L = len(n)
    # the position is forked: every one is covered
    pos = h.choose('pos', list(range(L + 1)))
    if what == 'replace':
        h.assume(pos < L)
        x = n[:pos] + h.str('x', 1, alphabet=alpha) + n[pos + 1:]
    elif what == 'two':
        h.assume(pos < L - 1)
        x = n[:pos] + h.str('x', 2, alphabet=alpha) + n[pos + 2:]
    elif what == 'pair':
        o = (pos + h.choose('dist', [2, 3, 17, 32])) % L
        h.assume(pos < L and pos < o)
        x = n[:pos] + h.str('x', 1, alphabet=alpha) + n[pos + 1:o] + h.str('y', 1, alphabet=alpha) + n[o + 1:]
    elif what == 'insert':
        x = n[:pos] + h.str('x', 1, alphabet=alpha) + n[pos:]
    elif what == 'insert2':
        x = n[:pos] + h.str('x', 2, alphabet=alpha) + n[pos:]
    elif what == 'cut':
        x = n[:pos]
    elif what == 'head':
        x = n[pos:]
    elif what == 'double':
        x = n[:pos] + n
    else:
        x = n[:pos] + m[pos:]
    r = ho.validate_challenge(x, masks('MD5'))
    if x == n:
        h.reach('alike')
        h.check(r is True, 'unaltered nonce accepted')
    else:
        h.reach('bad')
        h.check(r is False, 'altered nonce refused', nonce=x)


@scenario('A02', reach=('foreign', 'junk', 'none'),
          bounds='a nonce of a server with another key; up to 3 arbitrary characters of the first 256 and the empty text; no nonce')
def alien(h):
    CLK.ns = 77 * 10**9
    ho = oracle()
    k = h.choose('kind', ['foreign', 'junk', 'none'])
    if k == 'foreign':
        n = oracle(h.choose('key', [1, 2])).emit_challenge(masks('MD5'))
        h.reach('foreign')
    elif k == 'junk':
        n = h.str('n', 0, 3, alphabet=''.join(chr(i) for i in range(256)))
        h.reach('junk')
    else:
        n = None
        h.reach('none')
    h.check(ho.validate_challenge(n, masks('MD5')) is False, 'refused')
