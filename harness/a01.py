"""A01: digest answers are computed and verified as RFC 2617/7616/8760 say."""
from hashlib import md5, sha256, new as hash_new
from symx.runner import scenario, quick
from symx.env import CLK
from harness.sip import *

ALGS = [None, 'MD5', 'MD5-sess', 'SHA-256', 'SHA-256-sess', 'SHA-512-256', 'SHA-512-256-sess']
# what may stand in a quoted string without being escaped
QTXT = ''.join(chr(i) for i in range(32, 127) if chr(i) not in '"\\') + '\xe9'
HEX = '0123456789abcdef'


def hx(alg, s):
    a = alg or 'MD5'
    b = s.encode()
    if a.startswith('SHA-256'):
        return sha256(b).hexdigest()
    if a.startswith('SHA-512'):
        return hash_new('sha512_256', b).hexdigest()
    return md5(b).hexdigest()


def digest(alg, user, realm, passwd, nonce, uri, method, qop=None, nc=None, cnonce=None, body=None):
    """RFC 2617 3.2.2, RFC 7616 3.4, RFC 8760"""
    a1 = hx(alg, user + ':' + realm + ':' + passwd)
    if alg is not None and alg.endswith('-sess'):
        a1 = hx(alg, a1 + ':' + nonce + ':' + cnonce)
    a2 = method + ':' + uri
    if qop == 'auth-int':
        a2 = a2 + ':' + hx(alg, '' if body is None else body)
    a2 = hx(alg, a2)
    if qop is None:
        return hx(alg, a1 + ':' + nonce + ':' + a2)
    return hx(alg, ':'.join((a1, nonce, nc, cnonce, qop, a2)))


def params(text):
    """parameters of credentials or a challenge, names in lower case"""
    out = []
    sch, rest = text.split(' ', 1)
    name = ''
    val = ''
    st = 'n'
    for c in rest + ',':
        if st == 'n':
            if c == '=':
                st = 'v'
            else:
                name = name + c
        elif st == 'q':
            if c == '"':
                st = 'v'
            else:
                val = val + c
        elif c == '"':
            st = 'q'
        elif c == ',':
            out.append((name.strip().lower(), val))
            name = ''
            val = ''
            st = 'n'
        else:
            val = val + c
    return sch, out


def one(ps, n):
    v = [x for k, x in ps if k == n]
    return v[0] if len(v) == 1 else (None if not v else 'DUPLICATE')


def qtext(h, name, lo, hi):
    return h.str(name, lo, hi, alphabet=QTXT)


@scenario('A01', reach=('plain', 'qop', 'proxy', 'sess'),
          bounds='challenge with any of 7 algorithms, 4 sets of qop, with or without opaque; realm, nonce, opaque, user name, '
                 'password, URI user and body up to 3 (thorough 5) characters each, of them two at a time symbolic; 4 methods')
def generate(h):
    from sippy.SipWWWAuthenticate import SipWWWAuthenticate
    from sippy.SipProxyAuthenticate import SipProxyAuthenticate
    from sippy.SipURL import SipURL
    N = 2 if quick() else 4
    alg = h.choose('alg', ALGS)
    qops = h.choose('qops', [None, ('auth',), ('auth-int',), ('auth', 'auth-int')])
    if qops is None and alg is not None and alg != 'MD5':
        h.assume(False)      # no answer is possible
    qop = h.choose('qop', list(qops)) if qops is not None else None
    which = h.choose('which', ['realm', 'user', 'nonce', 'body'])
    realm = qtext(h, 'realm', 0, N) if which == 'realm' else 'r, 1=:'
    user = qtext(h, 'user', 0, N) if which == 'user' else 'u:v'
    passwd = qtext(h, 'pass', 0, N) if which == 'user' else 'p w'
    nonce = qtext(h, 'nonce', 1, N) if which == 'nonce' else 'n,o=n'
    opaque = h.choose('opq', [None, 'o'])
    if opaque is not None:
        opaque = qtext(h, 'opaque', 1, N) if which == 'realm' else 'o,=q'
    body = h.choose('nobody', [None, 'b'])
    if body is not None:
        body = qtext(h, 'body', 0, N) if which == 'body' else 'v=0\r\n'
    method = h.choose('method', ['INVITE', 'REGISTER'] if quick() else ['INVITE', 'REGISTER', 'BYE', 'OPTIONS'])
    proxy = h.choose('proxy', [False, True])
    t = 'Digest realm="' + realm + '", nonce="' + nonce + '"'
    if opaque is not None:
        t += ', opaque="' + opaque + '"'
    if alg is not None:
        t += ',algorithm=' + alg
    if qops is not None:
        t += ', qop="' + ','.join(qops) + '"'
    ch = (SipProxyAuthenticate if proxy else SipWWWAuthenticate)(t)
    ch.parse()
    ok, sel = ch.supportedAlgorithm()
    h.check(ok is True, 'challenge can be answered')
    h.check((sel is None) if qops is None else (sel in qops), 'protection chosen from those offered', got=sel)
    uri = SipURL('sip:' + (qtext(h, 'uu', 1, N) if which == 'nonce' and False else 'bob') + '@h.example;x=y')
    a = ch.genAuthHF(user, passwd, method, str(uri), body, qop)
    h.check(a.getCanName('') == ('Proxy-Authorization' if proxy else 'Authorization'), 'name of the header')
    sch, ps = params(str(a))
    h.check(sch == 'Digest', 'scheme')
    h.check(one(ps, 'username') == user, 'user name')
    h.check(one(ps, 'realm') == realm, 'realm of the challenge')
    h.check(one(ps, 'nonce') == nonce, 'nonce of the challenge')
    h.check(one(ps, 'uri') == 'sip:bob@h.example;x=y', 'URI')
    h.check(one(ps, 'algorithm') == alg, 'algorithm of the challenge')
    h.check(h.eq(one(ps, 'opaque'), opaque), 'opaque of the challenge')
    h.check(one(ps, 'qop') == qop, 'protection asked for')
    nc = one(ps, 'nc')
    cn = one(ps, 'cnonce')
    if qop is not None:
        h.check(nc == '00000001', 'count of a first use')
        h.check(cn is not None and len(cn) >= 8, 'own nonce')
        h.reach('qop')
    else:
        h.check(nc is None and cn is None, 'neither count nor own nonce')
        h.reach('plain')
    if proxy:
        h.reach('proxy')
    if alg is not None and alg.endswith('-sess'):
        h.reach('sess')
    w = digest(alg, user, realm, passwd, nonce, 'sip:bob@h.example;x=y', method, qop, nc, cn, body)
    h.check(one(ps, 'response') == w, 'digest', got=one(ps, 'response'), want=w)


def cred(user, realm, nonce, uri, resp, alg, qop, nc, cn, more=()):
    """credentials as a client writes them"""
    t = 'Digest username="' + user + '", realm="' + realm + '",nonce="' + nonce + '", uri="' + uri + '", response="' + resp + '"'
    if alg is not None:
        t += ', algorithm=' + alg
    if cn is not None:
        t += ', cnonce="' + cn + '"'
    if qop is not None:
        t += ', qop=' + qop
    if nc is not None:
        t += ', nc=' + nc
    for m in more:
        t += ', ' + m
    return t


@scenario('A01', reach=('yes', 'no'),
          bounds='answer to a nonce issued here for one of 7 algorithms, without or with one of 2 protections; the client and the server '
                 'may take different user names, realms, passwords, methods, URIs, bodies, counts and own nonces (one kind at a '
                 'time, each side up to 3 symbolic characters), or the response is up to 2 characters off')
def verify(h):
    from sippy.SipWWWAuthenticate import SipWWWAuthenticate
    from sippy.SipAuthorization import SipAuthorization
    from sippy.SipProxyAuthorization import SipProxyAuthorization
    N = 2 if quick() else 3
    alg = h.choose('alg', ALGS)
    qop = h.choose('qop', [None, 'auth', 'auth-int'])
    if qop is None and alg is not None and alg.endswith('-sess'):
        h.assume(False)
    nonce = SipWWWAuthenticate(realm='r', algorithm=alg).getNonce()
    cl = dict(user='u', realm='r', passwd='p', uri='sip:b@h', method='INVITE', nc='00000001', cnonce='c', body='B')
    sv = dict(cl)
    d = h.choose('differ', ['user', 'realm', 'passwd', 'uri', 'method', 'nc', 'cnonce', 'body', 'resp', 'nobody', 'length'])
    if d not in ('resp', 'nobody', 'length'):
        cl[d] = qtext(h, 'client', 1, N)
        sv[d] = qtext(h, 'server', 1, N)
        if d in ('nc', 'method'):
            h.assume(',' not in sv[d] and ' ' not in sv[d] and '=' not in sv[d])
    elif d == 'nobody':
        cl['body'] = sv['body'] = None
    if qop is None:
        cl['nc'] = sv['nc'] = cl['cnonce'] = sv['cnonce'] = None
    resp = digest(alg, cl['user'], cl['realm'], cl['passwd'], nonce, cl['uri'], cl['method'], qop, cl['nc'], cl['cnonce'], cl['body'])
    if d == 'resp':
        p = h.choose('pos', [0, 15, len(resp) - 2] if quick() else list(range(len(resp) - 1)))
        resp = resp[:p] + h.str('x', 2, alphabet=HEX) + resp[p + 2:]
    elif d == 'length':
        resp = h.choose('cut', ['', resp[:-1], resp[:16], resp + '0'])
    want = digest(alg, sv['user'], sv['realm'], sv['passwd'], nonce, sv['uri'], sv['method'], qop, sv['nc'], sv['cnonce'], sv['body'])
    cls = h.choose('cls', [SipAuthorization, SipProxyAuthorization])
    a = cls(cred(sv['user'], sv['realm'], nonce, sv['uri'], resp, alg, qop, sv['nc'], sv['cnonce']))
    if h.choose('copy', [False, True]):
        a = a.getCopy()
    a.parse()
    h.check(a.username == sv['user'], 'user name of the credentials', got=a.username)
    got = a.verify(sv['passwd'], sv['method'], sv['body'])
    h.check(h.eq(got, h.eq(resp, want)), 'accepted exactly if the digest is right', got=got)
    if got:
        h.reach('yes')
    else:
        h.reach('no')


@scenario('A01', reach=('stale', 'alien', 'otheralg', 'good'),
          bounds='right digest for a nonce of this or another server, of any age up to 2**50 ns, issued for one algorithm and '
                 'answered with any of 7')
def nonce(h):
    from sippy.SipWWWAuthenticate import SipWWWAuthenticate
    from sippy.SipAuthorization import SipAuthorization
    from sippy.Security.SipNonce import HashOracle
    CLK.ns = 5 * 10**9
    a = h.choose('issued', ALGS)
    b = h.choose('answered', ALGS)
    qop = h.choose('qop', [None, 'auth'])
    if qop is None and b is not None and b.endswith('-sess'):
        h.assume(False)
    kind = h.choose('kind', ['own', 'foreign', 'invented'])
    if kind == 'own':
        n = SipWWWAuthenticate(realm='r', algorithm=a).getNonce()
    elif kind == 'foreign':
        key = bytes([(7 + i * 13) % 256 for i in range(64)])
        from sippy.SipAuthorization import NameList2AlgMask
        n = type('Other', (HashOracle,), {'key': key})().emit_challenge(NameList2AlgMask((a,)))
    else:
        n = h.str('n', 0, 2, alphabet=QTXT)
    age = h.int('age', 0, 1 << 50)
    CLK.ns = 5 * 10**9 + age
    nc, cn = ('00000001', 'c') if qop is not None else (None, None)
    c = SipAuthorization(cred('u', 'r', n, 'sip:b@h', digest(b, 'u', 'r', 'p', n, 'sip:b@h', 'INVITE', qop, nc, cn), b, qop, nc, cn))
    got = c.verify('p', 'INVITE')
    if kind != 'own':
        h.reach('alien')
        h.check(got is False, 'nonce not issued here refused')
    elif (a or 'MD5') != (b or 'MD5'):
        h.reach('otheralg')
        h.check(got is False, 'nonce issued for another algorithm refused')
    else:
        h.check(h.eq(got, age <= 32 * 10**9), 'accepted exactly while the nonce is valid')
        if got:
            h.reach('good')
        else:
            h.reach('stale')


@scenario('A01', reach=('missing', 'unknown'),
          bounds='credentials lacking any one or two of their parameters, or with an algorithm or protection of up to 3 arbitrary '
                 'characters')
def malformed(h):
    from sippy.SipWWWAuthenticate import SipWWWAuthenticate
    from sippy.SipAuthorization import SipAuthorization
    alg = h.choose('alg', ALGS)
    qop = h.choose('qop', [None, 'auth', 'auth-int'])
    n = SipWWWAuthenticate(realm='r', algorithm=alg).getNonce()
    w = digest(alg, 'u', 'r', 'p', n, 'sip:b@h', 'INVITE', qop, '00000001', 'c', 'B')
    ps = [('username', '"u"'), ('realm', '"r"'), ('nonce', '"' + n + '"'), ('uri', '"sip:b@h"'), ('response', '"' + w + '"')]
    if alg is not None:
        ps.append(('algorithm', alg))
    if qop is not None:
        ps += [('qop', qop), ('nc', '00000001'), ('cnonce', '"c"')]
    kind = h.choose('kind', ['missing', 'alg', 'qop'])
    TK = ''.join(chr(i) for i in range(33, 127) if chr(i) not in '"\\,=')
    if kind == 'missing':
        a = h.choose('a', range(len(ps)))
        b = h.choose('b', range(len(ps)))
        gone = set(ps[i][0] for i in (a, b))
        # without these the rest is a complete answer of another kind, or one RFC 2617 leaves open
        h.assume(not gone <= {'qop', 'nc', 'cnonce', 'algorithm'})
        ps = [p for p in ps if p[0] not in gone]
        h.reach('missing')
    elif kind == 'alg':
        v = h.str('v', 1, 3, alphabet=TK)
        h.assume(v != 'MD5')
        ps = [p for p in ps if p[0] != 'algorithm'] + [('algorithm', v)]
        h.reach('unknown')
    else:
        v = h.str('v', 1, 3, alphabet=TK)
        ps = [p for p in ps if p[0] != 'qop'] + [('qop', v)]
    c = SipAuthorization('Digest ' + ','.join([k + '=' + v for k, v in ps]))
    got = c.verify('p', 'INVITE', 'B')
    h.check(got is False, 'refused', got=got)
