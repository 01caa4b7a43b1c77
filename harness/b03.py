"""B03: a route specification means what it says."""
from symx.runner import scenario, quick
from symx import env
from symx.env import SENT, CLK, T0, DUMPS
from harness.sip import *
from harness.b2b import *

AL = ''.join(chr(i) for i in range(33, 127) if chr(i).isalnum())
USER = AL + '-_.!~*()&=+$,?/#'
USER = ''.join(c for c in USER if c not in '=#')
PRINT = ''.join(chr(i) for i in range(32, 127))
HEX = '0123456789ABCDEF'
HOST = AL + '-.'


def num(h, name, d, neg=True):
    """(text, value) of a number of up to d digits"""
    n = h.choose(name + '.d', list(range(1, d + 1)))
    v = h.int(name, 10 ** (n - 1) if n > 1 else 0, 10 ** n - 1)
    if neg and n == 1 and h.choose(name + '.s', ['', '-']):
        h.assume(v > 0)
        return '-' + str(v), None
    return str(v), v


def quoted(h, name, lo, hi):
    """(text, value): text with escapes"""
    v = h.str(name, lo, hi, alphabet=PRINT)
    t = ''
    for c in v:
        if c in AL:
            # may be written plainly or escaped
            t += c if h.choose(name + '.q', ['plain', 'esc']) == 'plain' else esc(c)
        else:
            t += esc(c)
    return t, v


def esc(c):
    o = ord(c)
    return '%' + HEX[o // 16] + HEX[o % 16]


@scenario('B03', reach=('name', 'v6', 'port', 'noport', 'cld', 'nocld', 'erase'),
          bounds='host of 1..2 symbolic characters or an IPv6 literal of 1..2, port absent or of 1..5 digits, number absent, empty '
                 'or of 1..2 symbolic characters; addresses of either family from the resolver')
def destination(h):
    import sippy.B2B.Route as R
    asked = []

    def resolve(host, port, af=0, kind=0, *a):
        asked.append((host, port, af))
        v4, v6 = (2, 1, 6, '', ('10.0.0.3', port)), (10, 1, 6, '', ('2001:db8::3', port, 0, 0))
        return {'4': [v4], '6': [v6], '64': [v6, v4]}[fam]
    R.getaddrinfo = resolve
    if h.choose('hk', ['n', '6']) == 'n':
        host = name = h.str('host', 1, 2, alphabet=HOST)
        fam = h.choose('fam', ['4', '6', '64'])
        h.reach('name')
    else:
        name = h.str('h6', 1, 2, alphabet='0123456789abcdefF:.')
        host = '[' + name + ']'
        fam = '6'
        h.reach('v6')
    pl = h.choose('pl', [0, 1, 5])
    port = None if not pl else h.int('port', 10 ** (pl - 1), min(10 ** pl - 1, 65535))
    h.reach('port' if pl else 'noport')
    ck = h.choose('cld', ['cld', 'nocld', 'erase'])
    cld = h.str('c', 1, 2, alphabet=USER) if ck == 'cld' else None
    h.reach(ck)
    spec = host if port is None else host + ':' + str(port)
    if ck != 'nocld':
        spec = (cld or '') + '@' + spec
    spec += h.choose('more', ['', ';x=a@b:1', ';cli=77;expires=5'])
    r = R.B2BRoute(spec)
    h.check(len(asked) == 1, 'the host is looked up')
    h.check(asked[0][0] == name, 'by its name', got=asked[0][0])
    want = 5060 if port is None else port
    h.check(asked[0][1] == want, 'the port asked for')
    h.check(r.hostonly == host, 'host')
    for n in range(2):
        # a copy works as well as the original
        r.customize(1, 'dcld', 'dcli', None, (), None)
        h.check(h.eq(r.cld, {'cld': cld, 'nocld': 'dcld', 'erase': None}[ck]), 'number to call')
        for src, sfam in ((('10.0.0.2', 5060), '4'), (('[2001:db8::2]', 5060), '6')):
            (a, p), same = r.getNHAddr(src)
            use = sfam if sfam in fam else fam[0]
            h.check(a == {'4': '10.0.0.3', '6': '[2001:db8::3]'}[use], 'address of the family the caller uses, or else the first')
            h.check(p == want, 'port called')
            h.check(same == (use == sfam), 'whether the family is the same')
        r = r.getCopy()


NUMS = {'credit-time': 'credit_time', 'expires': 'expires', 'np_expires': 'no_progress_expires', 'nr_expires': 'no_reply_expires'}


@scenario('B03', reach=('negative', 'value'),
          bounds='each of the four time limits absent or with a value of 1..5 digits, positive or negative, all combinations of two, '
                 'any order; defaults from authorisation and configuration')
def limits(h):
    from sippy.B2B.Route import B2BRoute
    import sippy.B2B.Route as R
    R.getaddrinfo = addrinfo
    ns = sorted(NUMS)
    first = h.choose('first', ns)
    second = h.choose('second', [None] + [x for x in ns if x != first])
    want = {}
    spec = '10.0.0.3'
    for n in (first, second):
        if n is None:
            continue
        t, v = num(h, n, 5 if n == first else 2)
        spec += ';%s=' % n + t
        want[n] = v
        h.reach('value' if v is not None else 'negative')
    r = B2BRoute(spec)
    # a copy of a route is as good as the route
    if h.choose('copy', [False, True]):
        r = r.getCopy()
    maxc = h.choose('max', [None, 300])
    r.customize(1, '1', '2', None, (), maxc)
    for n in ns:
        w = want.get(n)
        g = getattr(r, NUMS[n])
        if n == 'credit-time' and maxc is not None:
            w = maxc if w is None else h.ite(w > maxc, maxc, w)
        h.check((g is None) == (w is None), n + ' limited or not', got=g)
        if w is not None:
            h.check(g == w, n, got=g, want=w)


def display(text):
    """(display name, rest) of a name-addr; surrounding quotes removed"""
    name, rest = text.rsplit('<', 1)
    name = name.strip()
    if name.startswith('"'):
        name = name[1:-1].replace('\\"', '"').replace('\\\\', '\\')
    return name, rest


@scenario('B03', reach=('first', 'second', 'own', 'given', 'erased', 'header', 'proxy', 'auth', 'cnam'),
          bounds='one route with called number, caller number and name each absent, empty or of 1..2 symbolic characters, 0..2 extra '
                 'headers with 1 symbolic escaped character, outbound proxy with or without port, credentials with 1 symbolic '
                 'character; as static route used for two calls from different callers in a row, or from authorisation')
def call(h):
    mode = h.choose('mode', ['cld', 'cli', 'cnam', 'ash', 'op', 'auth'])
    spec = '10.0.0.3:5090'
    cld = cli = cnam = None
    ck = ik = nk = 'own'
    heads = []
    user = None
    dst = ('10.0.0.3', 5090)
    if mode == 'cld':
        ck = h.choose('ck', ['own', 'given', 'erased'])
        cld = h.str('cld', 1, 2, alphabet=USER) if ck == 'given' else None
        spec = {'own': '', 'erased': '@', 'given': (cld or '') + '@'}[ck] + spec
        h.reach(ck)
    if mode == 'cli':
        ik = h.choose('ik', ['given', 'erased'])
        cli = h.str('cli', 1, 2, alphabet=USER) if ik == 'given' else ''
        spec += ';cli=' + cli
        h.reach(ik)
    if mode == 'cnam':
        nk = h.choose('nk', ['given', 'erased'])
        t, cnam = quoted(h, 'cnam', 1, 1 if quick() else 2) if nk == 'given' else ('', '')
        if nk == 'given':
            h.assume(cnam.strip() == cnam)
            h.assume(h.neg(h.any('"' in cnam, '\\' in cnam)))
        spec += ';cnam=' + t
        h.reach('cnam')
    if mode == 'ash':
        for i in range(h.choose('nash', [1, 2])):
            t, v = quoted(h, 'ash%d' % i, 1, 1) if i == 0 or not quick() else ('%41', 'A')
            spec += ';ash=X-H%d%%3A%%20a' % i + t + 'b'
            heads.append(('x-h%d' % i, 'a' + v + 'b'))
        h.reach('header')
    if mode == 'op':
        p = h.choose('op', ['10.0.0.8', '10.0.0.8:5091'])
        spec += ';op=' + p
        dst = ('10.0.0.8', 5091 if ':' in p else 5060)
        h.reach('proxy')
    if mode == 'auth':
        user, pw = h.str('user', 1, 1, alphabet=PRINT, exclude=':;"\\'), h.str('pw', 0, 1, alphabet=PRINT, exclude=';')
        spec += ';auth=' + user + ':' + pw
    how = h.choose('how', ['static', 'granted'])
    ncalls = 2 if how == 'static' else 1
    if how == 'static':
        a = setup(h, (spec,), nh_addr=None)
    else:
        a = setup(h, (spec,), auth=True)
    for k in range(ncalls):
        n = len(SENT)
        me = ['alice', 'eve'][k]
        num = ['100', '200'][k]
        env.deliver(a.tm, request('INVITE', ruri='sip:%s@10.0.0.1' % num, callid='c%d' % k, frm='"Name%d" <sip:%s@10.0.0.2>;tag=f%d' %
                                  (k, me, k), to='<sip:%s@10.0.0.1>' % num, body=sdp(1),
                                  via='SIP/2.0/UDP 10.0.0.2:5060;branch=z9hG4bKi%d' % k), ('10.0.0.2', 5060))
        if how == 'granted':
            a.grant()
        inv = [s for s in SENT[n:] if method_of(s[1]) == 'INVITE']
        h.check(len(inv) == 1, 'the call is placed')
        t = inv[0][1]
        h.check(inv[0][2] == dst, 'to the destination', got=inv[0][2])
        u = {'own': num, 'erased': None, 'given': cld}[ck]
        at = '' if u is None else u + '@'
        h.check(t.split('\r\n', 1)[0] == 'INVITE sip:' + at + '10.0.0.3:5090 SIP/2.0', 'called number and host', got=t.split('\r\n', 1)[0])
        h.check(hval(t, 'to') == '<sip:' + at + '10.0.0.3>', 'called number in To', got=hval(t, 'to'))
        f = {'own': me, 'erased': None, 'given': cli}[ik]
        dn, rest = display(hval(t, 'from'))
        h.check(rest.split('>', 1)[0] == 'sip:' + ('' if not f else f + '@') + rest.split('>', 1)[0].rsplit(':', 1)[1].rsplit('@', 1)[-1],
                'caller number', got=rest)
        h.check(dn == {'own': 'Name%d' % k, 'erased': '', 'given': cnam}[nk], 'caller name', got=dn)
        for i in range(2):
            w = [v for x, v in heads if x == 'x-h%d' % i]
            h.check(h.eq(hvals(t, 'x-h%d' % i), w), 'extra headers', got=hvals(t, 'x-h%d' % i))
        h.check(bno(t) == 1, 'the offer of the caller')
        h.reach(['first', 'second'][k])
        if user is not None:
            m = len(SENT)
            env.deliver(a.tm, response_to(t, 401, extra=('WWW-Authenticate: Digest realm="r",nonce="n"',)), ('10.0.0.3', 5090))
            re = [s[1] for s in SENT[m:] if method_of(s[1]) == 'INVITE']
            h.check(len(re) == 1, 'the challenge is answered')
            from harness.a01 import digest, params, one
            sch, ps = params(hval(re[0], 'authorization'))
            h.check(one(ps, 'username') == user, 'with the user name of the route')
            h.check(one(ps, 'response') == digest(None, user, 'r', pw, 'n', one(ps, 'uri'), 'INVITE'), 'and its password')
            h.reach('auth')


@scenario('B03', reach=('called back',), bounds='destination sip-ua: the call goes back to where it came from, address and port symbolic; '
          'number given (1..2 symbolic characters) or not')
def back(h):
    cld = h.str('cld', 1, 2, alphabet=USER) if h.choose('ck', [False, True]) else None
    a = setup(h, (('' if cld is None else cld + '@') + 'sip-ua',))
    src = ('10.0.0.' + str(h.int('oct', 10, 99)), h.int('port', 1024, 65535))
    env.deliver(a.tm, request('INVITE', ruri='sip:bob@10.0.0.1', body=sdp(1)), src)
    inv = [s for s in SENT if method_of(s[1]) == 'INVITE']
    h.check(len(inv) == 1, 'the call is placed')
    h.check(inv[0][2] == src, 'to where it came from')
    h.check(inv[0][1].startswith('INVITE sip:' + (cld or 'bob') + '@' + src[0]), 'number and host')
    h.reach('called back')


@scenario('B03', reach=('stops', 'goes on'),
          bounds='list of 1..2 codes of three symbolic digits that stop the hunt, with white space and empty items; all failure codes')
def huntstop(h):
    codes = [h.int('c%d' % i, 300, 699) for i in range(h.choose('n', [1, 2]))]
    sep = h.choose('sep', [',', ' , ', ',,'])
    a = setup(h, ('10.0.0.3;hs_scodes=' + sep.join([str(c) for c in codes]), '10.0.0.4'), auth=True)
    c = Peer(h, a, 'caller', CALLER, 10)
    o = Peer(h, a, 'callee', '10.0.0.3', 50)
    c.invite()
    a.grant()
    o.look()
    code = h.int('code', 300, 699)
    o.answer(code, contact='')
    nxt = [s for s in SENT if s[2][0] == '10.0.0.4']
    if h.any(*[code == x for x in codes]):
        h.check(len(nxt) == 0, 'the hunt stops')
        h.check(h.eq(c.finals()[0:1] and code_of(c.finals()[0]), code), 'with the code')
        h.reach('stops')
    else:
        h.check(len(nxt) == 1, 'the hunt goes on')
        h.reach('goes on')


@scenario('B03', reach=('relay', 'direct'), bounds='rtpp absent or a number of 1..2 digits; with a media relay')
def relay(h):
    v = h.choose('rtpp', [None, 'v'])
    t = ''
    if v is not None:
        x, v = num(h, 'v', 2, neg=False)
        t = ';rtpp=' + x
    a = setup(h, ('10.0.0.3' + t,), media=lambda d: 'delay')
    c = Peer(h, a, 'caller', CALLER, 10)
    c.invite()
    inv = [s for s in SENT if s[2][0] == '10.0.0.3']
    if v is None or v != 0:
        h.check(len(inv) == 0, 'the offer goes through the relay')
        h.reach('relay')
    else:
        h.check(len(inv) == 1, 'media is not relayed')
        h.reach('direct')


@scenario('B03', reach=('both', 'answer', 'originate', 'none', 'pre'),
          bounds='po_proc and pre_auth_proc with attributes of 1..2 symbolic characters, accounting on or off')
def procs(h):
    """attributes added by processing routines appear in accounting (and authorisation)"""
    acct = h.choose('acct', [True, False])
    fn = h.choose('fn', ['VAL2Xattrs', 'VAL2XattrsA', 'VAL2XattrsO', 'Nop'])
    k, v = h.str('k', 1, 2, alphabet=AL), h.str('v', 1, 2, alphabet=AL + '-.:@')
    a = setup(h, ('10.0.0.3;po_proc=%s[' % fn + k + '=' + v + ',b=c]',), auth=True, acct=acct)
    pre = h.choose('pre', [False, True])
    if pre:
        from sippy.B2B.Transforms import getTransProc
        a.gc['_pre_auth_proc'] = getTransProc('HDR2Xattrs[X-Attr]')
    c = Peer(h, a, 'caller', CALLER, 10)
    o = Peer(h, a, 'callee', '10.0.0.3', 50)
    pv = h.str('pv', 1, 2, alphabet=AL)
    c.invite(extra=('X-Attr: p=' + pv + ';q=r',))
    ex = a.radius.log[0][9]
    h.check(h.eq([list(x) for x in ex] if ex is not None else None, [['p', pv], ['q', 'r']] if pre else None), 'attributes of the authorisation')
    if pre:
        h.reach('pre')
    a.grant()
    o.look()
    h.check(o.inv is not None, 'the call is placed')
    o.answer(200, body=60)
    c.bye()
    if not acct:
        h.check(len(a.radius.acct) == 0, 'no accounting')
        h.reach('none')
        return
    h.check(len(a.radius.acct) == 2, 'accounting of both legs')
    for t, at in a.radius.acct:
        leg = [y for x, y in at if x == 'h323-call-origin'][0]
        want = fn == 'VAL2Xattrs' or fn == 'VAL2Xattrs' + ('A' if leg == 'answer' else 'O')
        for x, y in ((k, v), ('b', 'c')):
            got = [q for p, q in at if h.eq(p, x)]
            h.check(h.eq(got, [y] if want else []) if k != 'b' else True, 'attributes of the accounting')
    if fn == 'VAL2Xattrs':
        h.reach('both')
    if fn == 'VAL2XattrsA':
        h.reach('answer')
    if fn == 'VAL2XattrsO':
        h.reach('originate')
