"""M03: structured headers."""
from symx.runner import scenario, quick
from symx import env
from harness.sip import *

PRINT = ''.join(chr(i) for i in range(32, 127))
QCH = PRINT.replace('"', '').replace('\\', '')
AL = ''.join(chr(i) for i in range(33, 127) if chr(i).isalnum())
TOK = AL + "-.!%*_+`'~"
WORD = TOK + '()<>:/[]?{}'


def reparse(h, line, probe, what, compact=None):
    """probe(body) -> list of (name, value); parsed, formatted and parsed again"""
    from sippy.SipHeader import SipHeader
    hd = SipHeader(line, fixname=True)
    raw = str(hd)
    h.check(h.eq(raw.split(':', 1)[1].strip(), line.split(':', 1)[1].strip()), what + ': unparsed text kept')
    body = hd.getBody()
    first = probe(body)
    for n, g, w in first:
        h.check((g is None) == (w is None), '%s: %s present' % (what, n), got=g, want=w)
        if w is not None:
            h.check(h.eq(g, w), '%s: %s' % (what, n), got=g, want=w)
    how = h.choose('out', ['str', 'local', 'compact', 'copy'])
    if how == 'str':
        t = str(hd)
    elif how == 'copy':
        t = str(hd.getCopy())
    else:
        t = hd.localStr((('10.1.1.1', 5060), 'udp'), how == 'compact')
    hd2 = SipHeader(t, fixname=True)
    h.check(hd2.name == hd.name, what + ': same header after formatting', t=t)
    for n, g, w in probe(hd2.getBody()):
        h.check((g is None) == (w is None), '%s: %s present after formatting' % (what, n), got=g, want=w, t=t)
        if w is not None:
            h.check(h.eq(g, w), '%s: %s after formatting' % (what, n), got=g, want=w, t=t)
    h.reach(what)
    return hd


@scenario('M03', reach=('via',),
          bounds='sent protocol with 4 transports, host of 1..2 symbolic characters or IPv6, port absent or of 1..5 digits, 0..3 '
                 'parameters (branch, received, rport with/without value, unknown, quoted) in symbolic values, white space around all separators')
def via(h):
    foc = h.choose('focus', ['sent-by', 'params'])
    tr = h.choose('tr', ['UDP', 'TCP', 'TLS', 'WSS']) if foc == 'sent-by' else 'UDP'
    host = h.choose('hk', ['n', '6'])
    host = h.str('host', 1, 2, alphabet=AL + '-.') if host == 'n' else '[' + h.str('h6', 1, 2, alphabet='0123456789abcdefF:.') + ']'
    pl = h.choose('pl', [0, 1, 5]) if foc == 'sent-by' else 4
    port = None if not pl else h.int('port', 10 ** (pl - 1), min(10 ** pl - 1, 65535))
    sep, sl, eq, co = h.choose('sep', [(';', '/', '=', ':'), (' ; ', ' / ', ' = ', ' : ')])
    pk = h.choose('pars', [(), ('branch',), ('branch', 'rport', 'received'), ('rport=', 'x', 'branch'), ('y=', 'received6', 'rport'),
                           ('maddr', 'ttl', 'branch'), ('q', 'branch')] if foc == 'params' else [(), ('branch', 'rport')])
    want = []
    t = ''
    for p in pk:
        if p == 'branch':
            v = 'z9hG4bK' + h.str('br', 1, 2, alphabet=TOK)
            n = 'branch'
        elif p == 'rport':
            n, v = 'rport', None
        elif p == 'rport=':
            n, v = 'rport', str(h.int('rport', 1000, 9999))
        elif p == 'received':
            n, v = 'received', '10.0.0.' + str(h.int('oct', 10, 99))
        elif p == 'received6':
            n, v = 'received', '[2001:db8::7]'
        elif p == 'x':
            n, v = 'x' + h.str('x', 1, 1, alphabet=TOK), None
        elif p == 'maddr':
            n, v = 'maddr', '239.1.1.1'
        elif p == 'ttl':
            n, v = 'ttl', '16'
        elif p == 'q':
            n, v = 'q', '"' + h.str('q', 2, 2, alphabet=QCH) + h.choose('qe', ['', '\\"', '\\\\']) + '"'
        else:
            n, v = 'y', h.str('y', 0, 1, alphabet=TOK + '[]:')
        t += sep + n + ('' if v is None else eq + v)
        want.append((n, v))
    text = 'SIP' + sl + '2.0' + sl + tr + ' ' + host + ('' if port is None else co + str(port)) + t

    def probe(b):
        r = [('transport', b.transport, tr), ('version', b.sipver, 'SIP/2.0'), ('host', b.hostname, host), ('port', b.port, port),
             ('branch', b.getBranch(), dict(want).get('branch')), ('addr', b.getAddr(), (host, port)), ('n', len(b.params), len(want))]
        rp = dict(want).get('rport')
        r.append(('taddr', b.getTAddr(), (dict(want).get('received', host), int(rp) if rp is not None else 5060 if port is None else port)))
        for n, v in want:
            h.check(n in b.params, 'parameter kept')
            r.append(('param', b.params[n], v))
        h.check(h.eq([x for x in b.params.keys()], [n for n, v in want]), 'parameter order')
        return r
    reparse(h, h.choose('n', ['Via: ', 'v:']) + text, probe, 'via')


@scenario('M03', reach=('list',), bounds='1..3 Via values in one header line, hosts of 1 symbolic character')
def via_list(h):
    """several Via values in one line come out in order"""
    from sippy.SipResponse import SipResponse
    n = h.choose('n', [1, 2, 3])
    sep = h.choose('sep', [',', ', ', ' ,'])
    hosts = [h.str('h%d' % i, 1, 1, alphabet=AL) for i in range(n)]
    ex = h.choose('ex', ['', ';q="a,b\\", c"', ';q="\\\\" ; x = "," '])
    t = response_to(request('OPTIONS'), 200).replace('Via: SIP/2.0/UDP 10.0.0.2:5060;branch=z9hG4bKaaa',
                    'Via: ' + sep.join(['SIP/2.0/UDP ' + x + '.com:507%d;branch=z9hG4bK%d' % (i, i) + ex for i, x in enumerate(hosts)]) +
                    '\r\nVia: SIP/2.0/UDP last;branch=z9hG4bKl')
    m = SipResponse(t)
    for k in range(2):
        vs = m.getHFBodys('via')
        h.check(len(vs) == n + 1, 'number of Via values')
        for i, v in enumerate(vs[:n]):
            h.check(h.eq(v.hostname, hosts[i] + '.com') and v.port == 5070 + i and v.getBranch() == 'z9hG4bK%d' % i, 'values in order')
        h.check(vs[n].hostname == 'last' and vs[n].port is None, 'last')
        m = SipResponse(str(m))
    h.reach('list')


@scenario('M03', reach=('cseq', 'rack', 'number', 'callid', 'guid'),
          bounds='numbers of 1..10 digits (full 31/32-bit range), methods of 1..3 symbolic token characters, Call-ID of 1..3 symbolic '
                 'word characters with @')
def numbers(h):
    k = h.choose('kind', ['cseq', 'rack', 'number', 'callid', 'guid'])

    def num(nm, hi=4294967295):
        d = h.choose(nm + '.d', [1, 4, 10])
        return h.int(nm, 10 ** (d - 1) if d > 1 else 0, min(10 ** d - 1, hi))
    if k == 'cseq':
        n = num('n', 2147483647)
        m = h.choose('mk', ['INVITE', '?'])
        if m == '?':
            m = h.str('m', 1, 3, alphabet=TOK)
        sp = h.choose('sp', [' ', '  ', ' \t'])
        reparse(h, 'CSeq: ' + str(n) + sp + m,
                lambda b: [('cseq', b.getCSeq(), (n, m)), ('num', b.getCSeqNum(), n), ('method', b.getCSeqMethod(), m)], k)
    elif k == 'rack':
        n = num('n')
        c = h.int('c', 1000, 9999)
        m = h.str('m', 1, 2, alphabet=TOK)
        sp = h.choose('sp', [' ', '  '])
        reparse(h, 'RAck: ' + str(n) + sp + str(c) + sp + m, lambda b: [('rack', b.getRSeq(), (n, c, m))], k)
    elif k == 'number':
        n = num('n')
        hn = h.choose('hn', ['Max-Forwards', 'Expires', 'RSeq', 'Content-Length', 'l'])
        reparse(h, hn + h.choose('colon', [':', ': ', ' : ']) + str(n), lambda b: [('number', b.getNum(), n)], k)
    elif k == 'callid':
        c = h.str('c', 1, 3, alphabet=WORD + '"\\') + h.choose('at', ['', '@h'])
        reparse(h, h.choose('hn', ['Call-ID: ', 'i: ']) + c, lambda b: [('callid', str(b), c)], k)
    else:
        ns = (num('a'), h.int('b', 1000000000, 4294967295), 0, h.int('d', 1000, 9999))
        hn = h.choose('hn', ['cisco-GUID', 'h323-conf-id'])
        reparse(h, hn + ': ' + '-'.join([str(x) for x in ns]), lambda b: [('guid', b.getCiscoGUID(), ns)], k)


@scenario('M03', reach=('replaces',),
          bounds='call id of 1..2 word characters, tags of 1 symbolic token character in either order, early-only, 0..2 unknown '
                 'parameters, white space around ;')
def replaces(h):
    cid = h.str('c', 1, 2, alphabet=WORD) + '@h'
    ft, tt = h.str('f', 1, 1, alphabet=TOK), h.str('t', 1, 1, alphabet=TOK)
    x = 'x' + h.str('x', 1, 1, alphabet=TOK)
    order = h.choose('order', ['ft', 'tf', 'fet', 'xft', 'ftxe', 'exft', 'fty', 'tfxy'])
    sep = h.choose('sep', [';', '; ', ' ; '])
    m = {'f': 'from-tag=' + ft, 't': 'to-tag=' + tt, 'e': 'early-only', 'x': x, 'y': 'y=1'}
    text = cid + ''.join([sep + m[c] for c in order])
    others = [m[c] for c in order if c in 'xy']
    reparse(h, 'Replaces: ' + text, lambda b: [('call id', b.call_id, cid), ('from tag', b.from_tag, ft), ('to tag', b.to_tag, tt),
                                               ('early only', b.early_only, 'e' in order), ('params', b.params, others)], 'replaces')


def quoted(h, nm, n=2):
    """(text inside quotes, value) of a quoted string"""
    t, v = '', ''
    for i in range(n):
        k = h.choose('%s.k%d' % (nm, i), ['plain', 'esc'])
        c = h.str('%s%d' % (nm, i), 1, 1, alphabet=QCH if k == 'plain' else PRINT)
        t += ('' if k == 'plain' else '\\') + c
        v += c
    return t, v


@scenario('M03', reach=('reason',),
          bounds='protocol of 1..2 token characters, cause 0..999, text absent, unquoted token or quoted string of 0..2 plain or '
                 'escaped characters, both orders, white space')
def reason(h):
    p = h.str('p', 1, 2, alphabet=TOK)
    c = h.choose('cd', [(0, 9), (10, 99), (100, 999)])
    c = h.int('c', *c)
    tk = h.choose('tk', ['none', 'token', 'q0', 'q1', 'q2'])
    sep = h.choose('sep', [';', '; '] if tk == 'token' else [';', '; ', ' ; '])
    cause = 'cause=' + str(c)
    if tk == 'none':
        text, val = p + sep + cause, None
    else:
        if tk == 'token':
            val = h.str('t', 1, 2, alphabet=TOK)
            tx = 'text=' + val
        else:
            t, val = quoted(h, 't', int(tk[1]))
            tx = 'text="' + t + '"'
        text = p + sep + (cause + sep + tx if h.choose('first', [True, False]) else tx + sep + cause)
    reparse(h, 'Reason: ' + text, lambda b: [('protocol', b.protocol, p), ('cause', b.cause, c), ('text', b.reason, val)], 'reason')


@scenario('M03', reach=('built',), bounds='Reason text, Warning text of 1..2 arbitrary printable characters given by the application')
def built_text(h):
    """values given by the application survive as well"""
    from sippy.SipReason import SipReason
    from sippy.SipWarning import SipWarning
    from sippy.SipHeader import SipHeader
    t = h.str('t', 1, 2, alphabet=PRINT)
    if h.choose('which', ['reason', 'warning']) == 'reason':
        b = SipReason(protocol='SIP', cause=h.int('c', 100, 999), reason=t)
        b2 = SipHeader('Reason: ' + str(b)).getBody()
        h.check(h.eq((b2.protocol, b2.cause, b2.reason), ('SIP', b.cause, t)), 'reason kept', s=str(b))
    else:
        b = SipWarning(code=h.int('c', 300, 399), text=t)
        s = str(SipHeader(body=b))
        b2 = SipHeader(s).getBody()
        h.check(h.eq((b2.code, b2.agent, b2.text), (b.code, b.agent, t.replace('"', "'"))), 'warning kept', s=s)
    h.reach('built')


@scenario('M03', reach=('warning',), bounds='code 100..999, agent of 1..2 characters, text of 1..2 plain or escaped characters')
def warning(h):
    c = h.int('c', 100, 999)
    ag = h.str('a', 1, 2, alphabet=AL + '-.:[]')
    t, v = quoted(h, 't', h.choose('n', [0, 1, 2]))
    reparse(h, 'Warning: ' + str(c) + ' ' + ag + ' "' + t + '"', lambda b: [('code', b.code, c), ('agent', b.agent, ag), ('text', b.text, t)],
            'warning')


@scenario('M03', reach=('list',), bounds='Allow, Supported (k) with 1..4 entries of 1..2 token characters, white space around the commas')
def token_lists(h):
    hn = h.choose('hn', ['Allow', 'Supported', 'k'])
    n = h.choose('n', [1, 2, 3, 4])
    xs = [h.str('x%d' % i, 1, 2 if i == 0 else 1, alphabet=TOK) for i in range(n)]
    sep = h.choose('sep', [',', ', ', ' ,\t'])
    reparse(h, hn + ': ' + sep.join(xs), lambda b: [('entries', b.methods if hn == 'Allow' else b.caps, xs)], 'list')


@scenario('M03', reach=('ctype',), bounds='type/subtype of 1 symbolic character each, 0..2 parameters with symbolic values, white space')
def content_type(h):
    nm = 'a' + h.str('t', 1, 1, alphabet=TOK) + '/' + h.str('s', 1, 1, alphabet=TOK)
    sep = h.choose('sep', [';', '; ', ' ; '])
    n = h.choose('n', [0, 1, 2])
    ps = [('p%d' % i, h.str('v%d' % i, 1, 2, alphabet=TOK) if i == 0 or h.choose('q', [False, True]) is False else
           '"' + h.str('q', 1, 1, alphabet=QCH.replace(';', '')) + '"') for i in range(n)]
    text = nm + ''.join([sep + k + '=' + v for k, v in ps])
    reparse(h, h.choose('hn', ['Content-Type: ', 'c: ']) + text,
            lambda b: [('type', b.name, nm), ('n', len(b.params), n)] + [('param', b.params.get(k), v) for k, v in ps], 'ctype')


ALGS = [None, 'MD5', 'MD5-sess', 'SHA-256', 'SHA-256-sess', 'SHA-512-256', 'SHA-512-256-sess', 'X']


@scenario('M03', reach=('challenge',),
          bounds='WWW-/Proxy-Authenticate: realm, nonce, opaque of 1..2 arbitrary printable characters (no quote or backslash), qop '
                 'absent/1/2 values quoted or not, 8 algorithms, stale and unknown parameters, 4 orders, white space')
def challenge(h):
    hn = h.choose('hn', ['WWW-Authenticate', 'Proxy-Authenticate'])
    foc = h.choose('focus', ['realm', 'nonce', 'opaque', 'alg', 'other'])
    realm = h.str('realm', 0, 2, alphabet=QCH) if foc == 'realm' else 'a, "b'.replace('"', '')
    nonce = h.str('nonce', 1, 2, alphabet=QCH) if foc == 'nonce' else 'abc=='
    opaque = h.str('opaque', 0, 1, alphabet=QCH) if foc == 'opaque' else None
    alg = h.choose('alg', ALGS) if foc == 'alg' else None
    qop = h.choose('qop', [None, ['auth'], ['auth', 'auth-int'], ['auth-int', 'auth']])
    other = h.str('o', 1, 1, alphabet=TOK) if foc == 'other' else None
    parts = {'r': 'realm="' + realm + '"', 'n': 'nonce="' + nonce + '"'}
    if opaque is not None:
        parts['o'] = 'opaque="' + opaque + '"'
    if alg is not None:
        parts['a'] = 'algorithm=' + alg
    if qop is not None:
        q = (', ' if h.choose('qsp', [False, True]) else ',').join(qop)
        parts['q'] = 'qop="' + q + '"' if len(qop) > 1 or h.choose('qq', [True, False]) else 'qop=' + q
    if other is not None:
        parts['x'] = 'stale=' + other
        parts['y'] = 'domain="sip:a, sip:b"'
    order = h.choose('order', ['rnoaqxy', 'yxqaonr', 'axrnqoy', 'qrynoxa'])
    sep = h.choose('sep', [',', ', ', ' , '])
    text = 'Digest ' + sep.join([parts[c] for c in order if c in parts])

    def probe(b):
        r = [('realm', b.getRealm(), realm), ('nonce', b.getNonce(), nonce), ('opaque', b.opaque, opaque), ('algorithm', b.algorithm, alg),
             ('qop', None if b.qop is None else list(b.qop), qop), ('n', len(b.otherparams), 0 if other is None else 2)]
        if other is not None:
            r.append(('other', sorted([list(x) for x in b.otherparams], key=lambda x: x[0]), [['domain', 'sip:a, sip:b'], ['stale', other]]))
        return r
    reparse(h, hn + ': ' + text, probe, 'challenge')


@scenario('M03', reach=('credentials',),
          bounds='Authorization/Proxy-Authorization: one of user, realm, nonce, uri, cnonce, response of 1..2 arbitrary printable '
                 'characters (no quote or backslash), 8 algorithms, qop/nc/cnonce, opaque, 4 orders, any case of names, white space')
def credentials(h):
    hn = h.choose('hn', ['Authorization', 'Proxy-Authorization'])
    foc = h.choose('focus', ['username', 'realm', 'nonce', 'uri', 'response', 'cnonce', 'alg', 'other'])
    val = {'username': 'bob', 'realm': 'r.com', 'nonce': 'abc==', 'uri': 'sip:x;a=b@h', 'response': '0123', 'cnonce': 'c=1'}
    if foc in val:
        val[foc] = h.str('v', 1, 2, alphabet=QCH)
    alg = h.choose('alg', ALGS) if foc == 'alg' else None
    qop = 'auth' if foc == 'cnonce' else h.choose('qop', [None, 'auth', 'auth-int'])
    nc = h.str('nc', 8, 8, alphabet='01af') if qop is not None and foc == 'alg' else ('00000001' if qop else None)
    parts = {'u': ('username', '"' + val['username'] + '"'), 'r': ('realm', '"' + val['realm'] + '"'), 'n': ('nonce', '"' + val['nonce'] + '"'),
             'i': ('uri', '"' + val['uri'] + '"'), 's': ('response', '"' + val['response'] + '"')}
    if alg is not None:
        parts['a'] = ('algorithm', alg)
    if qop is not None:
        parts['q'] = ('qop', qop)
        parts['c'] = ('cnonce', '"' + val['cnonce'] + '"')
        parts['k'] = ('nc', nc)
    others = []
    if foc == 'other':
        o = '"' + h.str('o', 1, 1, alphabet=QCH) + '"'
        parts['o'] = ('opaque', o)
        others.append(('opaque', o))
    order = h.choose('order', ['urnisaqcko', 'okcqasinru', 'qrukcnsaoi', 'snaikourcq'])
    sep = h.choose('sep', [',', ', ', ' , '])
    up = h.choose('case', [False, True])
    text = 'Digest ' + sep.join([(parts[c][0].upper() if up and c != 'o' else parts[c][0]) + '=' + parts[c][1] for c in order if c in parts])

    def probe(b):
        return [('username', b.username, val['username']), ('realm', b.realm, val['realm']), ('nonce', b.nonce, val['nonce']),
                ('uri', b.uri, val['uri']), ('response', b.response, val['response']), ('algorithm', b.algorithm, alg), ('qop', b.qop, qop),
                ('cnonce', b.cnonce, val['cnonce'] if qop else None), ('nc', b.nc, nc), ('others', [tuple(x) for x in b.otherparams], others)]
    reparse(h, hn + ': ' + text, probe, 'credentials')


NAMES = {'cseq': ('CSeq', '1 INVITE'), 'call-id': ('Call-ID i', 'a@b'), 'from': ('From f', '<sip:a@b>'), 'to': ('To t', '<sip:a@b>'),
         'max-forwards': ('Max-Forwards', '70'), 'via': ('Via v', 'SIP/2.0/UDP h'), 'content-length': ('Content-Length l', '0'),
         'content-type': ('Content-Type c', 'a/b'), 'expires': ('Expires', '3'), 'record-route': ('Record-Route', '<sip:a>'),
         'route': ('Route', '<sip:a>'), 'contact': ('Contact m', '<sip:a>'), 'www-authenticate': ('WWW-Authenticate', 'Digest realm="a",nonce="b"'),
         'authorization': ('Authorization', 'Digest username="a"'), 'server': ('Server', 'x'), 'user-agent': ('User-Agent', 'x'),
         'cisco-guid': ('cisco-GUID h323-conf-id', '1-2-3-4'), 'also': ('Also', '<sip:a>'), 'refer-to': ('Refer-To r', '<sip:a>'),
         'cc-diversion': ('CC-Diversion', '<sip:a>'), 'referred-by': ('Referred-By b', '<sip:a>'),
         'proxy-authenticate': ('Proxy-Authenticate', 'Digest realm="a",nonce="b"'), 'proxy-authorization': ('Proxy-Authorization', 'Digest username="a"'),
         'replaces': ('Replaces', 'a;from-tag=b;to-tag=c'), 'p-asserted-identity': ('P-Asserted-Identity', '<sip:a>'),
         'reason': ('Reason', 'SIP;cause=3'), 'allow': ('Allow', 'A'), 'supported': ('Supported k', 'x'), 'rseq': ('RSeq', '1'),
         'rack': ('RAck', '1 2 INVITE'), 'warning': ('Warning', '300 a "b"'), 'diversion': ('Diversion', '<sip:a>'), 'path': ('Path', '<sip:a>'),
         'x-foo': ('X-Foo', 'bar')}


@scenario('M03', reach=('name',), bounds='every known long and compact header name (and an unknown one), each letter in either case')
def names(h):
    """any spelling of a header name leads to the same header; formatted names lead there as well"""
    from sippy.SipHeader import SipHeader
    canon = h.choose('canon', sorted(NAMES))
    spell, body = NAMES[canon]
    spell = h.choose('spelling', spell.split(' '))
    n = ''
    for i, c in enumerate(spell):
        n += c if not c.isalpha() else h.str('c%d' % i, 1, 1, alphabet=c.lower() + c.upper())
    hd = SipHeader(n + h.choose('ws', ['', ' ']) + ': ' + body, fixname=True)
    ref = SipHeader(spell + ': ' + body, fixname=True)
    h.check(hd.name == canon, 'name', got=hd.name)
    h.check(type(hd.body) == type(ref.body) and h.eq(str(hd.body), body), 'same header')
    hd.getBody()
    for t in (str(hd), hd.localStr(None, True), hd.localStr(None, False)):
        h.check(SipHeader(t, fixname=True).name == canon, 'formatted name leads to the same header', t=t)
    h.reach('name')
