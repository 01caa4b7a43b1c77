"""M01: SIP URIs."""
from symx.runner import scenario, quick
from symx import env

UNRES = ''.join(chr(i) for i in range(33, 127) if chr(i).isalnum()) + '-_.!~*\'()'
USERCH = UNRES + '&=+$,?/#'
PASSCH = UNRES + '&=+$,'
PARCH = UNRES + '[]/:&+$'
HDRCH = UNRES + '[]/?:+$'
HOSTCH = ''.join(chr(i) for i in range(33, 127) if chr(i).isalnum()) + '-.'
PRINT = ''.join(chr(i) for i in range(32, 127))
HEX = '0123456789ABCDEFabcdef'

FIELDS = ('scheme', 'username', 'userparams', 'password', 'host', 'port', 'usertype', 'transport', 'ttl', 'maddr',
          'method', 'tag', 'other', 'lr')


def same(h, a, b, what):
    for f in FIELDS:
        x, y = getattr(a, f), getattr(b, f)
        h.check((x is None) == (y is None), '%s: %s kept' % (what, f), a=x, b=y)
        if x is not None:
            h.check(h.eq(x, y), '%s: %s equal' % (what, f), a=x, b=y)
    x, y = a.headers or {}, b.headers or {}
    h.check(len(x) == len(y), '%s: number of headers' % what)
    for (k, v), (k2, v2) in zip(x.items(), y.items()):
        h.check(h.all(h.eq(k, k2), h.eq(v, v2)), '%s: header' % what, a=v, b=v2)


def expect(h, u, **want):
    for f in FIELDS:
        w = want.get(f, [] if f in ('userparams', 'other') else (False if f == 'lr' else ('sip' if f == 'scheme' else None)))
        g = getattr(u, f)
        h.check((g is None) == (w is None), 'component %s present' % f, got=g, want=w)
        if w is not None:
            h.check(h.eq(g, w), 'component %s' % f, got=g, want=w)
    hd = want.get('headers', {})
    got = u.headers or {}
    h.check(len(got) == len(hd), 'number of headers')
    for (k, v), (k2, v2) in zip(hd.items(), got.items()):
        h.check(h.all(h.eq(k, k2), h.eq(v, v2)), 'header', got=v2, want=v)


PARAMSETS = [
    {}, {'transport': 'tcp'}, {'usertype': 'phone'}, {'ttl': 15, 'maddr': '239.1.2.3'}, {'method': 'REGISTER'},
    {'tag': 'a-b'}, {'lr': True}, {'other': ['npdi', 'x=1']},
    {'transport': 'udp', 'usertype': 'ip', 'ttl': 0, 'maddr': 'h', 'method': 'BYE', 'tag': 't', 'other': ['b', 'a=2', 'c'],
     'lr': True}]
HOSTS = ['example.com', '10.0.0.1', '[2001:db8::10]', 'a']


@scenario('M01', reach=('user', 'params', 'headers'),
          bounds='URI built from components: user of 0..2 (thorough 3) arbitrary printable ASCII characters plus two '
                 'non-ASCII samples, password/user-parameter presence, 4 host forms, port absent or any of 1..65535, 9 '
                 'parameter sets, 0..2 headers with a value of one arbitrary printable character')
def components(h):
    """format -> parse gives the same components"""
    from sippy.SipURL import SipURL
    kind = h.choose('kind', ['user', 'params', 'headers'])
    kw = {}
    h.reach(kind)
    if kind == 'user':
        n = h.choose('ulen', [0, 1, 2, 'u1', 'u2'] if quick() else [0, 1, 2, 3, 'u1', 'u2'])
        if n == 'u1':
            kw['username'] = 'J\u00fcrgen\u20ac' + h.str('u', 1, 1, alphabet=PRINT)
        elif n == 'u2':
            kw['username'] = '\U0001f600;%41:' + h.str('u', 1, 1, alphabet=PRINT)
        else:
            kw['username'] = h.str('u', n, n, alphabet=PRINT)
        if n != 0:
            ex = h.choose('extra', ['', 'p', 'up', 'both'])
            if ex in ('p', 'both'):
                kw['password'] = h.str('pw', 1, 1, alphabet=PASSCH) + '%3A'
            if ex in ('up', 'both'):
                kw['userparams'] = ['phone-context=+1', h.str('upar', 1, 1, alphabet=UNRES)]
        kw['host'] = 'example.com'
    elif kind == 'params':
        if h.choose('hasuser', [True, False]):
            kw['username'] = 'bob'
        kw['host'] = h.choose('host', HOSTS)
        if h.choose('hasport', [False, True]):
            kw['port'] = h.int('port', 1, 65535)
        kw.update(h.choose('params', PARAMSETS))
        kw['scheme'] = h.choose('scheme', ['sip', 'sips'])
    else:
        if h.choose('hasuser', [True, False]):
            kw['username'] = 'bob'
        kw['host'] = 'example.com'
        kw.update(h.choose('params', [{}, {'lr': True}, {'other': ['x=1']}]))
        nh = h.choose('nh', [1, 2])
        hd = {'Route': 'a' + h.str('hv', 0, 1, alphabet=PRINT) + '\u00fc'}
        if nh == 2:
            hd['b'] = h.str('hv2', 1, 1, alphabet=PRINT)
        kw['headers'] = hd
    u = SipURL(**kw)
    t = str(u)
    u2 = SipURL(t)
    same(h, u, u2, 'reparsed')
    h.check(str(u2) == t, 'text is stable')
    if kind == 'user' and n in (1, 2, 3):
        # nothing of the user part can be mistaken for a delimiter
        at = t.find('@')
        sub = t[4:4 + len(t)]
        ulen = 0
        body = t[4:at]
        for d in (';', ':'):
            k = body.find(d)
            want = {';': 'userparams' in kw, ':': 'password' in kw}[d]
            h.check((k >= 0) == want, 'special characters of the user are escaped', t=t)
    h.check(u2.getPort() == (kw.get('port') or 5060), 'default port')
    ha = h.choose('acc', ['addr', 'taddr'])
    if ha == 'addr':
        h.check(h.eq(u2.getAddr(), (kw['host'], kw.get('port') or 5060)), 'address')
    else:
        h.check(h.eq(u2.getTAddr(), ((kw['host'], kw.get('port') or 5060), kw.get('transport') or 'udp')), 'target')


def unit(h, nm, chars, hexok=True):
    """one grammatical character of a component: (text, value)"""
    k = h.choose(nm + '.k', ['plain', 'esc'] if hexok else ['plain'])
    if k == 'plain':
        c = h.str(nm, 1, 1, alphabet=chars)
        return c, c
    hi = h.str(nm + '.hi', 1, 1, alphabet='234567')
    lo = h.str(nm + '.lo', 1, 1, alphabet=HEX)
    return '%' + hi + lo, chr(int(hi + lo, 16))


@scenario('M01', reach=('user', 'host', 'params', 'headers'),
          bounds='URI text from the grammar: user of 1..2 (3) plain or escaped characters, password, user parameters; host of '
                 '1..3 characters or IPv6, port of 1..5 digits; 1..2 parameters (known names in any case or unknown) with '
                 'symbolic values; 1..2 headers with escapes')
def grammar(h):
    """parsing gives the components of the grammar; formatting and parsing again keeps them"""
    from sippy.SipURL import SipURL
    kind = h.choose('kind', ['user', 'host', 'params', 'headers'])
    h.reach(kind)
    want = {'host': 'h.com'}
    scheme = 'sip:'
    if kind == 'user':
        n = h.choose('n', [1, 2] if quick() else [1, 2, 3])
        units = [unit(h, 'u%d' % i, USERCH) for i in range(n)]
        t = ''.join(x[0] for x in units)
        want['username'] = ''.join(x[1] for x in units)
        form = h.choose('form', ['', ';p', ';p;q=1', ':w', ';p:w', ':'])
        if ';p' in form:
            p = h.str('up', 1, 1, alphabet=UNRES + '%&=+$/')
            t += ';' + p
            want['userparams'] = [p]
            if ';q' in form:
                t += ';q=1'
                want['userparams'] = [p, 'q=1']
        if ':' in form:
            w = h.str('pw', 1, 1, alphabet=PASSCH) if ':w' in form else ''
            t += ':' + w
            want['password'] = w
        t += '@h.com'
    elif kind == 'host':
        scheme = h.choose('scheme', ['sip:', 'SIP:', 'sips:', 'SipS:', ''])
        want['scheme'] = 'sips' if scheme.lower().startswith('sips') else 'sip'
        hk = h.choose('hk', ['name', 'v6'])
        if hk == 'name':
            host = h.str('host', 1, 3, alphabet=HOSTCH)
        else:
            host = '[' + h.str('h6', 1, 3, alphabet='0123456789abcdefABCDEF:.') + ']'
        want['host'] = host
        user = h.choose('user', ['', 'bob@', '@'])
        if user:
            want['username'] = user[:-1]
        t = user + host
        pl = 0 if scheme == '' else h.choose('plen', [0, 1, 4, 5])
        if pl:
            port = h.int('port', 10 ** (pl - 1), min(10 ** pl - 1, 65535))
            t += ':' + str(port)
            want['port'] = port
        if scheme == '' and hk == 'v6':
            return
    elif kind == 'params':
        t = h.choose('pre', ['h.com', 'bob@h.com', 'h.com:5070'])
        if t[0] == 'b':
            want['username'] = 'bob'
        if t[-1] == '0':
            want['port'] = 5070
        other = []
        names = h.choose('names', [('lr',), ('LR',), ('lr=on',), ('transport',), ('Transport',), ('user',), ('ttl',), ('maddr',),
                                   ('method',), ('tag',), ('?',), ('?', '?='), ('?=', 'lr', '?'), ('transport', '?=', 'user')])
        for i, nm in enumerate(names):
            if nm in ('lr', 'LR', 'lr=on'):
                t += ';' + nm
                want['lr'] = True
            elif nm == '?':
                x = 'x' + h.str('f%d' % i, 1, 1, alphabet=PARCH)
                t += ';' + x
                other.append(x)
            elif nm == '?=':
                x = 'y' + h.str('f%d' % i, 1, 1, alphabet=PARCH) + '=' + h.str('v%d' % i, 0, 1, alphabet=PARCH + '%')
                t += ';' + x
                other.append(x)
            elif nm == 'ttl':
                v = h.int('ttl', 0, 255)
                t += ';ttl=' + str(v)
                want['ttl'] = v
            else:
                v = h.str('pv%d' % i, 1, 2, alphabet=PARCH)
                t += ';' + nm + '=' + v
                want[{'user': 'usertype', 'Transport': 'transport'}.get(nm, nm)] = v
        want['other'] = other
    else:
        pre = h.choose('pre', ['h.com', 'bob@h.com', 'h.com;lr', 'bob@h.com;x=1', 'h.com:5070'])
        t = pre
        if pre[0] == 'b':
            want['username'] = 'bob'
        if pre.endswith('lr'):
            want['lr'] = True
        if pre.endswith('x=1'):
            want['other'] = ['x=1']
        if pre[-1] == '0':
            want['port'] = 5070
        n = h.choose('n', [0, 1, 2])
        units = [unit(h, 'h%d' % i, HDRCH) for i in range(n)]
        hn = 'n' + h.str('hn', 1, 1, alphabet=UNRES)
        t += '?' + hn + '=' + ''.join(x[0] for x in units)
        want['headers'] = {hn: ''.join(x[1] for x in units)}
        if h.choose('second', [False, True]):
            t += '&zz=%20y'
            want['headers']['zz'] = ' y'
    u = SipURL(scheme + t)
    expect(h, u, **want)
    s = str(u)
    same(h, u, SipURL(s), 'reparsed')


@scenario('M01', reach=('accepted', 'refused'),
          bounds='any text "sip:" + prefix + 3 (thorough 4) characters out of a1:@;=?&%[]<.# and 0xFC + suffix, with a host' 
                 'that is not empty')
def raw(h):
    """whatever text is accepted, formatting it gives a text of the same URI"""
    from sippy.SipURL import SipURL
    n = 3 if quick() else 4
    pre, post = h.choose('frame', [('', ''), ('u@h', ''), ('', '@h'), ('u', ':5@h:7;lr'), ('h;', '=1'), ('h?a=', '')])
    t = 'sip:' + pre + h.str('t', n, n, alphabet='a1:@;=?&%[]<.#\xfc') + post
    try:
        u = SipURL(t)
    except Exception:
        h.reach('refused')
        return
    if len(u.host) == 0:
        return
    h.reach('accepted')
    s = str(u)
    try:
        u2 = SipURL(s)
    except Exception as e:
        h.fail('the formatted text is accepted again', exc=repr(e), s=s)
    same(h, u, u2, 'reparsed')


@scenario('M01', reach=('ok',), bounds='tel: text converted (autoconvert_tel_url): 1..2 number characters, 0..1 parameter')
def tel(h):
    """a converted tel: URI survives as well"""
    from sippy.SipURL import SipURL
    from sippy.SipConf import SipConf
    SipConf.autoconvert_tel_url = True
    num = h.str('n', 1, 2, alphabet='+0123456789-.()*#')
    par = h.choose('par', ['', ';phone-context=+1', ';EXT=12'])
    u = SipURL('tel:' + num + par)
    h.check(u.scheme == 'sip' and u.username == num, 'number')
    h.check(u.userparams == ([] if not par else ['phone-context=+1'] if 'p' in par else ['ext=12']), 'parameters')
    u.host = 'gw.com'
    u.port = None
    u.transport = None
    same(h, u, SipURL(str(u)), 'reparsed')
    h.reach('ok')


@scenario('M01', reach=('ok',), bounds='wildcard URI formatted for any local port 1..65535, UDP or WSS')
def local(h):
    """a URI of our own address is formatted with the local address it is sent from"""
    from sippy.SipURL import SipURL
    from sippy.SipConf import SipConf, MyAddress
    SipConf.my_address = MyAddress()
    port = h.int('port', 1, 65535)
    tr = h.choose('tr', ['udp', 'wss'])
    u = SipURL(username='bob')
    t = u.localStr((('10.1.1.1', port), tr))
    u2 = SipURL(t)
    h.check(u2.username == 'bob' and u2.host == '10.1.1.1', 'local host')
    h.check(u2.getPort() == port, 'local port', t=t)
    h.check(u2.transport == (None if tr == 'udp' else 'wss'), 'local transport', t=t)
    h.reach('ok')
