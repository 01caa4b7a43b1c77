"""M02: address headers."""
from symx.runner import scenario, quick
from symx import env
from harness.sip import *

PRINT = ''.join(chr(i) for i in range(32, 127))
QCH = PRINT.replace('"', '').replace('\\', '')
TOK = ''.join(chr(i) for i in range(33, 127) if chr(i).isalnum()) + "-.!%*_+`'~"
HEADERS = ['From', 'To', 'Contact', 'Route', 'Record-Route', 'Refer-To', 'P-Asserted-Identity', 'Diversion', 'Path',
           'Referred-By', 'Also', 'CC-Diversion', 'f', 't', 'm', 'r']
LISTS = ['Contact', 'Route', 'Record-Route', 'P-Asserted-Identity', 'Diversion', 'Path', 'm']
CANON = {'f': 'from', 't': 'to', 'm': 'contact', 'r': 'refer-to', 'b': 'referred-by'}


def display(h, s='', n=2):
    """(text, value) of a display name"""
    k = h.choose('dn' + s, ['none', 'token', 'tokens', 'quoted', 'escaped', 'empty'])
    if k == 'none':
        return '', ''
    if k == 'token':
        t = h.str('tok' + s, 1, 1, alphabet=TOK) + 'b'
        return t + ' ', t
    if k == 'tokens':
        t = 'A' + h.str('tok' + s, 1, 1, alphabet=TOK) + ' B'
        return t + ' ', t
    if k == 'empty':
        return '"" ', ''
    sp = h.choose('sp' + s, ['', ' '])
    if k == 'quoted':
        t = h.str('q' + s, n, n, alphabet=QCH)
    else:
        t = h.choose('pos' + s, ['', 'a', ',', '<']) + '\\' + h.str('e' + s, 1, 1, alphabet=PRINT) \
            + h.choose('post' + s, ['', 'z', ';>'])
    return '"' + t + '"' + sp, t


URLS = [('sip:bob@h.com', 'bob'), ('sip:h.com;lr', None), ('sip:b,c;p@h.com:5070;x=1;lr?a=b', 'b,c'), ('sips:bob@[2001:db8::1]:5061', 'bob')]


def params(h, s='', mx=2):
    """(text, [(name, value)])"""
    out = []
    t = ''
    n = h.choose('np' + s, list(range(mx + 1)))
    for i in range(n):
        k = h.choose('pk%s%d' % (s, i), ['tag', 'flag', 'value', 'quoted', 'ws'] if i == 0 else ['value', 'tag'])
        nm = 'n%d' % i
        if k == 'tag' and not any(x[0] == 'tag' for x in out):
            v = h.str('tag%s%d' % (s, i), 1, 1, alphabet=TOK)
            t += ';tag=' + v
            out.append(('tag', v))
        elif k == 'flag':
            nm = nm + h.str('fl%s%d' % (s, i), 1, 1, alphabet=TOK)
            t += ';' + nm
            out.append((nm, None))
        elif k == 'quoted':
            v = '"' + h.str('qv%s%d' % (s, i), 1, 1, alphabet=QCH) + h.choose('qe' + s, ['', '\\"', '\\\\']) + '"'
            t += ';' + nm + '=' + v
            out.append((nm, v))
        elif k == 'ws':
            v = h.str('wv%s%d' % (s, i), 1, 1, alphabet=TOK)
            t += ' ; ' + nm + ' = ' + v
            out.append((nm, v))
        else:
            v = h.str('pv%s%d' % (s, i), 1, 1, alphabet=TOK + '[]:')
            t += ';' + nm + '=' + v
            out.append((nm, v))
    return t, out


def verify(h, addr, name, url, pars, what):
    from sippy.SipURL import SipURL
    h.check(h.eq(addr.name or '', name), what + ': display name', got=addr.name, want=name)
    u = SipURL(url)
    h.check(str(addr.url) == str(u), what + ': URI', got=str(addr.url))
    for f in ('scheme', 'username', 'host', 'port', 'lr', 'other', 'userparams'):
        h.check(h.eq(getattr(addr.url, f), getattr(u, f)), what + ': URI ' + f)
    h.check(len(addr.params) == len(pars), what + ': number of parameters', got=len(addr.params))
    for n, v in pars:
        g = addr.getParam(n)
        h.check((g is None) == (v is None), what + ': parameter value present', n=n)
        if v is not None:
            h.check(h.eq(g, v), what + ': parameter value', n=n, got=g, want=v)


def verify_text(h, text, pars, what):
    """the parameters appear in order at the end of the formatted text"""
    tail = ''
    for n, v in pars:
        tail += ';' + n + ('' if v is None else '=' + v)
    h.check(text.endswith(tail), what + ': parameters in order', text=text, tail=tail)


@scenario('M02', reach=('brackets',),
          bounds='16 header names; display name absent, token, words, quoted (2 arbitrary printable characters), with an escape of '
                 'any character, empty; 4 URIs; 0..2 parameters: tag, flag, token, quoted value, white space around')
def single(h):
    """one bracketed address"""
    from sippy.SipHeader import SipHeader
    foc = h.choose('focus', ['name', 'params', 'url'])
    hn = h.choose('hdr', HEADERS if foc == 'url' else ['From', 'Contact'])
    dt, name = display(h) if foc == 'name' else h.choose('d0', [('', ''), ('"A, <B>;c" ', 'A, <B>;c')])
    url = h.choose('url', URLS if foc == 'url' else URLS[2:3])[0]
    pt, pars = params(h) if foc == 'params' else h.choose('p0', [('', []), (';tag=a;z', [('tag', 'a'), ('z', None)])])
    text = dt + '<' + url + '>' + pt
    hd = SipHeader(hn + ': ' + text, fixname=True)
    h.check(hd.name == CANON.get(hn, hn.lower()), 'header name')
    h.check(str(hd.body) == text, 'unparsed text kept')
    b = hd.getBody()
    h.reach('brackets')
    verify(h, b.getUri(), name, url, pars, 'parsed')
    h.check(str(b.getUrl()) == str(b.getUri().url), 'getUrl')
    if hasattr(b, 'getTag'):
        h.check(h.eq(b.getTag(), dict(pars).get('tag')), 'tag')
    out = str(hd)
    verify_text(h, out, pars, 'formatted')
    hd2 = SipHeader(out, fixname=True)
    h.check(hd2.name == hd.name, 'header name of the formatted text')
    verify(h, hd2.getBody().getUri(), name, url, pars, 'reparsed')
    loc = hd.localStr((('10.1.1.1', 5060), 'udp'), h.choose('compact', [False, True]))
    hd3 = SipHeader(loc, fixname=True)
    h.check(hd3.name == hd.name, 'header name of the local text')
    verify(h, hd3.getBody().getUri(), name, url, pars, 'local')


@scenario('M02', reach=('plain',),
          bounds='12 headers, sip/sips URI without brackets, user of 1 symbolic character, port, 0..2 parameters')
def plain(h):
    """an address without brackets: the parameters belong to the header"""
    from sippy.SipHeader import SipHeader
    hn = h.choose('hdr', HEADERS[:12])
    url = h.choose('url', ['sip:', 'SIP:', 'sips:']) + h.str('u', 1, 1, alphabet='aZ9-_.!~*') + '@h.com' + h.choose('p', ['', ':5070'])
    pt, pars = params(h)
    hd = SipHeader(hn + ': ' + url + pt, fixname=True)
    b = hd.getBody()
    h.reach('plain')
    verify(h, b.getUri(), '', url, pars, 'parsed')
    out = str(hd)
    verify_text(h, out, pars, 'formatted')
    verify(h, SipHeader(out, fixname=True).getBody().getUri(), '', url, pars, 'reparsed')


@scenario('M02', reach=('list', 'single'),
          bounds='lists of 1..3 addresses in 7 headers, arbitrary quoted display names, bracketed/plain entries, parameters, '
                 'with and without space around the commas; inside a whole message')
def lists(h):
    """a comma-separated list gives exactly its entries in order"""
    from sippy.SipResponse import SipResponse
    form = h.choose('form', ['name', 'esc', 'params', 'plain'])
    hn = h.choose('hdr', LISTS if form == 'params' else ['Contact', 'Route'])
    n = h.choose('n', [1, 2, 3] if form == 'params' or not quick() else [2])
    sep = h.choose('sep', [',', ', ', ' , '] if form == 'params' or not quick() else [', '])
    which = h.choose('which', list(range(n)))
    entries = []
    for i in range(n):
        if i == which:
            k = form
            if k == 'name':
                nm = h.str('q', 2, 2, alphabet=QCH)
                e = ('"' + nm + '" <sip:u@h.com>', nm, 'sip:u@h.com', [])
            elif k == 'esc':
                nm = h.choose('pre', ['', 'a', '<', ',']) + '\\' + h.str('e', 1, 1, alphabet=PRINT) + h.choose('post', ['', ','])
                e = ('"' + nm + '" <sip:u,v@h.com>', nm, 'sip:u,v@h.com', [])
            elif k == 'params':
                v = '"' + h.str('qv', 1, 1, alphabet=QCH) + '"'
                e = ('<sip:u@h.com;lr>;x=' + v + ';y', '', 'sip:u@h.com;lr', [('x', v), ('y', None)])
            else:
                v = '"' + h.str('qv', 1, 1, alphabet=QCH.replace('<', '').replace('>', '')) + '"'
                e = ('sip:u@h.com;x=' + v, '', 'sip:u@h.com', [('x', v)])
        else:
            k = h.choose('other', ['<', 'p', '"'] if hn == 'Contact' else ['<']) if i == (which + 1) % n else '<'
            if k == '<':
                e = ('<sip:b%d@h.com>;p=%d' % (i, i), '', 'sip:b%d@h.com' % i, [('p', str(i))])
            elif k == 'p':
                e = ('sip:c%d@h.com' % i, '', 'sip:c%d@h.com' % i, [])
            else:
                e = ('"X, Y" <sip:d%d@h.com>' % i, 'X, Y', 'sip:d%d@h.com' % i, [])
        entries.append(e)
    msg = SipResponse(response_to(request('OPTIONS'), 200, contact=None, extra=('X-A: 1', hn + ': ' + sep.join([e[0] for e in entries]), 'X-B: 2')))
    bodys = msg.getHFBodys(CANON.get(hn, hn.lower()))
    h.reach('list' if n > 1 else 'single')
    h.check(len(bodys) == n, 'number of entries', got=len(bodys), n=n)
    for b, e in zip(bodys, entries):
        verify(h, b.getUri(), e[1], e[2], e[3], 'entry')
    msg2 = SipResponse(str(msg))
    bodys = msg2.getHFBodys(CANON.get(hn, hn.lower()))
    h.check(len(bodys) == n, 'number of entries after formatting')
    for b, e in zip(bodys, entries):
        verify(h, b.getUri(), e[1], e[2], e[3], 'entry after formatting')


@scenario('M02', reach=('star',), bounds='Contact/m: *, in both header names, copied, formatted, within a message')
def star(h):
    """the asterisk Contact"""
    from sippy.SipResponse import SipResponse
    hn = h.choose('hdr', ['Contact', 'm', 'CONTACT'])
    sp = h.choose('sp', ['', ' ', '  '])
    msg = SipResponse(response_to(request('REGISTER'), 200, contact=None, extra=(hn + ':' + sp + '*' + sp,)))
    for i in range(h.choose('copies', [0, 1, 2])):
        msg = msg.getCopy()
    b = msg.getHFBody('contact')
    h.check(b.asterisk, 'recognised')
    h.check(str(b) == '*', 'kept')
    m2 = SipResponse(str(msg))
    h.check(m2.getHFBody('contact').asterisk and hval(str(msg), 'contact') == '*', 'kept in the formatted message')
    h.reach('star')


@scenario('M02', reach=('ok',),
          bounds='address built from parts: name of 0..2 printable characters without quote/backslash, 4 URIs, 0..3 parameters '
                 'set, replaced and deleted in any of several orders')
def built(h):
    """addresses built by the application"""
    from sippy.SipAddress import SipAddress
    from sippy.SipURL import SipURL
    name = h.str('name', 0, 2, alphabet=QCH)
    url = h.choose('url', URLS)[0]
    a = SipAddress(name=name if h.choose('none', [False, True]) is False else None, url=SipURL(url))
    if a.name is None:
        name = ''
    ops = h.choose('ops', [(), ('a',), ('a', 'b'), ('a', 'b', 'a2'), ('a', 'b', '-a'), ('a', 'b', '-a', 'a2'), ('f', 'a')])
    pars = []
    v = h.str('v', 1, 1, alphabet=TOK)
    for o in ops:
        if o == 'a':
            a.setParam('a', v)
            pars.append(('a', v))
        elif o == 'a2':
            a.setParam('a', 'new')
            if any(p[0] == 'a' for p in pars):
                pars = [('a', 'new') if p[0] == 'a' else p for p in pars]
            else:
                pars.append(('a', 'new'))
        elif o == 'b':
            a.setParam('b', '2')
            pars.append(('b', '2'))
        elif o == '-a':
            a.delParam('a')
            pars = [p for p in pars if p[0] != 'a']
        else:
            a.setParam('flag')
            pars.append(('flag', None))
    t = str(a)
    verify_text(h, t, pars, 'formatted')
    # surrounding white space of an unquoted or quoted name is not significant to the oracle only when stripped equal
    b = SipAddress(t)
    h.check(h.eq(b.name or '', name), 'display name', got=b.name, want=name)
    verify(h, b, name, url, pars, 'reparsed')
    h.reach('ok')
