"""T06: responses follow the Via and mirror the request."""
from symx.runner import scenario, quick
from symx import env
from symx.env import SENT, CLK, T0, DUMPS
from harness.sip import *


def via_parse(v):
    """(protocol, host, port or None, {param: value})"""
    proto, rest = v.split(' ', 1)
    parts = rest.split(';')
    hp = parts[0].strip()
    if hp.startswith('['):
        i = hp.find(']')
        host, rem = hp[:i + 1], hp[i + 1:]
        port = int(rem[1:]) if rem.startswith(':') else None
    elif ':' in hp:
        host, port = hp.split(':', 1)
        port = int(port)
    else:
        host, port = hp, None
    pars = {}
    for p in parts[1:]:
        if '=' in p:
            k, x = p.split('=', 1)
            pars[k] = x
        else:
            pars[p] = None
    return proto, host, port, pars


def top_via(h):
    """a symbolic top Via and the source it arrives from"""
    kind = h.choose('vhost', ['v4', 'v6', 'name'])
    if kind == 'v4':
        host = '10.0.0.' + h.str('vh', 1, 1, alphabet='23')
        src = '10.0.0.' + h.str('sh', 1, 1, alphabet='23')
    elif kind == 'v6':
        host = '[2001:db8::' + h.str('vh', 1, 1, alphabet='12') + ']'
        src = '[2001:db8::' + h.str('sh', 1, 1, alphabet='12') + ']'
    else:
        host, src = 'ua.example.com', '10.0.0.2'
    sport = h.int('sport', 1000, 9999)
    port = h.int('vport', 1000, 9999) if h.choose('hasport', [True, False]) else None
    rport = h.choose('rport', ['none', 'empty', 'value'])
    received = h.choose('received', [None, '10.9.9.9'])
    v = 'SIP/2.0/UDP ' + host
    if port is not None:
        v = v + ':' + str(port)
    if rport == 'empty':
        v += ';rport'
    v += ';branch=z9hG4bKtop'
    if rport == 'value':
        v = v + ';rport=' + str(h.int('rpv', 1000, 9999))
    if received is not None:
        v += ';received=' + received
    return v, host, port, rport, received, src, sport


def expect(h, tv):
    """(received address or None, rport or None, destination) by RFC 3261 18.2 / RFC 3581"""
    v, host, port, rport, received, src, sport = tv
    rcv = received
    if host != src:
        rcv = src
    rp = sport if rport != 'none' else None
    dst = (rcv if rcv is not None else host, rp if rp is not None else (port if port is not None else 5060))
    return rcv, rp, dst


OTHER = 'SIP/2.0/UDP 10.0.2.1:5070;branch=z9hG4bKother'
OTHER2 = 'SIP/2.0/TCP proxy.example.com;branch=z9hG4bKo2;received=1.2.3.4'


def stack(h, top):
    n = h.choose('vias', ['one', 'two', 'three', 'joined'])
    if n == 'one':
        return [top], [top]
    if n == 'two':
        return [top, OTHER], [top, OTHER]
    if n == 'three':
        return [top, OTHER, OTHER2], [top, OTHER, OTHER2]
    return [top + ', ' + OTHER], [top, OTHER]


def check_via(h, text, vias, tv):
    rcv, rp, dst = expect(h, tv)
    got = hvals(text, 'via')
    h.check(len(got) == len(vias), 'all Vias mirrored', n=len(got))
    proto, host, port, pars = via_parse(got[0])
    p0, h0, pt0, pars0 = via_parse(vias[0])
    h.check(proto == p0 and host == h0, 'top Via host')
    h.check(port == pt0 if pt0 is not None else port is None, 'top Via port')
    h.check(pars.get('branch') == 'z9hG4bKtop', 'top Via branch')
    h.check(pars.get('received') == rcv if rcv is not None else 'received' not in pars, 'received address recorded')
    h.check(pars.get('rport') == str(rp) if rp is not None else 'rport' not in pars, 'source port recorded')
    for a, b in zip(got[1:], vias[1:]):
        h.check(a == b, 'lower Vias unchanged and in order')


@scenario('T06', reach=('differs', 'same', 'final'),
          bounds='IPv4/IPv6/name Via hosts (1 symbolic character) against the source, symbolic ports 1000..9999, rport '
                 'absent/empty/filled, received absent/given, stacks of 1..3 Vias (also comma joined), 0..2 Record-Route')
def app_responses(h):
    """responses of the application"""
    tm, gc, app = tm_app('keep')
    tv = top_via(h)
    v, host, port, rport, received, src, sport = tv
    lines, vias = stack(h, v)
    A = ('Alice <sip:alice@10.0.0.2>;tag=ft1', '<sip:bob@10.0.0.1>')
    B = ('<sip:alice@10.0.0.2>;tag=ft1;x=y', '"B. C, D" <sip:bob@10.0.0.1>;tag=tt1')
    R1, R2 = '<sip:10.0.0.5;lr>', '<sip:p2@10.0.0.6:5061;lr;x=1>'
    m, (frm, to), rr = h.choose('shape', [('INVITE', A, ()), ('INVITE', B, (R1, R2)), ('OPTIONS', A, (R1,))])
    cs = h.int('cseq', 100, 999)
    data = request(m, via=lines, frm=frm, to=to, cseq=str(cs), callid='Cid@x', extra=tuple('Record-Route: ' + x for x in rr))
    env.deliver(tm, data, (src, sport))
    h.check(len(app.reqs) == 1, 'delivered')
    req = app.reqs[0]
    if host != src:
        h.reach('differs')
    else:
        h.reach('same')
    rcv, rp, dst = expect(h, tv)
    # what the application sees
    rv = via_parse(str(req.getHF('via').getBody()))
    h.check(rv[3].get('received') == rcv if rcv is not None else 'received' not in rv[3], 'application sees received')
    h.check(rv[3].get('rport') == str(rp) if rp is not None else 'rport' not in rv[3], 'application sees rport')
    totags = []
    for code in (100, 180, h.choose('code', [200, 302, 404, 603])):
        n0 = len(SENT)
        tm.sendResponse(req.genResponse(code, 'Some Reason'))
        h.check(len(SENT) == n0 + 1, 'one datagram', code=code)
        s = SENT[-1]
        text = s[1]
        h.check(h.eq(s[2], dst), 'destination', got=s[2], want=dst)
        h.check(text.split('\r\n', 1)[0] == 'SIP/2.0 %d Some Reason' % code, 'status line')
        check_via(h, text, vias, tv)
        h.check(hvals(text, 'from') == [frm], 'From mirrored')
        h.check(hvals(text, 'call-id') == ['Cid@x'], 'Call-ID mirrored')
        h.check(hvals(text, 'cseq') == [str(cs) + ' ' + m], 'CSeq mirrored')
        h.check(hvals(text, 'record-route') == list(rr), 'Record-Route mirrored')
        got = hvals(text, 'to')
        h.check(len(got) == 1, 'one To')
        if ';tag=' in to:
            h.check(got[0] == to, 'To mirrored')
        elif code == 100:
            h.check(got[0].split(';tag=')[0] == to, 'To mirrored')
        else:
            h.check(got[0].startswith(to + ';tag=') and len(got[0]) > len(to + ';tag='), 'To has a tag')
    h.reach('final')
    # a copy of the request is answered the same way
    n0 = len(SENT)
    env.deliver(tm, data, (src, sport))
    h.check(len(SENT) == n0 + 1 and h.eq(SENT[-1][2], dst), 'copy answered to the same place')
    h.check(len(DUMPS) == 0, 'no internal exception')


@scenario('T06', reach=('auto',),
          bounds='481 to an unmatched CANCEL, 200 to a CANCEL and its 487, 482 for a loop; Via as above')
def automatic(h):
    """automatic responses of the manager"""
    tm, gc, app = tm_app('keep')
    tv = top_via(h)
    v, host, port, rport, received, src, sport = tv
    lines, vias = stack(h, v)
    kind = h.choose('kind', ['481', 'cancel', '482'])
    n0 = 0
    if kind == '481':
        data = request('CANCEL', via=lines)
        want = [481]
    elif kind == 'cancel':
        env.deliver(tm, request('INVITE', via=lines), (src, sport))
        data = request('CANCEL', via=lines)
        want = [200, 487]
    else:
        from sippy.SipRequest import SipRequest
        r = SipRequest(request('OPTIONS', via='SIP/2.0/UDP 10.0.0.1;branch=z9hG4bKown'))
        r.setTarget((('10.0.0.2', 5060), 'udp'))
        tm.newTransaction(r, None)
        lines = lines + ['SIP/2.0/UDP 10.0.0.1;branch=z9hG4bKown']
        vias = vias + ['SIP/2.0/UDP 10.0.0.1;branch=z9hG4bKown']
        data = request('OPTIONS', via=lines)
        n0 = len(SENT)
        want = [482]
    env.deliver(tm, data, (src, sport))
    out = SENT[n0:]
    h.check([code_of(s[1]) for s in out] == want, 'automatic answers')
    rcv, rp, dst = expect(h, tv)
    for s in out:
        h.reach('auto')
        h.check(h.eq(s[2], dst), 'destination', got=s[2], want=dst)
        check_via(h, s[1], vias, tv)
        h.check(hval(s[1], 'from') == hval(data, 'from') and hval(s[1], 'call-id') == hval(data, 'call-id'), 'mirrored')
        h.check(hval(s[1], 'to').split(';tag=')[0] == hval(data, 'to'), 'To mirrored')
    h.check(len(app.reqs) == (1 if kind == 'cancel' else 0), 'not delivered')


@scenario('T06', reach=('nat',),
          bounds='nat_traversal mode: private/public/.invalid Via hosts and Contacts, symbolic ports')
def nat(h):
    """NAT mode: the answer goes where the request came from; a private Contact is replaced by the source"""
    tm, gc, app = tm_app('keep', nat_traversal=True)
    host = h.choose('host', ['10.1.1.1', '192.168.7.7', '172.16.0.9', '8.8.8.8', 'xyz.invalid'])
    src = h.choose('src', ['8.8.8.8', '203.0.113.5'])
    sport = h.int('sport', 1000, 9999)
    vport = h.int('vport', 1000, 9999) if h.choose('hasport', [True, False]) else None
    rport = h.choose('rport', [False, True])
    chost = h.choose('chost', ['10.1.1.1', '192.168.7.7', '172.31.5.5', '172.32.5.5', '9.9.9.9', '255.255.255.255'])
    v = 'SIP/2.0/UDP ' + host + (':' + str(vport) if vport is not None else '') + (';rport' if rport else '') + ';branch=z9hG4bKn'
    two = h.choose('two', [False, True])
    env.deliver(tm, request('INVITE', via=[v] + ([OTHER] if two else []), contact='<sip:al@' + chost + ':6000>'), (src, sport))
    h.check(len(app.reqs) == 1, 'delivered')
    req = app.reqs[0]
    tm.sendResponse(req.genResponse(180, 'R'))
    proto, vh, vp, pars = via_parse(hval(SENT[0][1], 'via'))
    private = host != '8.8.8.8'
    h.check(pars.get('received') == src if host != src else 'received' not in pars, 'received recorded')
    nated = private and (vport is None or vport != sport)
    stamped = rport or nated
    h.reach('nat')
    priv_ct = chost not in ('172.32.5.5', '9.9.9.9')
    if 'rport' in pars:
        h.check(pars['rport'] == str(sport), 'source port recorded')
        h.check(h.eq(SENT[0][2], (src, sport)), 'answered to the source')
    else:
        h.check(not stamped, 'source port recorded when asked for or behind NAT')
        h.check(h.eq(SENT[0][2], (src, vport if vport is not None else 5060)), 'answered to the source address')
    curl = req.getHFBody('contact').getUrl()
    if priv_ct and not two:
        h.check(curl.host == src and curl.port == sport, 'private Contact replaced by the source')
    else:
        h.check(curl.host == chost and curl.port == 6000, 'Contact kept')
