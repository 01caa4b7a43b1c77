"""B07: registrations and subscriptions are relayed to the configured server."""
from symx.runner import scenario, quick
from symx import env
from symx.env import SENT, CLK, T0, DUMPS
from harness.sip import *
from harness.b2b import *

AL = ''.join(chr(i) for i in range(33, 127) if chr(i).isalnum())
PX = ('10.0.0.7', 5080)


def proxied(h):
    from sippy.StatefulProxy import StatefulProxy
    a = setup(h, ('10.0.0.3',))
    a.cmap.proxy = StatefulProxy(a.gc, PX)
    return a


def up(since=0):
    return [s for s in SENT[since:] if s[2] == PX]


def down(addr, since=0):
    return [s for s in SENT[since:] if s[2] == addr]


@scenario('B07', reach=('relayed', 'hops', 'path', 'nopath', 'nolimit', 'other'),
          bounds='REGISTER or SUBSCRIBE (and two other methods) with Max-Forwards absent or 0..255, one or two Via, Supported absent, path or others, '
                 'a Path or none already; a header of 1..2 symbolic characters, with or without body')
def requests(h):
    a = proxied(h)
    m = h.choose('m', ['REGISTER', 'SUBSCRIBE', 'OPTIONS', 'MESSAGE'])
    mf = h.choose('has', [True, False]) and h.int('mf', 0, 255)
    via = 'SIP/2.0/UDP 10.0.0.2:5060;branch=z9hG4bKaaa'
    nv = h.choose('nv', [1, 2])
    v2 = 'SIP/2.0/TCP 10.0.0.99;branch=z9hG4bKbbb'
    sup = h.choose('sup', [None, 'path', 'x, path', '100rel'])
    path = h.choose('path', [None, '<sip:edge.example;lr>'])
    x = h.str('x', 1, 2, alphabet=AL + ';=<>"')
    extra = ['X-Y: ' + x]
    if sup is not None:
        extra.append('Supported: ' + sup)
    if path is not None:
        extra.append('Path: ' + path)
    body = h.choose('body', [None, 'v=0\r\n'])
    t = request(m, ruri='sip:example.com', via=via if nv == 1 else [via, v2], maxfwd=None if mf is False else str(mf), extra=extra, body=body)
    env.deliver(a.tm, t)
    u = up()
    if m in ('OPTIONS', 'MESSAGE'):
        h.check(len(u) == 0, 'other requests are not relayed')
        h.check([code_of(s[1]) for s in SENT] == [501], 'but refused')
        h.reach('other')
        return
    if mf is not False and mf <= 1:
        h.check(len(u) == 0, 'a request with no hops left is not relayed')
        h.check([code_of(s[1]) for s in SENT] == [483], 'but refused')
        h.reach('hops')
        return
    h.check(len(u) == 1 and len(SENT) == 1, 'the request is relayed')
    g = u[0][1]
    h.check(h.eq(g.split('\r\n', 1)[0], t.split('\r\n', 1)[0]), 'method and target kept')
    for n in ('from', 'to', 'call-id', 'cseq', 'contact', 'x-y'):
        h.check(h.eq(hval(g, n), hval(t, n)), 'header kept', n=n, got=hval(g, n))
    h.check(h.eq(hdrs(g)[2], body or ''), 'body kept')
    vs = hvals(g, 'via')
    vs = [y.strip() for v in vs for y in v.split(',')]
    h.check(len(vs) == nv + 1, 'one Via more')
    h.check(vs[0].startswith('SIP/2.0/UDP ' + env.MYADDR), 'the own on top', got=vs[0])
    b = vs[0].split('branch=', 1)
    h.check(len(b) == 2 and b[1].startswith('z9hG4bK') and 'z9hG4bKaaa' not in b[1], 'with its own branch')
    h.check(vs[1].startswith(via), 'then that of the sender')
    if nv == 2:
        h.check(vs[2].startswith(v2), 'and those below')
    if mf is False:
        h.check(hvals(g, 'max-forwards') == ['70'], 'hop limit set')
        h.reach('nolimit')
    else:
        h.check(int(hval(g, 'max-forwards')) == mf - 1, 'one hop less')
    ps = hvals(g, 'path')
    if m == 'REGISTER' and sup is not None and 'path' in sup:
        ps = [y.strip() for v in ps for y in v.split(',')]
        h.check(len(ps) == (1 if path is None else 2), 'the own Path is added', got=ps)
        h.check(env.MYADDR in ps[0], 'on top', got=ps)
        if path is not None:
            h.check(ps[1] == path, 'above others')
        h.reach('path')
    else:
        h.check(ps == ([] if path is None else [path]), 'Path kept')
        h.reach('nopath')
    h.reach('relayed')


@scenario('B07', reach=('progress', 'final', 'retransmitted', 'silence', 'twice', 'foreign'),
          bounds='two requests from different senders; responses of any code to either in either order, progress first or not, repeated or not, '
                 'request repeated before and after (symbolic instants), a response to neither; no response within 32 s')
def responses(h):
    a = proxied(h)
    S = [('10.0.0.2', 5060), ('10.0.0.6', 5060)]
    T = []
    U = []
    for i in range(2):
        n = len(SENT)
        T.append(request('REGISTER', ruri='sip:example.com', callid='c%d' % i, cseq=str(10 + i),
                         via='SIP/2.0/UDP %s:5060;branch=z9hG4bK%d' % (S[i][0], i)))
        env.deliver(a.tm, T[i], S[i])
        U.append(up(n)[0][1])
        h.check(len(SENT) == n + 1, 'the request is relayed')
    k = h.choose('k', [0, 1])
    if h.choose('rep', [False, True]):
        n = len(SENT)
        env.deliver(a.tm, T[k], S[k])
        h.check(len(up(n)) == 0, 'a repeated request is not relayed again')
    how = h.choose('how', ['answer', 'silence', 'foreign'])
    n = len(SENT)
    if how == 'silence':
        env.run_until(T0 + h.time('ts', 31, 34))
        for i in range(2):
            d = down(S[i], n)
            if CLK.now >= T0 + 32:
                h.check([code_of(s[1]) for s in d] == [408], 'a request nobody answers is answered 408', got=[code_of(s[1]) for s in d])
                check_resp(h, d[0][1], i)
                h.reach('silence')
            else:
                h.check(len(d) == 0, 'nothing before')
        return
    if how == 'foreign':
        env.deliver(a.tm, response_to(U[k], 200).replace('z9hG4bK', 'z9hG4bKzz', 1), PX)
        h.check(len(SENT) == n, 'a response to nothing is dropped')
        h.reach('foreign')
    code = h.int('code', 200, 699)
    if h.choose('prov', [False, True]):
        p = h.int('p', 101, 199)
        env.deliver(a.tm, response_to(U[k], p, extra=('X-R: 1',)), PX)
        d = down(S[k], n)
        h.check(len(d) == 1 and code_of(d[0][1]) == p, 'progress is relayed')
        check_resp(h, d[0][1], k)
        h.reach('progress')
    n = len(SENT)
    r = response_to(U[k], code, extra=('X-R: 1', 'Expires: 60'), totag='z', body=h.choose('body', [None, 'b']))
    env.deliver(a.tm, r, PX)
    d = down(S[k], n)
    h.check(len(d) == 1 and len(SENT) == n + 1, 'the answer is relayed to the one who asked')
    h.check(code_of(d[0][1]) == code, 'with its code')
    check_resp(h, d[0][1], k)
    h.check(hval(d[0][1], 'x-r') == '1' and hval(d[0][1], 'expires') == '60', 'headers kept')
    if code < 400:
        h.check(h.eq(hdrs(d[0][1])[2], hdrs(r)[2]), 'body kept')
    h.reach('final')
    n = len(SENT)
    if h.choose('again', ['resp', 'req']) == 'resp':
        env.deliver(a.tm, r, PX)
        h.check(len(SENT) == n, 'a repeated answer is not relayed again')
        h.reach('twice')
    else:
        env.run_until(CLK.now + h.time('tr', 0, 8))
        n = len(SENT)
        env.deliver(a.tm, T[k], S[k])
        x = down(S[k], n)
        h.check(len(up(n)) == 0, 'a repeated request is not relayed again')
        h.check(len(x) == 1 and h.eq(x[0][1], d[0][1]), 'but answered again')
        h.reach('retransmitted')
    env.run_out()
    h.check(len(a.cmap.ccmap) == 0, 'no call is created')
    h.check(len(DUMPS) == 0, 'no internal exception', dumps=str(DUMPS)[:200])


def check_resp(h, t, i):
    vs = [y.strip() for v in hvals(t, 'via') for y in v.split(',')]
    h.check(len(vs) == 1 and vs[0].startswith('SIP/2.0/UDP 10.0.0.%d:5060;branch=z9hG4bK%d' % ((2, 0) if i == 0 else (6, 1))),
            'with the Via of the sender only', got=vs)
    h.check(hval(t, 'call-id') == 'c%d' % i and hval(t, 'cseq') == '%d REGISTER' % (10 + i), 'for its request')
