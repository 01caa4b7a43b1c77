"""T04: ACK for final responses."""
from symx.runner import scenario, quick
from symx import env
from symx.env import SENT, CLK, T0, DUMPS
from harness.sip import *


class Rec(object):
    def __init__(self):
        self.got = []

    def cb(self, resp, t=None):
        self.got.append(resp)


def invite(h, how, routes, maxfwd, cseq, dest):
    """an INVITE as an application builds it: parsed from text or through the constructor"""
    from sippy.SipRequest import SipRequest
    if how == 'parsed':
        r = SipRequest(request('INVITE', ruri='sip:bob@10.0.0.2:5062;transport=udp',
                               via='SIP/2.0/UDP 10.0.0.1:5060;rport;branch=z9hG4bKcli', cseq=str(cseq),
                               to='<sip:bob@10.0.0.2>', maxfwd=str(maxfwd),
                               extra=tuple('Route: ' + x for x in routes)))
    else:
        from sippy.SipURL import SipURL
        from sippy.SipTo import SipTo
        from sippy.SipFrom import SipFrom
        from sippy.SipRoute import SipRoute
        from sippy.SipCallId import SipCallId
        from sippy.SipContact import SipContact
        from sippy.SipAddress import SipAddress
        from sippy.SipMaxForwards import SipMaxForwards
        rts = [SipRoute(x) for x in routes]
        for x in rts:
            x.parse()
        cid = SipCallId('cid1')
        frm = SipFrom('"Al" <sip:alice@10.0.0.1>;tag=ft1')
        frm.parse()
        to = SipTo('<sip:bob@10.0.0.2>')
        to.parse()
        ct = SipContact('<sip:alice@10.0.0.1:5060>')
        ct.parse()
        r = SipRequest(method='INVITE', ruri=SipURL('sip:bob@10.0.0.2:5062;transport=udp'), to=to, fr0m=frm,
                       cseq=cseq, callid=cid, contact=ct, routes=rts, maxforwards=SipMaxForwards(number=maxfwd),
                       target=(dest, 'udp'), user_agent='UA')
    r.setTarget((dest, 'udp'))
    return r


def common(h, inv, ack, resp):
    sl, hs, body = hdrs(ack)
    h.check(method_of(ack) == 'ACK', 'an ACK')
    for n in ('call-id', 'from', 'max-forwards'):
        h.check(hval(ack, n) == hval(inv, n), 'ACK keeps ' + n)
    h.check(hval(ack, 'cseq').split(' ')[0] == hval(inv, 'cseq').split(' ')[0], 'ACK keeps the CSeq number')
    h.check(hval(ack, 'cseq').split(' ')[1] == 'ACK', 'CSeq method of the ACK')
    h.check(hval(ack, 'to') == hval(resp, 'to'), 'ACK carries the To tag of the response')
    h.check(len(hvals(ack, 'via')) == 1, 'one Via in the ACK')
    h.check(body == '', 'no body in the ACK')


def branch_of(via):
    for p in via.split(';')[1:]:
        if p.startswith('branch='):
            return p[7:]
    return None


@scenario('T04', reach=('non2xx',),
          bounds='final codes 300..699 (symbolic), automatic ACK or (after a 2xx only) left to the application, INVITE parsed or constructed, 0..1 Route, symbolic Max-Forwards, CSeq, '
                 'destination port, To tag (1 char), response after an optional provisional; copies at symbolic instants')
def non2xx(h):
    tm, gc, app = tm_app('keep')
    env.stop_housekeeping()
    dest = ('10.0.0.2', h.int('dport', 1000, 9999))
    routes = h.choose('routes', [(), ('<sip:10.0.0.2:5061;lr>',)])
    r = invite(h, h.choose('how', ['parsed', 'built']), routes, h.int('mf', 10, 99), h.int('cseq', 100, 999), dest)
    rec = Rec()
    from sippy.SipTransactionManager import SipTransaction
    t = SipTransaction()
    prov, t.uack = h.choose('prov', [(False, False), (True, False), (True, True)])
    tm.newTransaction(r, rec.cb, t=t)
    inv = SENT[0]
    if prov:
        env.deliver(tm, response_to(inv[1], 180, 'P', totag='early'))
    env.run_until(CLK.now + 1)
    tag = h.str('tag', 1, 1, alphabet='abc')
    code = h.int('code', 300, 699)
    resp = response_to(inv[1], code, 'F', totag=h.choose('hastag', [True, False]) and 'x' + tag or None,
                       contact=h.choose('ct', [None, '<sip:bob@10.0.0.3:5070>']),
                       extra=h.choose('rr', [(), ('Record-Route: <sip:10.0.0.5;lr>',)]))
    n0 = len(SENT)
    env.deliver(tm, resp)
    h.reach('non2xx')
    h.check(len(SENT) == n0 + 1, 'one ACK')
    ack = SENT[-1]
    common(h, inv[1], ack[1], resp)
    h.check(ack[1].split('\r\n', 1)[0] == 'ACK' + inv[1].split('\r\n', 1)[0][6:], 'same request URI')
    h.check(hval(ack[1], 'via') == hval(inv[1], 'via'), 'same top Via')
    h.check(hvals(ack[1], 'route') == hvals(inv[1], 'route'), 'same Route set')
    h.check(h.eq(ack[2], inv[2]), 'same destination')
    h.check(ack[0] is inv[0], 'same socket')
    for i in range(2):
        env.run_until(CLK.now + (h.time('dt%d' % i, 0, 15) if i == 0 else 15))
        n1 = len(SENT)
        env.deliver(tm, resp)
        h.check(len(SENT) == n1 + 1, 'copy acknowledged once more')
        h.check(SENT[-1][1] == ack[1] and h.eq(SENT[-1][2], ack[2]), 'by the same ACK')
    h.check(len([g for g in rec.got if g.getSCode()[0] >= 200]) == 1, 'reported once')
    h.check(len(DUMPS) == 0, 'no internal exception')


CT = [(None, None, None, None),
      ('<sip:bob@10.0.0.3:%d>', 'sip:bob@10.0.0.3:%d', '10.0.0.3', True),
      ('"Bob B" <sip:bob@10.0.0.3;transport=udp>;expires=5', 'sip:bob@10.0.0.3;transport=udp', '10.0.0.3', None),
      ('sip:carol@10.0.0.4:%d;expires=60', 'sip:carol@10.0.0.4:%d', '10.0.0.4', True),
      ('<sip:10.0.0.3:%d;user=phone;x=y>', 'sip:10.0.0.3:%d;user=phone;x=y', '10.0.0.3', True)]


@scenario('T04', reach=('contact', 'loose', 'strict', 'bare', 'late'),
          bounds='final codes 200..299 (symbolic), 5 Contact forms with symbolic port, 0..2 (thorough 3) Record-Route each '
                 'loose or strict with symbolic port, automatic or application-sent ACK, copies at symbolic instants')
def success(h):
    tm, gc, app = tm_app('keep')
    env.stop_housekeeping()
    dest = ('10.0.0.2', 5060)
    how = h.choose('how', ['parsed', 'built'])
    oroutes = () if how == 'parsed' else ('<sip:10.0.0.2:5061;lr>',)
    r = invite(h, how, oroutes, 70, 7, dest)
    rec = Rec()
    uack = h.choose('uack', [False, True])
    t = None
    if uack:
        from sippy.SipTransactionManager import SipTransaction
        t = SipTransaction()
        t.uack = True
    t = tm.newTransaction(r, rec.cb, t=t)
    inv = SENT[0]
    ct, cturi, cthost, ported = h.choose('contact', CT)
    cport = h.int('cport', 1000, 9999)
    if ported:
        ct, cturi = ct.replace('%d', str(cport)), cturi.replace('%d', str(cport))
    nrr = h.choose('nrr', [0, 1, 2] if quick() else [0, 1, 2, 3])
    rrs = []
    for i in range(nrr):
        kind = h.choose('rr%d' % i, ['lr', 'strict', 'noport'] if i == nrr - 1 else ['lr', 'strict'])
        port = h.int('rrp%d' % i, 1000, 9999)
        host = '10.0.1.%d' % (i + 1)
        uri = 'sip:p%d@%s' % (i, host)
        if kind != 'noport':
            uri = uri + ':' + str(port)
        if kind != 'strict':
            uri = uri + ';lr'
        rrs.append((kind, '<' + uri + '>', uri, (host, port if kind != 'noport' else 5060)))
    comma = nrr > 1 and ported
    rrh = (('Record-Route: ' + ', '.join(x[1] for x in rrs),) if comma else
           tuple('Record-Route: ' + x[1] for x in rrs))
    code = h.int('code', 200, 299)
    resp = response_to(inv[1], code, 'F', totag='x' + h.str('tag', 1, 1, alphabet='abc'), contact=ct, extra=rrh)
    n0 = len(SENT)
    env.run_until(CLK.now + 0.25)
    env.deliver(tm, resp)
    if uack:
        h.check(len(SENT) == n0, 'ACK left to the application')
        env.deliver(tm, resp)
        h.check(len(SENT) == n0, 'a copy does not acknowledge either')
        env.run_until(CLK.now + h.time('late', 0, 10))
        tm.sendACK(t)
        h.reach('late')
    h.check(len(SENT) == n0 + 1, 'one ACK')
    ack = SENT[-1]
    common(h, inv[1], ack[1], resp)
    b = branch_of(hval(ack[1], 'via'))
    h.check(b is not None and b.startswith('z9hG4bK') and b != branch_of(hval(inv[1], 'via')), 'new branch')
    h.check(hval(ack[1], 'via').split(';')[0] == hval(inv[1], 'via').split(';')[0], 'own Via host')
    hops = list(rrs)
    hops.reverse()
    ruri = cturi if cturi is not None else 'sip:bob@10.0.0.2:5062;transport=udp'
    dst = dest if cturi is None else (cthost, cport if ported else 5060)
    routes = [x[1] for x in hops]
    if len(hops) > 0:
        dst = hops[0][3]
        if hops[0][0] == 'strict':
            h.reach('strict')
            ruri = hops[0][2]
            routes = routes[1:]
            if cturi is not None:
                routes = routes + ['<' + cturi + '>']
        else:
            h.reach('loose')
    elif cturi is not None:
        h.reach('contact')
    else:
        h.reach('bare')
    h.check(ack[1].split('\r\n', 1)[0] == 'ACK ' + ruri + ' SIP/2.0', 'request URI of the ACK',
            got=ack[1].split('\r\n', 1)[0], want=ruri)
    h.check(hvals(ack[1], 'route') == routes, 'Route set of the ACK', got=repr(hvals(ack[1], 'route')))
    h.check(h.eq(ack[2], dst), 'destination of the ACK', got=ack[2], want=dst)
    h.check(ack[0] is inv[0], 'same socket')
    env.run_until(CLK.now + h.time('dt', 0, 20))
    n1 = len(SENT)
    env.deliver(tm, resp)
    h.check(len(SENT) == n1 + 1, 'copy acknowledged once more')
    h.check(SENT[-1][1] == ack[1] and h.eq(SENT[-1][2], ack[2]), 'by the same ACK')
    h.check(len(rec.got) == 1, 'reported once')
    h.check(len(DUMPS) == 0, 'no internal exception')


@scenario('T04', reach=('none',), bounds='BYE, OPTIONS, CANCEL, REGISTER with codes 200..699')
def others(h):
    """no ACK for other methods"""
    from sippy.SipRequest import SipRequest
    tm, gc, app = tm_app('keep')
    env.stop_housekeeping()
    m = h.choose('method', ['BYE', 'OPTIONS', 'CANCEL', 'REGISTER'])
    r = SipRequest(request(m, via='SIP/2.0/UDP 10.0.0.1:5060;branch=z9hG4bKcli'))
    r.setTarget((('10.0.0.2', 5060), 'udp'))
    rec = Rec()
    tm.newTransaction(r, rec.cb)
    resp = response_to(SENT[0][1], h.int('code', 200, 699), 'F')
    env.deliver(tm, resp)
    env.deliver(tm, resp)
    h.reach('none')
    h.check(len(SENT) == 1, 'nothing sent')
    h.check(len(rec.got) == 1, 'reported once')
