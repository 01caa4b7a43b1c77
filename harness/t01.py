"""T01: retransmitted requests."""
from symx.runner import scenario, quick
from symx import env
from symx.env import SENT, CLK, T0, DUMPS
from harness.sip import *

ASSUMPTIONS = ['retransmission = identical datagram from the same source']


def idfields(h, tag):
    return (h.str('callid' + tag, 1, 1, alphabet='ab'), h.str('ftag' + tag, 1, 1, alphabet='ab'),
            h.str('branch' + tag, 1, 1, alphabet='ab'), h.int('cseq' + tag, 1, 3))


def mk(method, f, extra=()):
    return request(method, callid='c' + f[0], frm='<sip:alice@10.0.0.2>;tag=' + f[1],
                   via='SIP/2.0/UDP 10.0.0.2:5060;branch=z9hG4bK' + f[2], cseq=str(f[3]), extra=extra)


@scenario('T01', reach=('distinct', 'same'),
          bounds='two requests of one method, 1-character symbolic Call-ID/From tag/branch suffixes, CSeq 1..3')
def distinct_requests(h):
    """requests that differ in any identifying field are delivered separately; a copy is not"""
    tm, gc, app = tm_app('keep')
    m = h.choose('method', ['INVITE', 'BYE', 'OPTIONS'])
    f1, f2 = idfields(h, '1'), idfields(h, '2')
    env.deliver(tm, mk(m, f1))
    h.check(len(app.reqs) == 1, 'first request delivered once')
    # the copy carries one more header: another datagram, the same transaction
    env.run_until(CLK.now + 0.25)
    env.deliver(tm, mk(m, f2, extra=('X-Copy: 1',)))
    same = h.all(f1[0] == f2[0], f1[1] == f2[1], f1[2] == f2[2], f1[3] == f2[3])
    if same:
        h.reach('same')
        h.check(len(app.reqs) == 1, 'retransmission not delivered again')
    else:
        h.reach('distinct')
        h.check(len(app.reqs) == 2, 'distinct request delivered')
        h.check(app.reqs[1].getHFBody('cseq').getCSeqNum() == f2[3], 'second request content')
    h.check(len(SENT) == 0, 'nothing sent while unanswered')


@scenario('T01', reach=('resent', 'silent', 'after-final', 'late'),
          bounds='one request (INVITE, BYE, OPTIONS or REGISTER) arriving 0..40 s after start, then 3 (thorough 4) '
                 'steps, each a copy, a 1xx, or a final response, 0..40 s apart')
def copies(h):
    """copies at any instants interleaved with any responses"""
    tm, gc, app = tm_app('keep')
    m = h.choose('method', ['INVITE', 'BYE', 'OPTIONS'])
    data = request(m)
    env.run_until(CLK.now + h.time('t0', 0, 40))
    env.deliver(tm, data)
    h.check(len(app.reqs) == 1, 'delivered once')
    last = None
    final_at = None
    n = 0
    for i in range(3 if quick() else 4):
        opts = ['copy']
        if final_at is None:
            opts += ['prov', 'final']
        ev = h.choose('ev%d' % i, opts)
        env.run_until(CLK.now + h.time('dt%d' % i, 0, 40))
        n0 = len(SENT)
        if ev == 'copy':
            if final_at is not None:
                if not (CLK.now < final_at + 32):
                    h.reach('late')
                    return
                h.reach('after-final')
            env.deliver(tm, data)
            h.check(len(app.reqs) == 1, 'copy not delivered again')
            new = SENT[n0:]
            if last is None:
                h.reach('silent')
                h.check(len(new) == 0, 'unanswered copy is absorbed silently')
            else:
                h.reach('resent')
                h.check(len(new) == 1, 'copy answered once')
                h.check(new[0][1] == last[1], 'copy answered with the last response')
                h.check(h.eq(new[0][2], last[2]), 'copy answered to the same address')
        else:
            n += 1
            code = h.choose('code%d' % i, [100, 183] if ev == 'prov' else [200, 486])
            resp = app.reqs[0].genResponse(code, 'R%d' % n)
            tm.sendResponse(resp)
            new = SENT[n0:]
            h.check(len(new) == 1, 'response sent once')
            h.check(code_of(new[0][1]) == code, 'response code on the wire')
            last = new[0]
            if ev == 'final':
                final_at = CLK.now
    h.check(len(app.reqs) == 1, 'delivered once overall')
    h.check(len(DUMPS) == 0, 'no internal exception')


@scenario('T01', reach=('auto',),
          bounds='requests answered immediately by the application or automatically (400, 481, 482, CANCEL 200); two '
                 'copies at symbolic instants within 32 s')
def automatic_answers(h):
    kind = h.choose('kind', ['reply', 'sync', 'cancel-unmatched', 'cancel', 'short-body', 'loop', 'bad-sdp'])
    tm, gc, app = tm_app(kind if kind in ('reply', 'sync') else 'keep')
    app.code = h.choose('code', [200, 404]) if kind in ('reply', 'sync') else 200
    env.run_until(CLK.now + h.time('t0', 0, 40))
    if kind == 'cancel-unmatched':
        data, want = request('CANCEL'), 481
    elif kind == 'cancel':
        env.deliver(tm, request('INVITE'))
        data, want = request('CANCEL'), 200
    elif kind == 'short-body':
        data = request('INVITE', body='v=0\r\n').replace('Content-Length: 5', 'Content-Length: 50')
        want = 400
    elif kind == 'loop':
        from sippy.SipRequest import SipRequest
        r = SipRequest(request('OPTIONS'))
        r.setTarget((('10.0.0.2', 5060), 'udp'))
        tm.newTransaction(r, lambda resp: None)
        data, want = request('OPTIONS', via=['SIP/2.0/UDP 10.0.0.5;branch=z9hG4bKzz',
                                             'SIP/2.0/UDP 10.0.0.2:5060;branch=z9hG4bKaaa']), 482
    elif kind == 'bad-sdp':
        return
    else:
        data, want = request('OPTIONS'), app.code
    n0 = len(SENT)
    env.deliver(tm, data)
    new = [s for s in SENT[n0:] if code_of(s[1]) == want]
    h.check(len(new) == 1, 'answered once')
    first = new[0]
    nreq, ncan = len(app.reqs), len(app.cancels)
    for i in range(2):
        env.run_until(CLK.now + h.time('dt%d' % i, 0, 15.5))
        n0 = len(SENT)
        env.deliver(tm, data)
        new = SENT[n0:]
        h.reach('auto')
        h.check(len(new) == 1, 'copy answered once')
        h.check(new[0][1] == first[1], 'copy answered identically')
        h.check(h.eq(new[0][2], first[2]), 'copy answered to the same address')
        h.check(len(app.reqs) == nreq, 'copy not delivered')
        h.check(len(app.cancels) == ncan, 'cancel not reported again')
