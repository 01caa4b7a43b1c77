"""B08: whatever body a party sends, its request is answered once and the call stays consistent."""
from symx.runner import scenario, quick
from symx import env
from symx.env import SENT, CLK, T0, DUMPS
from harness.sip import *
from harness.b2b import *
from harness import rtp

HEAD = 'v=0\r\no=- 1 %d IN IP4 %s\r\ns=-\r\nc=IN IP4 %s\r\nt=0 0\r\n'
PR = ''.join(chr(x) for x in range(32, 127))


class Relay(rtp.Client):
    """a media proxy that answers whatever it is asked"""

    def pump(self):
        while self.pend:
            self.answer('35000 10.0.0.9' if self.pend[0][0][0] == 'U' else '0')
        env.run_threadq()


def put(text, ct, body):
    """the message with this body"""
    return text.replace('Content-Length: 0\r\n\r\n', ('' if ct is None else 'Content-Type: ' + ct + '\r\n') +
                        'Content-Length: ' + str(len(body)) + '\r\n\r\n' + body)


def build(h, kind, n, host, ok):
    """(content type, body): n numbers it, ok is the allowed payload type"""
    head = HEAD % (n, host, host)
    media = 'm=audio 4000 RTP/AVP 0 ' + str(ok) + '\r\n'
    if kind == 'attribute':
        media = 'm=audio 4000 RTP/AVP 0 ' + h.choose('types', ['8', '97']) + '\r\n'
        pre = h.choose('attr', ['', 'rtpmap', 'rtpmap:', 'rtpmap:97 ', 'fmtp', 'fmtp:', 'ptime:'])
        post = h.choose('rest', ['', ' speex/8000']) if pre == 'rtpmap:' else ''
        return 'application/sdp', head + media + 'a=' + pre + h.str('val', 0, 2 if quick() else 4, alphabet=PR) + post + '\r\n' + \
            h.choose('map', ['', 'a=rtpmap:97 speex/8000\r\n'])
    if kind == 'media':
        pre = h.choose('media', ['', 'audio', 'audio ', 'audio 4000', 'audio 4000 ', 'audio 4000 RTP/AVP', 'audio 4000 RTP/AVP ', 'audio 4000 RTP/AVP ' + str(ok) + ' ',
                                 'image 4000 udptl', 'audio 0 RTP/AVP '])
        return 'application/sdp', head + 'm=' + pre + h.str('val', 0, 2 if quick() else 3, alphabet='0189 xX-') + '\r\n'
    if kind == 'line':
        where = h.choose('where', ['session', 'section'])
        ln = h.str('val', 0, 3 if quick() else 4, alphabet='=cmvaozb 0') + '\r\n'
        return 'application/sdp', head + (ln if where == 'session' else '') + media + (ln if where == 'section' else '')
    if kind == 'missing':
        ls = (head + media).split('\r\n')[:-1]
        k = h.choose('line', list(range(len(ls))))
        return 'application/sdp', ''.join([x + '\r\n' for i, x in enumerate(ls) if i != k])
    if kind == 'other':
        return h.choose('ct', ['text/plain', 'application/isup', 'APPLICATION/x', None]), h.str('val', 1, 3, alphabet=PR)
    part = 'Content-Type: application/sdp\r\n\r\n' + head + media
    isup = 'Content-Type: application/isup\r\nContent-Disposition: signal\r\n\r\n' + h.str('val', 1, 2, alphabet=AL) + '\r\n'
    # (a part without type is text)
    parts = h.choose('parts', [[isup, part], [part, isup], [part], [isup], ['\r\n' + head + media], [part.replace('\r\n\r\n', '\r\n')], []])
    mode = h.choose('multi', ['well', 'open', 'unnamed', 'other'])
    b = ''.join(['--xyz\r\n' + p for p in parts]) + ('--xyz--\r\n' if mode != 'open' else '')
    return 'multipart/mixed' + {'well': ';boundary=xyz', 'open': ';boundary="xyz"', 'unnamed': '', 'other': ';boundary=abc'}[mode], b


AL = 'abXYZ019'
KINDS = ['attribute', 'media', 'line', 'missing', 'other', 'multipart']
NAME = {'offer': 'caller', '183': 'callee', '200': 'callee', 're-caller': 'caller', 're-callee': 'callee', 're-answer': 'callee', 'ack': 'caller'}


class Call(object):
    def __init__(self, h, policy, relay):
        from sippy.Rtp_proxy.session import Rtp_proxy_session
        from sippy import b2bua
        self.h = h
        self.untyped = False
        cfg = {}
        if policy:
            cfg['_allowed_pts'] = [8, 'speex/8000']
        self.relay = None
        if relay:
            self.relay = Relay(h)
            cfg['_rtp_proxy_clients'] = [self.relay]
        self.a = setup(h, ('10.0.0.3',), **cfg)
        b2bua.CallController.rtpps_cls = Rtp_proxy_session
        self.policy = policy
        self.c = Peer(h, self.a, 'caller', CALLER, 10)
        self.o = Peer(h, self.a, 'callee', '10.0.0.3', 50)

    def pump(self):
        env.run_threadq()
        for i in range(4):
            if self.relay is not None:
                self.relay.pump()
            self.c.react()
            self.o.look()
            self.o.react()

    def allowed(self):
        """no media goes on that the policy prohibits"""
        if not self.policy or self.untyped:
            return
        for s in SENT:
            if s[2][0] not in (CALLER, '10.0.0.3'):
                continue
            for ln in hdrs(s[1])[2].split('\r\n'):
                if ln[:8] == 'm=audio ' and ' RTP/AVP ' in ln:
                    t = [int(x) for x in ln.split(' ')[3:] if len(x) > 0]
                    ok = [8]
                    for at in hdrs(s[1])[2].split('\r\n'):
                        if at[:9] == 'a=rtpmap:' and at.endswith(' speex/8000'):
                            try:
                                ok.append(int(at[9:-11]))
                            except ValueError:
                                pass
                    self.h.check(self.h.all(*[self.h.any(*[x == y for y in ok]) for x in t]), 'no media goes on that is not allowed', got=ln)

    def establish(self, late=False):
        c, o = self.c, self.o
        c.seq += 1
        c.inv = request('INVITE', cseq=str(c.seq), contact=c.contact, callid='cid1',
                        via='SIP/2.0/UDP %s:5060;branch=z9hG4bKinv' % c.host, to='<sip:bob@10.0.0.1>',
                        body=None if late else GOOD % (11, c.host, c.host))
        c.send(c.inv)
        self.pump()
        self.h.check(o.inv is not None, 'the call is placed')

    def answer(self, body=None):
        o = self.o
        o.first = 200
        o.send(response_to(o.inv, 200, 'R', totag='tt3', contact=o.contact, body=GOOD % (51, o.host, o.host) if body is None else body))
        self.pump()

    def finish(self, who=None):
        """whoever is still in the call hangs up; nothing may be left"""
        h, c, o, a = self.h, self.c, self.o, self.a
        if c.dialog() and not c.over():
            h.check(not o.over(), 'the call has not ended at one side only')
            c.bye()
            self.pump()
        elif o.inv is not None and o.dialog():
            h.check(o.over(), 'the call has ended at both sides')
        c.answer_bye()
        o.answer_bye()
        self.pump()
        env.run_out()
        self.pump()
        env.run_out()
        h.check(not (o.inv is not None and o.dialog()) or o.over(), 'the call has ended at the callee')
        h.check(c.over(), 'the call has ended at the caller')
        del DUMPS[:]
        a.sessions[:] = []
        a.clean(h)
        if self.relay is not None:
            self.relay.pump()


GOOD = HEAD + 'm=audio 4000 RTP/AVP 8 0\r\n'


def run(h, kind):
    policy = h.choose('policy', [False, True])
    relay = h.choose('relay', [False, True])
    when = h.choose('when', ['offer', '183', '200', 're-caller', 're-callee', 're-answer', 'ack'])
    k = Call(h, policy, relay)
    c, o, a = k.c, k.o, k.a
    host = CALLER if NAME[when] == 'caller' else '10.0.0.3'
    ct, body = build(h, kind, 77, host, 8)
    h.assume(len(body) > 0)
    k.untyped = kind == 'multipart' and '--xyz\r\n\r\n' in body
    if when == 'offer':
        c.seq += 1
        c.inv = put(request('INVITE', cseq=str(c.seq), contact=c.contact, callid='cid1', to='<sip:bob@10.0.0.1>',
                            via='SIP/2.0/UDP %s:5060;branch=z9hG4bKinv' % c.host), ct, body)
        c.send(c.inv)
        k.pump()
        if o.inv is None:
            f = c.finals()
            h.check(len(f) == 1 and code_of(f[0]) >= 400, 'the caller is refused, once', got=[code_of(x) for x in f])
            h.reach('refused')
        else:
            k.answer()
            f = c.finals()
            h.check(len(f) == 1, 'the caller gets an answer, once', got=len(f))
            h.check(code_of(f[0]) == 200, 'that of the callee')
            h.reach('passed')
    elif when in ('183', '200'):
        k.establish()
        o.first = 200 if when == '200' else None
        o.send(put(response_to(o.inv, int(when), 'R', totag='tt3', contact=o.contact), ct, body))
        k.pump()
        if when == '183':
            f = c.finals()
            if f:
                h.check(len(f) == 1 and code_of(f[0]) >= 400, 'the caller is told, once')
                h.check(len(o.msgs('CANCEL')) == 1, 'and the attempt cancelled')
                if h.choose('late', [487, 200]) == 200:
                    # answered before the CANCEL got there
                    k.answer()
                    h.check(len(o.msgs('ACK')) >= 1 and o.got_bye(), 'an answer nevertheless is acknowledged and hung up')
                else:
                    o.answer(487)
                h.reach('refused')
            else:
                h.check(len(o.msgs('CANCEL')) == 0, 'the attempt goes on')
                k.answer()
                h.check([code_of(x) for x in c.finals()] == [200], 'the caller gets the answer of the callee, once')
                h.reach('passed')
        else:
            f = c.finals()
            h.check(len(f) == 1, 'the caller gets an answer, once', got=len(f))
            h.check(len(o.msgs('ACK')) >= 1, 'the callee gets its acknowledgement')
            if code_of(f[0]) == 200:
                h.check(not o.got_bye(), 'the call is up')
                h.reach('passed')
            else:
                h.check(o.got_bye(), 'the callee is hung up')
                h.reach('refused')
    elif when == 'ack':
        k.establish(late=True)
        o.first = 200
        c.late = None
        n = len(SENT)
        env.deliver(a.tm, response_to(o.inv, 200, 'R', totag='tt3', contact=o.contact, body=GOOD % (51, o.host, o.host)), (o.host, 5060))
        if k.relay is not None:
            k.relay.pump()
        f = c.finals()
        h.check([code_of(x) for x in f] == [200], 'the caller gets the answer of the callee')
        c.acked.append(f[0])
        env.deliver(a.tm, put(request('ACK', cseq=str(seqno(f[0])), callid=hval(f[0], 'call-id'), frm=hval(f[0], 'from'), to=hval(f[0], 'to'),
                                      via='SIP/2.0/UDP 10.0.0.2:5060;branch=z9hG4bKack1'), ct, body), (c.host, 5060))
        k.pump()
        h.check(len(o.msgs('ACK')) >= 1, 'the callee gets its acknowledgement')
        h.check(c.got_bye() == o.got_bye(), 'the call is up or over at both sides')
        h.reach('refused' if c.got_bye() else 'passed')
    else:
        k.establish()
        k.answer()
        h.check([code_of(x) for x in c.finals()] == [200], 'the call is up')
        p, q = (o, c) if when == 're-callee' else (c, o)
        t = p.req('INVITE')
        if when == 're-answer':
            t = put(t, 'application/sdp', GOOD % (12, p.host, p.host))
        else:
            t = put(t, ct, body)
        p.pend_in = seqno(t)
        p.send(t)
        k.pump()
        if when == 're-answer':
            d = q.pend_out()
            h.check(len(d) == 1, 'the offer gets to the other party')
            q.answered = q.answered + (d[0],)
            q.send(put(response_to(d[0], 200, 'R', totag='tt3', contact=q.contact), ct, body))
            k.pump()
        else:
            d = q.pend_out()
            if d:
                q.answer_re(200, None)
                h.check(True, '')
                k.pump()
                h.reach('passed')
            else:
                h.reach('refused')
        f = p.finals(seqno(t))
        h.check(len(f) == 1, 'the request gets an answer, once', got=[code_of(x) for x in f])
        h.check(c.got_bye() == o.got_bye(), 'the call is up or over at both sides')
        if when == 're-answer':
            h.reach('passed' if code_of(f[0]) == 200 else 'refused')
    k.allowed()
    k.finish()


B = ('any body of this kind in an INVITE, in a 183 or 200 answer, a re-INVITE of either party, the answer to one or an ACK; with payload policy (a type by number, another by name) or not, '
     'with media relay (one that answers) or not; ')


@scenario('B08', reach=('passed', 'refused'), bounds=B + 'an attribute line with any of 8 forms and 0..2 symbolic printable characters')
def attribute(h):
    run(h, 'attribute')


@scenario('B08', reach=('passed', 'refused'), bounds=B + 'a media line that ends after any of its fields, with 0..2 (3) further symbolic characters (digits, space, letters, minus)')
def media(h):
    run(h, 'media')


@scenario('B08', reach=('passed', 'refused'), bounds=B + 'a further line of 0..3 (4) symbolic characters in the session or media section')
def line(h):
    run(h, 'line')


@scenario('B08', reach=('passed', 'refused'), bounds=B + 'SDP with any one line missing')
def missing(h):
    run(h, 'missing')


@scenario('B08', reach=('passed',), bounds=B + 'body of another type or without type, 1..3 symbolic characters')
def other(h):
    run(h, 'other')


@scenario('B08', reach=('passed', 'refused'), bounds=B + 'multipart: parts any of 7 kinds, boundary right, wrong, missing or the closing one missing')
def multipart(h):
    run(h, 'multipart')
