"""A call leg (the real UA and all its states on the real transaction manager) between two doubles: the SIP peer
(texts of messages) and the application (call-control events)."""
from symx import env
from symx.env import SENT, CLK, T0, DUMPS
from harness.sip import *

SDP = 'v=0\r\no=- 1 %d IN IP4 10.0.0.2\r\ns=-\r\nc=IN IP4 10.0.0.2\r\nt=0 0\r\nm=audio %d RTP/AVP 0\r\n'


def sdp(n):
    return SDP % (n, 10000 + 2 * n)


def mbody(n):
    from sippy.MsgBody import MsgBody
    return MsgBody(sdp(n)) if n is not None else None


def seqno(data):
    return int(hval(data, 'cseq').split(' ')[0])


class World(object):
    """one call leg; kind 'uac' (we call) or 'uas' (we are called)"""

    def __init__(self, h, kind, body=1, credit=None, expire=None, noprog=None, noreply=None, setup=None, rr=(),
                 contact=None, start=True, user=None, ftag='ft1', callid='cid1', rcseq=None, kw=None, eh=None):
        from sippy.UA import UA
        self.h = h
        self.kind = kind
        self.log = []          # (kind, time, ...) of callbacks in order
        self.events = []       # events reported by the leg
        self.outofdialog = []
        self.ua = None
        self.rcseq = rcseq if rcseq is not None else 100    # the peer's sequence number
        self.nbody = 10
        self.body = body
        self.rr = rr
        self.contact = contact or ('<sip:bob@10.0.0.3:5070>' if kind == 'uac' else '<sip:alice@10.0.0.2:5070>')
        self.eh = eh
        # what the world knows about the call, from the wire and the application's own acts only
        self.got2xx = False        # peer's 2xx to our INVITE was delivered in time (uac)
        self.sent2xx = False
        self.peerbye = False       # the peer's BYE reached the dialog before our own end of it
        self.prov = False
        self.final = None
        self.mkw = dict(credit_time=credit, expire_time=expire, no_progress_time=noprog)
        if kw:
            self.mkw.update(kw)
        self.noreply = noreply
        self.setup = setup
        self.user = user
        self.UA = UA
        self.tm, self.gc = env.make_tm(self.recvRequest)
        env.stop_housekeeping()
        self.ftag = ftag
        self.callid = callid
        if start:
            self.start()

    # ---------------------------------------------------------------- leg

    def mkua(self, **kw):
        a = dict(self.mkw, conn_cbs=(self.conn,), disc_cbs=(self.disc,), fail_cbs=(self.fail,), ring_cbs=(self.ring,),
                 dead_cbs=(self.dead,), nh_address=('10.0.0.3', 5060))
        if self.user:
            a.update(username=self.user[0], password=self.user[1])
        a.update(kw)
        ua = self.UA(self.gc, self.event, **a)
        if self.noreply is not None:
            ua.no_reply_time = self.noreply
        if self.setup:
            self.setup(ua)
        self.ua = ua
        return ua

    def recvRequest(self, req, sip_t):
        if self.ua is None and req.getMethod() == 'INVITE' and req.getHFBody('to').getTag() is None:
            return self.mkua().recvRequest(req, sip_t)
        self.outofdialog.append(req)
        return (req.genResponse(481, 'Call Leg/Transaction Does Not Exist'), None, None)

    def start(self):
        from sippy.CCEvents import CCEventTry
        if self.kind == 'uac':
            ua = self.mkua()
            ua.recvEvent(CCEventTry((None, 'alice', 'bob', mbody(self.body), None, 'Alice')))
            self.inv = None
            self.look()
        else:
            self.inv = request('INVITE', cseq=str(self.rcseq), contact=self.contact, callid=self.callid,
                               frm='<sip:alice@10.0.0.2>;tag=' + self.ftag,
                               extra=tuple('Record-Route: ' + x for x in self.rr),
                               body=sdp(self.body) if self.body is not None else None)
            env.deliver(self.tm, self.inv)
        self.t0 = CLK.now

    def look(self):
        if self.inv is None and self.last('INVITE') is not None:
            self.inv = self.last('INVITE')
            self.callid = hval(self.inv, 'call-id')

    def conn(self, ua, rtime, origin):
        self.log.append(('conn', CLK.now, rtime))

    def disc(self, ua, rtime, origin, *code):
        self.log.append(('disc', CLK.now, rtime))

    def fail(self, ua, rtime, origin, code):
        self.log.append(('fail', CLK.now, rtime, code))

    def ring(self, ua, rtime, origin, code):
        self.log.append(('ring', CLK.now, rtime, code))

    def dead(self, ua):
        self.log.append(('dead', CLK.now))
        # timers of the transaction layer may outlive the leg, its own must not
        own = [t for t in env.timers() if getattr(t.cb_func, '__self__', None) is not self.tm]
        self.h.check(len(own) == 0, 'no timer of the leg is left at its death', timers=str([t.cb_func for t in own])[:300])

    def event(self, event, ua):
        self.events.append((event, CLK.now))

    def count(self, *kinds):
        return len([x for x in self.log if x[0] in kinds])

    def when(self, *kinds):
        return [x[1] for x in self.log if x[0] in kinds]

    @property
    def ended(self):
        return self.count('disc', 'fail', 'dead') > 0

    # ---------------------------------------------------------------- wire

    def sent(self, method=None, code=None, cmethod=None, since=0):
        out = []
        for s in SENT[since:]:
            if method is not None and method_of(s[1]) != method:
                continue
            if code is not None and code_of(s[1]) != code:
                continue
            if cmethod is not None and hval(s[1], 'cseq').split(' ')[1] != cmethod:
                continue
            out.append(s)
        return out

    def last(self, method):
        x = self.sent(method)
        return x[-1][1] if x else None

    def distinct(self, method):
        out = []
        for s in self.sent(method):
            if s[1] not in out:
                out.append(s[1])
        return out

    def finals(self, cseq=None):
        """distinct final answers sent to an INVITE"""
        out = []
        for s in SENT:
            c = code_of(s[1])
            if c is not None and c >= 200 and hval(s[1], 'cseq').endswith(' INVITE') and s[1] not in out:
                if cseq is None or seqno(s[1]) == cseq:
                    out.append(s[1])
        return out

    # ---------------------------------------------------------------- peer

    def answer(self, code, body=None, inv=None, totag='rt1', **kw):
        """the peer answers our last (or the given) INVITE"""
        d = inv if inv is not None else self.last('INVITE')
        first = self.inv is not None and d == self.inv
        t = response_to(d, code, 'R', totag=totag,
                        contact=kw.pop('contact', self.contact),
                        extra=tuple('Record-Route: ' + x for x in self.rr) + tuple(kw.pop('extra', ())),
                        body=sdp(body) if body is not None else None)
        env.deliver(self.tm, t, ('10.0.0.3', 5060))
        return t

    def answer_last(self, method, code, **kw):
        d = self.last(method)
        env.deliver(self.tm, response_to(d, code, 'R', **kw), ('10.0.0.3', 5060))

    def peer_tags(self):
        """(from, to) of a request sent by the peer within the dialog"""
        if self.kind == 'uac':
            return ('<sip:bob@10.0.0.3>;tag=rt1', hval(self.inv, 'from'))
        tagged = [s for s in SENT if code_of(s[1]) is not None and ';tag=' in hval(s[1], 'to')]
        if tagged:
            return (hval(self.inv, 'from'), hval(tagged[-1][1], 'to'))
        return (hval(self.inv, 'from'), '<sip:bob@10.0.0.1>')

    def peer_text(self, method, cseq=None, body=None, cmethod=None, extra=(), frm=None, to=None, callid=None, br=None):
        if cseq is None:
            self.rcseq += 1
            cseq = self.rcseq
        f, t = self.peer_tags()
        return request(method, cseq=str(cseq), cmethod=cmethod, frm=frm or f, to=to or t,
                       callid=callid or self.callid,
                       via='SIP/2.0/UDP 10.0.0.2:5060;branch=z9hG4bK' + (br or 'p%s%s' % (method, len(SENT))),
                       contact=self.contact, extra=extra, body=sdp(body) if body is not None else None)

    def peer(self, method, **kw):
        t = self.peer_text(method, **kw)
        n = len(SENT)
        env.deliver(self.tm, t)
        return t, SENT[n:]

    def peer_cancel(self):
        env.deliver(self.tm, request('CANCEL', cseq=str(seqno(self.inv)), callid=self.callid,
                                     frm=hval(self.inv, 'from')))

    def peer_ack(self, body=None, which=None):
        """the peer acknowledges the last final answer to an INVITE of its own (returns False when there is none)"""
        fs = self.finals()
        if not fs:
            return False
        f = fs[-1] if which is None else which
        code = code_of(f)
        env.deliver(self.tm, request('ACK', cseq=str(seqno(f)), callid=self.callid, frm=hval(f, 'from'),
                                     to=hval(f, 'to'),
                                     via=hvals(f, 'via')[0] if code >= 300 else
                                     'SIP/2.0/UDP 10.0.0.2:5060;branch=z9hG4bKack%d' % len(SENT),
                                     body=sdp(body) if body is not None else None))
        return True

    # ---------------------------------------------------------------- application

    def ev(self, name, *a, **kw):
        import sippy.CCEvents as E
        cls = getattr(E, 'CCEvent' + name)
        if name in ('Ring',):
            e = cls(a[0] if a else (180, 'Ringing', None))
        elif name in ('Connect', 'PreConnect'):
            e = cls(a[0] if a else (200, 'OK', mbody(self.next_body())))
        elif name == 'Fail':
            e = cls(a[0] if a else (486, 'Busy'))
        elif name == 'Redirect':
            from sippy.SipAddress import SipAddress
            from sippy.SipURL import SipURL
            d = (302, 'Moved', None, (SipAddress(url=SipURL(username='carol', host='10.0.0.7')),))
            e = cls(a[0] if a else d)
        elif name == 'Update':
            e = cls(a[0] if a else mbody(self.next_body()))
        elif name == 'Info':
            e = cls(a[0] if a else None)
        else:
            e = cls()
        self.ua.recvEvent(e)
        return e

    def next_body(self):
        self.nbody += 1
        return self.nbody

    # ---------------------------------------------------------------- end of a walk

    def finish(self):
        """hang up if still up, then let all time pass"""
        if not self.ended:
            self.ev('Disconnect')
        env.run_out(limit=200)

    def lifecycle(self, h):
        """the oracle of U01"""
        nc, nd = self.count('conn'), self.count('disc', 'fail')
        h.check(nc <= 1, 'at most one connection')
        h.check(nd == 1, 'exactly one end', log=str([x[0] for x in self.log]))
        names = [x[0] for x in self.log]
        e = [i for i, n in enumerate(names) if n in ('disc', 'fail')][0]
        h.check('conn' not in names[e:], 'no connection after the end')
        h.check('ring' not in names[e:], 'no ringing after the end')
        h.check(names.count('dead') == 1 and names[-1] == 'dead', 'dies once, last of all', log=str(names))
        from sippy.CCEvents import CCEventDisconnect, CCEventFail, CCEventRedirect, CCEventConnect
        ends = [i for i, x in enumerate(self.events) if isinstance(x[0], CCEventDisconnect) or
                (isinstance(x[0], (CCEventFail, CCEventRedirect)) and nc == 0 and not (self.got2xx or self.sent2xx))]
        names = [x[0].name for x in self.events]
        h.check(len(ends) <= 1, 'at most one end event', names=str(names))
        h.check(len(ends) == 0 or ends[0] == len(names) - 1, 'no event after the end', names=str(names))
        h.check(self.ua.isDead(), 'dead')
        h.check(len(env.timers()) == 0, 'no timer left')
        h.check(len([k for k, v in self.tm.req_consumers.items() if len(v)]) == 0, 'not registered any more')
        h.check(len(DUMPS) == 0, 'no internal exception', dumps=str(DUMPS)[:300])


class Walk(object):
    """a sequence of n steps over the acts possible at each point; the world's knowledge decides what is possible"""

    def __init__(self, h, w, n, wait=None, inputs=None, codes=None):
        self.h, self.w, self.n = h, w, n
        self.wait_at = None
        self.canwait = wait
        self.up = False            # the call is established for the application
        self.pre = False           # a PreConnect awaits the other side's answer/ACK
        self.dialog = False        # a 2xx was exchanged
        self.pend_out = False      # re-INVITE of ours not answered
        self.pend_in = False       # re-INVITE of the peer not answered
        self.first_done = False    # final answer to the first INVITE exchanged
        self.byes_in = 0
        self.autoack = False
        self.acked = []
        self.bye_answers = []
        self.log = []

    def acts(self):
        w = self.w
        a = []
        w.look()
        if w.kind == 'uac':
            if not self.first_done and w.inv is not None:
                a += ['p_prov', 'p_2xx', 'p_fail']
        else:
            if not self.first_done and not w.ended:
                a += ['a_ring', 'a_connect', 'a_preconnect', 'a_fail', 'a_redir']
                a += ['p_cancel', 'p_bye']
        if self.pend_out:
            a += ['p_prov', 'p_2xx', 'p_fail']
        if self.pend_in and not w.ended:
            a += ['a_connect', 'a_fail', 'a_redir', 'a_ring', 'p_cancel']
        if self.dialog:
            a += ['p_bye']
            if not w.ended:
                a += ['p_reinv']
                if not self.pend_out and not self.pend_in:
                    a += ['a_update', 'p_info']
        if w.kind == 'uas' and self.pre and not w.ended:
            a += ['p_ack']
        if w.kind == 'uac' and self.pre and not w.ended:
            a += ['a_connect']
        a += ['a_disc']
        if w.ended and not self.dialog and w.kind == 'uas':
            a += ['p_cancel']
        if self.wait_at is None and self.canwait:
            a += ['wait']
        return a

    def step(self, i, allowed=None):
        h, w = self.h, self.w
        opts = []
        for x in self.acts():
            if x not in opts and (allowed is None or x in allowed):
                opts.append(x)
        act = h.choose('act%d' % i, opts)
        self.log.append(act)
        getattr(self, act)(i)
        if self.autoack:
            self.acks()
        return act

    def acks(self):
        # the peer acknowledges what it was answered at once (a late offer by its own act)
        w = self.w
        fs = w.finals()
        for f in fs:
            if f not in self.acked and not (self.pre and w.kind == 'uas'):
                self.acked.append(f)
                w.peer_ack(which=f)

    def run(self, allowed=None, hook=None):
        for i in range(self.n):
            act = self.step(i, allowed)
            if hook:
                hook(i, act)

    # peer
    def p_prov(self, i):
        h, w = self.h, self.w
        if w.kind == 'uac' and not self.first_done:
            w.prov = True
            w.answer(h.int('pcode%d' % i, 100, 199), inv=w.inv)
        else:
            w.answer(180)

    def p_early(self, i):
        """progress with media"""
        w = self.w
        if not self.first_done:
            w.prov = True
        w.answer(183, body=60 + i, inv=w.inv if not self.first_done else None)

    def p_2xx(self, i):
        w = self.w
        if not self.first_done and w.kind == 'uac':
            self.first_done = True
            w.got2xx = True
            self.dialog = True
            w.answer(200, body=2, inv=w.inv)
            if w.body is None and not w.ended:
                self.pre = True
            elif not w.ended:
                self.up = True
        else:
            self.pend_out = False
            w.answer(200, body=20 + i)

    def p_fail(self, i):
        w, h = self.w, self.h
        if not self.first_done and w.kind == 'uac':
            self.first_done = True
            w.answer(h.int('fcode%d' % i, 300, 699), inv=w.inv)
        else:
            self.pend_out = False
            w.answer(h.int('fcode%d' % i, 300, 699))

    def p_bye(self, i):
        w = self.w
        n = len(SENT)
        live = not w.ended
        text, out = w.peer('BYE')
        if live and self.dialog:
            w.peerbye = True
        self.byes_in += 1
        self.bye_answers.append((live and self.dialog, [code_of(x[1]) for x in out
                                                        if hval(x[1], 'cseq').endswith(' BYE')]))

    def p_reinv(self, i):
        w = self.w
        text, out = w.peer('INVITE', body=30 + i)
        codes = [code_of(s[1]) for s in out]
        if not [c for c in codes if c is not None and c >= 200]:
            self.pend_in = True

    def p_info(self, i):
        self.w.peer('INFO')

    def p_cancel(self, i):
        w = self.w
        if self.pend_in:
            self.pend_in = False
            inv = [s for s in SENT if code_of(s[1]) == 100 and hval(s[1], 'cseq') != hval(w.inv, 'cseq')][-1][1]
            env.deliver(w.tm, request('CANCEL', cseq=str(seqno(inv)), callid=w.callid, frm=hval(inv, 'from'),
                                      to=hval(inv, 'to'), via=hvals(inv, 'via')[0]))
        else:
            w.peer_cancel()
            self.first_done = True

    def p_ack(self, i):
        self.pre = False
        if self.w.peer_ack(body=40 + i, which=self.w.finals()[0]):
            self.up = True

    # application
    def a_ring(self, i):
        self.w.ev('Ring')

    def a_connect(self, i):
        w = self.w
        w.ev('Connect')
        if self.pend_in:
            self.pend_in = False
            return
        self.pre = False
        self.up = True
        if w.kind == 'uas' and not self.first_done:
            self.first_done = True
            self.dialog = True
            w.sent2xx = True

    def a_preconnect(self, i):
        w = self.w
        w.ev('PreConnect')
        self.first_done = self.dialog = self.pre = True
        w.sent2xx = True

    def a_fail(self, i):
        w = self.w
        w.ev('Fail')
        if self.pend_in:
            self.pend_in = False
        else:
            self.first_done = True

    def a_redir(self, i):
        self.w.ev('Redirect')
        if self.pend_in:
            self.pend_in = False
        else:
            self.first_done = True

    def a_update(self, i):
        self.w.ev('Update')
        if self.w.last('INVITE') is not None and self.w.last('INVITE') != (self.w.inv if self.w.kind == 'uac' else None):
            self.pend_out = True

    def a_disc(self, i):
        self.w.ev('Disconnect')
        if self.w.kind == 'uas' and not self.first_done:
            self.first_done = True

    def wait(self, i):
        pass


class Media(object):
    """a media relay attached to a leg: each SDP body is passed at once, later, or not at all"""

    def __init__(self, h, limit=2):
        self.h = h
        self.n = 0
        self.limit = limit
        self.queue = []

    def attach(self, ua):
        ua.on_remote_sdp_change = self.remote
        if ua.state is None:
            self.ua = ua
            ua.on_local_sdp_change = self.local

    def error(self):
        from sippy.Exceptions.SdpParseError import SdpParseError
        return SdpParseError('bad')

    def mode(self):
        if self.n >= self.limit:
            return 'pass'
        self.n += 1
        return self.h.choose('media%d' % self.n, ['pass', 'delay', 'raise'])

    def remote(self, body, cb):
        m = self.mode()
        if m == 'raise':
            raise self.error()
        if m == 'delay':
            self.queue.append((body, cb))
            return None
        return body

    def local(self, body, cb):
        m = self.mode()
        if m == 'raise':
            raise self.error()
        body.needs_update = False
        if m == 'delay':
            self.queue.append((body, cb))
            return
        cb(body)

    def done(self, ok):
        body, cb = self.queue.pop(0)
        if ok:
            cb(body)
        else:
            from sippy.Exceptions.RtpProxyError import RtpProxyError
            cb(None, RtpProxyError('down'))
