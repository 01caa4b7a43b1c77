"""A bridged call: the real CallMap, CallController and two (or more) real call legs on one real transaction manager,
between doubles for the peers (texts of messages), the RADIUS client and the media relay."""
import weakref
from symx import env
from symx.env import SENT, CLK, T0, DUMPS
from harness.sip import *

SDP = 'v=0\r\no=- 1 %d IN IP4 %s\r\ns=-\r\nc=IN IP4 %s\r\nt=0 0\r\nm=audio %d RTP/AVP 0\r\n'
CALLER = '10.0.0.2'


def sdp(n, host=CALLER):
    return SDP % (n, host, host, 10000 + 2 * n)


def bno(text):
    """number of the SDP body a message carries (the version in its o= line), None without one"""
    b = hdrs(text)[2]
    return int(b.split(' ', 3)[2]) if b else None


def seqno(data):
    return int(hval(data, 'cseq').split(' ')[0])


class Config(dict):
    def getdefault(self, k, d):
        return self.get(k, d)


class Radius(object):
    """delivers the answer to an authorisation request when the harness says so"""

    def __init__(self):
        self.pend = []
        self.log = []
        self.acct = []

    class Proc(object):
        def __init__(self, r, e):
            self.r, self.e = r, e

        def cancel(self):
            if self.e in self.r.pend:
                self.r.pend.remove(self.e)

    def do_auth(self, username, caller, callee, sip_cid, remote_ip, res_cb, realm=None, nonce=None, uri=None,
                response=None, extra_attributes=None):
        e = [res_cb]
        self.log.append((username, caller, callee, str(sip_cid), remote_ip, realm, nonce, uri, response, extra_attributes))
        self.pend.append(e)
        return Radius.Proc(self, e)

    def do_acct(self, attributes, res_cb, *args):
        self.acct.append((CLK.now, attributes))

    def done(self, results):
        self.pend.pop(0)[0](results)


class Side(object):
    raddress = None


def media_class(h, modes, live):
    """class of media session doubles: every SDP body is passed (with its number raised), held, or refused"""
    from sippy.Exceptions.SdpParseError import SdpParseError

    class Session(object):
        AV_TRTYPES = ('udp', 'udptl', 'rtp/avp', 'rtp/savp', 'udp/tls/rtp/savp')
        media_timeout_index = None

        def __init__(self, gc, call_id=None, **kw):
            self.caller, self.callee = Side(), Side()
            self.queue = []
            live.append(weakref.ref(self))

        def mode(self, d):
            return modes(d)

        def on_caller_sdp_change(self, body, cb):
            m = self.mode('caller')
            if m == 'raise':
                raise SdpParseError('bad')
            body.needs_update = False
            if m == 'delay':
                self.queue.append((body, cb))
                return
            cb(body)

        def on_callee_sdp_change(self, body, cb):
            m = self.mode('callee')
            if m == 'raise':
                raise SdpParseError('bad')
            if m == 'delay':
                self.queue.append((body, cb))
                return None
            return body

        def done(self, ok):
            body, cb = self.queue.pop(0)
            if ok:
                cb(body)
            else:
                from sippy.Exceptions.RtpProxyError import RtpProxyError
                cb(None, RtpProxyError('down'))
    return Session


def addrinfo(host, port, af=0, kind=0, *a):
    return [(2, 1, 6, '', (host, port))]


def setup(h, routes=('10.0.0.3',), auth=False, acct=False, media=None, **cfg):
    """the agent; routes: specification strings of the static route / of the authorisation answer"""
    from sippy import b2bua
    import sippy.B2B.Route as R
    from sippy.SipTransactionManager import SipTransactionManager
    b2bua.Signal = lambda *a, **k: None
    R.getaddrinfo = addrinfo
    gc = Config({'_sip_address': '10.0.0.1', '_sip_port': 5060, '_sip_logger': env.NullLogger(),
                 'nh_addr': ('10.0.0.9', 5060), '_uaname': 'Sippy', 'keepalive_ans': 0, 'keepalive_orig': 0,
                 'auth_enable': auth, 'acct_enable': acct, 'start_acct_enable': False, 'digest_auth': False,
                 '_pass_headers': [], '_my_pid': 1})
    radius = Radius()
    gc['_radius_client'] = radius
    if not auth:
        gc['_static_routes'] = {'': R.B2BRoute(routes[0])}
    gc.update(cfg)
    b2bua.CallController.id = 1
    cmap = b2bua.CallMap(gc)
    gc['_cmap'] = cmap
    cls = type('TM', (SipTransactionManager,), dict(model_udp_server=env.make_udp()))
    tm = cls(gc, cmap.recvRequest)
    gc['_sip_tm'] = tm
    sessions = []
    b2bua.CallController.rtpps_cls = b2bua.Rtp_proxy_session_default
    if media is not None:
        gc['_rtp_proxy_clients'] = ()
        b2bua.CallController.rtpps_cls = media_class(h, media, sessions)
    env.stop_housekeeping()
    a = Agent()
    a.gc, a.tm, a.cmap, a.radius, a.sessions, a.routes = gc, tm, cmap, radius, sessions, routes
    return a


class Agent(object):
    def grant(self, routes=None, extra=()):
        """authorisation succeeds with these routes"""
        attrs = [('h323-ivr-in', 'Routing:' + r) for r in (routes if routes is not None else self.routes)]
        self.radius.done((tuple(attrs) + tuple(extra), 0))

    def clean(self, h):
        h.check(len(self.cmap.ccmap) == 0, 'no call is left in the call list')
        h.check(len(env.timers()) == 0, 'no timer left', timers=str([t.cb_func for t in env.timers()])[:300])
        h.check(len([k for k, v in self.tm.req_consumers.items() if len(v)]) == 0, 'no leg is registered any more')
        h.check(len([s for s in self.sessions if s() is not None]) == 0, 'no media session is left')
        h.check(len(DUMPS) == 0, 'no internal exception', dumps=str(DUMPS)[:300])


class Peer(object):
    """one remote party; everything it knows comes from the messages it sent and was sent"""

    def __init__(self, h, agent, kind, host, nbody):
        self.h, self.agent, self.tm = h, agent, agent.tm
        self.kind, self.host = kind, host
        self.seq = 100
        self.n = nbody
        self.base = nbody
        self.inv = None             # the first INVITE
        self.acked = []
        self.first = None           # code of the final answer to the first INVITE, as soon as it is sent
        self.cancelled = False
        self.mybye = False
        self.pend_in = None         # re-INVITE of ours that is not finally answered
        self.noanswer = False       # does not answer requests within the dialog
        self.byebye = False
        self.contact = '<sip:%s@%s:5070>' % ('alice' if kind == 'caller' else 'bob', host)

    # what was sent to it
    def msgs(self, method=None, code=None, cmethod=None, since=0):
        out = []
        for s in SENT[since:]:
            if s[2][0] != self.host:
                continue
            if method is not None and method_of(s[1]) != method:
                continue
            if code is not None and code_of(s[1]) != code:
                continue
            if cmethod is not None and (code_of(s[1]) is None or hval(s[1], 'cseq').split(' ')[1] != cmethod):
                continue
            if s[1] not in [x[1] for x in out]:
                out.append(s)
        return out

    def codes(self, cseq=None, since=0):
        return [code_of(s[1]) for s in self.msgs(cmethod='INVITE', since=since) if cseq is None or seqno(s[1]) == cseq]

    def finals(self, cseq=None):
        return [s[1] for s in self.msgs(cmethod='INVITE') if code_of(s[1]) >= 200 and (cseq is None or seqno(s[1]) == cseq)]

    def newbody(self):
        self.n += 1
        return self.n

    def send(self, text):
        n = len(SENT)
        env.deliver(self.tm, text, (self.host, 5060))
        self.react()
        return SENT[n:]

    def react(self):
        """a polite peer answers BYEs and acknowledges finals at once"""
        for f in self.finals():
            if f not in self.acked:
                self.acked.append(f)
                self.ack(f, self.late if self.late is not None and code_of(f) < 300 and seqno(f) == seqno(self.inv) else None)
                if self.pend_in is not None and seqno(f) == self.pend_in:
                    self.pend_in = None

    def ack(self, f, body=None):
        code = code_of(f)
        env.deliver(self.tm, request('ACK', cseq=str(seqno(f)), callid=hval(f, 'call-id'), frm=hval(f, 'from'),
                                     to=hval(f, 'to'),
                                     via=hvals(f, 'via')[0] if code >= 300 else
                                     'SIP/2.0/UDP %s:5060;branch=z9hG4bKack%d' % (self.host, len(SENT)),
                                     body=sdp(body, self.host) if body is not None else None), (self.host, 5060))

    # ---- caller
    def invite(self, body=True, to='bob', extra=(), maxfwd='70', src=None):
        self.seq += 1
        b = self.newbody() if body else None
        self.inv = request('INVITE', ruri='sip:%s@10.0.0.1:5060' % to, cseq=str(self.seq), contact=self.contact,
                           callid='cid1', via='SIP/2.0/UDP %s:5060;branch=z9hG4bKinv' % self.host,
                           frm='<sip:alice@10.0.0.2>;tag=ft1', to='<sip:%s@10.0.0.1>' % to, extra=extra, maxfwd=maxfwd,
                           body=sdp(b, self.host) if body else None)
        return self.send(self.inv)

    def cancel(self):
        self.cancelled = True
        return self.send(request('CANCEL', ruri=self.inv.split(' ')[1], cseq=str(seqno(self.inv)), callid='cid1',
                                 frm=hval(self.inv, 'from'), to=hval(self.inv, 'to'), via=hvals(self.inv, 'via')[0]))

    # ---- callee
    def look(self):
        m = self.msgs('INVITE')
        if self.inv is None and m:
            self.inv = m[0][1]
        return self.inv

    def answer(self, code, body=None, inv=None, extra=(), contact=None):
        d = inv if inv is not None else self.inv
        if d == self.inv and code >= 200:
            self.first = code
        t = response_to(d, code, 'R', totag='tt' + self.host[-1], contact=self.contact if contact is None else (contact or None), extra=extra,
                        body=sdp(body, self.host) if body is not None else None)
        self.send(t)
        return t

    # ---- both
    def dialog(self):
        """the INVITE of this leg was answered with success"""
        if self.kind == 'caller':
            return bool(self.inv) and len([f for f in self.finals(seqno(self.inv)) if code_of(f) < 300]) > 0
        return self.first is not None and self.first < 300

    def pair(self):
        if self.kind == 'callee':
            return (hval(self.inv, 'to') + ';tag=tt' + self.host[-1], hval(self.inv, 'from'))
        t = [s[1] for s in self.msgs(cmethod='INVITE') if ';tag=' in hval(s[1], 'to')]
        return (hval(self.inv, 'from'), hval(t[-1], 'to') if t else hval(self.inv, 'to'))

    def req(self, method, body=None, extra=(), maxfwd='70'):
        self.seq += 1
        f, t = self.pair()
        return request(method, cseq=str(self.seq), frm=f, to=t, callid=hval(self.inv, 'call-id'), contact=self.contact,
                       via='SIP/2.0/UDP %s:5060;branch=z9hG4bK%s%d' % (self.host, self.kind, self.seq), extra=extra,
                       maxfwd=maxfwd, body=sdp(body, self.host) if body is not None else None)

    def bye(self):
        t = self.req('BYE')
        self.mybye = True
        return self.send(t)

    def reinvite(self, body=True):
        b = self.newbody() if body else None
        t = self.req('INVITE', body=b)
        self.pend_in = seqno(t)
        self.lastre = t
        out = self.send(t)
        return b, out

    def cancel_re(self):
        t = self.lastre
        return self.send(request('CANCEL', cseq=str(seqno(t)), callid=hval(t, 'call-id'), frm=hval(t, 'from'),
                                 to=hval(t, 'to'), via=hvals(t, 'via')[0]))

    def got_bye(self):
        return len(self.msgs('BYE')) > 0

    def pend_out(self):
        """re-INVITEs of the agent this peer has not answered"""
        return [s[1] for s in self.msgs('INVITE') if s[1] != self.inv and s[1] not in self.answered]

    late = None                 # number of the body its ACK of the first INVITE carries
    answered = ()

    def answer_re(self, code, body=None, **kw):
        d = self.pend_out()[0]
        self.answered = self.answered + (d,)
        return self.answer(code, body, inv=d, **kw)

    def answer_bye(self):
        for s in self.msgs('BYE'):
            if s[1] not in self.answered:
                self.answered = self.answered + (s[1],)
                env.deliver(self.tm, response_to(s[1], 200, 'OK'), (self.host, 5060))

    def over(self):
        """the leg has ended as far as this peer can tell"""
        if self.mybye and (self.dialog() or self.kind == 'caller') or self.got_bye():
            return True
        if self.kind == 'caller':
            return self.cancelled and not self.dialog() or \
                len([f for f in self.finals(seqno(self.inv)) if code_of(f) >= 300]) > 0
        return self.inv is not None and self.first is not None and self.first >= 300
