"""B01: both legs of a bridged call live and die together."""
from symx.runner import scenario, quick
from symx import env
from symx.env import SENT, CLK, T0, DUMPS
from harness.sip import *
from harness.b2b import *

TWO = ('bye', 'reinv', 'reok', 'refail', 'info', 'recancel')


class Bridge(object):
    """one caller, one callee, one route; every act is followed by the oracle"""

    def __init__(self, h, n, media=None, wait=True, body=True, routes=('10.0.0.3',), allowed=None, src=None, **cfg):
        self.h, self.n = h, n
        self.media = media
        self.allowed = allowed
        self.canwait = wait
        self.waited = None
        self.a = setup(h, routes, media=media.mode if media else None, **cfg)
        self.c = Peer(h, self.a, 'caller', CALLER, 10)
        if not body:
            self.c.late = 77
        self.o = Peer(h, self.a, 'callee', '10.0.0.3', 50)
        self.progressed = False
        self.tover = None
        self.lost = False
        self.hold = False       # a body is held by the media relay
        self.body = body
        self.log = []

    def session(self):
        for s in self.a.sessions:
            if s() is not None and s().queue:
                return s()
        return None

    def start(self):
        h, c, o = self.h, self.c, self.o
        c.invite(self.body)
        h.check(100 in c.codes(), 'the caller is told the call is being processed')
        if self.session() is None and not c.over():
            o.look()
            h.check(o.inv is not None, 'the callee is called')
            h.check(bno(o.inv) == bno(c.inv), 'the callee gets the offer')
            h.check(hdrs(o.inv)[2] == hdrs(c.inv)[2], 'the offer is unchanged')
        self.oracle()

    # ------------------------------------------------------------ oracle

    def oracle(self):
        h, c, o = self.h, self.c, self.o
        o.look()
        held = self.session() is not None
        if c.over():
            h.reach('over')
            if self.tover is None:
                self.tover = CLK.now
            if o.first is None and (CLK.now >= self.tover + 32 or not self.progressed and CLK.now >= T0 + 32):
                # both the INVITE and the CANCEL have been given up
                self.lost = True
            ok = self.lost or o.inv is None or (o.first is not None and o.first >= 300) or \
                (o.dialog() and (o.got_bye() or o.mybye)) or \
                (o.first is None and (not self.progressed or len(o.msgs('CANCEL')) > 0))
            h.check(ok, 'the callee is released when the caller has ended', log=str(self.log))
        if not held:
            if o.over() or len(o.msgs('CANCEL')) > 0:
                h.check(c.over(), 'the caller is released when the callee has ended', log=str(self.log))
        h.check(len(o.msgs('CANCEL')) <= 1, 'cancelled once')
        for p in (c, o):
            h.check(len(p.msgs('BYE')) <= 1, 'hung up once', log=str(self.log))
        # whoever still waits for an answer to a re-INVITE waits for the other side
        if not held:
            for x, y in ((c, o), (o, c)):
                if x.pend_in is not None and not x.over():
                    h.check(len(y.pend_out()) > 0, 'an unanswered re-INVITE is pending on the other leg', log=str(self.log))

    def finish(self):
        h, c, o = self.h, self.c, self.o
        while self.session() is not None:
            self.session().done(True)
            c.react()
            o.react()
            if self.session() is None:
                self.oracle()
        if o.dialog() and not c.over() and not self.lost:
            h.check(c.dialog(), 'an answered call is answered on the other leg')
            if not self.body and self.session() is None:
                ack = [s[1] for s in o.msgs('ACK') if seqno(s[1]) == seqno(o.inv)]
                h.check(len(ack) == 1 and bno(ack[0]) == c.late, 'a late answer is passed on')
                h.reach('lateanswer')
        if not c.over() and not o.over() and not (o.look() is None and c.over()):
            c.bye() if c.dialog() else c.cancel()
            self.log.append('end')
            if self.session() is None:
                self.oracle()
        if self.polite:
            c.answer_bye()
            o.answer_bye()
        env.run_out(limit=300)
        c.react()
        o.react()
        h.check(len([f for f in c.finals(seqno(c.inv))]) == 1, 'one final answer to the caller', log=str(self.log))
        self.a.clean(h)

    # ------------------------------------------------------------ walk

    def acts(self):
        c, o = self.c, self.o
        a = []
        if self.session() is not None:
            a += ['m_ok', 'm_err']
        if not c.over() and not c.dialog():
            a += ['c_cancel']
            if len([f for f in c.codes() if f > 100]) > 0:
                a += ['c_bye']
        if o.look() is not None and o.first is None:
            a += ['o_prov', 'o_early', 'o_2xx', 'o_fail']
        for p, x in ((c, 'c'), (o, 'o')):
            if p.dialog() and not p.mybye:
                a += [x + '_bye']
                if not p.over():
                    if p.pend_in is None:
                        a += [x + '_reinv', x + '_info']
                    else:
                        a += [x + '_recancel']
            if p.pend_out():
                a += [x + '_reok', x + '_refail']
        if self.canwait and self.waited is None:
            a += ['wait']
        if self.allowed is not None:
            a = [x for x in a if x in self.allowed]
        return a

    def run(self):
        self.polite = self.h.choose('polite', [True, False]) if not quick() else True
        self.start()
        for i in range(self.n):
            opts = self.acts()
            if not opts:
                break
            act = self.h.choose('act%d' % i, opts)
            self.log.append(act)
            self.i = i
            if act[1] == '_' and act[0] in 'co':
                p, q = (self.c, self.o) if act[0] == 'c' else (self.o, self.c)
                getattr(self, act[2:])(p, q) if act[2:] in TWO else getattr(self, act)()
            else:
                getattr(self, act)()
            self.c.react()
            self.o.react()
            self.oracle()
        self.finish()

    def m_ok(self):
        self.session().done(True)

    def m_err(self):
        self.session().done(False)

    def wait(self):
        self.waited = True
        env.run_until(CLK.now + self.h.time('wait', 0, 70))

    def c_cancel(self):
        c, o, h = self.c, self.o, self.h
        c.cancel()
        h.check(c.codes(seqno(c.inv))[-1] == 487, 'a cancelled caller gets 487')
        if self.progressed and o.first is None:
            h.check(len(o.msgs('CANCEL')) == 1, 'cancelling is passed on')

    def passed(self):
        """events are passed on at once"""
        return self.session() is None and self.media is None

    def o_prov(self):
        c, o, h = self.c, self.o, self.h
        self.progressed = True
        code = h.int('p%d' % self.i, 101, 199)
        n = len(SENT)
        o.answer(code, extra=('X-N: %d' % self.i,))
        if not c.over() and self.passed():
            new = [s[1] for s in SENT[n:] if s[2][0] == c.host]
            h.check(len(new) == 1 and code_of(new[0]) == code, 'progress is passed on with its code', code=code)
            h.reach('progress')

    def o_early(self):
        c, o, h = self.c, self.o, self.h
        self.progressed = True
        b = o.newbody()
        o.answer(183, body=b)
        if not c.over() and self.passed():
            t = c.msgs(cmethod='INVITE')[-1][1]
            h.check(code_of(t) == 183 and bno(t) == b, 'early media is passed on')

    def o_2xx(self):
        c, o, h = self.c, self.o, self.h
        b = o.newbody()
        was = c.over()
        t = o.answer(200, body=b)
        if not was and self.passed() and self.body:
            f = c.finals(seqno(c.inv))
            h.check(len(f) == 1 and code_of(f[0]) == 200, 'the answer is passed on')
            h.check(bno(f[0]) == b and hdrs(f[0])[2] == hdrs(t)[2], 'the answer carries the body')
            h.reach('answered')
        if was and not self.lost:
            h.check(o.got_bye(), 'a late answer is hung up')
            h.reach('late')

    def o_fail(self):
        c, o, h = self.c, self.o, self.h
        was = c.over()
        code = h.int('f%d' % self.i, 300, 699)
        o.answer(code)
        if not was and self.session() is None:
            f = c.finals(seqno(c.inv))
            h.check(len(f) == 1, 'the failure is passed on')
            h.check(code_of(f[0]) == code, 'the failure is passed on with its code', code=code)
            h.reach('failed')

    def bye(self, p, q):
        h = self.h
        was = p.over()
        wasd = p.dialog()
        out = p.bye()
        codes = [code_of(s[1]) for s in out if s[2][0] == p.host and hval(s[1], 'cseq').endswith(' BYE')]
        h.check(len(codes) == 1, 'a BYE is answered')
        if not was and not self.lost:
            h.check(codes[0] == 200, 'a BYE is accepted')
            h.reach('bye')

    def reinv(self, p, q):
        h = self.h
        n = len(q.msgs('INVITE'))
        busy = len(p.pend_out()) > 0 or len(q.pend_out()) > 0 or q.pend_in is not None
        b, out = p.reinvite()
        if self.session() is not None:
            return
        if p.pend_in is None:
            h.check(busy or self.media is not None or not q.dialog(), 'a re-INVITE is not answered on its own')
            return
        if self.media is None:
            x = q.pend_out()
            h.check(len(x) == 1 and bno(x[0]) == b, 'a re-INVITE is passed on with its body', log=str(self.log))
            h.reach('reinvite')

    def answered(self, p, q):
        return p.session

    def reok(self, p, q):
        h = self.h
        b = p.newbody()
        waits = q.pend_in
        live = not p.over() and not q.over()
        p.answer_re(200, body=b)
        if live and waits is not None and self.passed():
            f = q.finals(waits)
            h.check(len(f) == 1 and code_of(f[0]) == 200 and bno(f[0]) == b, 'its answer is passed back')
            h.reach('reanswer')

    def refail(self, p, q):
        h = self.h
        waits = q.pend_in
        live = not p.over() and not q.over()
        code = h.int('rf%d' % self.i, 300, 699)
        p.answer_re(code)
        if live and waits is not None and self.session() is None:
            f = q.finals(waits)
            h.check(len(f) == 1, 'its failure is passed back')
            h.check(code_of(f[0]) == code, 'its failure is passed back with its code')
            if not q.over():
                h.check(not p.over() and not p.got_bye(), 'a refused re-INVITE keeps the call')
                h.reach('kept')

    def info(self, p, q):
        h = self.h
        n = len(q.msgs('INFO'))
        pend = p.pend_out() or q.pend_out() or q.pend_in
        out = p.send(p.req('INFO'))
        if not pend and not q.over() and q.dialog() and self.session() is None:
            h.check([code_of(s[1]) for s in out if s[2][0] == p.host] == [200], 'INFO is accepted')
            h.check(len(q.msgs('INFO')) == n + 1, 'INFO is passed on')
            h.reach('info')

    def recancel(self, p, q):
        p.cancel_re()


class Relay(object):
    """the media relay passes the first bodies at once, later, or refuses them"""

    def __init__(self, h, n):
        self.h, self.n, self.k = h, n, 0

    def mode(self, d):
        if self.k >= self.n:
            return 'pass'
        self.k += 1
        return self.h.choose('media%d' % self.k, ['pass', 'delay', 'raise'])


class Up(Bridge):
    """starts from an established call"""

    def start(self):
        Bridge.start(self)
        self.o.answer(200, body=self.o.newbody())
        self.c.react()
        self.h.check(self.c.dialog(), 'established')
        if self.media is not None:
            self.media.n = 2 if quick() else 3


@scenario('B01', reach=('over', 'progress', 'answered', 'late', 'failed', 'bye'),
          bounds='a call from its INVITE on: every sequence of 3 (thorough 4) acts of caller and callee (CANCEL, early BYE, '
                 'progress with and without body, answer, failure, BYE, INFO, re-INVITE and its answer or cancellation) and '
                 'one wait of up to 70 s (symbolic), all codes symbolic; then hang-up and run-out of all timers')
def setup_(h):
    Bridge(h, 3 if quick() else 4).run()


@scenario('B01', reach=('over', 'reinvite', 'reanswer', 'kept', 'info', 'bye'),
          bounds='an established call: every sequence of 3 (thorough 4) acts of both parties and one wait of up to 70 s')
def established(h):
    Up(h, 3 if quick() else 4).run()


@scenario('B01', reach=('over', 'failed', 'bye'),
          bounds='a call whose first 2 (thorough 3) SDP bodies are passed at once, held and then passed or failed, or refused '
                 'by the media relay: every sequence of 3 (thorough 4) acts of caller, callee and relay')
def media(h):
    Bridge(h, 3 if quick() else 4, media=Relay(h, 2 if quick() else 3), wait=False).run()


@scenario('B01', reach=('over', 'bye'),
          bounds='an established call with a media relay that passes, holds, fails or refuses 2 (thorough 3) bodies: every '
                 'sequence of 3 (thorough 4) acts')
def media_up(h):
    Up(h, 3 if quick() else 4, media=Relay(h, 0), wait=False).run()


@scenario('B01', reach=('over', 'failed', 'bye', 'lateanswer'),
          bounds='a call whose INVITE has no body, the caller acknowledging with the answer to the callee\'s offer, without and '
                 'with a media relay that passes, holds, fails or refuses 2 (thorough 3) bodies: every sequence of 3 (thorough '
                 '4) acts')
def late(h):
    m = Relay(h, 2 if quick() else 3) if h.choose('relay', [False, True]) else None
    Bridge(h, 3 if quick() else 4, media=m, wait=False, body=False).run()
