"""R04: a media session is released on the proxy exactly when it was created."""
import gc
from symx.runner import scenario, quick
from symx import env
from symx.env import SENT, CLK, T0, DUMPS
from harness.sip import *
from harness.rtp import *
from harness.r02 import change


class W(object):
    def __init__(self, h, n=2):
        self.h = h
        self.s, self.c = session(h)
        self.n = n
        self.deleted = None        # number of commands issued before the deletion
        self.timed_out = None
        self.outs = []
        self.recs = []

    # the actions
    def sdp_a(self, n=1):
        o = Out(self.h)
        self.outs.append(o)
        change(self.s, 'caller', body([Sect(port='41%d0' % i) for i in range(n)]), o)

    def sdp_o(self, n=1):
        o = Out(self.h)
        self.outs.append(o)
        change(self.s, 'callee', body([Sect(port='42%d0' % i) for i in range(n)]), o)

    def sdp_a2(self):
        self.sdp_a(2)

    def sdp_o3(self):
        self.sdp_o(3)

    def play(self):
        self.s.play_callee('prompt', 1, self.rec('play'))

    def stop(self):
        self.s.stop_play_callee(self.rec('stop'))

    def record(self):
        self.s.start_recording('name', self.rec('record'))

    def copy(self):
        self.s.copy_caller('1.2.3.4', 5, self.rec('copy'))

    def rec(self, what):
        r = []
        self.recs.append((what, r))

        def f(*a, **kw):
            r.append(a)
            self.h.check(len(r) == 1, 'one outcome of an operation', what=what)
        return f

    def ok(self):
        self.h.assume(self.c.pend != [])
        self.c.answer('7000 1.2.3.4' if self.c.pend[0][0][0] == 'U' else '0')

    def err(self):
        self.h.assume(self.c.pend != [])
        self.c.answer(self.h.choose('err', [None, 'E7']))

    def gone(self):
        """the proxy has dropped the first stream by itself"""
        self.h.assume(self.timed_out is None and any(x[0] == 'U' for x in self.c.sent))
        self.s.media_timeout_index = self.timed_out = 0

    def delete(self):
        self.s.delete()

    def drop(self):
        self.s = None
        gc.collect()
        env.run_threadq()

    def step(self, a):
        if self.deleted is not None:
            self.h.assume(a in ('ok', 'err', 'again'))
        if a in ('delete', 'drop'):
            self.created = set(self.idx(x) for x in self.issued() if x[0] == 'U')
        getattr(self, a)()
        env.run_threadq()
        if a in ('delete', 'drop'):
            self.deleted = a

    def again(self):
        self.h.assume(self.deleted == 'delete')
        self.s.delete()

    def issued(self):
        """every command that went out or waits for its turn"""
        q = self.s.rtpp_seq
        return list(self.c.sent) + [x[0] for x in q.comqueue]

    def idx(self, cmd):
        return int([x for x in cmd.split(' ') if x[:4] == 'CID-'][0][4:])

    def end(self):
        h = self.h
        if self.deleted is None:
            self.step(h.choose('how', ['delete', 'drop']))
        n = 0
        while self.c.pend:
            h.check(len(self.c.pend) == 1, 'one command at a time')
            self.c.answer('7000 1.2.3.4' if self.c.pend[0][0][0] == 'U' else '0')
            n += 1
            h.check(n < 20, 'comes to an end')
        if self.s is not None:
            self.s.delete()
            self.s = None
        gc.collect()
        env.run_threadq()
        h.check(self.c.pend == [], 'nothing more')
        sent = self.c.sent
        us = set(self.idx(x) for x in sent if x[0] == 'U')
        ds = [self.idx(x) for x in sent if x[0] == 'D']
        h.check(len(ds) == len(set(ds)), 'one delete for each stream', sent=sent)
        want = set(us)
        want.discard(self.timed_out)
        h.check(set(ds) == want, 'a delete for each stream which may exist there', sent=sent)
        for x in sent:
            if x[0] == 'D':
                h.check(x == 'D CID-%d FT TT' % self.idx(x), 'the delete names the session', got=x)
                k = self.idx(x)
                i = sent.index(x)
                h.check(not any(self.idx(y) == k for y in sent[i + 1:]), 'nothing for the stream after its delete', sent=sent)
        for what, r in self.recs:
            h.check(len(r) == 1, 'the operation has an outcome', what=what)


ACTS = ['end', 'sdp_a', 'sdp_a2', 'sdp_o3', 'ok', 'err', 'delete', 'drop']


@scenario('R04', reach=('created', 'never'),
          bounds='up to 4 (thorough: 6) of: a body of one or two sections of one side, of three of the other, a good answer, no answer, an error, deletion, last reference dropped; then deletion, '
                 'answers to all that is left')
def updates(h):
    """bodies and deletion"""
    w = W(h)
    for i in range(4 if quick() else 6):
        a = h.choose('act', ACTS)
        if a == 'end':
            break
        w.step(a)
    w.end()
    h.reach('created' if any(x[0] == 'U' for x in w.c.sent) else 'never')


@scenario('R04', bounds='up to 3 (thorough: 4) of: playing, stopping, recording in two stages, copying, bodies of both sides, a good answer, no answer, an error, the proxy reporting a stream gone, '
                        'deletion (again)')
def operations(h):
    """operations under way when the session is deleted"""
    w = W(h)
    first = h.choose('first', [None, 'sdp_a', 'sdp_o'])
    if first:
        w.step(first)
    for i in range(3 if quick() else 4):
        w.step(h.choose('act', ['sdp_o', 'play', 'stop', 'record', 'copy', 'ok', 'err', 'gone', 'delete', 'again']))
    w.end()


@scenario('R04', bounds='session on a client that is off line, or on one going off line while a command is open')
def offline(h):
    """no proxy"""
    from sippy.Exceptions.RtpProxyError import RtpProxyError
    from sippy.Rtp_proxy.session import Rtp_proxy_session
    c = Client(h)
    c.online = False
    form = h.choose('form', ['list', 'one'])
    try:
        Rtp_proxy_session({'_rtp_proxy_clients': [c]} if form == 'list' else {'rtp_proxy_client': c})
    except RtpProxyError:
        pass
    else:
        h.fail('refused')
    gc.collect()
    h.check(c.sent == [], 'no command')


@scenario('R04', bounds='two or three streams created; any one of them reported gone by the proxy; then deletion or last reference dropped')
def timeouts(h):
    """the proxy has dropped a stream by itself"""
    w = W(h)
    n = h.choose('n', [2, 3])
    w.sdp_a(n)
    while w.c.pend:
        w.ok()
    k = h.choose('k', [0, 1, 2])
    h.assume(k < n)
    w.s.media_timeout_index = w.timed_out = k
    w.end()
