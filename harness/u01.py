"""U01: every call attempt ends exactly once and leaves nothing behind."""
from symx.runner import scenario, quick
from symx import env
from symx.env import SENT, CLK, T0, DUMPS
from harness.sip import *
from harness.ua import World, Walk, Media


class Walk1(Walk):
    lim = 70
    media = None

    def acts(self):
        a = Walk.acts(self)
        if self.media is not None and self.media.queue:
            a = ['m_ok', 'm_err'] + a
        if self.media is not None and 'p_2xx' in a and not self.first_done:
            a = a + ['p_early']
        return a

    def m_ok(self, i):
        self.media.done(True)

    def m_err(self, i):
        self.media.done(False)

    def wait(self, i):
        self.wait_at = i
        env.run_until(CLK.now + self.h.time('wait', 0, self.lim))
        w = self.w
        if w.ended and not self.dialog:
            # a timer ended it meanwhile
            if w.kind == 'uas':
                self.first_done = True


def keepalives(ua):
    ua.kaInterval = 50


def explore(h, kind, n, up=False, media=None, **kw):
    w = World(h, kind, **kw)
    k = Walk1(h, w, n, wait=media is None)
    k.media = media
    if up and not w.ended:
        if kind == 'uac':
            k.p_2xx('up')
        else:
            k.a_connect('up')
            w.peer_ack()
        if media is not None:
            w.ua.on_remote_sdp_change = media.remote
            w.ua.on_local_sdp_change = media.local
    k.run()
    if media is not None:
        while media.queue:
            media.done(True)
    w.finish()
    w.lifecycle(h)
    h.reach(kind)
    if w.count('conn'):
        h.reach('connected')
    return w


@scenario('U01', reach=('uac', 'connected'),
          bounds='outgoing leg without time limits, with a late offer, with reply/progress/ring/credit limits, or with keep-alives; '
                 'every sequence of 3 (thorough 4) acts of peer and application and of waiting up to 70 s (symbolic instant), all '
                 'codes symbolic, then hang-up and run-out of all timers')
def uac(h):
    cfg = h.choose('cfg', ['plain', 'late', 'timed', 'long'])
    kw = {}
    if cfg == 'late':
        kw['body'] = None
    if cfg == 'timed':
        kw.update(noreply=5, noprog=15, expire=30, credit=40)
    if cfg == 'long':
        kw.update(noreply=31, noprog=100, expire=400, credit=500, setup=keepalives)
    explore(h, 'uac', 3 if quick() else 4, **kw)


@scenario('U01', reach=('uas', 'connected'),
          bounds='incoming leg, same limits; every sequence of 3 (thorough 4) acts of peer and application and of waiting up '
                 'to 70 s (symbolic instant), then hang-up and run-out of all timers')
def uas(h):
    cfg = h.choose('cfg', ['plain', 'timed', 'long'])
    kw = {}
    if cfg == 'timed':
        kw.update(noprog=15, expire=30, credit=40)
    if cfg == 'long':
        kw.update(noprog=100, expire=400, credit=500, setup=keepalives)
    explore(h, 'uas', 3 if quick() else 4, **kw)


@scenario('U01', reach=('uac', 'uas', 'connected'),
          bounds='established leg of either direction, plain or with limits and keep-alives; every sequence of 3 (thorough 4) '
                 'acts (re-INVITEs and updates of both sides, their answers, BYE, CANCEL, INFO, waiting)')
def update(h):
    kind, cfg = h.choose('cfg', [('uac', 'plain'), ('uas', 'plain'), ('uac', 'long'), ('uas', 'long')])
    kw = {}
    if cfg == 'long':
        kw.update(noprog=100, expire=400, credit=500, setup=keepalives)
    explore(h, kind, 3 if quick() else 4, up=True, **kw)


@scenario('U01', reach=('uac', 'uas', 'connected'),
          bounds='leg of either direction, new or established, whose first 2 (thorough 3) SDP bodies are passed at once, later, '
                 'or refused by a media relay; 3 (thorough 4) acts of peer, application and relay')
def media(h):
    kind, up = h.choose('cfg', [('uac', False), ('uas', False), ('uac', True), ('uas', True)])
    m = Media(h, 2 if quick() else 3)

    def setup(ua):
        if not up:
            ua.on_remote_sdp_change = m.remote
            if kind == 'uac':
                ua.on_local_sdp_change = m.local

    explore(h, kind, 3 if quick() else 4, up=up, media=m, setup=setup, expire=100)


@scenario('U01', reach=('alive', 'refused', 'dropped', 'challenged'),
          bounds='established leg with keep-alives every 20 s; the peer answers 2 (thorough 3) of them with a 2xx, a '
                 'challenge, any other final code, or not at all; then either side hangs up at a symbolic instant')
def keepalive(h):
    kind, user = h.choose('cfg', [('uac', None), ('uac', ('u', 'p')), ('uas', None)])

    def setup(ua):
        ua.kaInterval = 20
    w = World(h, kind, setup=setup, user=user)
    k = Walk1(h, w, 0)
    if kind == 'uac':
        k.p_2xx('up')
    else:
        k.a_connect('up')
        w.peer_ack()
    codes = []
    for i in range(2 if quick() else 3):
        n0 = len(w.distinct('INVITE'))
        env.run_until(CLK.now + 20)
        n1 = len(w.distinct('INVITE'))
        h.check(n1 <= n0 + 1, 'one keep-alive at a time')
        if n1 == n0:
            break
        act = h.choose('ka%d' % i, ['ok', 'chal', 'other', 'none'])
        if act == 'ok':
            w.answer(200, body=50 + i)
            h.reach('alive')
        elif act == 'chal':
            w.answer(401, extra=('WWW-Authenticate: Digest realm="r",nonce="n%d"' % i,))
            if user:
                h.reach('challenged')
                h.check(len(w.distinct('INVITE')) == n1 + 1, 'keep-alive is retried with credentials')
                h.check(hval(w.last('INVITE'), 'authorization') is not None, 'authorized')
                codes.append(401)
                w.answer(200, body=50 + i)
            else:
                h.check(len(w.distinct('INVITE')) == n1, 'keep-alive is not retried')
        elif act == 'other':
            c = h.int('code%d' % i, 400, 699)
            h.assume(h.all(c != 401, c != 407))
            w.answer(c)
            if w.ended:
                h.reach('dropped')
                h.check(h.any(c == 408, c == 481, c == 486), 'dropped for a good reason')
            else:
                h.reach('refused')
    if not w.ended:
        env.run_until(CLK.now + h.time('dt', 0, 60))
    if not w.ended:
        if h.choose('end', ['bye', 'disc']) == 'bye':
            w.peer('BYE')
            h.check(w.ended, 'ended by BYE')
    w.finish()
    w.lifecycle(h)
