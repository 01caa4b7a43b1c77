"""U02: an established or late-answered call is always released towards the peer."""
from symx.runner import scenario, quick
from symx import env
from symx.env import SENT, CLK, T0, DUMPS
from harness.sip import *
from harness.ua import World, Walk, Media


class Walk2(Walk):
    """remembers when the call was abandoned and what the transaction layer could still see"""
    media = None
    tdead = None        # the INVITE transaction is over for lack of an answer
    abandoned = None
    lim = 40

    def acts(self):
        a = Walk.acts(self)
        if self.media is not None:
            if self.media.queue:
                a = ['m_ok', 'm_err'] + a
            if 'p_2xx' in a and not self.first_done and self.w.inv is not None:
                a = a + ['p_tagless', 'p_early']
        return a

    def m_ok(self, i):
        self.media.done(True)

    def m_err(self, i):
        self.media.done(False)

    def p_tagless(self, i):
        w = self.w
        self.first_done = True
        w.got2xx = True
        w.answer(200, body=2, inv=w.inv, totag=None)

    def note(self, w):
        if w.kind == 'uac' and self.abandoned is None and w.ended and not self.first_done:
            self.abandoned = CLK.now

    def wait(self, i):
        self.wait_at = i
        env.run_until(CLK.now + self.h.time('wait', 0, self.lim))
        w = self.w
        if w.kind == 'uac' and not self.first_done and not w.prov:
            if not (CLK.now < T0 + 32):
                # timed out by the transaction layer: nothing of it is of interest any more
                self.first_done = True
                self.tdead = True
                return
        self.note(w)
        if w.ended and not self.dialog and w.kind == 'uas':
            self.first_done = True


def oracle(h, k, w):
    """what was sent to the peer over the whole life of the call"""
    byes = w.distinct('BYE')
    cancels = [c for c in w.distinct('CANCEL') if w.inv is not None and seq(c) == seq(w.inv)]
    h.check(len(DUMPS) == 0, 'no internal exception', dumps=str(DUMPS)[:300])
    if w.kind == 'uac':
        acks = [a for a in w.sent('ACK') if seq(a[1]) == seq(w.inv)]
        if w.got2xx:
            h.check(len(acks) >= 1, 'answer acknowledged')
            for a in acks:
                h.check(a[1] == acks[0][1], 'one ACK for the answer')
            if w.peerbye:
                h.reach('peer-bye')
                h.check(len(byes) == 0, 'no BYE after the BYE of the peer')
            else:
                h.reach('released')
                h.check(len(byes) == 1, 'exactly one BYE', n=len(byes), log=str(k.log))
                h.check(SENT.index(acks[0]) < [i for i, s in enumerate(SENT) if s[1] == byes[0]][0],
                        'acknowledged before it is released')
            if k.abandoned is not None:
                h.reach('overtaken')
        else:
            h.check(len(byes) == 0, 'no BYE without a dialog')
        if k.abandoned is not None and not k.tdead:
            if w.prov:
                h.reach('cancelled')
                h.check(len(cancels) == 1, 'an abandoned call is cancelled', log=str(k.log))
            else:
                h.check(len(cancels) == 0, 'no CANCEL before a provisional response')
        elif not k.tdead:
            h.check(len(cancels) == 0, 'no CANCEL unless abandoned')
    else:
        fin = w.finals(seq(w.inv))
        h.check(len(fin) == 1, 'exactly one final response', n=len(fin), log=str(k.log))
        if w.sent2xx:
            h.check(200 <= code_of(fin[0]) and code_of(fin[0]) < 300, 'the positive one')
            if w.peerbye:
                h.reach('peer-bye')
                h.check(len(byes) == 0, 'no BYE after the BYE of the peer')
            else:
                h.reach('released')
                h.check(len(byes) == 1, 'exactly one BYE', n=len(byes), log=str(k.log))
        else:
            h.reach('refused')
            h.check(code_of(fin[0]) >= 300, 'a negative one')
            h.check(len(byes) == 0, 'no BYE without a dialog')
    for known, codes in k.bye_answers:
        if known:
            h.check(codes == [200], 'BYE of the peer answered 200', codes=str(codes))
        else:
            h.check(len(codes) == 1, 'BYE answered once', codes=str(codes))


def seq(d):
    return int(hval(d, 'cseq').split(' ')[0])


def explore(h, kind, n, up=False, ack=True, media=None, **kw):
    w = World(h, kind, **kw)
    k = Walk2(h, w, n, wait=media is None)
    k.media = media
    k.autoack = ack
    if up:
        if kind == 'uac':
            k.p_2xx('up')
        else:
            k.a_connect('up')
            if ack:
                k.acks()
        if media is not None:
            w.ua.on_remote_sdp_change = media.remote
            w.ua.on_local_sdp_change = media.local
    for i in range(n):
        act = k.step(i)
        if act != 'wait':
            k.note(w)
    if not w.ended:
        if w.kind == 'uac' and not k.first_done:
            w.ev('Disconnect')
            k.note(w)
    if media is not None:
        while media.queue:
            media.done(True)
    w.finish()
    oracle(h, k, w)


@scenario('U02', reach=('released', 'peer-bye', 'cancelled', 'overtaken'),
          bounds='outgoing leg, plain, with a late offer, or with limits; every sequence of 3 (thorough 4) acts of peer, '
                 'application and waiting, all codes and instants symbolic, then hang-up and run-out of all timers')
def uac(h):
    cfg = h.choose('cfg', ['plain', 'late', 'timed'])
    kw = {}
    if cfg == 'late':
        kw['body'] = None
    if cfg == 'timed':
        kw.update(noreply=5, noprog=15, expire=30, credit=20)
    explore(h, 'uac', 3 if quick() else 4, **kw)


@scenario('U02', reach=('released', 'peer-bye', 'refused'),
          bounds='incoming leg, plain, with limits, or whose answer is never acknowledged; every sequence of 3 (thorough 4) acts')
def uas(h):
    cfg, ack = h.choose('cfg', [('plain', True), ('plain', False), ('timed', True)])
    kw = {}
    if cfg == 'timed':
        kw.update(noprog=15, expire=30, credit=20)
    explore(h, 'uas', 3 if quick() else 4, ack=ack, **kw)


@scenario('U02', reach=('released', 'peer-bye'),
          bounds='established leg of either direction with a credit limit; every sequence of 3 (thorough 4) acts')
def update(h):
    kind = h.choose('kind', ['uac', 'uas'])
    explore(h, kind, 3 if quick() else 4, up=True, credit=30)


@scenario('U02', reach=('released', 'peer-bye', 'overtaken', 'refused'),
          bounds='leg of either direction, new or established, whose first 2 (thorough 3) SDP bodies are passed at once, later, '
                 'or refused by a media relay; 3 (thorough 4) acts of peer, application and relay')
def media(h):
    kind, up = h.choose('cfg', [('uac', False), ('uas', False), ('uac', True), ('uas', True)])
    m = Media(h, 2 if quick() else 3)

    def setup(ua):
        if not up:
            ua.on_remote_sdp_change = m.remote
            if kind == 'uac':
                ua.on_local_sdp_change = m.local
    explore(h, kind, 3 if quick() else 4, up=up, media=m, setup=setup)


@scenario('U02', reach=('answered', 'unanswered', 'crossed', 'plain'),
          bounds='established leg of either direction transferred by the application (redirect, or disconnect naming a new target), '
                 'with or without REFER; the peer answers the REFER with up to one provisional and one final response (symbolic '
                 'codes) or not at all, and sends BYE of its own or not')
def refer(h):
    from sippy.SipAddress import SipAddress
    from sippy.SipURL import SipURL
    import sippy.CCEvents as E
    kind = h.choose('kind', ['uac', 'uas'])
    use = h.choose('refer', [True, False])

    def setup(ua):
        ua.useRefer = use
    w = World(h, kind, setup=setup)
    k = Walk2(h, w, 0)
    if kind == 'uac':
        k.p_2xx('up')
    else:
        k.a_connect('up')
        k.acks()
    to = SipAddress(url=SipURL(username='carol', host='10.0.0.7'))
    if h.choose('how', ['redirect', 'disconnect']) == 'redirect':
        w.ev('Redirect')
    else:
        w.ua.recvEvent(E.CCEventDisconnect(to))
    h.check(w.count('disc') == 1, 'the leg has ended')
    if use:
        h.check(len(w.distinct('REFER')) == 1, 'one REFER')
        r = w.last('REFER')
        h.check('sip:carol@10.0.0.7' in hval(r, 'refer-to'), 'to the new target')
    else:
        h.reach('plain')
        b = w.last('BYE')
        h.check(b is not None and 'sip:carol@10.0.0.7' in (hval(b, 'also') or ''), 'BYE names the new target')
    first = h.choose('bye', ['no', 'before', 'after'])
    if first == 'before':
        h.reach('crossed')
        t, out = w.peer('BYE')
        h.check([code_of(s[1]) for s in out if hval(s[1], 'cseq').endswith(' BYE') and method_of(s[1]) is None] == [200],
                'crossing BYE answered')
    if use:
        if h.choose('prov', [False, True]):
            w.answer_last('REFER', h.int('pcode', 100, 199))
            h.check(len(w.distinct('BYE')) == 0, 'no BYE before the REFER is answered')
        if h.choose('fin', [False, True]):
            h.reach('answered')
            w.answer_last('REFER', h.int('fcode', 200, 699))
        else:
            h.reach('unanswered')
    if first == 'after':
        h.reach('crossed')
        t, out = w.peer('BYE')
        h.check([code_of(s[1]) for s in out if hval(s[1], 'cseq').endswith(' BYE') and method_of(s[1]) is None] == [200],
                'crossing BYE answered')
    env.run_out(limit=300)
    h.check(len(w.distinct('BYE')) == 1, 'exactly one BYE', n=len(w.distinct('BYE')))
    h.check(w.count('disc', 'fail') == 1 and w.ua.isDead(), 'over')
    h.check(len(DUMPS) == 0, 'no internal exception', dumps=str(DUMPS)[:300])
