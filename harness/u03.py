"""U03: sequence numbers order every dialog."""
from symx.runner import scenario, quick
from symx import env
from symx.env import SENT, CLK, T0, DUMPS
from harness.sip import *
from harness.ua import World, Walk, seqno, mbody


def tag_of(v):
    p = v.split(';tag=')
    return p[1].split(';')[0] if len(p) > 1 else None


class Walk3(Walk):
    chal = False

    def acts(self):
        a = Walk.acts(self)
        if self.dialog and not self.w.ended:
            a += ['a_info', 'a_redir', 'ka']
        if self.chal and self.w.kind == 'uac' and not self.first_done:
            a += ['p_chal']
        return a

    def a_info(self, i):
        self.w.ev('Info')

    def p_chal(self, i):
        self.w.answer(401, extra=('WWW-Authenticate: Digest realm="r",nonce="n%s"' % i,))

    def ka(self, i):
        env.run_until(CLK.now + 20)


def outgoing(h, w):
    """all requests of the leg, oldest first, each once"""
    out = []
    for s in SENT:
        m = method_of(s[1])
        if m is not None and s[1] not in out:
            out.append(s[1])
    top = None
    invs = []
    tags = None
    for d in out:
        m = method_of(d)
        n = seqno(d)
        h.check(hval(d, 'cseq') == '%s %s' % (n, m), 'method of CSeq')
        h.check(hval(d, 'call-id') == w.callid, 'one Call-ID')
        if m in ('ACK', 'CANCEL'):
            h.check(n in invs, m + ' has the number of its INVITE')
        else:
            h.check(top is None or n > top, 'sequence numbers increase', out=str([x.split('\r\n')[0] for x in out]))
            top = n
            if m == 'INVITE':
                invs.append(n)
        lt, rt = tag_of(hval(d, 'from')), tag_of(hval(d, 'to'))
        if tags is None:
            tags = [lt, rt]
        h.check(lt is not None and lt == tags[0], 'constant local tag')
        if m in ('ACK', 'CANCEL'):
            continue
        if tags[1] is None:
            tags[1] = rt
        h.check(rt == tags[1], 'constant remote tag')
    if w.kind == 'uas' and tags is not None:
        h.check(tags[1] == w.ftag, 'remote tag is that of the caller')
        h.check(tags[0] == tag_of(hval(w.finals()[0], 'to')), 'local tag is that of the answer')
    elif tags is not None and tags[1] is not None:
        h.check(tags[1] == 'rt1', 'remote tag is that of the answer')
    h.reach('%d' % min(3, len([d for d in out if method_of(d) not in ('ACK', 'CANCEL')])))


@scenario('U03', reach=('1', '2', '3'),
          bounds='new outgoing leg with credentials, established outgoing leg with keep-alives, established incoming leg; every '
                 'sequence of 3 (thorough 4) acts, challenges and keep-alives included; all requests sent are examined')
def sent(h):
    kind, up, user, ka = h.choose('cfg', [('uac', False, True, False), ('uac', True, False, True),
                                          ('uas', True, False, False)])

    def setup(ua):
        if ka:
            ua.kaInterval = 20
    w = World(h, kind, user=('u', 'p') if user else None, setup=setup)
    k = Walk3(h, w, 3 if quick() else 4)
    k.chal = user
    k.autoack = True
    if up:
        if kind == 'uac':
            k.p_2xx('up')
        else:
            k.a_connect('up')
            k.acks()
    k.run()
    w.finish()
    outgoing(h, w)
    h.check(len(DUMPS) == 0, 'no internal exception', dumps=str(DUMPS)[:300])


@scenario('U03', reach=('accepted', 'stale', 'first'),
          bounds='established leg of either direction; 3 (thorough 4) received requests (INFO, OPTIONS, INVITE, BYE, REFER) with '
                 'symbolic sequence numbers 100..999')
def received(h):
    kind = h.choose('kind', ['uac', 'uas'])
    first = h.int('cseq0', 100, 999)
    w = World(h, kind, rcseq=first)
    k = Walk3(h, w, 0)
    if kind == 'uac':
        k.p_2xx('up')
        last = None
    else:
        k.a_connect('up')
        w.peer_ack()
        last = first
    pend = None
    for i in range(3 if quick() else 4):
        opts = ['INFO', 'OPTIONS', 'INVITE', 'BYE', 'REFER']
        m = h.choose('m%d' % i, opts)
        n = h.int('n%d' % i, 100, 999)
        nlog, nev, nsent, nt = len(w.log), len(w.events), len(SENT), len(env.timers())
        was = w.ended
        text = w.peer_text(m, cseq=n, body=60 + i if m == 'INVITE' else None,
                           extra=('Refer-To: <sip:carol@10.0.0.7>',) if m == 'REFER' else ())
        env.deliver(w.tm, text)
        out = SENT[nsent:]
        mine = [s for s in out if code_of(s[1]) is not None and hval(s[1], 'cseq') == hval(text, 'cseq')]
        if last is not None and n <= last:
            h.reach('stale')
            h.check(len(out) == 1 and len(mine) == 1, 'one answer to a stale request', n=len(out))
            h.check(code_of(mine[0][1]) == 500, 'which is 500')
            h.check(len(w.log) == nlog and len(w.events) == nev, 'and nothing is reported')
            h.check(w.ended == was, 'and nothing changes')
            continue
        h.reach('accepted' if last is not None else 'first')
        last = n
        codes = [code_of(s[1]) for s in mine]
        if was:
            h.check(codes == [200 if m == 'BYE' else 500], 'answer after the end')
        elif m == 'INVITE':
            if pend is None:
                h.check(codes == [100], 'being processed')
                h.check(len(w.events) == nev + 1 and w.events[-1][0].name == 'CCEventUpdate', 'update reported')
                pend = n
            else:
                h.check(codes == [491], 'one at a time')
        elif m == 'BYE':
            h.check(codes == [200], 'BYE accepted')
            h.check(w.ended, 'and the call is over')
        elif m == 'INFO' and pend is None:
            h.check(codes == [200], 'INFO accepted')
            h.check(len(w.events) == nev + 1 and w.events[-1][0].name == 'CCEventInfo', 'info reported')
        elif m == 'OPTIONS' and pend is None:
            h.check(codes == [200], 'OPTIONS answered')
        elif m == 'REFER':
            h.check(codes == [202], 'REFER accepted')
            h.check(w.ended, 'and the call is over')
        if pend is not None and not w.ended and h.choose('answer%d' % i, [False, True]):
            w.ev('Connect')
            pend = None
            k.pend_in = False
    w.finish()
    h.check(len(DUMPS) == 0, 'no internal exception', dumps=str(DUMPS)[:300])
