"""T05: cancelling on both sides."""
from symx.runner import scenario, quick
from symx import env
from symx.env import SENT, CLK, T0, DUMPS
from harness.sip import *
from harness.t04 import invite, Rec


def cancels():
    return [s for s in SENT if method_of(s[1]) == 'CANCEL']


@scenario('T05', reach=('deferred', 'immediate', 'never', 'overtaken'),
          bounds='INVITE parsed or constructed with 0..2 Route, symbolic CSeq and port; the application cancels before, '
                 'between or after 2 (thorough 3) responses (provisional or final) at symbolic instants 0..20 s apart; extra headers or '
                 'not; the CANCEL answered 200 at once or never')
def client(h):
    from sippy.SipHeader import SipHeader
    tm, gc, app = tm_app('keep')
    env.stop_housekeeping()
    dest = ('10.0.0.2', h.int('dport', 1000, 9999))
    routes, how, ack200, ext = h.choose('cfg', [
        ((), 'built', True, False), (('<sip:10.0.0.2:5061;lr>',), 'parsed', True, True),
        (('<sip:10.0.0.2:5061;lr>', '<sip:p2@10.0.0.8>'), 'built', False, True)])
    r = invite(h, how, routes, 70, h.int('cseq', 100, 999), dest)
    rec = Rec()
    t = tm.newTransaction(r, rec.cb)
    inv = SENT[0]
    n = 2 if quick() else 3
    when = h.int('when', 0, n)        # the application cancels before event number when
    extra = [SipHeader(s='Reason: SIP;cause=200')] if ext else None
    state = 'trying'
    want = None
    asked = False
    over = None
    for i in range(n + 1):
        env.run_until(CLK.now + h.time('dt%d' % i, 0, 20 if ack200 else 5))
        if state == 'trying' and not (CLK.now < T0 + 32):
            return
        if when == i and state in ('trying', 'ringing'):
            asked = True
            n0 = len(SENT)
            tm.cancelTransaction(t, extra_headers=extra)
            if state == 'ringing':
                h.reach('immediate')
                want = CLK.now
                h.check(len(SENT) == n0 + 1, 'CANCEL sent at once')
            else:
                h.check(len(SENT) == n0, 'CANCEL deferred')
        if i < n:
            ev = h.choose('ev%d' % i, ['prov', 'final'])
            code = 100 + 83 * i if ev == 'prov' else h.choose('code%d' % i, [200, 487])
            n0 = len(cancels())
            env.deliver(tm, response_to(inv[1], code, 'R%d' % i))
            if ev == 'prov' and state == 'trying':
                state = 'ringing'
                if asked:
                    h.reach('deferred')
                    want = CLK.now
                    h.check(len(cancels()) == n0 + 1, 'deferred CANCEL sent with the first provisional')
            elif ev == 'final' and state in ('trying', 'ringing'):
                if state == 'trying' and asked:
                    h.reach('overtaken')
                state = 'over'
                over = CLK.now
        cs = cancels()
        if want is None:
            h.check(len(cs) == 0, 'no CANCEL before a provisional response')
        elif ack200 and CLK.now == want and len(cs) > 0:
            env.deliver(tm, response_to(cs[0][1], 200, 'OK'))
    env.run_until(CLK.now + 60)
    cs = cancels()
    if want is None:
        h.reach('never')
        h.check(len(cs) == 0, 'no CANCEL')
        return
    h.check(len(cs) >= 1, 'CANCEL sent')
    c = cs[0]
    h.check(c[3] == want, 'when due')
    for x in cs:
        h.check(x[1] == c[1], 'one CANCEL (only its retransmissions)')
        h.check(h.eq(x[2], inv[2]) and x[0] is inv[0], 'CANCEL goes where the INVITE went')
    if ack200:
        h.check(len(cs) == 1, 'answered CANCEL sent once')
    else:
        h.check(len(cs) == 7, 'unanswered CANCEL retransmitted')
    for nme in ('call-id', 'from', 'to', 'max-forwards'):
        h.check(hval(c[1], nme) == hval(inv[1], nme), 'CANCEL keeps ' + nme)
    h.check(hvals(c[1], 'via') == hvals(inv[1], 'via')[:1], 'CANCEL has the top Via of the INVITE')
    h.check(hvals(c[1], 'route') == hvals(inv[1], 'route'), 'CANCEL has the Route set of the INVITE')
    h.check(hval(c[1], 'cseq') == hval(inv[1], 'cseq').split(' ')[0] + ' CANCEL', 'CSeq of the CANCEL')
    h.check(c[1].split('\r\n', 1)[0] == 'CANCEL' + inv[1].split('\r\n', 1)[0][6:], 'request URI of the CANCEL')
    h.check(hdrs(c[1])[2] == '', 'no body')
    h.check(hvals(c[1], 'reason') == (['SIP;cause=200'] if extra else []), 'extra headers of the CANCEL')
    h.check(len(DUMPS) == 0, 'no internal exception')


class App5(App):
    def recvRequest(self, req, sip_t=None):
        self.sip_t = sip_t
        return App.recvRequest(self, req, sip_t)


@scenario('T05', reach=('cancelled', 'after-final', 'expired', 'unmatched'),
          bounds='one INVITE with or without symbolic Expires 1..60; 3 (thorough 4) events among provisional, final, matching '
                 'CANCEL, CANCEL of another branch; 0..40 s apart; ACK for the 487 or not')
def server(h):
    app = App5('keep')
    tm, gc = env.make_tm(app.recvRequest)
    app.tm = tm
    env.stop_housekeeping()
    exp = h.int('exp', 1, 60) if h.choose('hasexp', [True, False]) else None
    env.deliver(tm, request('INVITE', extra=('Expires: ' + str(exp),) if exp is not None else ()))
    deadline = T0 + (exp if exp is not None else 300)
    req = app.reqs[0]
    pending = True
    told = []
    n487 = 0
    nfin = 0

    def cancel_like(i, **kw):
        return request('CANCEL', extra=('X-N: %d' % i,), **kw)

    def finals():
        """distinct final answers to the INVITE"""
        out = []
        for s in SENT:
            c = code_of(s[1])
            if c is not None and c >= 200 and hval(s[1], 'cseq').endswith('INVITE') and s[1] not in out:
                out.append(s[1])
        return out
    doack = h.choose('ack', [True, False])
    acked = False

    def ack():
        # the caller acknowledges a final answer at once, or never
        if doack and not acked:
            fin = [s for s in SENT if code_of(s[1]) in (200, 486, 487) and hval(s[1], 'cseq').endswith('INVITE')]
            if fin:
                env.deliver(tm, request('ACK', to=hval(fin[0][1], 'to')))
                return True
        return acked
    for i in range((3 if quick() else 4) if doack else (2 if quick() else 3)):
        opts = ['cancel', 'other'] + (['prov', 'final'] if pending else [])
        ev = h.choose('ev%d' % i, opts)
        env.run_until(CLK.now + h.time('dt%d' % i, 0, 40))
        if pending and deadline <= CLK.now:
            h.reach('expired')
            pending = False
            told.append((deadline, None))
            n487 += 1
            if ev in ('prov', 'final'):
                return
        n0 = len(SENT)
        if ev == 'prov':
            tm.sendResponse(req.genResponse(180, 'P%d' % i))
        elif ev == 'final':
            tm.sendResponse(req.genResponse(h.choose('code%d' % i, [200, 486]), 'F'))
            pending = False
            nfin += 1
        else:
            if ev == 'cancel':
                c = cancel_like(i)
            else:
                c = cancel_like(i, via='SIP/2.0/UDP 10.0.0.2:5060;branch=z9hG4bKbbb')
            env.deliver(tm, c)
            mine = [s for s in SENT[n0:] if hval(s[1], 'cseq').endswith('CANCEL')]
            h.check(len(mine) == 1, 'CANCEL answered once')
            h.check(hval(mine[0][1], 'x-n') is None and hval(mine[0][1], 'via') == hval(c, 'via'), 'to its sender')
            code = code_of(mine[0][1])
            if ev == 'other':
                h.reach('unmatched')
                h.check(code == 481, 'unmatched CANCEL answered 481')
                h.check(len(SENT) == n0 + 1, 'and nothing else')
            elif pending:
                h.reach('cancelled')
                h.check(code == 200, 'matching CANCEL answered 200')
                rest = [s for s in SENT[n0:] if hval(s[1], 'cseq').endswith('INVITE')]
                h.check(len(rest) == 1 and code_of(rest[0][1]) == 487, 'INVITE answered 487')
                pending = False
                n487 += 1
                told.append((CLK.now, i))
            else:
                h.reach('after-final')
                h.check(code in (200, 481), 'late CANCEL answered')
                h.check(len(SENT) == n0 + 1, 'and nothing else')
        acked = ack()
        h.check(len(app.cancels) == len(told), 'application told once')
    env.run_out()
    if pending:
        told.append((deadline, None))
        n487 += 1
    h.check(len(app.cancels) == len(told), 'application told exactly once')
    for (at, creq), (eat, i) in zip(app.cancels, told):
        h.check(at == eat, 'told when it happened')
        if i is None:
            h.check(creq is None, 'no CANCEL request for an expiry')
        else:
            h.check(creq is not None and creq.getMethod() == 'CANCEL' and
                    str(creq.getHF('x-n').getBody()) == str(i), 'the CANCEL is passed on')
    fs = finals()
    h.check(len(fs) == n487 + nfin == 1, 'exactly one final answer to the INVITE', n=len(fs))
    if n487:
        h.check(code_of(fs[0]) == 487, '487 it is')
        first = [s for s in SENT if s[1] == fs[0]][0]
        h.check(first[3] == told[0][0], '487 sent when cancelled or expired')
        h.check(hval(fs[0], 'via') == hval(request('INVITE'), 'via'), 'answer to the INVITE')
    h.check(not env.holds(tm, app.sip_t), 'no entry left')
    h.check(len(env.timers()) == 0, 'no timer left')
    h.check(len(DUMPS) == 0, 'no internal exception')


@scenario('T05', reach=('match', 'other'),
          bounds='pending INVITE and a CANCEL with symbolic 1-character Call-ID, From tag, branch, CSeq 1..3')
def server_match(h):
    app = App5('keep')
    tm, gc = env.make_tm(app.recvRequest)

    def fields(s):
        return (h.str('callid' + s, 1, 1, alphabet='ab'), h.str('ftag' + s, 1, 1, alphabet='ab'),
                h.str('branch' + s, 1, 1, alphabet='ab'), h.int('cseq' + s, 1, 3))
    f1, f2 = fields('1'), fields('2')

    def text(m, f):
        return request(m, callid='c' + f[0], frm='<sip:alice@10.0.0.2>;tag=' + f[1], cseq=str(f[3]),
                       via='SIP/2.0/UDP 10.0.0.2:5060;branch=z9hG4bK' + f[2])
    m = h.choose('method', ['INVITE', 'OPTIONS'])
    env.deliver(tm, text(m, f1))
    env.deliver(tm, text('CANCEL', f2))
    same = h.all(f1[0] == f2[0], f1[1] == f2[1], f1[2] == f2[2], f1[3] == f2[3])
    codes = [code_of(s[1]) for s in SENT]
    if same:
        h.reach('match')
        h.check(sorted(codes) == ([200, 487] if m == 'INVITE' else [200]), 'answers')
        h.check(len(app.cancels) == 1, 'told')
    else:
        h.reach('other')
        h.check(codes == [481], '481')
        h.check(len(app.cancels) == 0, 'not told')


@scenario('T05', reach=('two',),
          bounds='two pending INVITEs of different callers; one is cancelled or expires (symbolic), the other is not')
def server_two(h):
    app = App5('keep')
    exps = [h.int('e%d' % i, 20, 40) for i in range(2)]
    fired = []

    def recv(req, sip_t):
        k = len(app.reqs)
        app.reqs.append(req)
        return (None, lambda rtime, r: fired.append((k, CLK.now, r)), None)
    tm, gc = env.make_tm(recv)
    app.tm = tm
    env.stop_housekeeping()
    for i in range(2):
        env.deliver(tm, request('INVITE', callid='call%d' % i, extra=('Expires: ' + str(exps[i]),),
                                via='SIP/2.0/UDP 10.0.0.2:5060;branch=z9hG4bKb%d' % i))
    env.run_until(T0 + h.time('dt', 0, 15))
    who = h.choose('who', [0, 1])
    at = CLK.now
    env.deliver(tm, request('CANCEL', callid='call%d' % who,
                            via='SIP/2.0/UDP 10.0.0.2:5060;branch=z9hG4bKb%d' % who))
    h.check(len(fired) == 1 and fired[0][0] == who, 'the cancelled one is told')
    env.run_out()
    h.reach('two')
    h.check(len(fired) == 2 and fired[1][0] == 1 - who, 'the other one expires once')
    h.check(fired[1][1] == T0 + exps[1 - who], 'at its own time')
    for k in (0, 1):
        fs = [s for s in SENT if hval(s[1], 'call-id') == 'call%d' % k and code_of(s[1]) == 487]
        h.check(len(fs) >= 1 and fs[0][3] == (at if k == who else T0 + exps[k]), '487 for each when due')
