"""T03: final answers to INVITE."""
from symx.runner import scenario, quick
from symx import env
from symx.env import SENT, CLK, T0, DUMPS
from harness.sip import *

SCHED = [0.5, 1.5, 3.5, 7.5, 15.5, 31.5]


class App3(App):
    def recvRequest(self, req, sip_t=None):
        self.sip_t = sip_t
        return App.recvRequest(self, req, sip_t)


def setup(**kw):
    app = App3('keep')
    tm, gc = env.make_tm(app.recvRequest, **kw)
    app.tm = tm
    return tm, app


def ack_for(final, callid='cid1', ftag='ft1', cseq='1', totag=None, branch='aaa', extra=()):
    to = hval(final, 'to')
    if totag is not None:
        to = to.split(';tag=')[0] + ';tag=' + totag
    return request('ACK', via='SIP/2.0/UDP 10.0.0.2:5060;branch=z9hG4bK' + branch, callid=callid,
                   frm='<sip:alice@10.0.0.2>;tag=' + ftag, to=to, cseq=cseq, extra=extra)


def expected_resends(h, tf, stop):
    """offsets of the repetitions due before stop"""
    return [x for x in SCHED if tf + x <= stop]


@scenario('T03', reach=('acked', 'unacked', 'late-ack', 'dup-ack'),
          bounds='one INVITE answered by an optional provisional (and an ACK that comes too early) and a final (200, 486, 487), then 2 (thorough 3) '
                 'events: ACK (own or new branch), copy of the ACK, copy of the INVITE, foreign ACK; 0..40 s apart')
def final(h):
    tm, app = setup()
    env.stop_housekeeping()
    base = len(env.timers())
    inv = request('INVITE', extra=('Expires: 1000',))
    env.deliver(tm, inv)
    req = app.reqs[0]
    env.run_until(CLK.now + h.time('d0', 0, 40))
    usecb = h.choose('ackcb', [True, False])
    code = h.choose('code', [200, 486] if usecb else [200, 486, 487])
    if code != 487 and h.choose('prov', [False, True]):
        tm.sendResponse(req.genResponse(180, 'Ringing'))
        if not usecb and code == 486:
            # there is nothing to acknowledge yet
            env.deliver(tm, request('ACK', extra=('X-N: early',)))
            h.check(len(SENT) == 1 and len(app.reqs) == 1, 'nothing comes of an early ACK')
    n0 = len(SENT)
    tm.sendResponse(req.genResponse(code, 'Final'), ack_cb=app.ack if usecb else None)
    tf = CLK.now
    h.check(len(SENT) == n0 + 1, 'final sent once')
    fin = SENT[-1]
    acked = None
    ackdata = None
    copies = 0
    for i in range(2 if quick() else 3):
        ev = h.choose('ev%d' % i, ['ack', 'invite', 'foreign'] if code != 487 else ['ack'])
        env.run_until(CLK.now + h.time('dt%d' % i, 0, 40))
        now = CLK.now
        if ev == 'ack':
            ackdata = ack_for(fin[1], branch='aaa' if code >= 300 else 'new%d' % i, extra=('X-N: %d' % i,))
            n1 = len(SENT)
            env.deliver(tm, ackdata)
            h.check(len(SENT) == n1, 'nothing sent for an ACK')
            if acked is None and now < tf + 32:
                acked = now
                h.reach('acked')
                h.check(len(app.acks) == (1 if usecb else 0), 'ACK reported')
                if usecb:
                    h.check(app.acks[0][1].getMethod() == 'ACK', 'the ACK is passed')
            elif acked is None:
                h.reach('late-ack')
            else:
                h.reach('dup-ack')
        elif ev == 'invite':
            if not (now < tf + 32):
                return
            n1 = len(SENT)
            env.deliver(tm, inv)
            h.check(len(SENT) == n1 + 1 and SENT[-1][1] == fin[1], 'copy of the INVITE answered with the final')
            h.check(h.eq(SENT[-1][2], fin[2]), 'and to the same address')
            copies += 1
        else:
            how = h.choose('how%d' % i, ['totag', 'cseq'] if quick() else ['callid', 'cseq', 'totag', 'notag'])
            kw = {'callid': dict(callid='other'), 'ftag': dict(ftag='other'), 'cseq': dict(cseq='2'),
                  'totag': dict(totag='other'), 'notag': dict(totag='')}[how]
            n1 = len(SENT)
            env.deliver(tm, ack_for(fin[1], extra=('X-N: f%d' % i,), **kw))
            h.check(len(SENT) == n1, 'nothing sent for a foreign ACK')
        n_ack = len(app.acks)
        h.check(n_ack == (1 if usecb and acked is not None else 0), 'ACK reported at most once, only its own')
        h.check(len(app.reqs) == 1, 'nothing else delivered')
    before = CLK.now
    env.run_out()
    if acked is None:
        h.reach('unacked')
        h.check(len(app.noacks) == 1, 'missing ACK reported once', n=len(app.noacks))
        h.check(app.noacks[0] == tf + 32, 'missing ACK reported after 32 s')
        stop = tf + 32
    else:
        h.check(len(app.noacks) == 0, 'no missing ACK reported')
        stop = acked
    h.check(h.any(CLK.now <= tf + 32, CLK.now == before), 'everything ended within 32 s')
    res = SENT[n0 + 1:]
    want = expected_resends(h, tf, stop)
    h.check(len(res) == len(want) + copies, 'number of repetitions', n=len(res), want=len(want) + copies)
    if copies == 0:
        for x, s in zip(want, res):
            h.check(s[3] == tf + x, 'repetition schedule')
    for s in res:
        h.check(s[1] == fin[1], 'repetition unchanged')
        h.check(h.eq(s[2], fin[2]), 'repetition to the same address')
        h.check(s[0] is fin[0], 'repetition from the same socket')
    h.check(len(env.timers()) == base, 'no timer left')
    h.check(not env.holds(tm, app.sip_t), 'no transaction entry left')
    env.deliver(tm, ack_for(fin[1], extra=('X-N: last',)))
    h.check(len(app.acks) == (1 if usecb and acked is not None else 0), 'later ACK not reported')
    h.check(len(DUMPS) == 0, 'no internal exception')


@scenario('T03', reach=('match', 'foreign'),
          bounds='final answer to INVITE and one ACK with symbolic 1-character Call-ID/From tag, symbolic last To-tag '
                 'character, CSeq 1..3 and branch')
def ack_match(h):
    """only the ACK of this very answer counts"""
    tm, app = setup()

    def fields(s):
        return (h.str('callid' + s, 1, 1, alphabet='ab'), h.str('ftag' + s, 1, 1, alphabet='ab'),
                h.int('cseq' + s, 1, 3))
    f1, f2 = fields('1'), fields('2')
    env.deliver(tm, request('INVITE', callid='c' + f1[0], frm='<sip:alice@10.0.0.2>;tag=' + f1[1], cseq=str(f1[2])))
    req = app.reqs[0]
    mytag = h.choose('apptag', [False, True])
    resp = req.genResponse(h.choose('code', [200, 404]), 'F')
    if mytag:
        resp.getHFBody('to').setTag('mytag')
    tm.sendResponse(resp, ack_cb=app.ack)
    fin = SENT[-1]
    tag = hval(fin[1], 'to').split(';tag=')[1]
    env.run_until(CLK.now + h.time('dt', 0, 31))
    tsame = h.choose('tsame', [True, False])
    br = h.choose('branch', ['aaa', 'zzz'])
    env.deliver(tm, ack_for(fin[1], callid='c' + f2[0], ftag=f2[1], cseq=str(f2[2]),
                            totag=tag if tsame else tag + 'x', branch=br))
    same = h.all(f1[0] == f2[0], f1[1] == f2[1], f1[2] == f2[2], tsame)
    n0 = len(SENT)
    if same:
        h.reach('match')
        h.check(len(app.acks) == 1, 'own ACK reported')
        env.run_until(CLK.now + 33)
        h.check(len(SENT) == n0, 'repetition stopped')
        h.check(len(app.noacks) == 0, 'no missing ACK')
    else:
        h.reach('foreign')
        h.check(len(app.acks) == 0, 'foreign ACK not reported')
        env.run_until(T0 + 64)
        h.check(len(app.noacks) == 1, 'missing ACK reported')


@scenario('T03', reach=('two',),
          bounds='an INVITE answered and, on the same branch and From tag, a second INVITE (new bytes) answered; ACKs for '
                 'each in any order, at symbolic instants')
def two_answers(h):
    """each ACK finds the answer it acknowledges (To tags differ)"""
    tm, app = setup()
    env.stop_housekeeping()
    fins = []
    tfs = []
    ts = []
    for i in range(2):
        env.deliver(tm, request('INVITE', extra=('X-N: %d' % i,)))
        h.check(len(app.reqs) == i + 1, 'delivered')
        ts.append(app.sip_t)
        cb = (lambda req, i=i: app.acks.append((i, req)))
        tm.sendResponse(app.reqs[i].genResponse(401 if i == 0 else 200, 'F'), ack_cb=cb)
        fins.append(SENT[-1])
        tfs.append(CLK.now)
        if i == 0:
            env.run_until(CLK.now + h.time('gap', 0, 20))
    who = h.choose('who', [0, 1])
    env.run_until(CLK.now + h.time('dt', 0, 20))
    if not (CLK.now < tfs[0] + 32):
        return
    at = CLK.now
    env.deliver(tm, ack_for(fins[who][1]))
    h.reach('two')
    h.check(len(app.acks) == 1 and app.acks[0][0] == who, 'ACK reported for its answer')
    env.run_out()
    h.check(len(app.noacks) == 1 and app.noacks[0] == tfs[1 - who] + 32, 'the other is given up at 32 s')
    for k in (0, 1):
        rep = [s for s in SENT if s[1] == fins[k][1]][1:]
        want = expected_resends(h, tfs[k], at if k == who else tfs[k] + 32)
        h.check(len(rep) == len(want), 'repetitions of each answer')
        h.check(not env.holds(tm, ts[k]), 'no entry left')


@scenario('T03', reach=('once',),
          bounds='BYE, OPTIONS, INFO, REGISTER, SUBSCRIBE answered by any of 200/404/503 at a symbolic instant')
def other_methods(h):
    """final responses to other requests are sent once and leave nothing"""
    tm, app = setup()
    env.stop_housekeeping()
    base = len(env.timers())
    m = h.choose('method', ['BYE', 'OPTIONS', 'INFO', 'REGISTER', 'SUBSCRIBE'])
    env.deliver(tm, request(m))
    env.run_until(CLK.now + h.time('d0', 0, 40))
    if h.choose('prov', [False, True]):
        tm.sendResponse(app.reqs[0].genResponse(100, 'Trying'))
        env.run_until(CLK.now + h.time('d1', 0, 40))
    n0 = len(SENT)
    tm.sendResponse(app.reqs[0].genResponse(h.choose('code', [200, 404, 503]), 'F'), ack_cb=app.ack)
    env.run_until(CLK.now + 80)
    h.reach('once')
    h.check(len(SENT) == n0 + 1, 'sent once')
    h.check(len(env.timers()) == base, 'no timer left')
    h.check(not env.holds(tm, app.sip_t), 'no transaction entry left')
    h.check(len(app.noacks) == 0 and len(app.acks) == 0, 'no ACK business')
    env.deliver(tm, ack_for(SENT[-1][1]))
    h.check(len(app.acks) == 0, 'an ACK is not reported')


@scenario('T03', reach=('repeat', 'stopped'),
          bounds='provisional_retr 0..10 s, provisional then final at symbolic instants up to 30 s')
def provisional(h):
    """provisional repetition, when configured, stops with the final answer"""
    pr = h.choose('retr', [0, 2, 7])
    tm, app = setup(provisional_retr=pr)
    env.stop_housekeeping()
    env.deliver(tm, request('INVITE'))
    code = h.choose('pcode', [100, 180])
    tm.sendResponse(app.reqs[0].genResponse(code, 'P'))
    prov = SENT[-1]
    d = h.time('d', 0, 30)
    env.run_until(T0 + d)
    reps = SENT[1:]
    for i, s in enumerate(reps):
        h.reach('repeat')
        h.check(code > 100 and pr > 0, 'only when asked for')
        h.check(s[1] == prov[1] and s[3] == T0 + pr * (i + 1), 'provisional repeated unchanged on schedule')
    tm.sendResponse(app.reqs[0].genResponse(486, 'F'), ack_cb=app.ack)
    n0 = len(SENT)
    h.reach('stopped')
    env.deliver(tm, ack_for(SENT[-1][1]))
    env.run_out()
    h.check(len(SENT) == n0, 'nothing after the ACK')
    h.check(len(env.timers()) == 0, 'no timers')


@scenario('T03', reach=('acked', 'unacked'),
          bounds='application without cancel/no-ACK callbacks answering at once or later; optional ACK 0..40 s later')
def no_callbacks(h):
    """the same when the application registered no callbacks at all"""
    now = h.choose('now', [True, False])
    code = h.choose('code', [200, 486])

    class A(App3):
        def recvRequest(self, req, sip_t=None):
            App3.recvRequest(self, req, sip_t)
            return (req.genResponse(code, 'F') if now else None, None, None)
    app = A('keep')
    tm, gc = env.make_tm(app.recvRequest)
    env.stop_housekeeping()
    inv = request('INVITE', extra=('Expires: 1000',))
    env.deliver(tm, inv)
    if not now:
        env.run_until(CLK.now + h.time('d0', 0, 40))
        tm.sendResponse(app.reqs[0].genResponse(code, 'F'))
    fin = SENT[-1]
    tf = CLK.now
    n0 = len(SENT)
    stop = tf + 32
    if h.choose('ack', [True, False]):
        env.run_until(CLK.now + h.time('dt', 0, 40))
        if CLK.now < stop:
            h.reach('acked')
            stop = CLK.now
        env.deliver(tm, ack_for(fin[1], branch='aaa' if code >= 300 else 'new'))
    else:
        h.reach('unacked')
    before = CLK.now
    env.run_out()
    h.check(h.any(CLK.now <= tf + 32, CLK.now == before), 'everything ended within 32 s')
    want = expected_resends(h, tf, stop)
    h.check(len(SENT) - n0 == len(want), 'number of repetitions', n=len(SENT) - n0, want=len(want))
    for x, s in zip(want, SENT[n0:]):
        h.check(s[3] == tf + x and s[1] == fin[1], 'repetition schedule')
    h.check(len(env.timers()) == 0, 'no timer left')
    h.check(not env.holds(tm, app.sip_t), 'no transaction entry left')
    h.check(len(DUMPS) == 0, 'no internal exception')
