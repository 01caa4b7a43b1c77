"""T02: client transactions."""
from symx.runner import scenario, quick
from symx import env
from symx.env import SENT, CLK, T0, DUMPS
from harness.sip import *

SCHED = [0.5, 1.5, 3.5, 7.5, 15.5, 31.5]


def outgoing(method, expires=None, dest=('10.0.0.2', 5060), **kw):
    from sippy.SipRequest import SipRequest
    extra = kw.pop('extra', ())
    if expires is not None:
        extra = tuple(extra) + ('Expires: ' + str(expires),)
    r = SipRequest(request(method, ruri='sip:bob@10.0.0.2', via='SIP/2.0/UDP 10.0.0.1:5060;branch=z9hG4bKcli',
                           extra=extra, **kw))
    r.setTarget((dest, 'udp'))
    return r


class Log(object):
    def __init__(self):
        self.got = []

    def v1(self, resp):
        self.got.append((CLK.now, resp, None))

    def v2(self, resp, t):
        self.got.append((CLK.now, resp, t))


def start(h, tm, r, ifver):
    log = Log()
    if ifver == 0:
        t = tm.newTransaction(r, None)
    elif ifver == 1:
        t = tm.newTransaction(r, log.v1)
    else:
        t = tm.newTransaction(r, log.v2, cb_ifver=2)
    return log, t


def check_quiet(h, tm, r, base):
    """nothing left: only the timers present before, and the same request can be sent again"""
    h.check(len(env.timers()) == base, 'no timer left behind', n=len(env.timers()))
    try:
        tm.newTransaction(r, None)
    except ValueError:
        h.fail('no transaction entry left behind')


@scenario('T02', reach=('timeout',),
          bounds='one unanswered request (INVITE, BYE or REGISTER), symbolic start 0..40 s, symbolic Expires 1..400, '
                 'three callback interfaces')
def unanswered(h):
    """nothing arrives: schedule of retransmissions, one 408, nothing left"""
    tm, gc, app = tm_app('keep')
    base = len(env.timers())
    m = h.choose('method', ['INVITE', 'BYE', 'REGISTER'])
    exp = h.int('expires', -5, 400) if m == 'INVITE' and h.choose('hasexp', [True, False]) else None
    ifver = h.choose('ifver', [0, 1, 2])
    t0 = CLK.now + h.time('t0', 0, 40)
    env.run_until(t0)
    r = outgoing(m, exp, dest=(h.choose('dst', ['10.0.0.2', '10.0.0.77']), h.int('dport', 1, 65535)))
    daddr = r.getTarget()[0]
    log, t = start(h, tm, r, ifver)
    h.check(len(SENT) == 1, 'request sent')
    first = SENT[0]
    h.check(h.eq(first[2], daddr), 'sent to the target')
    n = 0
    while n < 40 and CLK.now < t0 + 70:
        n += 1
        if not env.fire_next():
            break
    h.reach('timeout')
    h.check(len(SENT) == 1 + len(SCHED), 'six retransmissions', n=len(SENT))
    for i, s in enumerate(SENT[1:]):
        h.check(s[1] == first[1], 'retransmission unchanged')
        h.check(h.eq(s[2], first[2]), 'retransmission to the same address')
        h.check(s[0] is first[0], 'retransmission from the same socket')
        h.check(s[3] == t0 + SCHED[i], 'retransmission schedule')
    if ifver:
        h.check(len(log.got) == 1, 'one outcome', n=len(log.got))
        at, resp, tt = log.got[0]
        h.check(resp.getSCode()[0] == 408, 'locally generated 408')
        h.check(at == t0 + 32, 'timeout after 32 s', at=at)
        if ifver == 2:
            h.check(tt is t, 'transaction passed to the callback')
    check_quiet(h, tm, r, base)


@scenario('T02', reach=('final', 'timeout', 'late', 'dup', 'prov'),
          bounds='one request (INVITE with symbolic Expires 0..60, BYE), 3 (thorough 4) response events, each a new '
                 'provisional, a copy of the last provisional, or a final, 0..40 s apart; then silence')
def responses(h):
    """any responses at any instants"""
    tm, gc, app = tm_app('keep')
    env.stop_housekeeping()
    base = len(env.timers())
    m = h.choose('method', ['INVITE', 'BYE'])
    # (300 s unless a time is asked for)
    exp = h.int('expires', 0, 60) if m == 'INVITE' else None
    wait = (exp if exp > 0 else 300) if m == 'INVITE' else 32
    ifver = 1 if m == 'BYE' else 2
    t0 = CLK.now
    r = outgoing(m, exp)
    log, t = start(h, tm, r, ifver)
    data, dst = SENT[0][1], SENT[0][2]
    deadline = t0 + 32
    firstresp = None
    expected = []          # (code, reason)
    over = None
    last = None
    lasttext = None
    provtime = None
    n = 0
    for i in range(3 if quick() else 4):
        opts = ['prov', 'final'] + (['dup'] if lasttext else [])
        ev = h.choose('ev%d' % i, opts)
        at = CLK.now + h.time('dt%d' % i, 0, 40 if quick() else 64)
        env.run_until(at)
        if over is None and deadline <= at:
            over = deadline
            expected.append((408, None, deadline))
            h.reach('late')
        if ev == 'dup':
            # copies come within the 32 s the response cache promises
            h.assume(at < provtime + 32)
            h.reach('dup')
            env.deliver(tm, lasttext)
        else:
            n += 1
            code = h.choose('code%d' % i, [100, 180] if ev == 'prov' else [200, 404])
            text = response_to(data, code, 'R%d' % n, totag=None if code == 100 else 'rt1')
            env.deliver(tm, text)
            if ev == 'prov':
                lasttext, provtime = text, at
            if over is None:
                if firstresp is None:
                    firstresp = at
                expected.append((code, 'R%d' % n, at))
                if ev == 'prov':
                    h.reach('prov')
                    deadline = at + wait
                else:
                    over = at
                    h.reach('final')
        h.check(len(log.got) == len(expected), 'callback count', n=len(log.got), e=len(expected))
    if over is None:
        h.reach('timeout')
        expected.append((408, None, deadline))
        over = deadline
    before = CLK.now
    env.run_out()
    h.check(h.any(CLK.now <= over + 32, CLK.now == before), 'everything ended within 32 s of the outcome')
    h.check(len(log.got) == len(expected), 'final callback count', n=len(log.got))
    for (at, resp, tt), (code, reason, eat) in zip(log.got, expected):
        h.check(resp.getSCode()[0] == code, 'reported code')
        h.check(reason is None or resp.getSCode()[1] == reason, 'reported response')
        h.check(at == eat, 'reported at', at=at, eat=eat)
        if ifver == 2:
            h.check(tt is t, 'transaction passed to the callback')
    stop = firstresp if firstresp is not None else t0 + 32
    sent = [s for s in SENT if method_of(s[1]) == m]
    want = [x for x in SCHED if t0 + x <= stop]
    h.check(len(sent) == 1 + len(want), 'number of retransmissions', n=len(sent), w=len(want))
    for x, s in zip(want, sent[1:]):
        h.check(s[1] == data, 'retransmission unchanged')
        h.check(h.eq(s[2], dst), 'retransmission to the same address')
        h.check(s[3] == t0 + x, 'retransmission schedule')
    h.check(m == 'INVITE' or len(SENT) == len(sent), 'nothing else sent')
    check_quiet(h, tm, r, base)
    h.check(len(DUMPS) == 0, 'no internal exception')


@scenario('T02', reach=('match', 'stray'),
          bounds='one outstanding request and one response with symbolic 1-character Call-ID/From tag/branch, CSeq '
                 '1..3, symbolic CSeq method')
def matching(h):
    """only the response to this very request is reported"""
    tm, gc, app = tm_app('keep')
    m = h.choose('method', ['INVITE', 'REGISTER'])

    def fields(s):
        return (h.str('callid' + s, 1, 1, alphabet='ab'), h.str('ftag' + s, 1, 1, alphabet='ab'),
                h.str('branch' + s, 1, 1, alphabet='ab'), h.int('cseq' + s, 1, 3))
    f1, f2 = fields('1'), fields('2')
    rm = h.choose('rmethod', ['INVITE', 'REGISTER', 'CANCEL'])

    def text(f, cm):
        return request(m, ruri='sip:bob@10.0.0.2', callid='c' + f[0], frm='<sip:alice@10.0.0.1>;tag=' + f[1],
                       via='SIP/2.0/UDP 10.0.0.1:5060;branch=z9hG4bK' + f[2], cseq=str(f[3]), cmethod=cm)
    from sippy.SipRequest import SipRequest
    r = SipRequest(text(f1, m))
    r.setTarget((('10.0.0.2', 5060), 'udp'))
    log, t = start(h, tm, r, 1)
    code = h.choose('code', [180, 200, 500])
    env.deliver(tm, response_to(text(f2, rm), code))
    same = h.all(f1[0] == f2[0], f1[1] == f2[1], f1[2] == f2[2], f1[3] == f2[3], rm == m)
    if same:
        h.reach('match')
        h.check(len(log.got) == 1, 'own response reported')
        h.check(log.got[0][1].getSCode()[0] == code, 'reported code')
    else:
        h.reach('stray')
        h.check(len(log.got) == 0, 'stray response dropped')
        env.run_until(T0 + 0.75)
        h.check(len(SENT) == 2, 'still being retransmitted')
        env.deliver(tm, response_to(SENT[0][1], 200))
        h.check(len(log.got) == 1, 'own response still reported')


@scenario('T02', reach=('both',),
          bounds='two concurrent requests of one dialog with different CSeq, each answered or not at symbolic instants')
def concurrent(h):
    """two outstanding requests do not disturb each other"""
    tm, gc, app = tm_app('keep')
    base = len(env.timers())
    rs = [outgoing('BYE', cseq='1'), outgoing('OPTIONS', cseq='2')]
    logs = []
    datas = []
    starts = []
    for i, r in enumerate(rs):
        n0 = len(SENT)
        logs.append(start(h, tm, r, 1)[0])
        datas.append(SENT[n0][1])
        starts.append(CLK.now)
        if i == 0:
            env.run_until(CLK.now + h.time('gap', 0, 8))
    who = h.choose('who', [0, 1])
    at = CLK.now + h.time('dt', 0, 20)
    env.run_until(at)
    env.deliver(tm, response_to(datas[who], h.choose('code', [200, 503])))
    h.check(len(logs[who].got) == 1 and len(logs[1 - who].got) == 0, 'reported to the right sender')
    env.run_until(starts[1] + 70)
    h.reach('both')
    other = 1 - who
    h.check(len(logs[who].got) == 1, 'one outcome for the answered')
    h.check(len(logs[other].got) == 1 and logs[other].got[0][1].getSCode()[0] == 408, 'timeout for the other')
    h.check(logs[other].got[0][0] == starts[other] + 32, 'timeout time')
    o = [s for s in SENT if s[1] == datas[other]]
    h.check(len(o) == 7, 'other retransmitted on schedule')
    for x, s in zip(SCHED, o[1:]):
        h.check(s[3] == starts[other] + x, 'schedule')
    w = [s for s in SENT if s[1] == datas[who]]
    want = [x for x in SCHED if starts[who] + x <= at]
    h.check(len(w) == 1 + len(want), 'answered one not retransmitted after its response')
    for i in (0, 1):
        tm.newTransaction(rs[i], None)


@scenario('T02', reach=('told', 'ignored'),
          bounds='INVITE or REGISTER answered by 180/200/404 with one header (Contact, Record-Route, To, From, CSeq, Via, '
                 'Content-Length, Expires) replaced by, or with 1 (thorough 2) arbitrary printable characters spliced in')
def broken_response(h):
    """a response of the peer that cannot be understood does not lose the outcome"""
    from harness.t07 import splice, lines_of, field_index
    from sippy.Network_server import Remote_address
    from sippy.Time.MonoTime import MonoTime
    tm, gc, app = tm_app('keep')
    env.stop_housekeeping()
    m = h.choose('method', ['INVITE', 'REGISTER'])
    r = outgoing(m)
    log, t = start(h, tm, r, 1)
    data = SENT[0][1]
    env.run_until(T0 + 1)
    if h.choose('prov', [False, True]):
        env.deliver(tm, response_to(data, 183, 'P'))
    base = len(log.got)
    code = h.choose('code', [180, 200, 404])
    text = response_to(data, code, 'R', extra=('Record-Route: <sip:10.0.0.5:5061;lr>', 'Expires: 60'), body='v=0\r\n')
    lines, body = lines_of(text)
    f = h.choose('field', ['Contact', 'Record-Route', 'To', 'From', 'CSeq', 'Via', 'Content-Length', 'Expires'])
    how = h.choose('how', ['all', 'front', 'mid', 'back', ':', '<', '=', '@'])
    n = 1 if quick() else 2
    if how == 'all':
        n = h.choose('n', [0, 1, 2])
    hole = h.str('hole', n, n) if n else ''
    i = field_index(lines, f)
    name, val = lines[i].split(': ', 1)
    v = splice(val, how, hole)
    if v is None:
        return
    lines[i] = name + ': ' + v
    try:
        env.the_server(tm).handle_read('\r\n'.join(lines) + '\r\n\r\n' + body, Remote_address(('10.0.0.2', 5060), 'udp'),
                                       MonoTime())
    except Exception as e:
        h.fail('no exception escapes from the receiving server', exc=repr(e))
    if len(log.got) > base:
        h.reach('told')
    else:
        h.reach('ignored')
    env.run_out()
    finals = [x for x in log.got if x[1].getSCode()[0] >= 200]
    h.check(len(finals) == 1, 'exactly one final outcome', n=len(finals))
    check_quiet(h, tm, r, 0)
