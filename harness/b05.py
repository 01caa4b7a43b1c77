"""B05: accounting opens and closes exactly once per leg."""
from symx.runner import scenario, quick
from symx import env
from symx.env import SENT, CLK, T0, DUMPS, EPOCH
from harness.sip import *
from harness.b2b import *

HOSTS = ('10.0.0.3', '10.0.0.4')
# Q.850 causes of SIP failure codes as the RADIUS dictionary wants them
CAUSE = {400: '7f', 401: '39', 402: '15', 403: '39', 404: '1', 405: '7f', 406: '7f', 407: '15', 408: '66', 409: '29', 410: '1',
         411: '7f', 413: '7f', 414: '7f', 415: '4f', 420: '7f', 480: '12', 481: '7f', 482: '7f', 483: '7f', 484: '1c', 485: '1',
         486: '11', 487: '12', 488: '7f', 500: '29', 501: '4f', 502: '26', 503: '3f', 504: '66', 505: '7f', 580: '2f', 600: '11',
         603: '15', 604: '1', 606: '3a'}


def one(attrs, name):
    v = [y for x, y in attrs if x == name]
    return v[0] if len(v) == 1 else (None if not v else 'DUPLICATE')


def clock(s):
    """(second of the day, milliseconds) of a time attribute"""
    hms, rest = s.split(' ', 1)
    hh, mm, ss = hms.split(':')
    sec, ms = ss.split('.')
    return int(hh) * 3600 + int(mm) * 60 + int(sec), int(ms)


class Leg(object):
    """what the records of a leg should say"""

    def __init__(self, origin, host, start):
        self.origin, self.host, self.start = origin, host, start
        self.conn = None
        self.end = None
        self.code = None        # outcome
        self.src = None
        self.rel = None
        self.rejected = False


class Acct(object):
    def __init__(self, h, routes=1, send_start=False, alive=None, precise=False, cfg=(), opts=''):
        self.h = h
        self.send_start, self.alive, self.precise = send_start, alive, precise
        kw = dict(cfg)
        if alive is not None:
            kw['alive_acct_int'] = alive
        if precise:
            kw['precise_acct'] = True
        self.a = setup(h, [x + opts for x in HOSTS[:routes]], auth=True, acct=True, start_acct_enable=send_start, **kw)
        self.c = Peer(h, self.a, 'caller', CALLER, 10)
        self.o = [Peer(h, self.a, 'callee', x, 50 + 20 * i) for i, x in enumerate(HOSTS)]
        self.legs = []

    texts = False

    def setup_leg(self, origin, host, t=None):
        self.legs.append(Leg(origin, host, CLK.now if t is None else t))
        return self.legs[-1]

    def near(self, s, t, what, tol=1):
        """a time attribute says this instant"""
        h = self.h
        if not self.texts:
            return
        sec, ms = clock(s)
        day = int(EPOCH + T0) // 86400 * 86400
        g = sec - (t + EPOCH - day) + (ms * 0.001 if self.precise else 0)
        if self.precise:
            h.check(h.all(g > -0.01, g < 0.01), what)
        else:
            h.check(h.all(g > -1.6, g < 1.6), what)

    def verify(self):
        h = self.h
        recs = self.a.radius.acct
        used = 0
        for l in self.legs:
            mine = [(t, r) for t, r in recs if one(r, 'h323-call-origin') == l.origin and
                    one(r, 'h323-remote-address') == l.host]
            used += len(mine)
            kinds = [one(r, 'Acct-Status-Type') for t, r in mine]
            stops = [k for k in kinds if k == 'Stop']
            h.check(len(stops) == 1, 'one closing record', leg=l.origin)
            h.check(kinds[-1] == 'Stop', 'closed last')
            starts = [k for k in kinds if k == 'Start']
            h.check(len(starts) == (1 if self.send_start and l.conn is not None else 0), 'opened once if it was answered')
            if starts:
                h.check(kinds[0] == 'Start', 'opened first')
                h.check(mine[0][0] == l.conn, 'opened when answered')
                h.reach('start')
            n = 0
            for t, r in mine:
                h.check(one(r, 'User-Name') == CALLER, 'user')
                h.check(str(one(r, 'call-id')) == 'cid1', 'call')
                h.check(one(r, 'Calling-Station-Id') == 'alice' and one(r, 'Called-Station-Id') == 'bob', 'numbers')
                k = one(r, 'Acct-Status-Type')
                self.near(one(r, 'h323-setup-time'), l.start, 'set-up time')
                if k == 'Alive':
                    n += 1
                    h.check(t == l.conn + n * self.alive, 'interim records are sent once per interval')
                    h.check(int(one(r, 'Acct-Session-Time')) == n * self.alive, 'with the time so far', got=one(r, 'Acct-Session-Time'))
                    self.near(one(r, 'h323-connect-time'), l.conn, 'answer time')
                    h.reach('alive')
                if k == 'Start':
                    self.near(one(r, 'h323-connect-time'), l.conn, 'answer time')
                if k == 'Stop':
                    h.check(t == l.end, 'closed when it ended')
                    dur = int(one(r, 'Acct-Session-Time'))
                    if l.conn is None:
                        h.check(dur == 0, 'no time for a call never answered', got=dur)
                        h.reach('unanswered')
                    else:
                        x = l.end - l.conn - dur
                        h.check(h.all(x >= -0.5, x <= 0.5), 'time between answer and end', got=dur)
                        self.near(one(r, 'h323-connect-time'), l.conn, 'answer time')
                        h.reach('answered')
                    self.near(one(r, 'h323-disconnect-time'), l.end, 'end time')
                    dc = one(r, 'h323-disconnect-cause')
                    if l.code is None:
                        h.check(dc in ('10', '0'), 'regular end', got=dc)
                    else:
                        want = '7f'
                        for c in sorted(CAUSE):
                            if l.code == c:
                                want = CAUSE[c]
                        h.check(dc == want, 'cause of the failure', got=dc, want=want)
                        h.reach('failed')
                    if l.rel is not None:
                        h.check(one(r, 'release-source') == l.rel, 'who ended it', got=one(r, 'release-source'))
            if self.alive is not None and l.conn is not None and not quick():
                h.check(n == int((l.end - l.conn) / self.alive), 'number of interim records')
        h.check(used == len(recs), 'no other record')

    def verify_closed(self):
        """each leg is closed once, whenever that was; then everything as usual"""
        h = self.h
        for p in [self.c] + self.o:
            if p.inv is not None:
                p.answer_bye()
        env.run_out(limit=300)
        recs = self.a.radius.acct
        for l in self.legs:
            mine = [(t, r) for t, r in recs if one(r, 'h323-call-origin') == l.origin and one(r, 'h323-remote-address') == l.host]
            kinds = [one(r, 'Acct-Status-Type') for t, r in mine]
            if l.rejected:
                h.check(len(kinds) <= 1, 'at most the closing record of an attempt that was not made')
                continue
            h.check(len([k for k in kinds if k == 'Stop']) == 1, 'one closing record', leg=l.origin)
            h.check(kinds[-1] == 'Stop', 'closed last')
            h.check(len([k for k in kinds if k == 'Start']) <= 1, 'opened once at most')
            dur = int(one(mine[-1][1], 'Acct-Session-Time'))
            if l.conn is None:
                h.check(dur == 0, 'no time for a call never answered', got=dur)
                h.reach('unanswered')
            else:
                d = mine[-1][0] - l.conn - dur
                h.check(h.all(d >= -0.5, d <= 0.5), 'time between answer and end', got=dur)
                h.reach('answered')
        self.a.clean(h)

    # -- steps
    def begin(self):
        self.c.invite()
        self.t0 = CLK.now

    def grant(self):
        self.a.grant()
        self.A = self.setup_leg('answer', CALLER, self.t0)
        self.k = -1
        self.next()

    def next(self):
        self.k += 1
        self.setup_leg('originate', HOSTS[self.k])
        self.o[self.k].look()
        self.h.check(self.o[self.k].inv is not None, 'the attempt is made')

    def O(self):
        return self.legs[-1]

    def over(self, code=None, rel=None, arel=None):
        for l, r in ((self.A, arel if arel is not None else rel), (self.O(), rel)):
            l.end = CLK.now
            l.code = code
            l.rel = r

    def done(self):
        for p in [self.c] + self.o:
            if p.inv is not None:
                p.answer_bye()
        env.run_out(limit=300)
        self.verify()
        self.a.clean(self.h)


@scenario('B05', reach=('failed', 'unanswered', 'abandoned', 'answered', 'start', 'alive', 'late', 'rejected'),
          bounds='two routes; abandonment before the authorisation, during either attempt, progress or not, failure of either with any code 300..699, '
                 'answer and hang-up by either side after 0..20 s (symbolic); with or without opening and interim records (every 8 s)')
def outcomes(h):
    x = Acct(h, 2, *h.choose('cfg', [(False, None), (True, None), (True, 8), (False, 8)]))
    c = x.c
    x.begin()
    # one quantity is symbolic at a time
    when = h.choose('when', ['g', 'r', 'b', 'f0', 'f1'])
    env.run_until(T0 + (h.time('tg', 0, 3) if when == 'g' else 1))
    g = h.choose('auth', ['grant', 'reject', 'gone'])
    if g == 'reject':
        x.a.radius.done(((), 1))
        env.run_out()
        x.verify()
        h.reach('rejected')
        return
    if g == 'gone':
        c.cancel()
        x.verify()
        h.reach('abandoned')
        env.run_out()
        return
    x.grant()
    if h.choose('first', ['fail', 'go']) == 'fail' or when == 'f1':
        code = h.int('f0', 300, 699) if when == 'f0' else 486
        h.assume(h.any(code < 300, code > 302))
        x.o[0].answer(code)
        x.O().end = CLK.now
        x.O().code = code if code >= 400 else None
        x.next()
    o = x.o[x.k]
    prov = h.choose('prov', [False, True])
    if prov:
        o.answer(180)
    env.run_until(CLK.now + (h.time('tr', 0, 3) if when == 'r' else 1))
    e = h.choose('end', ['fail', 'gone', 'answer'])
    if e == 'fail':
        if x.k == 0:
            h.assume(False)
        code = h.int('f1', 300, 699) if when == 'f1' else 603
        h.assume(h.any(code < 300, code > 302))
        o.answer(code)
        x.over(code if code >= 400 else None, rel='4')
    elif e == 'gone':
        c.cancel()
        x.over(rel='2')
        h.reach('abandoned')
        if prov and h.choose('late', [False, True]):
            o.answer(200, body=77)
            h.reach('late')
    else:
        o.answer(200, body=60)
        c.react()
        x.A.conn = x.O().conn = CLK.now
        env.run_until(CLK.now + (h.time('tb', 0, 20) if when == 'b' else 9))
        if h.choose('who', ['c', 'o']) == 'c':
            c.bye()
            x.over(rel='2')
        else:
            o.bye()
            x.over(rel='4')
    x.done()


@scenario('B05', reach=('answered', 'unanswered', 'start', 'alive'),
          bounds='a call with the time before its authorisation, before its answer or before its end symbolic (to 1/64 s), up to 20 s; '
                 'answered or abandoned; precise or whole-second records; texts of all time attributes')
def times(h):
    x = Acct(h, 1, *h.choose('cfg', [(False, None), (True, 8)]), precise=h.choose('precise', [False, True]))
    x.texts = True
    c = x.c
    when = h.choose('when', ['g', 'r', 'b'])
    x.begin()
    env.run_until(T0 + (h.time('tg', 0, 20) if when == 'g' else 1.25))
    x.grant()
    o = x.o[0]
    env.run_until(CLK.now + (h.time('tr', 0, 20) if when == 'r' else 1.25))
    if h.choose('end', ['gone', 'answer']) == 'gone':
        c.cancel()
        x.over(rel='2')
    else:
        o.answer(200, body=60)
        c.react()
        x.A.conn = x.O().conn = CLK.now
        env.run_until(CLK.now + (h.time('tb', 0, 20) if when == 'b' else 9.25))
        c.bye()
        x.over(rel='2')
    x.verify()


@scenario('B05', reach=('credit', 'silent', 'refused', 'noack', 'media', 'glare', 'early', 'crossed', 'expired', 'late', 'timeout',
                        'notice', 'operator', 'answered', 'unanswered'),
          bounds='a call ended by its credit, an unanswered or refused keep-alive of either side, a missing ACK, failing media, both '
                 'hanging up at once, BYE before the ACK, an answer crossing the CANCEL, the limit of the route, no answer at all, media '
                 'time-out or the operator, or authorised after the caller has gone; with and without opening and interim records')
def ends(h):
    how = h.choose('how', ['credit', 'silent c', 'silent o', 'refused c', 'refused o', 'noack', 'media', 'glare', 'early', 'crossed',
                           'expired', 'late', 'timeout', 'notice', 'operator'])
    send, alive = h.choose('cfg', [(False, None), (True, 8)])
    cfg = {'silent c': {'keepalive_ans': 10}, 'silent o': {'keepalive_orig': 10}, 'refused c': {'keepalive_ans': 10},
           'refused o': {'keepalive_orig': 10}, 'media': {'media': lambda d: 'delay'}}.get(how, {})
    x = Acct(h, 1, send, alive, cfg=cfg, opts={'credit': ';credit-time=10', 'expired': ';expires=6'}.get(how, ''))
    h.reach(how.split(' ')[0])
    c, o = x.c, x.o[0]
    x.begin()
    if how == 'late':
        # a request which has been handed over cannot be recalled
        p = x.a.radius.pend[0]
        c.cancel()
        x.a.radius.pend = [p]
    env.run_until(CLK.now + h.time('tg', 0, 2))
    x.grant() if how not in ('media', 'late') else None
    if how == 'late':
        code = h.choose('code', [0, 1])
        x.a.radius.done(((('h323-ivr-in', 'Routing:10.0.0.3'),), code))
        kinds = [one(r, 'Acct-Status-Type') for t, r in x.a.radius.acct]
        h.check(kinds == ['Stop'] if code == 0 else kinds in ([], ['Stop']), 'a call granted too late is closed at once', kinds=kinds)
        if code == 0:
            r = x.a.radius.acct[0][1]
            h.check(int(one(r, 'Acct-Session-Time')) == 0 and one(r, 'h323-call-origin') == 'answer', 'without any time')
        env.run_out()
        x.a.clean(h)
        return
    if how == 'media':
        x.a.grant()
        x.A = x.setup_leg('answer', CALLER, x.t0)
        x.setup_leg('originate', HOSTS[0])
        def s(ok):
            x.a.sessions[0]().done(ok)
        if h.choose('leg', ['offer', 'answer']) == 'offer':
            s(False)
            x.over()
            x.O().rejected = True
        else:
            s(True)
            o.look()
            o.answer(200, body=60)
            s(False)
            o.react()
            x.over()
        x.verify_closed()
        return
    if how in ('expired', 'timeout'):
        if how == 'expired':
            o.answer(180)
            env.run_until(CLK.now + 7)
        else:
            env.run_until(CLK.now + 40)
        x.verify_closed()
        return
    if how == 'crossed':
        o.answer(180)
        c.cancel()
        x.over(rel='2')
        o.answer(200, body=60)
        x.done()
        return
    t0 = CLK.now
    o.answer(200, body=60)
    x.A.conn = x.O().conn = t0
    if how == 'early':
        o.bye()
        x.over(rel='4')
        c.react()
        x.done()
        return
    if how == 'noack':
        # nothing is heard of the caller any more
        env.run_until(t0 + 33)
        x.verify_closed()
        return
    c.react()
    if how == 'credit':
        env.run_until(t0 + h.time('tc', 11, 14))
        for l in x.legs:
            l.end = t0 + 10
        x.done()
        return
    if how in ('glare', 'notice', 'operator'):
        env.run_until(t0 + h.time('tb', 0, 3))
        if how == 'glare':
            c.bye()
            x.over(rel='2')
            o.bye()
        elif how == 'notice':
            x.a.cmap.ccmap[0].disconnect(origin='media_timeout')
            x.over()
        else:
            x.a.cmap.discAll()
            x.over()
        x.done()
        return
    p = c if how.endswith('c') else o
    env.run_until(t0 + 11)
    h.check(len(p.pend_out()) == 1, 'the party is asked')
    if how.startswith('refused'):
        # (a party that never accepted one is asked no more)
        p.answer_re(200, body=p.n)
        p.react()
        env.run_until(t0 + 22)
        h.check(len(p.pend_out()) == 1, 'the party is asked again')
        p.answer_re(481)
        x.over()
        x.done()
    else:
        env.run_until(t0 + 60)
        x.verify_closed()
