"""B04: a call never outlasts the credit it was authorised for."""
from symx.runner import scenario, quick
from symx import env
from symx.env import SENT, CLK, T0, DUMPS
from harness.sip import *
from harness.b2b import *

HOSTS = ('10.0.0.3', '10.0.0.4')


def least(h, a, b):
    if a is None:
        return b
    if b is None:
        return a
    return h.ite(a < b, a, b)


def limit(h, name, lo, hi):
    return h.int(name, lo, hi)


@scenario('B04', reach=('route', 'granted', 'configured', 'unlimited', 'expired', 'within', 'zero'),
          bounds='credit of the authorisation, of the route and of the configuration each absent or any of 0..9 (configuration '
                 '1..9; route also negative); answer after 0..3 s (symbolic), offer in the INVITE or not; hang-up observed up to 12 s after it (symbolic instant)')
def sources(h):
    src = h.choose('src', ['n', 'r', 'g', 'c', 'rg', 'gc', 'rc', 'rgc', 'Rgc', 'R'])
    want = None
    r = g = c = None
    if 'g' in src:
        g = limit(h, 'granted', 0, 9)
        want = g
        h.reach('granted')
    if 'r' in src:
        r = limit(h, 'route', 0, 9)
        want = r
        h.reach('route')
    if 'R' in src:
        # explicitly without limit
        r = -1
        want = None
    if 'c' in src:
        c = limit(h, 'max', 1, 9)
        want = least(h, want, c)
        h.reach('configured')
    cfg = {} if c is None else {'max_credit_time': c}
    a = setup(h, ('10.0.0.3' + ('' if r is None else ';credit-time=' + str(r)),), auth=True, **cfg)
    call(h, a, want, extra=() if g is None else (('h323-credit-time', str(g)),))


def call(h, a, want, extra=(), hosts=HOSTS[:1], act=None):
    c = Peer(h, a, 'caller', CALLER, 10)
    late = h.choose('late', [False, True]) if act is None and not a.sessions and want is not None else False
    c.late = 11 if late else None
    c.invite(body=not late)
    a.grant(extra=extra)
    o = [Peer(h, a, 'callee', x, 50 + 20 * i) for i, x in enumerate(hosts)]
    if want is not None and want == 0:
        h.check(len([s for s in SENT if method_of(s[1]) == 'INVITE']) == 0, 'without credit nobody is called')
        f = c.finals()
        h.check(len(f) == 1 and code_of(f[0]) >= 400, 'and the caller is refused')
        h.reach('zero')
        env.run_out()
        a.clean(h)
        return
    for x in o[:-1]:
        x.look()
        x.answer(503)
    o = o[-1]
    o.look()
    h.check(o.inv is not None, 'the call is placed')
    env.run_until(T0 + h.time('ta', 0, 3))
    o.answer(200, body=o.newbody())
    h.check(code_of(c.finals()[0]) == 200, 'the call is answered')
    c.react()
    t0 = CLK.now
    if act is not None:
        act(c, o, t0)
    t = t0 + h.time('tw', 0, 12)
    h.assume(t >= CLK.now)
    while want is not None and c.got_bye() is False:
        # step by step, so that the ends are stamped
        d = env.next_deadline()
        if d is None or d > t:
            break
        env.run_until(d)
        for x in (c, o):
            if x.pend_out() and not x.noanswer:
                x.answer_re(200, body=x.n)
            x.react()
    env.run_until(t)
    over = want is not None and t >= t0 + want
    for x in (c, o):
        b = x.msgs('BYE')
        h.check(len(b) == (1 if over else 0), 'both parties are hung up when the credit is used up, not earlier', who=x.kind)
        if over:
            # (the grid of the clock and of the credit are exact)
            h.check(b[0][3] == t0 + want, 'at that time', who=x.kind)
    if want is None:
        h.reach('unlimited')
    h.reach('expired' if over else 'within')
    if not over:
        c.bye()
    c.answer_bye()
    o.answer_bye()
    if not quick() or act is None:
        env.run_out()
        a.clean(h)


@scenario('B04', reach=('first', 'second', 'expired', 'within'),
          bounds='two routes with their own credit of 1..9 each or none, and one of the authorisation; the first or the second answers')
def routes(h):
    r = [limit(h, 'r%d' % i, 1, 9) if h.choose('has%d' % i, [False, True]) else None for i in range(2)]
    g = limit(h, 'granted', 1, 9)
    a = setup(h, [HOSTS[i] + ('' if r[i] is None else ';credit-time=' + str(r[i])) for i in range(2)], auth=True)
    k = h.choose('k', [0, 1])
    h.reach(['first', 'second'][k])
    call(h, a, g if r[k] is None else r[k], extra=(('h323-credit-time', str(g)),), hosts=HOSTS[:k + 1], act=lambda *x: None)


@scenario('B04', reach=('expired', 'within', 'updated', 'refused', 'asked'),
          bounds='credit of 2..9; after 0..4 s (symbolic) a re-INVITE of either side, with or without body, accepted, refused or '
                 'left unanswered, or keep-alives every 3 s to either or both')
def updates(h):
    n = limit(h, 'n', 2, 9)
    ka = h.choose('ka', ['', 'c', 'o', 'co'])
    a = setup(h, ('10.0.0.3;credit-time=' + str(n),), keepalive_ans=3 if 'c' in ka else 0, keepalive_orig=3 if 'o' in ka else 0)

    def act(c, o, t0):
        if ka:
            h.reach('asked')
            return
        who = h.choose('who', ['c', 'o'])
        p, q = (c, o) if who == 'c' else (o, c)
        env.run_until(t0 + h.time('tu', 0, 4))
        if c.got_bye():
            return
        p.reinvite(h.choose('body', [True, False]))
        how = h.choose('how', ['accept', 'refuse', 'none'])
        if how == 'none':
            q.noanswer = True
            return
        # a re-INVITE without body is answered at once or passed on
        if q.pend_out():
            if how == 'accept':
                q.answer_re(200, body=q.newbody())
                p.react()
                q.react()
                h.reach('updated')
            else:
                q.answer_re(488)
                h.reach('refused')
    c = Peer(h, a, 'caller', CALLER, 10)
    o = Peer(h, a, 'callee', HOSTS[0], 50)
    c.invite()
    o.look()
    o.answer(200, body=o.newbody())
    c.react()
    t0 = CLK.now
    act(c, o, t0)
    t = t0 + (n + h.time('tw', -1, 2) if quick() else h.time('tw', 0, 12))
    h.assume(t >= CLK.now)
    while not c.got_bye():
        d = env.next_deadline()
        if d is None or d > t:
            break
        env.run_until(d)
        for x in (c, o):
            if x.pend_out() and not x.noanswer:
                x.answer_re(200, body=x.n)
            x.react()
    env.run_until(t)
    over = t >= t0 + n
    for x in (c, o):
        b = x.msgs('BYE')
        h.check(len(b) == (1 if over else 0), 'both parties are hung up when the credit is used up, not earlier', who=x.kind)
        if over:
            h.check(b[0][3] == t0 + n, 'at that time', who=x.kind)
    h.reach('expired' if over else 'within')


class Deaf(object):
    def cancel(self):
        pass


@scenario('B04', reach=('rejected', 'error', 'odd', 'gone', 'late', 'noroute', 'timeout'),
          bounds='authorisation rejected or failed with any code -3..3 but 0, an answer of another shape, none before the caller '
                 'gives up (then a late answer of either kind), no route in the answer, or no answer at all with a limit of the '
                 'caller; accounting on or off, cancellation of the request effective or not')
def refused(h):
    acct = h.choose('acct', [False, True])
    a = setup(h, ('10.0.0.3',), auth=True, acct=acct)
    real = a.radius.do_auth
    if h.choose('deaf', [False, True]):
        # a request which has been handed over cannot be recalled
        a.radius.do_auth = lambda *x, **k: (real(*x, **k), h.choose('none', [Deaf(), None]))[1]
    c = Peer(h, a, 'caller', CALLER, 10)
    how = h.choose('how', ['rejected', 'odd', 'gone', 'noroute', 'timeout'])
    c.invite(extra=('Expires: 20',) if how == 'timeout' else ())
    want = None
    if how == 'rejected':
        code = h.int('code', -3, 3)
        h.assume(code != 0)
        a.radius.done(((('h323-ivr-in', 'Routing:10.0.0.3'),) if h.choose('with', [False, True]) else (), code))
        want = 403
        h.reach('rejected' if code == 1 else 'error')
    elif how == 'odd':
        a.radius.done(h.choose('odd', [(), ((),)]))
        want = 403
        h.reach('odd')
    elif how == 'noroute':
        a.radius.done((h.choose('none2', [(), (('h323-ivr-in', 'CLI:5'), ('h323-credit-time', '10'))]), 0))
        want = 500
        h.reach('noroute')
    else:
        if how == 'gone':
            c.cancel()
            want = 487
            h.reach('gone')
        else:
            env.run_until(T0 + 20)
            h.reach('timeout')
        if a.radius.pend:
            a.radius.done(((('h323-ivr-in', 'Routing:10.0.0.3'),), h.choose('lcode', [0, 1])))
            h.reach('late')
    env.run_out()
    h.check(len([s for s in SENT if method_of(s[1]) == 'INVITE']) == 0, 'nobody is called')
    f = c.finals()
    h.check(len(f) == 1 and code_of(f[0]) >= 400, 'the caller is refused, once')
    if want is not None:
        h.check(code_of(f[0]) == want, 'with the proper code', got=code_of(f[0]))
    if how != 'gone' or a.radius.pend == []:
        a.clean(h)
