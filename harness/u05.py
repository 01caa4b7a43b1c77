"""U05: call time limits end calls on time and only then."""
from symx.runner import scenario, quick
from symx import env
from symx.env import SENT, CLK, T0, DUMPS
from harness.sip import *
from harness.ua import World, Walk, seqno, mbody


def goto(t):
    """run every timer due by t; False when t is past already"""
    env.run_until(T0 + t)


def limits(h, names):
    """each limit absent or symbolic"""
    out = {}
    for n in names:
        # quick: between two retransmissions of an unanswered INVITE
        out[n] = h.time(n, *((8, 15) if quick() else (1, 31))) if h.choose('has_' + n, [False, True]) else None
    return out


def schedule(h, steps):
    """increasing symbolic instants of the given steps, 0.5 apart at least"""
    t, out = None, []
    for s in steps:
        d = h.time('d_' + s, *((0.5, 28) if not quick() else (7.75, 15.25) if t is None else (0.5, 5)))
        t = d if t is None else t + d
        out.append(t)
    return out


def ended_at(h, w, t, label):
    got = w.when('disc', 'fail')
    h.check(len(got) == 1, label + ': ended once', log=str([x[0] for x in w.log]))
    h.check(got[0] - T0 == t, label + ': on time', got=got[0] - T0, want=t)


@scenario('U05', reach=('reply', 'progress', 'ring', 'credit', 'answered', 'unlimited'),
          bounds='outgoing leg, each of the reply, progress, ring and credit limits absent or symbolic (8..15 s, thorough 1..31 s); the peer sends '
                 'any of: nothing, 100, 18x, 100 and 18x, each followed or not by 200, at symbolic increasing instants; then a '
                 're-INVITE (quick: none); checked until all timers have run')
def uac(h):
    lim = limits(h, ('reply', 'progress', 'ring'))
    steps = h.choose('steps', [(), ('100',), ('180',), ('100', '180'), ('200',), ('100', '200'), ('180', '200'),
                               ('100', '180', '200')])
    credit = h.time('credit', 1, 100) if '200' in steps and h.choose('has_credit', [False, True]) else None
    at = schedule(h, steps)
    w = World(h, 'uac', credit=credit, expire=lim['ring'], noprog=lim['progress'], noreply=lim['reply'])
    k = Walk(h, w, 0)
    # the instant at which the leg has to end before the next step, if any
    done = set()
    live = {'reply': lim['reply'], 'progress': lim['progress'], 'ring': lim['ring']}

    def due():
        d, n = None, None
        for x in ('reply', 'progress', 'ring'):
            if live[x] is not None and (d is None or live[x] < d):
                d, n = live[x], x
        return d, n
    ended = False
    for s, t in zip(steps, at):
        d, n = due()
        if d is not None and d <= t:
            goto(t)
            h.reach(n)
            ended_at(h, w, d, n)
            ended = True
            break
        goto(t)
        h.check(not w.ended, 'still there', log=str([x[0] for x in w.log]))
        live['reply'] = None
        if s != '100':
            live['progress'] = None
        if s == '200':
            live['ring'] = None
            k.p_2xx('a')
            h.check(w.count('conn') == 1, 'connected')
            h.reach('answered')
        else:
            w.answer(int(s), inv=w.inv)
            w.prov = True
    if not ended:
        if steps and steps[-1] == '200':
            ta = at[-1]
            if credit is None:
                env.run_out()
                h.check(not w.ended, 'no limit, no end')
                h.reach('unlimited')
                w.ev('Disconnect')
            else:
                if not quick():
                    # a re-negotiation changes nothing about the limit
                    env.run_until(CLK.now + h.time('d_re', 0, 20))
                    if ta + credit <= CLK.now - T0:
                        ended_at(h, w, ta + credit, 'credit')
                    else:
                        w.ev('Update')
                        if h.choose('reok', [True, False]):
                            w.answer(200, body=30)
                        else:
                            w.answer(488)
                env.run_out()
                ended_at(h, w, ta + credit, 'credit')
                h.reach('credit')
        else:
            d, n = due()
            if d is None:
                env.run_out(limit=200)
                # the transaction gives up: 32 s without any response, its Expires time later on
                h.check(w.count('fail') == 1, 'failed by the transaction layer')
                if not steps:
                    h.check(w.when('fail')[0] - T0 == 32, 'after 32 s')
            else:
                env.run_until(T0 + d)
                h.reach(n)
                ended_at(h, w, d, n)
    env.run_out(limit=200)
    h.check(w.count('disc', 'fail') == 1, 'ended once')
    h.check(w.count('conn') <= 1, 'connected once')
    h.check(len(DUMPS) == 0, 'no internal exception', dumps=str(DUMPS)[:300])


@scenario('U05', reach=('progress', 'ring', 'credit', 'answered', 'unlimited', 'late'),
          bounds='incoming leg, each of the progress, ring and credit limits absent or symbolic (8..15 s, thorough 1..31 s); the application does any '
                 'of: nothing, ring, connect, ring and connect, or connects with the answer to come in the ACK (with or without '
                 'ring), at symbolic increasing instants; checked until all timers have run')
def uas(h):
    lim = limits(h, ('progress', 'ring'))
    steps = h.choose('steps', [(), ('ring',), ('conn',), ('ring', 'conn'), ('pre', 'ack'), ('ring', 'pre', 'ack')])
    credit = (h.time('credit', 1, 100) if steps and steps[-1] != 'ring' and h.choose('has_credit', [False, True])
              else None)
    at = schedule(h, steps)
    w = World(h, 'uas', credit=credit, expire=lim['ring'], noprog=lim['progress'])
    k = Walk(h, w, 0)
    live = dict(lim)

    def due():
        d, n = None, None
        for x in ('progress', 'ring'):
            if live[x] is not None and (d is None or live[x] < d):
                d, n = live[x], x
        return d, n
    ended = False
    for s, t in zip(steps, at):
        d, n = due()
        if s == 'ack':
            h.assume(t - at[-2] < 30)
        if d is not None and d <= t:
            goto(t)
            h.reach(n)
            if s == 'ack' and not w.ended:
                # sent the answer but does not have it acknowledged: either side of the limit will do
                h.reach('lenient')
            else:
                ended_at(h, w, d, n)
                ended = True
                break
        else:
            goto(t)
        h.check(not w.ended, 'still there', log=str([x[0] for x in w.log]))
        live['progress'] = None
        if s == 'ring':
            w.ev('Ring')
        elif s == 'conn':
            live['ring'] = None
            k.a_connect('a')
            w.peer_ack()
            h.reach('answered')
        elif s == 'pre':
            # the call is not answered until the offer that this carries is
            k.a_preconnect('a')
        else:
            live['ring'] = None
            k.p_ack(1)
            h.reach('late')
            h.check(w.count('conn') == 1, 'connected')
    if not ended:
        if steps and steps[-1] in ('conn', 'ack'):
            ta = at[-1]
            if credit is None:
                env.run_out()
                h.check(not w.ended, 'no limit, no end')
                h.reach('unlimited')
                w.ev('Disconnect')
            else:
                env.run_out()
                ended_at(h, w, ta + credit, 'credit')
                h.reach('credit')
        else:
            d, n = due()
            if d is None:
                env.run_out(limit=200)
                if not w.ended:
                    w.ev('Disconnect')
            else:
                env.run_until(T0 + d)
                h.reach(n)
                ended_at(h, w, d, n)
    env.run_out(limit=200)
    h.check(w.count('disc', 'fail') == 1, 'ended once', log=str([x[0] for x in w.log]))
    h.check(w.count('conn') <= 1, 'connected once')
    h.check(len(DUMPS) == 0, 'no internal exception', dumps=str(DUMPS)[:300])


@scenario('U05', reach=('kept', 'shortened', 'over', 'bye'),
          bounds='established leg of either direction with a symbolic credit limit (or none); resetCreditTime with one or two further '
                 'limits (absolute, symbolic or none) at a symbolic instant, before or after the answer; a re-INVITE of either side '
                 'pending at the limit; or BYE from the peer before it')
def credit(h):
    from sippy.Time.MonoTime import MonoTime
    kind = h.choose('kind', ['uac', 'uas'])
    c0 = h.time('credit', 5, 60) if h.choose('has_credit', [True, False]) else None
    w = World(h, kind, credit=c0)
    k = Walk(h, w, 0)
    when = h.choose('when', ['before', 'after'])
    c1 = h.time('c1', 4, 80)
    two = h.choose('two', ['none', 'sym', 'empty'])
    c2 = h.time('c2', 4, 80) if two == 'sym' else None

    def reset():
        d = {1: MonoTime().getOffsetCopy(T0 + c1 - CLK.now)}
        if two != 'none':
            d[2] = MonoTime().getOffsetCopy(T0 + c2 - CLK.now) if c2 is not None else None
        w.ua.resetCreditTime(MonoTime(), d)
    if when == 'before':
        reset()
    goto(2)
    if kind == 'uac':
        k.p_2xx('up')
    else:
        k.a_connect('up')
        w.peer_ack()
    end = c1
    if c2 is not None and c2 < end:
        end = c2
    if c0 is not None and c0 + 2 < end:
        end = c0 + 2
        h.reach('kept')
    else:
        h.reach('shortened')
    t = h.time('t', 2, 3.5)
    goto(t)
    act = h.choose('act', ['none', 'update', 'reinvite', 'bye'])
    if act == 'update':
        w.ev('Update')
    elif act == 'reinvite':
        w.peer('INVITE', body=9)
    if when == 'after':
        reset()
    if act == 'bye':
        w.peer('BYE')
        h.reach('bye')
        ended_at(h, w, t, 'BYE')
        env.run_out(limit=200)
        h.check(w.count('disc', 'fail') == 1, 'ended once')
        return
    if act == 'update':
        # the re-INVITE is only provisionally answered: it must not outlast the limit
        w.answer(100)
    env.run_until(T0 + end)
    h.reach('over')
    ended_at(h, w, end, 'credit')
    env.run_out(limit=200)
    h.check(w.count('disc', 'fail') == 1, 'ended once')
    h.check(len(DUMPS) == 0, 'no internal exception', dumps=str(DUMPS)[:300])
