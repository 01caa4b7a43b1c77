"""U07: a registration is kept up whatever the registrar answers."""
from symx.runner import scenario, quick
from symx import env
from symx.env import SENT, CLK, T0, DUMPS
from harness.sip import *
from harness.ua import *


def regs():
    out = []
    for s in SENT:
        if s[1] not in [x[1] for x in out]:
            out.append(s)
    return out


def agent(h, tm, gc, ok, fail, **kw):
    from sippy.SipRegistrationAgent import SipRegistrationAgent
    from sippy.SipURL import SipURL
    port = h.choose('port', [None, 5060, 5080])
    ag = SipRegistrationAgent(gc, SipURL(username='al', host='10.0.0.3', port=5070), SipURL(username='al', host='10.0.0.1', port=port), exp=100,
                              rok_cb=lambda t, c, a: ok.append((CLK.now, t, c, a)), rfail_cb=lambda r, a: fail.append((CLK.now, r, a)), cb_arg='arg',
                              target=(('10.0.0.3', 5070), 'udp'))
    return ag, port


OTHERS = ['<sip:bo@10.0.0.1>', '<sip:al@10.0.0.2>', '<sip:al@10.0.0.1:5062>', '"x, y" <sip:10.0.0.1>', '*']


@scenario('U07', reach=('own', 'header', 'asked'),
          bounds='200 listing up to two other contacts (another user, host, port or "*") with a symbolic time each before or after the own one, in one header or several, the own one with a symbolic time, without, '
                 'or missing; with or without an Expires header; the next registration at its time')
def several(h):
    """several contacts"""
    tm, gc = env.make_tm(lambda *a: None)
    env.stop_housekeeping()
    ok, fail = [], []
    ag, port = agent(h, tm, gc, ok, fail)
    ag.doregister()
    cur = regs()[-1][1]
    own = '<sip:al@10.0.0.1%s>' % h.choose('form', {None: ['', ':5060'], 5060: ['', ':5060'], 5080: [':5080']}[port])
    mine = h.choose('mine', ['time', 'notime', 'absent'])
    sec = h.int('sec', 10, 99)
    kind = h.choose('others', OTHERS)
    pos = h.choose('pos', ['before', 'after', 'both'])
    o = kind + (';expires=' + '31' if kind != '*' else '')
    me = [] if mine == 'absent' else [own + (';expires=' + str(sec) if mine == 'time' else '')]
    cs = ([o] if pos != 'after' else []) + me + ([o.replace('31', '32')] if pos != 'before' else [])
    if kind != '*' and h.choose('joined', [False, True]):
        cs = [', '.join(cs)]
    hdr = h.choose('expires', [False, True])
    env.deliver(tm, response_to(cur, 200, 'OK', contact=None, extra=tuple('Contact: ' + c for c in cs) + (('Expires: 47',) if hdr else ())))
    h.check(len(ok) == 1 and fail == [], 'success reported')
    if mine == 'time':
        wait = sec
        h.reach('own')
    elif mine == 'notime':
        wait = 47 if hdr else 100
        h.reach('header' if hdr else 'asked')
    else:
        # nothing says what was granted: some time in the answer, or what was asked for
        wait = None
    n = len(regs())
    t = CLK.now
    if wait is None:
        env.run_until(t + 9)
        h.check(len(regs()) == n, 'not at once')
        env.run_until(t + 100)
        h.check(len(regs()) > n, 'registered again')
    else:
        h.check(h.eq(ok[0][1] - env.EPOCH - t, wait), 'with the time of the next one')
        env.run_until(t + wait - 1 / 64)
        h.check(len(regs()) == n, 'not before its time')
        env.run_until(t + wait)
        h.check(len(regs()) == n + 1, 'registered again on time')
    h.check(len(DUMPS) == 0, 'no internal exception', dumps=str(DUMPS)[:300])


@scenario('U07', bounds='200 whose Contact, its expires parameter or the Expires header is any text of up to two characters, none, zero, negative, or not a contact at all; or two such answers in a row')
def strange(h):
    """answers that make no sense"""
    tm, gc = env.make_tm(lambda *a: None)
    env.stop_housekeeping()
    ok, fail = [], []
    ag, port = agent(h, tm, gc, ok, fail)
    ag.doregister()
    for i in range(1 if quick() else 2):
        cur = regs()[-1][1]
        t = h.str('t', 0, 2, alphabet='0179-ax ')
        where = h.choose('where', ['param', 'valueless', 'header', 'contact', 'url', 'asterisk'])
        x = {'param': '<sip:al@10.0.0.1>;expires=', 'valueless': '<sip:al@10.0.0.1>;expires', 'header': '', 'contact': '<', 'url': '<sip:al@', 'asterisk': '*'}[where]
        if where == 'header':
            extra = ('Expires: ' + t,)
        elif where in ('valueless', 'asterisk'):
            extra = ('Contact: ' + x,)
        else:
            extra = ('Contact: ' + x + t + ('>' if where == 'url' else ''),)
        n = len(regs())
        t0 = CLK.now
        env.deliver(tm, response_to(cur, 200, 'OK', contact=None, extra=extra))
        h.check(len(ok) + len(fail) == i + 1, 'an outcome is reported')
        h.check(len(regs()) == n, 'not again at once')
        env.run_until(t0 + 1 - 1 / 64)
        h.check(len(regs()) == n, 'not again without a pause')
        env.run_until(t0 + 100)
        h.check(len(regs()) > n, 'registered again')
