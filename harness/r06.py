"""R06: operations of a media session."""
from symx.runner import scenario, quick
from symx import env
from symx.env import SENT, CLK, T0, DUMPS
from harness.sip import *
from harness.rtp import *
from harness.r02 import change

TAGS = {'caller': ('FT', 'TT'), 'callee': ('TT', 'FT')}
OTHER = {'caller': 'callee', 'callee': 'caller'}


class Rec(object):
    def __init__(self, h):
        self.h = h
        self.got = []

    def __call__(self, result, *a, **kw):
        self.got.append((result, a))
        self.h.check(len(self.got) == 1, 'one outcome')


def up(s, c, side, fmt='0 8'):
    o = []
    change(s, side, body([Sect(fmt=fmt)]), lambda b, ex=None: o.append(b))
    c.answer('7000 1.2.3.4')


def finish(h, c, rec, want, what):
    """the commands expected, answered one by one until one of them fails to set the session up; then the outcome"""
    last, ok = None, True
    for i, (w, setup) in enumerate(want):
        h.check(len(c.pend) == 1, what + ': one command at a time', pend=[p[0] for p in c.pend], want=w)
        if len(c.pend) != 1:
            return
        h.check(h.eq(c.pend[0][0], w), what + ': command', got=c.pend[0][0], want=w)
        if rec is not None:
            h.check(rec.got == [], what + ': outcome only in the end')
        if setup:
            r = h.choose('setup', ['7000 1.2.3.4', 'E1', None, '0'])
            if r != '7000 1.2.3.4':
                ok = False
        else:
            r = h.choose('answer', ['0', 'E5', None])
            if r is None:
                ok = ok and i == len(want) - 1
        last = r
        c.answer(r)
        if not ok:
            last = None
            break
    env.run_threadq()
    h.check(c.pend == [], what + ': no more commands', pend=[p[0] for p in c.pend])
    if rec is not None:
        h.check(len(rec.got) == 1, what + ': the outcome is reported', got=rec.got)
        if rec.got:
            h.check(rec.got[0][0] == last, what + ': as the proxy answered', got=rec.got[0][0], want=last)


@scenario('R06', reach=('play', 'none'),
          bounds='play and stop on either side, one of them, both or none set up; any times from 1 to 99, prompt and stream number (symbolic); with or without callback; each command answered, refused or '
                 'not answered')
def play(h):
    """playing"""
    s, c = session(h)
    est = h.choose('est', [(), ('caller',), ('callee',), ('caller', 'callee')])
    for x in est:
        up(s, c, x, '0 8' if x == 'caller' else '3 101')
    side = h.choose('side', ['caller', 'callee'])
    cb = h.choose('cb', [True, False])
    rec = Rec(h) if cb else None
    ft, tt = TAGS[side]
    idx = h.choose('idx', [0, 1])
    cod = '0,8' if side == 'caller' else '3,101'
    if h.choose('op', ['play', 'stop']) == 'play':
        n = h.int('n', 1, 99)
        pr = h.str('prompt', 1, 2, alphabet=SAFE)
        (s.play_caller if side == 'caller' else s.play_callee)(pr, n, rec, idx)
        if side in est:
            want = [('P' + str(n) + ' CID-%d ' % idx + pr + ' ' + cod + ' ' + ft + ' ' + tt, False)]
            if OTHER[side] not in est:
                want.insert(0, ('U CID-%d 0.0.0.0 0 %s %s' % (idx, tt, ft), True))
            h.reach('play')
            return finish(h, c, rec, want, 'play')
    else:
        (s.stop_play_caller if side == 'caller' else s.stop_play_callee)(rec, idx)
        if side in est:
            return finish(h, c, rec, [('S CID-%d %s %s' % (idx, ft, tt), False)], 'stop')
    env.run_threadq()
    h.reach('none')
    h.check(c.pend == [], 'nothing to play into: no command')
    h.check(rec is None or rec.got == [(None, ())], 'and a failure reported')


@scenario('R06', bounds='copying either side to any address (symbolic digit) and port; the session set up or not; every answer; with or without callback')
def copy(h):
    """copying a stream"""
    s, c = session(h)
    est = h.choose('est', [(), ('caller',), ('callee',), ('caller', 'callee')])
    for x in est:
        up(s, c, x)
    side = h.choose('side', ['caller', 'callee'])
    rec = Rec(h) if h.choose('cb', [True, False]) else None
    ft, tt = TAGS[side]
    ip = '1.2.3.' + h.str('ip', 1, 1, alphabet=NUM)
    p = h.int('port', 1, 65535)
    idx = h.choose('idx', [0, 1])
    (s.copy_caller if side == 'caller' else s.copy_callee)(ip, p, rec, idx)
    want = [('C CID-%d udp:' % idx + ip + ':' + str(p) + ' ' + ft + ' ' + tt, False)]
    if side not in est:
        want.insert(0, ('U CID-%d 0.0.0.0 0 ' % idx + ft + (' ' + tt if est else ''), True))
    finish(h, c, rec, want, 'copy')


@scenario('R06', bounds='recording with or without a name (symbolic character), both directions or one, with or without flags; the session set up or not; every answer; with or without callback')
def record(h):
    """recording"""
    s, c = session(h)
    est = h.choose('est', [(), ('caller',), ('callee',), ('caller', 'callee')])
    for x in est:
        up(s, c, x)
    rec = Rec(h) if h.choose('cb', [True, False]) else None
    named = h.choose('named', [True, False])
    only_a = h.choose('only_a', [True, False])
    fl = h.choose('flags', [None, 's'])
    kw = {} if fl is None else {'rflags': fl}
    nm = 'r' + h.str('nm', 1, 1, alphabet=SAFE)
    idx = h.choose('idx', [0, 1])
    s.start_recording(nm if named else None, rec, idx, only_a=only_a, **kw)
    fl = fl or ''
    if named:
        want = [('C' + fl + ' CID-%d ' % idx + nm + '.a FT TT', False)]
        if not only_a:
            want.append(('C' + fl + ' CID-%d ' % idx + nm + '.o TT FT', False))
    else:
        want = [('R' + fl + ' CID-%d FT TT' % idx, False)]
    if 'caller' not in est:
        want.insert(0, ('U CID-%d 0.0.0.0 0 FT%s' % (idx, ' TT' if est else ''), True))
    finish(h, c, rec, want, 'record')


@scenario('R06', reach=('numbers', 'failure'),
          bounds='statistics of a stream: five numbers (symbolic digits), an error, one to six words, or no answer; the version: any answer or none')
def stats(h):
    """queries"""
    s, c = session(h)
    rec = Rec(h)
    k = h.choose('k', ['five', 'err', 'none', 'one', 'four', 'six', 'word', 'version'])
    if k == 'version':
        s.version(rec)
        h.check(c.pend[0][0] == 'V', 'command')
        a = h.choose('a', ['20040107', None])
        c.answer(a)
        h.check(rec.got == [(a, ())], 'answer passed on', got=rec.got)
        return
    idx = h.choose('idx', [0, 2])
    s.stats(rec, idx, 'p', 4)
    h.check(c.pend[0][0] == 'Q CID-%d FT TT' % idx, 'command', got=c.pend[0][0])
    d = [h.str('d%d' % i, 1, 2, alphabet=NUM) for i in range(5)] if k == 'five' else None
    c.answer({'five': ' '.join(d) if d else None, 'err': 'E8', 'none': None, 'one': '0', 'four': '1 2 3 4', 'six': '1 2 3 4 5 6', 'word': '1 2 x 4 5'}[k])
    h.check(len(rec.got) == 1 and rec.got[0][1] == ('p', 4), 'reported once with its parameters', got=rec.got)
    if rec.got:
        if k == 'five':
            h.check(h.eq(list(rec.got[0][0]), [int(x) for x in d]), 'numbers', got=rec.got[0][0])
            h.reach('numbers')
        else:
            h.check(rec.got[0][0] is None, 'failure', got=rec.got[0][0])
            h.reach('failure')


@scenario('R06', bounds='two or three operations at once out of playing, stopping, copying, recording, a body of either side: every order; all answered')
def order(h):
    """several operations at once"""
    s, c = session(h)
    for x in ('caller', 'callee'):
        up(s, c, x)
    n = len(c.sent)
    recs, want = [], []
    for i in range(h.choose('n', [2, 3])):
        k = h.choose('op', ['play', 'stop', 'copy', 'record', 'body'])
        r = Rec(h)
        recs.append(r)
        if k == 'play':
            s.play_callee('p%d' % i, 1, r)
            want.append((r, 'P1 CID-0 p%d 0,8 TT FT' % i, True))
        elif k == 'stop':
            s.stop_play_caller(r)
            want.append((r, 'S CID-0 FT TT', True))
        elif k == 'copy':
            s.copy_caller('1.2.3.4', 70 + i, r)
            want.append((r, 'C CID-0 udp:1.2.3.4:7%d FT TT' % i, True))
        elif k == 'record':
            s.start_recording('n%d' % i, r, only_a=True)
            want.append((r, 'C CID-0 n%d.a FT TT' % i, True))
        else:
            change(s, 'caller', body([Sect(port='411%d' % i)]), r)
            want.append((r, 'U CID-0 10.0.0.2 411%d FT TT' % i, False))
    for i, (r, w, plain) in enumerate(want):
        h.check(len(c.pend) == 1 and c.pend[0][0] == w, 'one after another in order', got=[p[0] for p in c.pend], want=w)
        h.check(r.got == [], 'no outcome before the answer')
        c.answer('%d 1.2.3.4' % (7000 + i))
        h.check(len(r.got) == 1, 'outcome at the answer')
        if plain and r.got:
            h.check(r.got[0][0] == '%d 1.2.3.4' % (7000 + i), 'its own answer', got=r.got[0][0])
    h.check(len(c.sent) == n + len(want), 'each command once')
