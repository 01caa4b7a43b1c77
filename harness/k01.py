"""K01: timers fire on time, in order, exactly as often as asked."""
from symx.runner import scenario, quick
from symx import env
from symx.env import CLK, T0, DUMPS
from harness.sip import *


class Tm(object):
    """one timer and what is expected of it"""

    def __init__(self, w, name, kind, ival, nticks, params=()):
        self.w = w
        self.name = name
        self.ival = ival
        self.left = nticks           # firings still to come; -1: any number
        self.params = params
        self.stopped = False         # cancelled
        self.action = None
        self.fired = 0
        self.due = None
        self.el = None
        self.started = False
        from sippy.Time.Timeout import Timeout, TimeoutInact, TimeoutAbsMono
        from sippy.Time.MonoTime import MonoTime
        w.all.append(self)
        self.due = CLK.now + ival
        if kind == 'rel':
            self.el = Timeout(self.fire, ival, nticks, *params)
            self.started = True
        elif kind == 'inact':
            self.el = TimeoutInact(self.fire, ival, nticks, *params)
        elif kind == 'spread':
            self.el = TimeoutInact(self.fire, ival, nticks, *params)
            self.el.spread_runs(0.25)
            # (the source of randomness of the environment gives the middle)
            self.start()
        else:
            self.el = TimeoutAbsMono(self.fire, MonoTime().getOffsetCopy(ival), *params)
            self.started = True
        self.early = CLK.now

    def start(self):
        self.el.go()
        self.started = True

    def cancel(self):
        self.el.cancel()
        self.stopped = True

    def fire(self, *a):
        h = self.w.h
        h.check(a == self.params, 'parameters of the callback')
        h.check(self.started and not self.stopped, 'live timer only', timer=self.name)
        h.check(self.left != 0, 'no more often than asked', timer=self.name)
        h.check(self.due <= CLK.now, 'not early', timer=self.name, due=self.due, now=CLK.now)
        if self.w.last is not None:
            h.check(self.w.last <= self.due, 'in order of their times', timer=self.name, due=self.due, last=self.w.last)
        self.w.last = self.due
        self.fired += 1
        if self.left > 0:
            self.left -= 1
        self.due = self.due + self.ival
        self.w.order.append(self.name)
        if self.action is not None:
            a, self.action = self.action, None
            a()


class W(object):
    def __init__(self, h):
        self.h = h
        self.all = []
        self.last = None
        self.order = []

    def dispatch(self, t):
        """time t has come: afterwards nothing that was due is left"""
        env.set_time(t)
        self.last = None
        env.dispatch()
        self.settled(t)

    def settled(self, t):
        for x in self.all:
            if x.started and not x.stopped and x.left != 0:
                self.h.check(x.due > t, 'fired once its time has come', timer=x.name, due=x.due, now=t)
        self.h.check(DUMPS == [] or self.boom, 'no exception')

    boom = False


@scenario('K01', reach=('both', 'three', 'periodic', 'late'),
          bounds='3 timers (relative, absolute, started later, randomised) of any delay up to 8 s, one of them periodic with 1 to 3 or '
                 'unlimited firings, and 2 (thorough 3) dispatches at any times up to 12 s')
def order(h):
    w = W(h)
    n = h.choose('nticks', [1, 2, 3, -1])
    a = Tm(w, 'a', h.choose('ka', ['rel', 'inact', 'spread']), h.time('da', 1, 8), n, ('x', 1))
    b = Tm(w, 'b', h.choose('kb', ['rel', 'abs']), h.time('db', 0, 8), 1)
    c = Tm(w, 'c', 'rel', h.time('dc', 0, 8), 1, (None,))
    if not a.started:
        a.start()
    t = T0
    for i in range(2 if quick() else 3):
        t = h.time('t%d' % i, T0, T0 + (4 if n == -1 else 12))
        h.assume(t >= CLK.now)
        w.dispatch(t)
    if a.fired and b.fired:
        h.reach('both')
    if a.fired and b.fired and c.fired:
        h.reach('three')
    if a.fired > 1:
        h.reach('periodic')
    if a.due + 1 < t and a.left == 0:
        h.reach('late')


@scenario('K01', reach=('cancel', 'self', 'add', 'restart', 'raise', 'rest'),
          bounds='3 timers of any delay up to 8 s, one periodic; the first to fire cancels itself or another, starts another, changes '
                 'its own object, takes time, or raises an exception; a timer may be cancelled before; 2 dispatches')
def actions(h):
    w = W(h)
    n = h.choose('nticks', [1, 2, -1])
    a = Tm(w, 'a', 'rel', h.time('da', 2, 8), n)
    b = Tm(w, 'b', 'abs' if quick() else h.choose('kb', ['rel', 'abs']), h.time('db', 0, 8), 1)
    c = Tm(w, 'c', 'rel', h.time('dc', 0, 8), 1 if quick() else h.choose('nc', [1, 2]))
    h.assume(c.ival >= 2)
    act = h.choose('act', ['self', 'other', 'two', 'add', 'same', 'slow', 'raise'])
    who = h.choose('who', ['a', 'b'])
    me, you = (a, b) if who == 'a' else (b, a)

    def do():
        if act == 'self':
            me.cancel()
            h.reach('self')
        elif act == 'other':
            if not you.stopped:
                you.cancel()
            h.reach('cancel')
        elif act == 'two':
            you.cancel()
            c.cancel()
        elif act == 'add':
            w.new = Tm(w, 'n', 'rel', h.time('dn', 0, 2), 1)
            h.reach('add')
        elif act == 'same':
            # another go with the same callback
            me.cancel()
            Tm(w, 'n', 'rel', h.time('dn', 0, 2), 2 if h.choose('n2', [False, True]) else 1)
            h.reach('restart')
            w.all[-1].ival = w.all[-1].el.ival
        elif act == 'slow':
            env.set_time(CLK.now + h.time('took', 0, 2))
        else:
            w.boom = True
            h.reach('raise')
            raise KeyError('application error')
    me.action = do
    h.assume(act != 'same' or n == 1)
    pre = h.choose('pre', [None, 'c'])
    if pre:
        c.cancel()
    for i in range(2):
        t = h.time('t%d' % i, T0, T0 + (6 if n == -1 else 10))
        h.assume(t >= CLK.now)
        w.dispatch(t)
    if a.fired and b.fired:
        h.reach('rest')


class Elp(object):
    """the event loop waits for its next turn"""

    def __init__(self, f):
        self.f = f

    def procrastinate(self):
        self.f()

    def addband(self, freq):
        return 1

    def useband(self, n):
        pass


@scenario('K01', reach=('timeout', 'broken', 'none'),
          bounds='event loop with a time limit of up to 4 s turning every 1/64 to 2 s (up to 3 turns), 2 timers, one of which may stop '
                 'the loop with a value or cancel the other, and cancelled timers being swept')
def loop(h):
    from sippy.Core.EventDispatcher import ED2
    w = W(h)
    a = Tm(w, 'a', 'rel', h.time('da', 1, 4), h.choose('nticks', [1, 2]))
    b = Tm(w, 'b', 'rel', h.time('db', 0, 4), 1)
    junk = [Tm(w, 'j%d' % i, 'rel', 1 + i, 1) for i in range(h.choose('junk', [0, 2, 4]))]
    for j in junk:
        j.cancel()
    what = h.choose('what', ['run', 'break', 'cancel'])
    st = {'turns': 0, 'stop': False}

    def brk():
        st['stop'] = True
        ED2.breakLoop(7)

    def turn():
        h.check(not st['stop'], 'loop ends when told to')
        h.check(CLK.now <= T0 + lim, 'loop ends at its limit')
        w.settled(CLK.now)
        w.last = None
        st['turns'] += 1
        if st['turns'] > 3:
            h.assume(False)
        env.set_time(CLK.now + h.time('step', 1, 2))
    a.action = brk if what == 'break' else (b.cancel if what == 'cancel' else None)
    lim = h.time('limit', 0, 4)
    old = ED2.elp
    ED2.elp = Elp(turn)
    try:
        r = ED2.loop(lim)
    finally:
        ED2.elp = old
    if st['stop']:
        h.reach('broken')
        h.check(r == 7, 'value given')
    else:
        h.check(CLK.now > T0 + lim, 'loop runs up to its limit', now=CLK.now, limit=lim)
        h.reach('timeout')
        w.settled(CLK.now)
        if a.fired == 0:
            h.reach('none')


@scenario('K01', reach=('some', 'all', 'none'),
          bounds='event loop with an early timer, a late one and 3 timers of any delay of 1.5 to 8 s, set up anywhere among 6 others which are cancelled '
                 'before the loop begins, or within its first turn; then a turn at any time up to 9 s')
def swept(h):
    """the order is kept when cancelled timers are swept"""
    from sippy.Core.EventDispatcher import ED2
    w = W(h)
    pos = h.choose('pos', [(i, j, k) for i in range(6) for j in range(i + 1, 7) for k in range(j + 1, 8)])
    filler = h.choose('filler', [9, 2] if not quick() else [9])
    live, dead = [Tm(w, 'first', 'rel', 1, 1)], [Tm(w, 'second', 'rel', 1.25, 1)]
    for i in range(8):
        if i in pos:
            live.append(Tm(w, 'l%d' % len(live), 'rel', h.time('d%d' % len(live), 1.5, 8), 1))
        else:
            dead.append(Tm(w, 'j%d' % len(dead), 'rel', filler, 1))
    live.append(Tm(w, 'last', 'rel', 8.5, 1))
    nl = len(live)
    late = h.choose('when', [0, 1])
    st = {'turns': 0}

    def turn():
        w.settled(CLK.now)
        w.last = None
        st['turns'] += 1
        if st['turns'] == 1:
            if late:
                for x in dead:
                    x.cancel()
        elif st['turns'] == 2:
            env.set_time(T0 + h.time('t', 0, 9))
        else:
            ED2.breakLoop()
    if not late:
        for x in dead:
            x.cancel()
    old = ED2.elp
    ED2.elp = Elp(turn)
    try:
        ED2.loop()
    finally:
        ED2.elp = old
    k = len([x for x in live if x.fired])
    h.reach('none' if k == 0 else 'all' if k == nl else 'some')


@scenario('K01', reach=('moved',), bounds='absolute timers at any two times up to 8 s whose time object the application changes later')
def shared(h):
    from sippy.Time.Timeout import TimeoutAbsMono
    from sippy.Time.MonoTime import MonoTime
    log = []
    at = MonoTime().getOffsetCopy(h.time('d1', 0, 8))
    due = at.monot
    TimeoutAbsMono(log.append, at, 'x')
    at.offset(h.time('by', -4, 4))
    h.reach('moved')
    t = h.time('t', T0, T0 + 12)
    env.set_time(t)
    env.dispatch()
    h.check(h.eq(len(log) == 1, due <= t), 'fires at the time it was set for')
