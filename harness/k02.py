"""K02: time stamps are consistent and monotonic."""
from symx.runner import scenario, quick
from symx import env
from symx.env import CLK, T0, EPOCH
from harness.sip import *

MON = ('Jan', 'Feb', 'Mar', 'Apr', 'May', 'Jun', 'Jul', 'Aug', 'Sep', 'Oct', 'Nov', 'Dec')
DAY = ('Mon', 'Tue', 'Wed', 'Thu', 'Fri', 'Sat', 'Sun')
EPS = 1e-5               # room for the rounding of floating point numbers


def near(h, a, b, eps=EPS):
    return h.all(a - b <= eps, b - a <= eps)


class Clocks(object):
    """both clocks: monotonic reading and what the wall clock shows"""

    def __init__(self, h):
        self.h = h
        self.m = T0
        self.off = EPOCH

    def set(self, m, off):
        self.m = m
        self.off = off
        CLK.now = m
        CLK.wall = lambda: m + off


def steady():
    CLK.__dict__.pop('wall', None)


@scenario('K02', reach=('lt', 'eq', 'gt'),
          bounds='any two stamps within 2**20 s of each other, third one made by offsets of up to 2**20 s in either direction')
def algebra(h):
    from sippy.Time.MonoTime import MonoTime
    a = MonoTime(monot=h.time('a', 0, 1 << 20), realt=h.time('ra', 1 << 30, (1 << 30) + (1 << 20)))
    b = MonoTime(monot=h.time('b', 0, 1 << 20), realt=h.time('rb', 1 << 30, (1 << 30) + (1 << 20)))
    am, bm, ar = a.monot, b.monot, a.realt
    h.check(h.eq(a < b, am < bm), 'before')
    h.check(h.eq(a > b, am > bm), 'after')
    h.check(h.eq(a <= b, am <= bm), 'not after')
    h.check(h.eq(a >= b, am >= bm), 'not before')
    h.check(h.eq(a == b, am == bm), 'same')
    h.check(h.eq(a != b, am != bm), 'different')
    h.check((a == None) is False and (a != None) is True, 'nothing is not a time')
    h.check(h.eq(a - b, am - bm), 'difference')
    h.check(h.eq(a + b, am + bm), 'sum')
    x = h.time('x', -(1 << 20), 1 << 20)
    y = h.time('y', -(1 << 20), 1 << 20)
    h.check(h.eq(a - x, am - x), 'less a number')
    h.check(h.eq(a + x, am + x), 'plus a number')
    h.check(h.eq(x + a, am + x), 'number plus stamp')
    h.check(h.eq(x - a, x - am), 'number less stamp')
    c = a.getOffsetCopy(x)
    h.check(a.monot == am and a.realt == ar, 'original unchanged')
    h.check(h.eq(c.monot, am + x) and h.eq(c.realt, ar + x), 'offset moves both')
    h.check(h.eq(c - a, x), 'offset is the difference')
    d = c.getOffsetCopy(y)
    h.check(h.eq(d.monot, a.getOffsetCopy(x + y).monot), 'offsets add up')
    h.check(h.eq(d.realt, a.getOffsetCopy(x + y).realt), 'offsets of wall times add up')
    e = a.getCopy()
    h.check(e is not a and e.monot == am and e.realt == ar, 'copy')
    e.offset(x)
    h.check(h.eq(e.monot, c.monot) and h.eq(e.realt, c.realt), 'offset in place')
    e.offset(-x)
    h.check(h.eq(e.monot, am) and h.eq(e.realt, ar), 'offset undone')
    h.check(a.monot == am and a.realt == ar, 'original independent of its copy')
    h.check(h.eq(a.getdiff(), ar - am), 'difference of the clocks')
    CLK.now = h.time('now', 0, 1 << 21)
    h.check(h.eq(a.offsetFromNow(), CLK.now - am), 'age')
    h.reach('lt' if a < b else ('eq' if a == b else 'gt'))


@scenario('K02', reach=('past', 'future', 'trusted', 'text', 'clock'),
          bounds='clocks at any reading with any difference of up to 2**20 s; stamps made from one clock, from both, from text of 6 digits '
                 'precision, each within 2**10 s of now')
def convert(h):
    from sippy.Time.MonoTime import MonoTime
    g = MonoTime.globals
    off = h.time('off', 1 << 30, (1 << 30) + (1 << 20), 4)
    m0 = h.time('m0', 1 << 11, 1 << 20)
    g.realt_flt.lastval = off
    g.monot_max = m0
    ck = Clocks(h)
    late = h.time('late', 0, 1 << 10)
    ck.set(m0 + late, off)
    d = h.time('d', -(1 << 10), 1 << 10)
    what = h.choose('what', ['monot', 'realt', 'trust', 'both', 'text', 'text1', 'now'])
    try:
        if what == 'monot':
            s = MonoTime(monot=m0 + d)
            h.check(h.eq(s.monot, m0 + d), 'reading given')
            h.check(h.eq(s.realt - s.monot, off), 'current difference of the clocks')
            h.reach('clock')
        elif what in ('realt', 'trust', 'text1'):
            r = m0 + late + off + d
            if what == 'text1':
                h.assume(h.eq((r * 8), (r * 8).__floor__()) if h.is_sym(r) else r * 8 == int(r * 8))
                s = MonoTime(s='%.6f' % r)
            else:
                s = MonoTime(realt=r, trust_realt=what == 'trust')
            h.check(near(h, s.realt, r), 'wall clock reading given')
            if what == 'trust':
                h.reach('trusted')
                h.check(near(h, s.monot, r - off), 'converted as it is')
            elif d <= 0:
                h.reach('past')
                h.check(near(h, s.monot, r - off), 'time in the past converted')
            else:
                h.reach('future')
                h.check(near(h, s.monot, m0 + late), 'time in the future taken as now')
            h.check(g.monot_max <= CLK.now and g.monot_max >= m0, 'latest reading seen')
        elif what == 'both':
            s = MonoTime(monot=m0 + d, realt=off - d)
            h.check(h.eq(s.monot, m0 + d) and h.eq(s.realt, off - d), 'both readings given')
        elif what == 'now':
            s = MonoTime()
            h.check(h.eq(s.monot, CLK.now), 'current reading')
            h.check(near(h, s.realt, CLK.now + off), 'current wall clock reading')
            h.check(h.eq(g.monot_max, CLK.now), 'latest reading seen')
        else:
            h.reach('text')
            h.assume(m0 + d >= 0)
            s = MonoTime(monot=m0 + d, realt=off + d)
            t = str(s)
            u = MonoTime(s=t)
            h.check(near(h, u.monot, s.monot, 2e-6) and near(h, u.realt, s.realt, 2e-6), 'text read back', text=t)
            h.check(str(u) == t, 'text again')
    finally:
        steady()


@scenario('K02', reach=('steady', 'back', 'forth'),
          bounds='4 (thorough 6) stamps at any times, the wall clock being set forth or back by up to 2**12 s between them')
def smooth(h):
    from sippy.Time.MonoTime import MonoTime
    ck = Clocks(h)
    m = T0
    off = EPOCH
    lo = hi = off
    prev = None
    try:
        for i in range(4 if quick() else 6):
            m = m + h.real('dm', 0.015625, 1 << 12)
            way = h.choose('way', [0, 1, -1])
            adj = h.real('adj', 0.015625, 1 << 12) * way if way else 0
            off = off + adj
            # extremes of the difference of the clocks
            lo = off if off < lo else lo
            hi = off if off > hi else hi
            ck.set(m, off)
            s = MonoTime()
            h.check(h.eq(s.monot, m), 'monotonic reading')
            h.check(h.all(s.realt - m >= lo - EPS, s.realt - m <= hi + EPS), 'within the readings of the clocks')
            if prev is not None:
                h.check(h.eq(s >= prev, True), 'monotonic')
                back = prev.realt - s.realt - (prev.monot - m)
                # no step is larger than the distance between the smoothed difference and the actual one
                far = off - (prev.realt - prev.monot)
                far = -far if far < 0 else far
                h.check(back <= far + EPS, 'no further back than adjusted', back=back)
                if lo == hi:
                    h.reach('steady')
                    h.check(h.all(s.realt - prev.realt >= m - prev.monot - EPS, s.realt - prev.realt <= m - prev.monot + EPS),
                            'undisturbed clock followed')
                elif adj < 0:
                    h.reach('back')
                else:
                    h.reach('forth')
            prev = s
    finally:
        steady()


def days(y, m, d):
    """days since 1970-01-01 (the textbook count)"""
    n = (y - 1970) * 365 + (y - 1969) // 4 - (y - 1901) // 100 + (y - 1601) // 400
    for k, l in enumerate((31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30)):
        n = n + H.ite(m > k + 1, l, 0)
    leap = H.all(y % 4 == 0, H.any(y % 100 != 0, y % 400 == 0))
    return n + H.ite(H.all(m > 2, leap), 1, 0) + d - 1


H = None


def index(s, names):
    n = 0
    for i, x in enumerate(names):
        n = n + H.ite(s == x, i + 1, 0)
    return n


@scenario('K02', reach=('f', 'fp', 'fr', 'base'),
          bounds='3 moments of any day from 1999 to 2001, 2023 to 2025, 2099 to 2101 and any moment (to 1/64 s) of 12 of these days, in each of three text forms, of its own wall clock or of '
                 'another stamp as base')
def text(h):
    global H
    H = h
    from sippy.Time.MonoTime import MonoTime
    first = h.choose('year', [915148800, 1672531200, 4070908800])
    if h.choose('sym', ['day', 'sec']) == 'day':
        n = h.int('day', 0, 3 * 365)
        sec = h.choose('at', [0, 43199.5, 86399.75])
    else:
        n = h.choose('on', [58, 59, 364, 424])
        sec = h.time('sec', 0, 86399)
    r = first + n * 86400 + sec
    base = None
    if h.choose('base', [False, True]):
        # the wall clock at the time of base counts
        d = h.choose('d', [0.25, 86400.0, -3600.0])
        base = MonoTime(monot=5000.0 - d, realt=r - d)
        s = MonoTime(monot=5000.0, realt=123.0)
        h.reach('base')
    else:
        s = MonoTime(monot=5000.0, realt=r)
    k = h.choose('form', ['f', 'fp', 'fr'])
    h.reach(k)
    if k == 'f':
        t = s.ftime(base)
        h.check(len(t) == 22 and t[4] == '-' and t[7] == '-' and t[10] == ' ' and t[13] == ':' and t[16] == ':' and t[19:] == '+00', 'form', text=t)
        v = days(int(t[:4]), int(t[5:7]), int(t[8:10])) * 86400 + int(t[11:13]) * 3600 + int(t[14:16]) * 60 + int(t[17:19])
        h.check(h.all(v - r <= 0.5, r - v <= 0.5), 'nearest second', text=t)
    elif k == 'fp':
        t = s.fptime(base)
        h.check(len(t) == 19 and t[2] == ' ' and t[6] == ' ' and t[9] == ':' and t[12] == ':' and t[15] == '.', 'form', text=t)
        y = yof(h, first, n)
        v = days(y, index(t[3:6], MON), int(t[:2])) * 86400 + int(t[7:9]) * 3600 + int(t[10:12]) * 60 + int(t[13:15])
        v = v * 1000 + int(t[16:])
        h.check(h.all(r * 1000 - v >= 0, r * 1000 - v < 1), 'millisecond', text=t)
    else:
        t = s.frtime(base)
        w = t.split(' ')
        h.check(len(w) == 6 and len(t) in (31, 32) and w[1] == 'GMT' and t[2] == ':' and t[5] == ':' and t[8:12] == '.000', 'form', text=t)
        v = days(int(w[5]), index(w[3], MON), int(w[4]))
        h.check(h.eq(index(w[2], DAY) - 1, (v + 3) % 7), 'day of the week', text=t)
        h.check(w[4][0] != '0', 'no leading zero')
        v = v * 86400 + int(t[:2]) * 3600 + int(t[3:5]) * 60 + int(t[6:8])
        h.check(h.all(r - v >= 0, r - v < 1), 'second', text=t)


def yof(h, first, n):
    """year of that day"""
    y = {915148800: 1999, 1672531200: 2023, 4070908800: 2099}[first]
    for i in range(3):
        l = 366 if y % 4 == 0 and (y % 100 != 0 or y % 400 == 0) else 365
        if n < l:
            return y
        n = n - l
        y += 1
    return y
