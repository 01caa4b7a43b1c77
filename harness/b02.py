"""B02: failover tries the routes in order and answers the caller once."""
from symx.runner import scenario, quick
from symx import env
from symx.env import SENT, CLK, T0, DUMPS
from harness.sip import *
from harness.b2b import *

HOSTS = ('10.0.0.3', '10.0.0.4', '10.0.0.5')


class Hunt(object):
    """one caller and up to three routes; a model of where the hunt stands"""

    def __init__(self, h, n, limits, hs=(), body=True, auth=True, wait=1, **cfg):
        self.h, self.n = h, n
        self.limits = limits            # per route: dict of expires/np_expires/nr_expires
        self.hs = hs                    # per route: codes that stop the hunt
        self.routes = []
        for i, l in enumerate(limits):
            r = 'n%d@%s' % (i + 1, HOSTS[i])
            for k in sorted(l):
                r += ';%s=%d' % (k, l[k])
            if i < len(hs) and hs[i]:
                r += ';hs_scodes=' + ','.join(str(x) for x in hs[i])
            self.routes.append(r)
        self.a = setup(h, self.routes, auth=True, **cfg)
        self.c = Peer(h, self.a, 'caller', CALLER, 10)
        self.o = [Peer(h, self.a, 'callee', x, 50 + 20 * i) for i, x in enumerate(HOSTS[:len(limits)])]
        self.k = -1
        self.start = None
        self.got = None         # last provisional code of the current attempt
        self.late = []          # attempts given up and not answered yet
        self.body = body
        self.waits = wait
        self.log = []
        self.end = None         # what the caller has been told finally
        self.msgs = 0

    def begin(self):
        h = self.h
        self.c.invite(self.body)
        h.check(len(SENT) == 1, 'nobody is called before the authorisation')
        self.a.grant()
        self.expect(CLK.now)

    def limit(self, name):
        return self.limits[self.k].get(name)

    def deadline(self):
        """when the current attempt is given up, None if never"""
        c = [self.limit('expires')]
        if self.got is None:
            nr = self.limit('nr_expires')
            c += [nr if nr is not None and nr < 32 else None, self.limit('np_expires'), 32]
        elif self.got == 'trying':
            c += [self.limit('np_expires')]
        c = [x for x in c if x is not None]
        return self.start + min(c) if c else None

    def expect(self, t):
        """the next route is being tried since t"""
        h = self.h
        self.k += 1
        self.start = t
        self.got = None
        o = self.o[self.k]
        o.look()
        h.check(o.inv is not None, 'the next route is tried', log=str(self.log))
        h.check([s[3] for s in SENT if s[1] == o.inv][0] == t, 'at once')
        h.check(o.inv.startswith('INVITE sip:n%d@' % (self.k + 1)), 'with its own parameters')
        h.check(bno(o.inv) == bno(self.c.inv), 'with the offer of the caller')
        if self.k:
            h.reach('next')

    def failed(self, code, t):
        """the current attempt failed with this code (None: its time was over)"""
        h, c = self.h, self.c
        if self.end is not None:
            return
        stop = code is not None and self.k < len(self.hs) and code in self.hs[self.k]
        if self.k + 1 < len(self.o) and not stop:
            self.expect(t)
        else:
            self.end = 'failed'
            f = c.finals(seqno(c.inv))
            h.check(len(f) == 1, 'the failure of the last attempt is the answer', log=str(self.log))
            if code is not None:
                h.check(code_of(f[0]) == code, 'with its code')
            else:
                h.check(code_of(f[0]) >= 400, 'with a failure code')
            h.reach('stopped' if stop else 'exhausted')

    def oracle(self):
        h, c = self.h, self.c
        f = c.finals(seqno(c.inv))
        if self.end is None:
            h.check(len(f) == 0, 'the caller is not answered while there is hope', log=str(self.log))
        for i, o in enumerate(self.o):
            n = len(o.msgs('INVITE'))
            h.check(n == (1 if i <= self.k else 0), 'routes are tried in order, each once', log=str(self.log))
            if i < self.k or self.end in ('failed', 'gone'):
                # this attempt has ended
                h.check(o.inv is None or o.first is not None or len(o.msgs('CANCEL')) == 1 or not len(o.provs),
                        'an attempt given up is cancelled', log=str(self.log))

    def acts(self):
        c = self.c
        a = []
        if self.end is None:
            a += ['prov', 'answer', 'fail', 'cancel']
            if self.waits > 0:
                a += ['wait']
        if self.late:
            a += ['late2xx', 'latefail']
        return a

    def run(self):
        h = self.h
        for o in self.o:
            o.provs = []
        self.begin()
        for i in range(self.n):
            opts = self.acts()
            if not opts:
                break
            self.i = i
            act = h.choose('act%d' % i, opts)
            self.log.append(act)
            getattr(self, act)()
            self.c.react()
            self.oracle()
        self.finish()

    def prov(self):
        h, c, o = self.h, self.c, self.o[self.k]
        code = h.int('p%d' % self.i, 100, 199)
        n = len(SENT)
        o.provs.append(code)
        o.answer(code, extra=('X-N: %d' % self.i,))
        if code == 100:
            self.got = self.got or 'trying'
        else:
            self.got = 'ringing'
            new = [s[1] for s in SENT[n:] if s[2][0] == c.host]
            h.check(len(new) == 1 and code_of(new[0]) == code, 'progress of the attempt is passed on')

    def answer(self):
        h, c, o = self.h, self.c, self.o[self.k]
        b = o.newbody()
        o.answer(200, body=b)
        self.end = 'answered'
        f = c.finals(seqno(c.inv))
        h.check(len(f) == 1 and code_of(f[0]) == 200 and bno(f[0]) == b, 'the answer of the attempt is the answer')
        h.reach('answered')

    def fail(self):
        h, o = self.h, self.o[self.k]
        code = h.int('f%d' % self.i, 300, 699)
        o.answer(code, contact='<sip:carol@10.0.0.7>' if self.redirect else '')
        if self.redirect and (code == 300 or code == 301 or code == 302):
            f = self.c.finals(seqno(self.c.inv))
            h.check(len(f) == 1 and code_of(f[0]) == code, 'a redirection is passed on')
            h.check('<sip:carol@10.0.0.7>' in f[0], 'with its target')
            self.end = 'failed'
            h.reach('redirected')
            return
        self.failed(code, CLK.now)

    redirect = False

    def cancel(self):
        h, c, o = self.h, self.c, self.o[self.k]
        c.cancel()
        self.end = 'gone'
        f = c.finals(seqno(c.inv))
        h.check(len(f) == 1 and code_of(f[0]) == 487, 'a caller that gives up gets 487')
        self.late.append(o)
        h.reach('gone')

    def wait(self):
        h = self.h
        self.waits -= 1
        if quick():
            # around the next limit only
            d = self.deadline()
            t = (d if d is not None else CLK.now + 32) + h.time('w%d' % self.i, -2, 2)
            h.assume(t >= CLK.now)
        else:
            t = CLK.now + h.time('w%d' % self.i, 0, 40)
        while self.end is None:
            d = self.deadline()
            if d is None or d > t:
                break
            was = self.o[self.k]
            env.run_until(d)
            self.c.react()
            # unanswered for 32 s is the failure 408
            timeout = self.got is None and d == self.start + 32 and self.limit('expires') != 32 and \
                self.limit('np_expires') != 32
            if not timeout:
                self.late.append(was)
            h.reach('timeout' if timeout else 'limit')
            self.failed(408 if timeout else None, d)
        env.run_until(t)

    def late2xx(self):
        h = self.h
        o = self.late.pop(0)
        t = [s[3] for s in SENT if s[1] == o.inv][0]
        n = len(self.c.msgs())
        o.answer(200, body=o.newbody())
        if CLK.now < t + 32:
            h.check(o.got_bye(), 'a late answer is hung up')
            h.reach('late')
        h.check(len(self.c.msgs()) == n, 'and not passed on')

    def latefail(self):
        o = self.late.pop(0)
        n = len(self.c.msgs())
        o.answer(self.h.int('f%d' % self.i, 300, 699))
        self.h.check(len(self.c.msgs()) == n, 'a late failure is not passed on')

    def finish(self):
        h, c = self.h, self.c
        if self.end == 'answered':
            if h.choose('hangup', ['c', 'o']) == 'c':
                c.bye()
                h.check(self.o[self.k].got_bye(), 'the hang-up is passed on')
            else:
                self.o[self.k].bye()
                h.check(c.got_bye(), 'the hang-up is passed back')
        elif self.end is None:
            c.cancel()
            self.end = 'gone'
            self.oracle()
        for p in [c] + self.o:
            if p.inv is not None:
                p.answer_bye()
        if 'wait' in self.log and quick():
            # (cleaning up after waiting is decided by B01)
            return
        env.run_out(limit=300)
        h.check(len(c.finals(seqno(c.inv))) == 1, 'one final answer to the caller')
        for i, o in enumerate(self.o):
            h.check(len(o.msgs('INVITE')) == (1 if i <= self.k else 0), 'no route is tried after the end')
        self.a.clean(h)


@scenario('B02', reach=('next', 'exhausted', 'answered', 'gone', 'timeout', 'late'),
          bounds='three (quick: two) routes without limits, the routes of an authorisation answer; every sequence of 3 (thorough 4) acts: '
                 'progress (all codes), failure (all codes), answer, abandonment, one wait of up to 40 s (symbolic; quick: of up to 2 s before or after the current limit), late '
                 'answers and failures of attempts given up')
def plain(h):
    Hunt(h, 3 if quick() else 4, [{}, {}] if quick() else [{}, {}, {}]).run()


@scenario('B02', reach=('next', 'exhausted', 'stopped', 'answered', 'gone', 'redirected'),
          bounds='three routes of which the first and third stop the hunt on 486 and 603; 4 acts without waiting, '
                 'failures with Contact')
def huntstop(h):
    x = Hunt(h, 4 if quick() else 4, [{}, {}, {}], hs=((486, 603), (), (486,)), wait=0)
    x.redirect = True
    x.run()


@scenario('B02', reach=('next', 'exhausted', 'limit', 'answered', 'gone', 'late'),
          bounds='two routes with expiry, no-progress and no-reply limits in different orders; 3 (thorough 4) acts including '
                 'one wait of up to 40 s (symbolic)')
def limits(h):
    lim = h.choose('limits', [[{'expires': 10}, {'expires': 20, 'np_expires': 5}],
                              [{'expires': 30, 'np_expires': 15, 'nr_expires': 6}, {'nr_expires': 8}],
                              [{'np_expires': 12, 'expires': 5}, {'nr_expires': 9, 'np_expires': 4, 'expires': 35}]])
    Hunt(h, 3 if quick() else 4, lim).run()


@scenario('B02', reach=('skipped', 'last', 'kept', 'gone'),
          bounds='three routes, the first with a group limit of 8 s that skips to route 2, 3 or 4; the first attempt fails or not '
                 'before, and the caller waits 7 to 9 s (symbolic), then gives up')
def group(h):
    skip = h.choose('skip', [1, 2, 3])
    a = setup(h, ('n1@10.0.0.3;gt=8,%d' % skip, 'n2@10.0.0.4', 'n3@10.0.0.5'), auth=True)
    c = Peer(h, a, 'caller', CALLER, 10)
    o = [Peer(h, a, 'callee', x, 50) for x in HOSTS]
    c.invite()
    a.grant()
    o[0].look()
    o[0].answer(180)
    k = 0
    if h.choose('fail', [False, True]):
        o[0].answer(500)
        o[1].look()
        o[1].answer(180)
        k = 1
    env.run_until(T0 + h.time('t', 7, 9))
    due = CLK.now >= T0 + 8
    goal = 1 + skip             # the route to skip to
    counts = [len(x.msgs('INVITE')) for x in o]
    if not due or goal <= k + 1:
        h.check(counts == [1 if i <= k else 0 for i in range(3)], 'nothing is skipped before the limit')
        h.reach('kept')
    elif goal <= 3:
        h.check(counts == [1 if i <= k or i == goal - 1 else 0 for i in range(3)], 'the attempts of the group are skipped')
        h.check(len(o[k].msgs('CANCEL')) == 1, 'the attempt under way is cancelled')
        h.reach('skipped')
    else:
        # there is nothing to skip to: the attempt under way goes on, but it is the last one
        h.check(counts == [1 if i <= k else 0 for i in range(3)], 'the attempt under way goes on')
        h.check(len(o[k].msgs('CANCEL')) == 0, 'and is not cancelled')
        o[k].answer(503)
        h.check([len(x.msgs('INVITE')) for x in o] == counts, 'no further route is tried')
        h.check(code_of(c.finals(seqno(c.inv))[0]) == 503, 'its failure is the answer')
        h.reach('last')
    if not c.over():
        c.cancel()
        h.reach('gone')
    own = [t for t in env.timers() if type(getattr(t.cb_func, '__self__', None)).__name__ == 'CallController']
    h.check(len(own) == 0, 'no group limit is left when the caller has gone')
