"""C01: external helper processes (authorisation, accounting)."""
from errno import EINTR, EPIPE
from symx.runner import scenario, quick
from symx import env
from symx.env import SENT, CLK, T0, DUMPS
from harness.sip import *


class Idle(BaseException):
    pass


class Cond(object):
    """the workers are run by hand, one has the condition to itself"""
    wait_hook = None

    def acquire(self):
        pass

    def release(self):
        pass

    def notify(self):
        pass

    def wait(self):
        if Cond.wait_hook is not None:
            f, Cond.wait_hook = Cond.wait_hook, None
            if f():
                # woken, but another worker has taken the work already
                return
        raise Idle()


class Pipe(object):
    """a helper process"""

    def __init__(self, world):
        self.w = world
        self.stdin = self.stdout = self.stderr = self
        self.inp, self.out, self.dead = [], [], False

    def writelines(self, lines):
        if self.dead:
            raise BrokenPipeError(EPIPE, 'write')
        for l in lines:
            self.inp.append(l)
        req = self.inp
        self.w.h.check(req[-1] == b'\n', 'the request ends with an empty line', got=req)
        self.inp = []
        self.w.request(self, req[:-1])

    def flush(self):
        pass

    def readline(self):
        self.w.reading(self)
        if not self.out:
            self.w.h.check(self.dead, 'waits for ever for an answer')
            return b''
        x = self.out.pop(0)
        if isinstance(x, Exception):
            raise x
        return x

    def close(self):
        pass

    def kill(self):
        self.dead = True

    def wait(self):
        return 0


class World(object):
    def __init__(self, h, mod, answer, cmd=('helper', '-s')):
        self.h, self.cmd, self.answer = h, cmd, answer
        self.reqs = []        # (pipe, lines)
        self.pipes = []
        self.hook = None
        self.spawnfail = None
        self.runs = 0

        def popen(command, shell=None, **kw):
            h.check(command == self.cmd and not shell, 'the command as configured', got=command)
            if self.spawnfail and self.spawnfail():
                raise FileNotFoundError(2, 'no such command')
            p = Pipe(self)
            self.pipes.append(p)
            return p

        class Worker(mod._Worker):
            def start(self):
                workers.append(self)
        mod.Popen, mod.Condition, mod._Worker = popen, Cond, Worker
        self.workers = workers = []

    def request(self, pipe, lines):
        self.reqs.append((pipe, lines))
        pipe.out.extend(self.answer(lines))

    def reading(self, pipe):
        if self.hook is not None:
            f, self.hook = self.hook, None
            f()

    def run(self, i):
        self.runs += 1
        try:
            self.workers[i].run()
            return True
        except Idle:
            return False


class Req(object):
    def __init__(self, h, data, par, raising=False):
        self.h, self.data, self.par, self.raising, self.got = h, data, par, raising, []

    def cb(self, result, *par):
        self.h.check(par == self.par, 'the parameters of its own', got=par)
        self.got.append(result)
        self.h.check(len(self.got) == 1, 'answered once', got=self.got)
        if self.raising:
            raise ValueError('callback')


def mod():
    import sippy.External_command as m
    return m


@scenario('C01', reach=('cancelled', 'cancelled running', 'nested'),
          bounds='two workers and up to three requests of up to two lines with symbolic characters; the helper answers with up to two lines; while one '
                 'worker waits for its helper, another request is submitted, cancelled, or taken up by the other worker; requests cancelled before, '
                 'meanwhile and afterwards; a callback that raises; two equal requests; a worker woken for work another has taken; shutdown before the last or at the end')
def requests(h):
    """two workers"""
    m = mod()
    x = h.str('x', 1, 1, alphabet='a =\'"')
    datas = [['AUTH', 'u="' + x + '"'], ['ACCT'], h.choose('third', [['AUTH', 'k'], ['ACCT']])]
    nl = h.choose('nl', [0, 1, 2])

    def answer(lines):
        return [b'r' + l for l in (lines * 2)[:nl]] + ([OSError(EINTR, 'read')] if nl == 1 else []) + [b'\n']
    w = World(h, m, answer)
    c = m.External_command(('helper', '-s'), 2)
    h.check(len(w.workers) == 2, 'workers', n=len(w.workers))
    reqs = []

    def submit(i):
        r = Req(h, datas[i], ('p', i)[:h.choose('np', [2, 0]) if i == 0 else 2], i == 1)
        r.wi = c.process_command(r.data, r.cb, *r.par)
        r.cancelled = None
        reqs.append(r)

    def cancel(r):
        r.cancelled = 'running' if any(q[1] == [z.encode() + b'\n' for z in r.data] for q in w.reqs) else 'before'
        r.wi.cancel()
    submit(0)
    submit(1)
    act = h.choose('act', [None, 'cancel 0', 'cancel 1'])
    if act:
        cancel(reqs[int(act[-1])])
    during = h.choose('during', [None, 'cancel 0', 'cancel 1', 'submit', 'other'])

    def hook():
        if during == 'other':
            w.run(1)
            h.reach('nested')
        elif during == 'submit':
            submit(2)
        elif during:
            cancel(reqs[int(during[-1])])
    w.hook = hook
    Cond.wait_hook = (lambda: True) if h.choose('wake', [False, True]) else None
    stopped = w.run(h.choose('first', [0, 1]) if during != 'other' else 0)
    env.run_threadq()
    if h.choose('more', [True, False]):
        if len(reqs) < 3:
            submit(2)
        w.run(0)
    env.run_threadq()
    c.shutdown()
    h.check(w.run(1) and w.run(0), 'shutdown stops every worker')
    env.run_threadq()
    seen = [q[1] for q in w.reqs]
    for i, r in enumerate(reqs):
        n = len([1 for q in seen if len(q) == len(r.data) and all(h.eq(a, b.encode() + b'\n') for a, b in zip(q, r.data))])
        if r.cancelled == 'before':
            h.check(not r.got, 'a request cancelled before is not answered', i=i)
        want = len([1 for q in reqs if q.data == r.data and q.cancelled != 'before'])
        h.check(n == want, 'carried out once, unless cancelled before', i=i, n=n)
        if r.cancelled == 'before':
            h.reach('cancelled')
            continue
        h.check(len(r.got) == 1, 'answered', i=i)
        want = tuple((b'r' + z.encode()) for z in (r.data * 2)[:nl])
        h.check(h.eq(r.got[0], want), 'with the lines of its own answer', i=i, got=r.got, want=want)
        if r.cancelled:
            h.reach('cancelled running')
    h.check(len(w.pipes) <= w.runs, 'one helper per worker', n=len(w.pipes))


@scenario('C01', reach=('lost', 'answered'),
          bounds='one worker, three requests; for each the helper may fail to start, have gone before the request, go away without an answer or within it')
def failures(h):
    """the helper fails"""
    m = mod()
    kind = [h.choose('kind', [None, 'eof', 'cut', 'after', 'spawn']) for i in range(3)]
    now = lambda: len(env.THREADQ)

    def answer(lines):
        k = kind[now()]
        p = w.pipes[-1]
        h.check(lines == [b'q%d\n' % now()], 'in order', got=lines)
        if k == 'eof':
            p.dead = True
            return []
        if k == 'cut':
            p.dead = True
            return [b'a\n', b'b']
        if k == 'after':
            p.dead = True
        return [b'r' + lines[0], b'\n']
    w = World(h, m, answer)
    w.spawnfail = lambda: kind[now()] == 'spawn'
    c = m.External_command(('helper', '-s'), 1)
    reqs = []
    for i in range(3):
        r = Req(h, ['q%d' % i], (i,))
        r.wi = c.process_command(r.data, r.cb, *r.par)
        reqs.append(r)
    w.run(0)
    env.run_threadq()
    for i, r in enumerate(reqs):
        h.check(len(r.got) == 1, 'answered', kinds=kind)
        running = i > 0 and kind[i - 1] is None and reqs[i - 1].got[0] != ()
        after = i > 0 and kind[i - 1] == 'after'
        if kind[i] in ('eof', 'cut'):
            h.check(r.got[0] == (), 'no answer of its own: nothing', got=r.got)
            h.reach('lost')
        elif r.got[0] != ():
            h.check(r.got[0] == (b'rq%d' % i,), 'its own answer', got=r.got)
            h.check(running or kind[i] != 'spawn' or (i > 0 and not after), 'a helper started')
            h.reach('answered')
        else:
            h.check(kind[i] == 'spawn' or after, 'a failure for a reason', kinds=kind, i=i)


AV = ('call-id', 'h323-session-protocol', 'h323-ivr-out', 'h323-incoming-conf-id', 'release-source', 'alert-timepoint', 'provisional-timepoint')
VSA = ('h323-remote-address', 'h323-conf-id', 'h323-setup-time', 'h323-call-origin', 'h323-call-type', 'h323-connect-time', 'h323-disconnect-time',
       'h323-disconnect-cause', 'h323-voice-quality', 'h323-credit-time', 'h323-return-code', 'h323-redirect-number', 'h323-preferred-lang',
       'h323-billing-model', 'h323-currency')
PLAIN = ('User-Name', 'Digest-Response', 'Acct-Session-Time', 'h323-other')


class Logger(object):
    def write(self, *a, **kw):
        pass


def radius(h, answer, conf=None):
    import sippy.Radius_client as m
    import sippy.External_command as em
    from sippy.MyConfigParser import MyConfigParser
    g = MyConfigParser()
    if conf:
        g['radiusclient.conf'] = conf
    g['max_radiusclients'] = 1
    w = World(h, em, answer, ('/usr/local/sbin/radiusclient', '-f', conf, '-s') if conf else ('/usr/local/sbin/radiusclient', '-s'))
    return m.Radius_client(g), w


@scenario('C01', reach=('auth', 'acct', 'no callback'),
          bounds='every attribute name with special treatment and four without, values of up to two symbolic printable characters (no quote), one or two attributes; authorisation '
                 'and accounting, with and without callback and configuration file')
def attributes(h):
    """request attributes and the result code"""
    a = h.choose('a', list(AV + VSA + PLAIN))
    v = h.str('v', 0, 2, alphabet=''.join(chr(i) for i in range(32, 127) if chr(i) not in '"'))
    at = [(a, v)]
    if h.choose('two', [False, True]):
        at.append(('User-Name', 'x=y'))
    conf = h.choose('conf', [None, '/c'])
    c, w = radius(h, lambda l: [b'0\n', b'\n'], conf)
    got = []
    kind = h.choose('kind', ['auth', 'acct', 'no callback'])
    h.reach(kind)
    if kind == 'auth':
        c.do_auth(at, lambda r, *p: got.append((r, p)), 1, 'q')
    elif kind == 'acct':
        c.do_acct(at, lambda r, *p: got.append((r, p)), 1, 'q')
    else:
        c.do_acct(at)
    w.run(0)
    env.run_threadq()
    h.check(len(w.reqs) == 1 and len(w.reqs[0][1]) == 1 + len(at), 'a line per attribute')
    lines = [x.decode() for x in w.reqs[0][1]]
    h.check(lines[0] == ('AUTH\n' if kind == 'auth' else 'ACCT\n'), 'kind of request', got=lines[0])
    for l, (n, x) in zip(lines[1:], at):
        if n in AV:
            want = 'Cisco-AVPair="' + n + '=' + x + '"\n'
        elif n in VSA:
            want = n + '="' + n + '=' + x + '"\n'
        else:
            want = n + '="' + x + '"\n'
        h.check(h.eq(l, want), 'attribute as RADIUS has it', got=l)
    h.check(got == ([] if kind == 'no callback' else [(((), 0), (1, 'q'))]), 'outcome', got=got)
    h.check(not DUMPS, 'no exception')


@scenario('C01', reach=('accepted', 'rejected', 'garbage'),
          bounds='an answer of up to two attributes, each of the specially treated names or others, their values of up to two symbolic printable characters, possibly with an equals sign, quote or their own name in the middle, with or without the '
                 'quotes, and a result code of one or two symbolic digits; answers without code, with a line that is no attribute, and not UTF-8')
def reply(h):
    """attributes of the answer"""
    v = h.str('v', 0, 2, alphabet=''.join(chr(i) for i in range(32, 127)))
    code = h.str('code', 1, 2, alphabet='0129')
    form = h.choose('form', ['VSA', 'AVP', 'plain', 'prefixed'])
    n = h.choose('name', list(VSA[-6:]) if form == 'VSA' else ['h323-ivr-in', 'x'] if form == 'AVP' else ['Session-Timeout', 'h323-other'])
    mid = h.choose('mid', ['', ' = ', '=', "'", n + '='])
    if mid:
        h.assume(len(v) < 2)
        v = v + mid + 'z'
    if form == 'VSA':
        line = n + " = '" + n + '=' + v + "'"
    elif form == 'AVP':
        line = "Cisco-AVPair = '" + n + '=' + v + "'"
    elif form == 'plain':
        line = n + " = '" + v + "'"
        h.assume(not v.startswith(n + '='))
    else:
        line = n + " = '" + n + '=' + v + "'"
    lines = [line]
    if h.choose('two', [False, True]):
        lines.append("Session-Timeout = 5")
    bad = h.choose('bad', [None, 'no code', 'no attribute', 'bytes', 'nothing'])
    out = [l.encode() for l in lines] + [code.encode()]
    if bad == 'no code':
        out.pop()
    elif bad == 'no attribute':
        out.insert(0, b'hello')
    elif bad == 'bytes':
        out.insert(0, b"a = '\xff'")
    elif bad == 'nothing':
        out = []
    c, w = radius(h, lambda l: [x + b'\n' for x in out] + [b'\n'])
    got = []
    c.do_auth([], lambda r, *p: got.append((r, p)), 1)
    w.run(0)
    env.run_threadq()
    h.check(len(got) == 1 and got[0][1] == (1,), 'answered')
    nav, rcode = got[0][0]
    if bad:
        h.check(rcode not in (0, 1) and len(nav) == 0, 'reported as an error', got=got)
        h.reach('garbage')
        return
    h.check(rcode == int(code), 'result code', got=rcode)
    want = [(n, v)] + ([('Session-Timeout', '5')] if len(lines) == 2 else [])
    h.check(h.eq(nav, tuple(want)), 'attributes', got=nav, want=want)
    h.reach('accepted' if rcode == 0 else 'rejected')


@scenario('C01', reach=('digest', 'by address'),
          bounds='with and without each of the four digest values and extra attributes; values with symbolic characters; the call cancelled before the request is taken up or not; '
                 'accepted, rejected and failed')
def authorisation(h):
    """authorisation request of a call"""
    import sippy.RadiusAuthorisation as m
    import sippy.External_command as em
    from sippy.MyConfigParser import MyConfigParser
    x = h.str('x', 1, 1, alphabet='ab%\'= ')
    g = MyConfigParser()
    g['max_radiusclients'] = 1
    g['_sip_logger'] = Logger()
    code = h.choose('code', ['0', '1', '7'])
    w = World(h, em, lambda l: [b"Session-Timeout = '5'\n", code.encode() + b'\n', b'\n'], ('/usr/local/sbin/radiusclient', '-s'))
    c = m.RadiusAuthorisation(g)
    got = []
    vals = {'realm': 're' + x, 'nonce': 'no' + x, 'uri': 'ur' + x, 'response': 'rs' + x}
    miss = h.choose('miss', [None, 'realm', 'nonce', 'uri', 'response'])
    if miss:
        vals[miss] = None
    extra = h.choose('extra', [None, [('a', 'b'), ['h323-currency', 1]]])
    caller = h.choose('caller', [None, '12'])
    p = c.do_auth('us' + x, caller, '34' + x, 'cid' + x, '1.2.3.4', got.append, vals['realm'], vals['nonce'], vals['uri'], vals['response'], extra)
    canc = h.choose('cancel', [False, True])
    if canc:
        h.check(p is not None, 'a handle to cancel it')
        if p is not None:
            p.cancel()
    w.run(0)
    env.run_threadq()
    if canc:
        h.check(not w.reqs and not got, 'cancelled')
        return
    want = ['AUTH']
    if miss is None:
        h.reach('digest')
        want += ['User-Name="us%s"', 'Digest-Realm="re%s"', 'Digest-Nonce="no%s"', 'Digest-Method="INVITE"', 'Digest-URI="ur%s"', 'Digest-Algorithm="MD5"',
                 'Digest-User-Name="us%s"', 'Digest-Response="rs%s"']
    else:
        h.reach('by address')
        want += ['User-Name="1.2.3.4"', 'Password="cisco"']
    want += ['Calling-Station-Id="%s"' % (caller or ''), 'Called-Station-Id="34%s"', 'Cisco-AVPair="call-id=cid%s"',
             'h323-remote-address="h323-remote-address=1.2.3.4"', 'Cisco-AVPair="h323-session-protocol=sipv2"']
    if extra:
        want += ['a="b"', 'h323-currency="h323-currency=1"']
    lines = sorted(z.decode() for z in w.reqs[0][1]) if False else [z.decode() for z in w.reqs[0][1]]
    h.check(len(lines) == len(want) and lines[0] == 'AUTH\n', 'one line each', got=lines)
    for z in want[1:]:
        z = z.replace('%s', '\0')
        i = z.find('\0')
        z = (z[:i] + x + z[i + 1:] if i >= 0 else z) + '\n'
        h.check(any(h.eq(z, l) for l in lines), 'attribute sent', want=z)
    h.check(got == [((('Session-Timeout', '5'),), int(code))], 'outcome', got=got)
    h.check(not DUMPS, 'no exception')
