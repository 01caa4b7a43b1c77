"""C02: management commands."""
import socket as _socket
from errno import EBADF, ECONNRESET, EPIPE
from symx.runner import scenario, quick
from symx import env
from symx.env import SENT, CLK, T0, DUMPS
from harness.sip import *
from harness.c01 import Cond, Idle


class Conn(object):
    """a connection; its two threads are run by hand"""

    def __init__(self, h, reads=()):
        self.h, self.reads, self.out, self.closed, self.shut = h, list(reads), [], 0, 0
        self.partial = None
        self.broken = False

    def recv(self, n):
        if not self.reads:
            raise Idle()
        x = self.reads.pop(0)
        if isinstance(x, Exception):
            raise x
        self.h.check(len(x) <= n, 'size of a read')
        return x

    def send(self, data):
        if self.broken or self.closed:
            raise BrokenPipeError(EPIPE, 'send') if self.broken else _socket.error(EBADF, 'send')
        n = len(data) if self.partial is None else self.partial(data)
        self.out.append(data[:n])
        return n

    def shutdown(self, how):
        self.shut += 1
        if self.broken:
            raise _socket.error(107, 'not connected')

    def close(self):
        self.closed += 1


THR = []


def mod():
    import sippy.CLIManager as m
    del THR[:]
    start = lambda self: THR.append(self)
    m.Condition = Cond
    m._CLIManager_r.start = m._CLIManager_w.start = m._Acceptor.start = start
    return m


def run(t):
    if getattr(t, 'finished', False):
        return True
    try:
        t.run()
    except Idle:
        return False
    t.finished = True
    return True


@scenario('C02', reach=('executed', 'not ascii', 'end', 'broken'),
          bounds='4 (thorough: 6) bytes of letters, blanks, CR, LF and a byte that is not ASCII, cut into up to three reads in every way, then the end or a failure of the '
                 'connection, or nothing')
def framing(h):
    """lines from reads"""
    m = mod()
    n = 4 if quick() else 6
    data = h.str('d', n, n, alphabet='ab \r\n').encode()
    k = h.choose('bad', [None] + list(range(n)))
    if k is not None:
        data = data[:k] + b'\xff' + data[k + 1:]
    i = h.choose('i', list(range(n + 1)))
    j = h.choose('j', list(range(i, n + 1)))
    reads = [x for x in (data[:i], data[i:j], data[j:]) if len(x) > 0]
    end = h.choose('end', [None, 'eof', ECONNRESET, EBADF])
    c = Conn(h, reads + ([] if end is None else [b''] if end == 'eof' else [_socket.error(end, 'recv')]))
    got = []
    cm = m.CLIManager(c, lambda clim, cmd: got.append((clim, cmd)))
    run(cm.rthr)
    env.run_threadq()
    h.check(not DUMPS, 'no exception')
    want, bad = [], False
    line = ''
    for k in range(n):
        b = data[k]
        if b == 0xff:
            bad = True
            break
        if b == 10:
            if len(line.strip()) > 0:
                want.append(line.strip())
            line = ''
        else:
            line += chr(b)
    h.check(all(x[0] is cm for x in got), 'from its connection')
    if bad:
        h.reach('not ascii')
        h.check(len(got) <= len(want), 'nothing of what follows', got=len(got))
        h.check(c.closed == 1, 'closed')
    else:
        h.check(len(got) == len(want), 'each line executed once', n=len(got), want=len(want))
        if got:
            h.reach('executed')
        h.check(c.closed == (0 if end in (None, EBADF) else 1), 'connection released', n=c.closed)
        if end == 'eof':
            h.reach('end')
        elif end == ECONNRESET:
            h.reach('broken')
    for g, x in zip(got, want):
        h.check(h.eq(g[1], x), 'as written, in order', got=g[1], want=x)


@scenario('C02', reach=('partial', 'closed', 'lost'),
          bounds='two connections, replies of symbolic characters to each in any order (text or bytes, also not ASCII), the operating system takes all or a part of what is sent; closed '
                 'by the command afterwards or not; one peer gone')
def replies(h):
    """replies go where they belong"""
    m = mod()
    A, B = Conn(h), Conn(h)
    d = h.str('d', 0, 2, alphabet='a\n\xfc')
    p = h.choose('part', [None, 1, 2])
    if p:
        A.partial = lambda data: min(p, len(data))
        h.reach('partial')
    mgrs = [m.CLIManager(c, lambda clim, cmd: None) for c in (A, B)]
    a, b = mgrs
    A.broken = h.choose('lost', [False, True])
    want = {0: [], 1: []}
    for k, step in enumerate(h.choose('order', [('A', 'B', 'A'), ('A', 'run', 'A', 'B'), ('B', 'A', 'run', 'B')])):
        if step == 'run':
            run(a.wthr)
            run(b.wthr)
            continue
        w = 'AB'.index(step)
        t = 'r%d' % k + d + step
        if k == 0:
            mgrs[w].send(t.encode())
        else:
            mgrs[w].send(t)
        want[w].append(t.encode())
    close = h.choose('close', [None, 'close', 'close twice', 'raise'])
    if close in ('close', 'close twice'):
        a.close()
        if close == 'close twice':
            run(a.wthr)
            a.close()
    elif close == 'raise':
        def cb(*a):
            raise ValueError('command')
        a.command_cb = cb
        a.handle_cmd('x')
        del DUMPS[:]
    run(a.wthr)
    run(b.wthr)
    env.run_threadq()
    h.check(h.eq(b''.join(B.out), b''.join(want[1])), 'replies of the other one', got=B.out)
    h.check(B.closed == 0, 'the other one stays open')
    if A.broken:
        h.check(not A.out, 'nothing sent')
        h.reach('lost')
        a.send('x')
        a.shutdown()
        h.check(A.closed == 1, 'released')
    else:
        h.check(h.eq(b''.join(A.out), b''.join(want[0])), 'replies, whole and in order', got=A.out)
        h.check(A.closed == (1 if close else 0), 'closed on request after the replies', n=A.closed)
        if close:
            h.reach('closed')
            a.send('late')
            a.close()
            a.shutdown()
            h.check(A.closed == 1, 'closed once')
    h.check(not DUMPS, 'no exception')


@scenario('C02', reach=('accepted', 'refused'), bounds='an address of four symbolic digits, lists of none, one or two addresses or no list; TCP or local')
def hosts(h):
    """connections from hosts that are not accepted"""
    m = mod()
    x = h.str('x', 1, 1, alphabet='0123')
    cm = m.CLIConnectionManager.__new__(m.CLIConnectionManager)
    got = []
    cm.command_cb = lambda clim, cmd: got.append(cmd)
    cm.tcp = h.choose('tcp', [True, False])
    lst = h.choose('list', [None, [], ['10.0.0.1'], ['10.0.0.1', '10.0.0.3']])
    cm.accept_list = lst
    c = Conn(h, [b'q\n'])
    cm.handle_accept(c, ('10.0.0.' + x, 4711) if cm.tcp else '')
    for t in list(THR):
        if isinstance(t, m._CLIManager_r):
            run(t)
    env.run_threadq()
    ok = not cm.tcp or lst is None or any(h.eq('10.0.0.' + x, y) for y in lst)
    if ok:
        h.reach('accepted')
        h.check(got == ['q'] and c.closed == 0, 'commands taken', got=got)
    else:
        h.reach('refused')
        h.check(got == [] and c.closed == 1 and not c.out, 'no command taken', got=got)


class Obj(object):
    def __init__(self, **kw):
        self.__dict__.update(kw)


class Clim(object):
    def __init__(self):
        self.out, self.closed = [], 0

    def send(self, x):
        self.out.append(x)

    def close(self):
        self.closed += 1


def leg(i):
    u = 'sip:u%d@10.0.0.%d:5060' % (i, i)
    return Obj(state=Obj(sname='St%d' % i), getRAddr0=lambda: (('10.0.0.%d' % i, 5060 + i), 'udp'), getCLD=lambda: 'cld%d' % i, getCLI=lambda: 'cli%d' % i, dis=[],
               disconnect=None)


def world(h):
    import sippy.B2B.SimpleAPI as m
    import sippy.b2bua as bm
    from sippy.B2B.States import CCStateConnected, CCStateARComplete, CCStateWaitRoute
    api = m.B2BSimpleAPI.__new__(m.B2BSimpleAPI)
    ccm = bm.CallMap.__new__(bm.CallMap)
    ccm.ccmap = []
    done = []
    for i, (cid, st) in enumerate((('c1', CCStateConnected), ('c2', CCStateARComplete), ('c1', CCStateWaitRoute), ('c3', CCStateConnected))):
        cc = Obj(cId=cid, id=i + 1, state=st, proxied=True, uaA=leg(2 * i + 1), uaO=leg(2 * i + 2) if st != CCStateWaitRoute else None,
                 rtp_proxy_session=Obj(media_timeout_index=None))
        cc.disconnect = (lambda n: lambda *a, **kw: done.append((n, a, kw)))(i)
        if cc.uaO:
            cc.uaO.disconnect = (lambda n: lambda *a, **kw: done.append(('O', n, a, kw)))(i)
        ccm.ccmap.append(cc)
    ccm.ccmap[3].proxied = False
    tr = lambda method, age: Obj(method=method, state='TRYING', rtime=None)
    from sippy.Time.MonoTime import MonoTime
    now = MonoTime()
    ages = {'s1': h.choose('age', [59, 61]), 'c1': 100}
    tm = Obj(tserver={('s1', 1): Obj(method='INVITE', state=1, rtime=now.getOffsetCopy(-ages['s1']))},
             tclient={('c1', 2): Obj(method='BYE', state=2, rtime=now.getOffsetCopy(-ages['c1']))})
    api.global_config = {'_cmap': ccm, '_sip_tm': tm}
    return api, ccm, done, ages


@scenario('C02', reach=('found', 'not found'), bounds='four calls (two with the same Call-ID, one without an outgoing leg, one without media proxy); a Call-ID or number with a symbolic '
          'character, each command in both cases and with too few or too many arguments')
def commands(h):
    """each command does what it says"""
    api, ccm, done, ages = world(h)
    h.choose('one', [0])
    cl = Clim()
    what = h.choose('what', ['d', 'd *', 'r', 'l', 'lt', 'llt', 'q', 'unknown', 'syntax'])
    up = h.choose('upper', [False, True])

    def do(text):
        if up:
            text = text[0].upper() + text[1:]
        api.recvCommand(cl, text)
    if what == 'd':
        x = h.str('x', 1, 1, alphabet='123 45')
        h.assume(x != ' ')
        do('d c' + x)
        hit = [i for i, cc in enumerate(ccm.ccmap) if h.eq(cc.cId, 'c' + x)]
        h.check([z[0] for z in done] == hit, 'exactly the calls of that Call-ID', got=[z[0] for z in done])
        h.check(len(cl.out) == 1 and (cl.out[0] == 'OK\n') == bool(hit), 'answer', got=cl.out)
        h.reach('found' if hit else 'not found')
        if not hit:
            h.check(h.eq(cl.out[0], 'ERROR: no call with id of c' + x + ' has been found\n'), 'error names it')
    elif what == 'd *':
        do('d *')
        h.check([z[0] for z in done] == [0, 1, 2, 3] and cl.out == ['OK\n'], 'all calls', got=[z[0] for z in done])
    elif what == 'r':
        x = h.str('x', 1, 1, alphabet='0123456')
        idx = h.choose('idx', [None, 0, 1])
        cc = ccm.ccmap[1]
        do('r ' + x + ('' if idx is None else ' %d' % idx))
        n = int(x)
        if not 1 <= n <= 4:
            h.check(not done and len(cl.out) == 1 and cl.out[0].startswith('ERROR'), 'no such call', got=cl.out)
        else:
            h.check(cl.out == ['OK\n'], 'answer', got=cl.out)
            if n == 1:
                h.check(len(done) == 1 and done[0][0] == 0 and done[0][2] == {'origin': 'media_timeout', 'media_index': idx or 0}, 'call released for lost media', got=done)
                h.check(round(CLK.now - done[0][1][0].monot) == 60, 'as of a minute ago')
            elif n == 2:
                h.check(len(done) == 1 and done[0][:2] == ('O', 1) and done[0][3] == {'origin': 'media_timeout'}, 'call being set up', got=done)
                h.check(cc.rtp_proxy_session.media_timeout_index == (idx or 0), 'stream which stopped')
            else:
                h.check(not done, 'calls without media stay', got=done)
    elif what == 'l':
        do('l')
        h.check(len(cl.out) == 1, 'answer')
        lines = cl.out[0].split('\n')
        h.check(lines[0] == 'In-memory calls:' and lines[-2] == 'Total: 4' and lines[-1] == '' and len(lines) == 7, 'a line per call', got=lines)
        for i, (l, cc) in enumerate(zip(lines[1:5], ccm.ccmap)):
            a, o = 2 * i + 1, 2 * i + 2
            want = '%s: %s (St%d udp:10.0.0.%d:%d cld%d cli%d -> ' % (cc.cId, cc.state.sname, a, a, 5060 + a, a, a)
            want += 'St%d udp:10.0.0.%d:%d cli%d cld%d)' % (o, o, 5060 + o, o, o) if cc.uaO else 'N/A)'
            h.check(l == want, 'both legs of the call', got=l, want=want)
        h.check(not done, 'calls stay')
    elif what in ('lt', 'llt'):
        do(what)
        h.check(len(cl.out) == 1, 'answer')
        h.check(("'s1'" in cl.out[0]) == (what == 'lt' or ages['s1'] >= 60) and "'c1'" in cl.out[0], 'transactions', got=cl.out)
        h.check('INVITE' in cl.out[0] if "'s1'" in cl.out[0] else True, 'method')
    elif what == 'q':
        do('q')
        h.check(cl.closed == 1 and not done, 'connection closed')
    elif what == 'unknown':
        x = h.str('x', 2, 2, alphabet='abdlrq')
        h.assume(not h.eq(x, 'lt'))
        do(x)
        h.check(cl.out == ['ERROR: unknown command\n'] and not done and not cl.closed, 'refused', got=cl.out)
    else:
        do(h.choose('bad', ['d', 'd a b', 'r', 'r x', 'r 1 2 3', 'r 1 x']))
        h.check(len(cl.out) == 1 and cl.out[0].startswith('ERROR: syntax') and not done, 'refused', got=cl.out)
