"""R07: commands to a media proxy over a stream socket."""
import socket as _socket
from errno import EINTR, EPIPE, ENOTCONN, ECONNRESET, ECONNREFUSED, ENOENT
from symx.runner import scenario, quick
from symx import env
from symx.env import SENT, CLK, T0, DUMPS
from harness.sip import *


class Net(object):
    """the proxy at the other end: what it does with each call is up to the harness"""

    def __init__(self, h, faults):
        self.h, self.faults = h, faults
        self.log = []            # commands which arrived, per connection
        self.conns = 0
        self.tries = {}

    def fault(self, where, kinds):
        if self.faults == 0:
            return None
        k = self.h.choose(where, [None] + kinds)
        if k is not None:
            self.faults -= 1
        return k


class Sock(object):
    net = None

    def __init__(self, family, kind):
        self.open = False
        self.buf = []

    def connect(self, address):
        n = self.net
        n.h.check(address == '/proxy', 'connected to the proxy')
        k = n.fault('connect', [ECONNREFUSED, ENOENT])
        if k is not None:
            raise _socket.error(k, 'connect')
        self.open = True
        n.conns += 1

    def send(self, data):
        n = self.net
        if not self.open:
            raise _socket.error(ENOTCONN, 'send')
        k = n.fault('send', [EINTR, EPIPE, ENOTCONN])
        if k is not None:
            if k != EINTR:
                self.open = False
            raise _socket.error(k, 'send')
        n.log.append(data)
        self.buf.append(data)
        return len(data)

    def sendall(self, data):
        self.send(data)

    rest = None

    def recv(self, size):
        n = self.net
        if not self.open:
            raise _socket.error(ENOTCONN, 'recv')
        if self.rest is not None:
            # the rest of an answer that came in parts
            k = n.fault('recv2', ['eof', EINTR, 'part'])
            data = self.rest
            if k == EINTR:
                raise _socket.error(k, 'recv')
            self.rest = None
            if k == 'eof':
                self.open = False
                return b''
            if k == 'part':
                self.rest = data[1:]
                return data[:1]
            return data
        n.h.check(len(self.buf) == 1, 'one command at a time on a connection')
        k = n.fault('recv', [EINTR, ECONNRESET, 'eof', 'empty', 'noascii', 'part', 'nl'])
        if k == EINTR:
            raise _socket.error(k, 'recv')
        data = self.buf.pop(0)
        if k == 'eof':
            self.open = False
            return b''
        if k == 'empty':
            return b'\n'
        if k in ('part', 'nl'):
            # the answer comes in two parts
            data = n.reply(data)
            i = 1 if k == 'part' else len(data) - 1
            self.rest = data[i:]
            return data[:i]
        if k == 'noascii':
            return b'\xff\xfe\n'
        if k is not None:
            self.open = False
            raise _socket.error(k, 'recv')
        return n.reply(data)


class Queue(list):
    def put(self, x):
        self.append(x)

    def get(self):
        return self.pop(0)


def client(h, net, kind='external'):
    import sippy.Rtp_proxy.Client.stream as m
    import sippy.Rtp_proxy.Client.Worker.external as we
    Sock.net = net

    class FakeSocket(object):
        SOCK_STREAM, AF_INET6, error = _socket.SOCK_STREAM, _socket.AF_INET6, _socket.error
        socket = Sock
    we.socket = FakeSocket

    class Worker(we.RTPPLWorker_external):
        def __init__(self, userv):
            self.userv = userv       # its thread is run by hand

    class Client(m.Rtp_proxy_client_stream):
        worker_class = Worker
    m.Queue = Queue
    return Client({'_sip_address': '10.0.0.1'}, '/proxy')


class Cmd(object):
    def __init__(self, h, c, k, text, form='text', raising=False):
        self.h, self.k, self.raising, self.got = h, k, raising, []
        if form == 'obj':
            from sippy.Rtp_proxy.cmd import Rtp_proxy_cmd
            text = Rtp_proxy_cmd(text)
        c.send_command(text, self.cb if form != 'nocb' else None, *(['p', k] if form != 'nocb' else []))

    def cb(self, result, *a, **kw):
        self.h.check(a == ('p', self.k), 'parameters of the callback', got=a)
        self.got.append((result, kw.get('ex')))
        self.h.check(len(self.got) == 1, 'one outcome', got=self.got)
        if self.raising:
            raise ValueError('callback')


TEXTS = ['V', 'D c-0 f t', 'Q c-1 f t']


@scenario('R07', reach=('repeated', 'failed', 'served'),
          bounds='two commands (text or object, the first with or without callback, or one whose callback raises), then shutdown; up to three (thorough: four) faults of the connection at any call: refused, '
                 'interrupted, broken on sending or receiving, closed, an empty answer, one that is not text or one that comes in two or three parts; answers with symbolic characters')
def faults(h):
    """faults of the connection"""
    n = Net(h, h.choose('nf', [0, 1, 2, 3] if quick() else [0, 1, 2, 3, 4]))
    d = h.str('d', 1, 1, alphabet=NUM + 'E ')
    n.reply = lambda data: ('0' + d + ' ' + data.decode().strip().replace(' ', '_') + '\n').encode()
    c = client(h, n)
    f1 = h.choose('form', ['text', 'obj', 'nocb', 'raise'])
    cmds = [Cmd(h, c, 0, TEXTS[1], 'text' if f1 == 'raise' else f1, f1 == 'raise'), Cmd(h, c, 1, TEXTS[2])]
    c.wi.put(None)
    w = c.workers[0]
    w.run()
    for i in range(6):
        try:
            if env.run_threadq() == 0:
                break
        except ValueError:
            pass
    h.check(list(c.wi) == [None], 'the shutdown goes on to the next worker')
    allowed = [TEXTS[1] + '\n', TEXTS[2] + '\n']
    for x in n.log:
        h.check(x.decode() in allowed, 'commands are sent whole, a line each', got=x)
    h.check(n.log == sorted(n.log, key=lambda x: allowed.index(x.decode())), 'in order')
    for i, x in enumerate(cmds):
        if i == 0 and f1 == 'nocb':
            continue
        h.check(len(x.got) == 1, 'every command has its outcome', cmd=TEXTS[i + 1])
        if not x.got:
            continue
        r = x.got[0][0]
        if r is not None:
            h.check(h.eq(r, ('0' + d + ' ' + TEXTS[i + 1].replace(' ', '_')).strip()), 'its own answer', got=r)
            h.check(x.got[0][1] is None, 'no error with an answer')
            h.reach('served')
        else:
            h.reach('failed')
    if len(n.log) > 2:
        h.reach('repeated')


@scenario('R07', bounds='a proxy that breaks the connection every time, on sending, on receiving, or refuses it')
def dead(h):
    """a proxy that never answers"""
    n = Net(h, 0)
    k = h.choose('k', [EPIPE, ECONNRESET, 'eof', ECONNREFUSED])
    n.fault = lambda where, kinds: k if where == {EPIPE: 'send', ECONNRESET: 'recv', 'eof': 'recv', ECONNREFUSED: 'connect'}[k] else None
    c = client(h, n)
    cmds = [Cmd(h, c, i, TEXTS[i]) for i in range(2)]
    c.wi.put(None)
    c.workers[0].run()
    env.run_threadq()
    for x in cmds:
        h.check(len(x.got) == 1 and x.got[0][0] is None, 'a failure each', got=x.got)
    h.check(len(n.log) <= 40, 'a bounded number of attempts', n=len(n.log))


@scenario('R07', bounds='two commands; the connection is lost once, on the first or second call of sending (broken pipe, not connected) or of receiving (reset, end of file)')
def lost(h):
    """one loss of the connection"""
    n = Net(h, 0)
    at, k = h.choose('k', [('send', EPIPE), ('send', ENOTCONN), ('recv', ECONNRESET), ('recv', 'eof')])
    left = [h.choose('n', [1, 2, 3])]

    def fault(where, kinds):
        if where != at:
            return None
        left[0] -= 1
        return k if left[0] == 0 else None
    n.fault = fault
    n.reply = lambda data: b'0 ' + data.strip() + b'\n'
    c = client(h, n)
    cmds = [Cmd(h, c, i, TEXTS[i]) for i in range(2)]
    c.wi.put(None)
    c.workers[0].run()
    env.run_threadq()
    for i, x in enumerate(cmds):
        h.check(len(x.got) == 1 and x.got[0][0] is not None, 'answered after the connection was set up again', got=x.got)
