"""R01: commands to a media proxy over UDP."""
from symx.runner import scenario, quick
from symx import env
from symx.env import SENT, CLK, T0, DUMPS
from harness.sip import *

PROXY = ('10.0.0.9', 22222)
OTHER = ('10.0.0.66', 22222)
LIMIT = {'U': 3, 'V': 3, 'I': 10, 'G': 1}


def make_client(**kw):
    import sippy.Rtp_proxy.Client.udp as m
    m.Udp_server, m.Udp_server_opts = env.make_udp()
    from sippy.Rtp_proxy.client import Rtp_proxy_client
    return Rtp_proxy_client({'_sip_address': '10.0.0.1'}, spath='udp:%s:%d' % PROXY, **kw)


def recv(c, data, address=PROXY):
    """a datagram arrives at the client's socket, as the UDP server hands it over (an exception is reported and forgotten)"""
    from sippy.Time.MonoTime import MonoTime
    w = c.worker
    if w is None:
        return
    try:
        w.uopts.data_callback(data, address, w, MonoTime())
    except Exception as ex:
        DUMPS.append('received datagram: %s' % type(ex).__name__)


class Cmd(object):
    def __init__(self, w, text, k):
        self.w, self.text, self.k = w, text, k
        self.t0 = CLK.now
        self.results = []
        self.answered = False
        n = len(SENT)
        cb = {'plain': self.cb, 'none': None}[w.cbkind]
        self.data = self.cookie = ''
        w.c.send_command(text if w.form == 'text' else w.obj(text), cb, *(['par', k] if cb else []))
        self.given_up = False
        env.run_threadq()
        if w.shut is not None:
            w.h.check(len(SENT) == n, 'nothing is sent after shutdown')
            return
        w.h.check(len(SENT) == n + 1, 'a command is sent at once')
        self.data = SENT[-1][1]
        w.h.check(SENT[-1][2] == PROXY, 'sent to the proxy', to=SENT[-1][2])
        self.cookie, rest = self.data.split(' ', 1)
        w.h.check(rest == text, 'the command as given', sent=rest)
        w.h.check(all(self.cookie != o.cookie for o in w.cmds), 'a cookie of its own')

    def cb(self, result, *a, **kw):
        h = self.w.h
        h.check(list(a) == ['par', self.k], 'parameters of the callback', got=a)
        self.results.append((CLK.now, result))
        h.check(len(self.results) == 1, 'one answer', got=self.results, cmd=self.text)
        if self.answered:
            h.check(self.want is not None, 'answered')
            h.check(h.eq(result, self.want), 'the answer the proxy gave', got=result, want=self.want)
        else:
            h.check(result is None, 'a failure without an answer', got=result)
            lim = LIMIT.get(self.text[0], 3.0)
            if self.w.shut is None:
                self.given_up = True
                if self.w.fresh:
                    h.check(CLK.now <= self.t0 + lim, 'given up in time', after=CLK.now - self.t0)

    @property
    def over(self):
        return self.answered or bool(self.results) or self.w.shut is not None


class W(object):
    cbkind = 'plain'
    form = 'text'

    def __init__(self, h):
        self.h = h
        self.c = make_client(no_version_check=True)
        self.cmds = []
        self.shut = None
        self.fresh = True
        self.nsent = 0
        self.offline = []

    def obj(self, text):
        from sippy.Rtp_proxy.cmd import Rtp_proxy_cmd
        return Rtp_proxy_cmd(text)

    def send(self, text):
        self.cmds.append(Cmd(self, text, len(self.cmds)))
        self.nsent = len(SENT)

    def seen(self):
        """everything sent since is a copy of a command still open"""
        h = self.h
        for s in SENT[self.nsent:]:
            m = [c for c in self.cmds if c.cookie == s[1].split(' ', 1)[0]]
            h.check(len(m) == 1, 'only what was asked for is sent', got=s[1])
            c = m[0]
            h.check(s[1] == c.data and s[2] == PROXY, 'a retransmission is the same datagram to the same place', got=s[1:3], first=c.data)
            h.check(not c.answered, 'no retransmission after the answer', cmd=c.text)
            h.check(not c.results or s[3] < c.results[0][0], 'no retransmission after the outcome', cmd=c.text)
            h.check(self.shut is None, 'no retransmission after shutdown')
        self.nsent = len(SENT)

    def reply(self, i, text, address=PROXY):
        c = self.cmds[i]
        live = not c.over
        if live:
            c.answered = True
            c.want = text.strip()
            self.fresh = False
        recv(self.c, (c.cookie + ' ' + text).encode(), address)
        if live and self.cbkind != 'none':
            self.h.check(len(c.results) == 1, 'the answer is delivered', cmd=c.text)
        self.seen()

    def wait(self, lo, hi):
        env.run_until(CLK.now + self.h.time('wait', lo, hi))
        self.seen()

    def end(self, clean=True):
        h = self.h
        env.run_until(CLK.now + 12)
        self.seen()
        for c in self.cmds:
            if self.cbkind != 'none':
                h.check(len(c.results) == 1, 'every command is answered', cmd=c.text, results=c.results)
        h.check(self.c.pending_requests == {}, 'nothing is left pending')
        if clean:
            h.check(len(DUMPS) == 0, 'no internal exception', dumps=str(DUMPS)[:300])


TEXT = 'U c-0 1.2.3.4 5 f'


def junk(w, kind):
    """datagrams which answer nothing"""
    h = w.h
    if kind == 'foreign':
        recv(w.c, b'0123456789 1234')
    elif kind == 'empty':
        recv(w.c, b'')
    elif kind == 'space':
        recv(w.c, b' \n')
    elif kind == 'bare':
        recv(w.c, w.cmds[0].cookie.encode())
    elif kind == 'prefix':
        recv(w.c, (w.cmds[0].cookie[:-1] + ' 12').encode())
    elif kind == 'longer':
        recv(w.c, (w.cmds[0].cookie + '0 12').encode())
    elif kind == 'noascii':
        recv(w.c, b'\xff\xfe ' + w.cmds[0].cookie.encode())
    else:
        recv(w.c, h.bytes('junk', 3))
    w.seen()


@scenario('R01', reach=('late', 'intime', 'lost'),
          bounds='one command of each kind (3 s, 1 s and 10 s limits), text or object, with or without callback; its answer at any instant up to 12 s, '
                 'twice, or never; then silence')
def one(h):
    """one command"""
    w = W(h)
    cmd = h.choose('cmd', ['U c-0 1.2.3.4 5 f', 'V', 'Ib', 'G nsess'])
    w.form, w.cbkind = h.choose('form', [('text', 'plain'), ('obj', 'plain'), ('text', 'none')])
    w.send(cmd)
    env.run_until(CLK.now + h.time('wait', 1 / 64, 12))
    w.seen()
    if h.choose('answer', [True, False]):
        live = not w.cmds[0].over
        w.reply(0, '0 1\n')
        h.reach('intime' if live else 'late')
        w.reply(0, '7')
    else:
        h.reach('lost')
    w.end()


@scenario('R01', bounds='one command; a datagram which is no answer to it (foreign cookie, a cookie one character shorter or longer, the cookie alone, empty, blank, not ASCII, or any three '
                        'bytes) at any instant within 3 s; then the answer or silence')
def junks(h):
    """datagrams which answer nothing"""
    w = W(h)
    w.send(TEXT)
    w.wait(1 / 64, 3)
    junk(w, h.choose('kind', ['foreign', 'empty', 'space', 'bare', 'prefix', 'longer', 'noascii', 'any']))
    if h.choose('answer', [True, False]):
        env.run_until(CLK.now + 1 / 64)
        w.seen()
        w.reply(0, 'E8')
    w.end(clean=False)


@scenario('R01', bounds='the text of the answer: any one to three printable characters, blanks or line ends around them')
def texts(h):
    """what the answer says"""
    w = W(h)
    w.send(TEXT)
    env.run_until(CLK.now + 0.5)
    t = h.choose('lead', ['', ' ', '\t']) + h.str('t', 1, 3, alphabet='09E -&') + h.choose('tail', ['', '\n', ' \r\n'])
    h.assume(t.strip() != '')
    w.reply(0, t)
    w.end()


class Walk(object):
    def __init__(self, h, w, n, acts):
        for i in range(n):
            a = h.choose('act', acts)
            if i == n - 1 and a.startswith('wait'):
                h.assume(False)
            getattr(self, 'a_' + a.rstrip('0123456789'))(h, w, a)

    def a_send(self, h, w, a):
        if len(w.cmds) < 3:
            w.send(['U c-0 1.2.3.4 5 f', 'G nsess', 'D c-0 f t'][len(w.cmds)])
        else:
            h.assume(False)

    def a_reply(self, h, w, a):
        i = int(a[-1])
        h.assume(i < len(w.cmds))
        env.run_until(CLK.now + 1 / 64)
        w.seen()
        w.reply(i, '1%d' % i)

    def a_wait(self, h, w, a):
        w.wait(0, 3.5)

    def a_shut(self, h, w, a):
        h.assume(w.shut is None)
        w.c.shutdown()
        w.shut = CLK.now


@scenario('R01', bounds='up to 5 (thorough: 7) of: one of three commands is sent, the answer to the first or second arrives (again), symbolic wait up to 3.5 s, shutdown; then silence')
def orders(h):
    """several commands"""
    w = W(h)
    w.send('U c-0 1.2.3.4 5 f')
    Walk(h, w, 4 if quick() else 6, ['send', 'reply0', 'reply1', 'wait', 'shut'])
    w.end()
