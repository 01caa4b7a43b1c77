"""A media session (the real one, with its command sequencer) on a double of the media proxy client."""
from symx import env
from symx.env import SENT, CLK, T0, DUMPS
from harness.sip import *

PADDR = '10.0.0.9'


class Client(object):
    """the media proxy as its client presents it: commands go in, the harness decides about their answers"""
    online = True
    is_local = False
    sbind_supported = False
    tnot_supported = False
    notify_socket = None
    proxy_address = PADDR

    def __getattr__(self, name):
        # whatever else a client has, with its default value
        from sippy.Rtp_proxy.client import Rtp_proxy_client
        return getattr(Rtp_proxy_client, name)

    def __init__(self, h):
        self.h = h
        self.sent = []         # every command
        self.pend = []         # those without an answer

    def send_command(self, command, cb=None, *par):
        self.sent.append(command)
        self.pend.append((command, cb, par))

    def answer(self, text):
        command, cb, par = self.pend.pop(0)
        if cb is not None:
            cb(text, *par)
        env.run_threadq()
        return command


def session(h, cls=None, notify_tag=None, client=None, call_id='CID', **kw):
    from sippy.Rtp_proxy.session import Rtp_proxy_session
    c = client or Client(h)
    for k in kw:
        setattr(c, k, kw[k])
    s = (cls or Rtp_proxy_session)({'_rtp_proxy_clients': [c]}, call_id=call_id, from_tag='FT', to_tag='TT', notify_tag=notify_tag)
    return s, c


class Sect(object):
    """one media section of a body"""

    def __init__(self, m='audio', port='4000', tr='RTP/AVP', fmt='0 8', c=None, a=()):
        self.m, self.port, self.tr, self.fmt, self.c, self.a = m, port, tr, fmt, c, list(a)

    def text(self):
        t = 'm=' + self.m + ' ' + self.port + ' ' + self.tr + ' ' + self.fmt + '\r\n'
        if self.c:
            t += 'c=' + self.c + '\r\n'
        for a in self.a:
            t += 'a=' + a + '\r\n'
        return t


HEAD = 'v=0\r\no=%s IN IP4 10.0.0.2\r\ns=-\r\n'


def body(sects, o='- 77 1', c='IN IP4 10.0.0.2', a=(), mtype=None):
    from sippy.MsgBody import MsgBody
    t = HEAD % o
    if c:
        t += 'c=' + c + '\r\n'
    t += 't=0 0\r\n'
    for x in a:
        t += 'a=' + x + '\r\n'
    for s in sects:
        t += s.text()
    return MsgBody(t)


def read(text):
    """(session lines without c=, [section lines with the c= that holds there])"""
    sess, sects, c = [], [], None
    cur = sess
    for ln in text.split('\r\n')[:-1]:
        if ln[:2] == 'm=':
            cur = []
            sects.append(cur)
        if cur is sess and ln[:2] == 'c=':
            c = ln
        else:
            cur.append(ln)
    for s in sects:
        if c is not None and not any(ln[:2] == 'c=' for ln in s):
            s.insert(1, c)
    return sess, sects


class Out(object):
    """where the outcome of a body goes"""

    def __init__(self, h):
        self.h = h
        self.got = []

    def __call__(self, body, ex=None):
        self.got.append((body, ex))
        self.h.check(len(self.got) == 1, 'delivered once', got=[(b is not None, type(e).__name__) for b, e in self.got])

    @property
    def done(self):
        return len(self.got) > 0

    def failed(self):
        return len(self.got) == 1 and self.got[0][0] is None and self.got[0][1] is not None
