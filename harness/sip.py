"""Shared helpers of the harnesses: message texts, application doubles."""
from symx import env
from symx.env import SENT, DUMPS, CLK, T0

TOKEN = 'abcXYZ019-.!%*_+`\'~'
SAFE = 'abzAZ019-._'
NUM = '0123456789'


def request(method, ruri='sip:bob@10.0.0.1:5060', via='SIP/2.0/UDP 10.0.0.2:5060;branch=z9hG4bKaaa',
            frm='<sip:alice@10.0.0.2>;tag=ft1', to='<sip:bob@10.0.0.1>', callid='cid1', cseq='1',
            cmethod=None, contact='<sip:alice@10.0.0.2:5060>', extra=(), body=None, maxfwd='70'):
    vias = via if isinstance(via, (list, tuple)) else [via]
    s = method + ' ' + ruri + ' SIP/2.0\r\n'
    for v in vias:
        s += 'Via: ' + v + '\r\n'
    if maxfwd is not None:
        s += 'Max-Forwards: ' + maxfwd + '\r\n'
    s += 'From: ' + frm + '\r\n'
    s += 'To: ' + to + '\r\n'
    s += 'Call-ID: ' + callid + '\r\n'
    s += 'CSeq: ' + cseq + ' ' + (cmethod if cmethod is not None else method) + '\r\n'
    if contact is not None:
        s += 'Contact: ' + contact + '\r\n'
    for e in extra:
        s += e + '\r\n'
    if body is not None:
        s += 'Content-Type: application/sdp\r\n'
        s += 'Content-Length: ' + str(len(body)) + '\r\n\r\n' + body
    else:
        s += 'Content-Length: 0\r\n\r\n'
    return s


def hdrs(data):
    """(start line, [(lower name, value)...], body) of a formatted message"""
    head, body = data.split('\r\n\r\n', 1)
    lines = head.split('\r\n')
    out = []
    for ln in lines[1:]:
        n, v = ln.split(':', 1)
        out.append((n.strip().lower(), v.strip()))
    return lines[0], out, body


def hval(data, name):
    for n, v in hdrs(data)[1]:
        if n == name:
            return v
    return None


def hvals(data, name):
    return [v for n, v in hdrs(data)[1] if n == name]


def method_of(data):
    """request method or None for responses"""
    w = data.split(' ', 1)[0]
    if w == 'SIP/2.0':
        return None
    return w


def code_of(data):
    if data.startswith('SIP/2.0 '):
        return int(data.split(' ', 2)[1])
    return None


def response_to(reqdata, code, reason='X', totag='rt1', contact='<sip:bob@10.0.0.3:5070>', extra=(), body=None,
                ctype='application/sdp'):
    """a peer's response to a request we sent (as text)"""
    s = 'SIP/2.0 ' + str(code) + ' ' + reason + '\r\n'
    for n, v in hdrs(reqdata)[1]:
        if n == 'via':
            s += 'Via: ' + v + '\r\n'
    s += 'From: ' + hval(reqdata, 'from') + '\r\n'
    to = hval(reqdata, 'to')
    if totag is not None and ';tag=' not in to:
        to = to + ';tag=' + totag
    s += 'To: ' + to + '\r\n'
    s += 'Call-ID: ' + hval(reqdata, 'call-id') + '\r\n'
    s += 'CSeq: ' + hval(reqdata, 'cseq') + '\r\n'
    if contact is not None:
        s += 'Contact: ' + contact + '\r\n'
    for e in extra:
        s += e + '\r\n'
    if body is not None:
        s += 'Content-Type: ' + ctype + '\r\n'
        s += 'Content-Length: ' + str(len(body)) + '\r\n\r\n' + body
    else:
        s += 'Content-Length: 0\r\n\r\n'
    return s


class App(object):
    """application double for the transaction manager"""

    def __init__(self, mode='keep'):
        self.mode = mode
        self.reqs = []
        self.cancels = []
        self.noacks = []
        self.acks = []
        self.code = 200
        self.tm = None

    def recvRequest(self, req, sip_t=None):
        n = len(self.reqs)
        self.reqs.append(req)
        if self.mode == 'reply':
            return (req.genResponse(self.code, 'OK'), self.cancel, self.noack)
        if self.mode == 'sync':
            self.tm.sendResponse(req.genResponse(self.code, 'OK'))
            return None
        if self.mode == 'none':
            return None
        return (None, self.cancel, self.noack)

    def cancel(self, rtime, req):
        self.cancels.append((CLK.now, req))

    def noack(self, *a):
        self.noacks.append(CLK.now)

    def ack(self, req):
        self.acks.append((CLK.now, req))


def tm_app(mode='keep', **attrs):
    app = App(mode)
    tm, gc = env.make_tm(app.recvRequest, **attrs)
    app.tm = tm
    return tm, gc, app


def sent_since(n):
    return SENT[n:]
