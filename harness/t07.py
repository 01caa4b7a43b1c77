"""T07: hostile or broken datagrams."""
from symx.runner import scenario, quick
from symx import env
from symx.env import SENT, CLK, T0, DUMPS
from harness.sip import *

SRC = ('10.0.0.66', 5066)


class World(object):
    """a manager with one outstanding request and one pending INVITE"""

    def __init__(self, h):
        from sippy.SipRequest import SipRequest
        self.h = h
        self.tm, self.gc, self.app = tm_app('keep')
        self.cli = []
        r = SipRequest(request('OPTIONS', callid='own', via='SIP/2.0/UDP 10.0.0.1:5060;branch=z9hG4bKown'))
        r.setTarget((('10.0.0.2', 5060), 'udp'))
        self.tm.newTransaction(r, lambda resp: self.cli.append(resp))
        self.opt = SENT[0]
        self.inv = request('INVITE', callid='pend', via='SIP/2.0/UDP 10.0.0.2:5060;branch=z9hG4bKpend')
        env.deliver(self.tm, self.inv)
        self.n0 = len(SENT)
        self.timers0 = list(env.timers())
        self.entries0 = self.entries()

    def entries(self):
        from sippy.SipTransactionManager import SipTransaction
        n = 0
        for d in list(vars(self.tm).values()):
            if isinstance(d, dict):
                for v in list(d.values()):
                    if isinstance(v, SipTransaction):
                        n += 1
        return n

    def feed(self, data, src=SRC):
        """the datagram arrives at the server"""
        from sippy.Network_server import Remote_address
        from sippy.Time.MonoTime import MonoTime
        try:
            env.the_server(self.tm).handle_read(data, Remote_address(src, 'udp'), MonoTime())
        except Exception as e:
            self.h.fail('no exception escapes from the receiving server', exc=repr(e))

    def answers(self):
        return SENT[self.n0:]

    def verify(self):
        h = self.h
        accepted = len(self.app.reqs) - 1
        h.check(accepted in (0, 1), 'delivered at most once')
        h.check(len(self.cli) == 0, 'nobody is told of a stray response')
        ts = env.timers()
        if not accepted:
            h.check(len(ts) == len(self.timers0) and all(any(a is b for b in ts) for a in self.timers0),
                    'timers untouched by a message that was not accepted', n=len(ts))
            h.check(self.entries() == self.entries0, 'no entry for a message that was not accepted')
        else:
            h.check(all(any(a is b for b in ts) for a in self.timers0), 'timers of others untouched')
        # the ongoing transactions continue
        n = len(SENT)
        t = CLK.now
        env.run_until(T0 + 0.75)
        h.check([s[1] for s in SENT[n:] if s[1] == self.opt[1]] == [self.opt[1]], 'own request still retransmitted')
        env.deliver(self.tm, response_to(self.opt[1], 200))
        h.check(len(self.cli) == 1 and self.cli[0].getSCode()[0] == 200, 'own request still answered')
        n = len(SENT)
        self.tm.sendResponse(self.app.reqs[0].genResponse(486, 'Busy'))
        h.check(len(SENT) == n + 1 and SENT[-1][2] == ('10.0.0.2', 5060), 'pending INVITE still answered')
        env.deliver(self.tm, request('ACK', callid='pend', to=hval(SENT[-1][1], 'to')))


FIELDS = ['start', 'Via', 'From', 'To', 'Call-ID', 'CSeq', 'Contact', 'Expires', 'Content-Length', 'Max-Forwards',
          'Record-Route', 'Route', 'Content-Type']


def template(kind):
    if kind == 'resp':
        return response_to(request('OPTIONS', callid='zzz'), 200, body='v=0\r\n', extra=('Expires: 60', 'Max-Forwards: 70',
                           'Record-Route: <sip:10.0.0.5;lr>', 'Route: <sip:10.0.0.6;lr>'))
    return request(kind, callid='zzz', via='SIP/2.0/UDP 10.0.0.66:5066;rport;branch=z9hG4bKzzz', body='v=0\r\n',
                   extra=('Expires: 60', 'Record-Route: <sip:10.0.0.5;lr>', 'Route: <sip:10.0.0.6;lr>'))


def lines_of(text):
    head, body = text.split('\r\n\r\n', 1)
    return head.split('\r\n'), body


def field_index(lines, f):
    if f == 'start':
        return 0
    for i, l in enumerate(lines):
        if l.startswith(f + ':'):
            return i
    return None


def splice(val, how, hole):
    if how == 'all':
        return hole
    if how == 'front':
        return hole + val
    if how == 'back':
        return val + hole
    if how == 'mid':
        k = len(val) // 2
        return val[:k] + hole + val[k:]
    for d in (';', ':', '<', ' ', '@', '='):
        if how == d:
            k = val.find(d)
            if k < 0:
                return None
            return val[:k + 1] + hole + val[k + 2:]
    return None


@scenario('T07', reach=('rejected', 'accepted'),
          bounds='INVITE, BYE, CANCEL, ACK, and a response; each of 13 fields; the value replaced by, or 2 (thorough 3) arbitrary '
                 'printable characters, CR, LF or TAB put at its front, middle, end or after its first ; : < space @ =')
def holes(h):
    kind = h.choose('kind', ['INVITE', 'BYE', 'CANCEL', 'ACK', 'resp'])
    f = h.choose('field', FIELDS)
    lines, body = lines_of(template(kind))
    i = field_index(lines, f)
    if i is None:
        return
    how = h.choose('how', ['all', 'front', 'mid', 'back', ';', ':', '<', ' ', '@', '='])
    name, val = ('', lines[0]) if i == 0 else lines[i].split(': ', 1)
    alpha = ''.join(chr(c) for c in range(32, 127)) + '\r\n\t'
    n = h.choose('n', [0, 1, 2] if quick() else [0, 1, 2, 3]) if how == 'all' else (2 if quick() else 3)
    hole = h.str('hole', n, n, alphabet=alpha) if n else ''
    v = splice(val, how, hole)
    if v is None:
        return
    lines[i] = v if i == 0 else name + ': ' + v
    w = World(h)
    w.feed('\r\n'.join(lines) + '\r\n\r\n' + body)
    if len(w.app.reqs) == 1:
        h.reach('rejected')
    else:
        h.reach('accepted')
    w.verify()


@scenario('T07', reach=('bytes',),
          bounds='the same messages as bytes; 2 (thorough 3) arbitrary bytes 0..255 at the front, middle or end of each of 13 fields, '
                 'or in the body')
def octets(h):
    kind = h.choose('kind', ['INVITE', 'resp'] if quick() else ['INVITE', 'BYE', 'resp'])
    f = h.choose('field', FIELDS + ['body'])
    lines, body = lines_of(template(kind))
    alpha = ''.join(chr(c) for c in range(256))
    hole = h.bytes('hole', 2 if quick() else 3)
    how = h.choose('how', ['front', 'mid', 'back'])
    if f == 'body':
        pre, post = '\r\n'.join(lines) + '\r\n\r\n', body
        if how == 'back':
            pre, post = pre + body, ''
        elif how == 'mid':
            pre, post = pre + body[:2], body[2:]
    else:
        i = field_index(lines, f)
        if i is None:
            return
        k = {'front': 0, 'mid': len(lines[i]) // 2, 'back': len(lines[i])}[how]
        pre = '\r\n'.join(lines[:i] + [lines[i][:k]])
        post = '\r\n'.join([lines[i][k:]] + lines[i + 1:]) + '\r\n\r\n' + body
    w = World(h)
    w.feed(pre.encode() + hole + post.encode())
    h.reach('bytes')
    w.verify()


@scenario('T07', reach=('cut',), bounds='a request and a response cut after any prefix (symbolic length), from the start or the end')
def cut(h):
    kind = h.choose('kind', ['INVITE', 'resp'])
    text = template(kind)
    n = h.choose('n', list(range(0, len(text), 3 if quick() else 1)))
    side = h.choose('side', ['head', 'tail'])
    w = World(h)
    data = text[:n] if side == 'head' else text[n:]
    w.feed(data.encode() if h.choose('bytes', [False, True]) else data)
    h.reach('cut')
    w.verify()


@scenario('T07', reach=('dropped',),
          bounds='each header (or two headers) removed, doubled or moved first; INVITE, BYE, response')
def lines_(h):
    kind = h.choose('kind', ['INVITE', 'BYE', 'resp'])
    lines, body = lines_of(template(kind))
    for k in range(1 if quick() else 2):
        i = h.choose('i%d' % k, list(range(len(lines))))
        how = h.choose('how%d' % k, ['drop', 'double', 'first', 'fold', 'nocolon', 'empty'])
        if how == 'drop':
            del lines[i]
        elif how == 'double':
            lines.insert(i, lines[i])
        elif how == 'first':
            lines.insert(0, lines.pop(i))
        elif how == 'fold':
            lines[i] = ' ' + lines[i]
        elif how == 'nocolon':
            lines[i] = lines[i].replace(':', ' ')
        else:
            lines[i] = ''
    w = World(h)
    w.feed('\r\n'.join(lines) + '\r\n\r\n' + body)
    h.reach('dropped')
    w.verify()


@scenario('T07', reach=('400', 'taken', 'none'),
          bounds='body of 0..40 bytes, symbolic Content-Length 0..99999 (or negative), request and response')
def body_length(h):
    blen = h.choose('blen', [0, 1, 5, 20, 40])
    body = ('v=0\r\n' * 9)[:blen]
    cl = h.int('cl', -3, 99999)
    m = h.choose('method', ['INVITE', 'MESSAGE'])
    short = h.choose('header', ['Content-Length', 'l'])
    head = request(m, callid='zzz', via='SIP/2.0/UDP 10.0.0.66:5066;branch=z9hG4bKzzz')
    head = head.split('Content-Length')[0] + short + ': ' + str(cl) + '\r\n\r\n'
    w = World(h)
    w.feed(head + body)
    new = w.answers()
    if cl > blen + 6:
        h.reach('400')
        h.check(len(w.app.reqs) == 1, 'truncated request not delivered')
        h.check(len(new) == 1 and code_of(new[0][1]) == 400, 'refused with 400')
        h.check(hval(new[0][1], 'call-id') == 'zzz' and hval(new[0][1], 'cseq') == '1 ' + m, 'answer to that request')
        h.check(new[0][2] == SRC, 'sent to its source')
    elif cl >= 0 and cl <= blen:
        h.reach('taken')
        h.check(len(w.app.reqs) == 2, 'complete request delivered')
        b = w.app.reqs[1].getBody()
        h.check((str(b) if b is not None else '') == body[:cl], 'with exactly the declared body')
    else:
        h.reach('none')
        h.check(len(w.app.reqs) == 2 or len(new) == 1, 'delivered or refused')
    w.verify()


@scenario('T07', reach=('stray',),
          bounds='responses with symbolic code 0..9999 and 1-character symbolic Call-ID, tag and branch, from anywhere, as bytes or '
                 'text')
def stray(h):
    cid = h.str('cid', 1, 1, alphabet='ox')
    br = h.str('br', 1, 1, alphabet='ox')
    h.assume(h.neg(h.all(cid == 'o', br == 'o')))
    code = h.int('code', 0, 9999)
    w = World(h)
    text = response_to(request('OPTIONS', callid=cid + 'wn', via='SIP/2.0/UDP 10.0.0.1:5060;branch=z9hG4bK' + br + 'wn'), code)
    w.feed(text, ('10.0.0.' + h.str('s', 1, 1, alphabet='29'), 5060))
    h.reach('stray')
    h.check(len(w.answers()) == 0, 'nothing sent for a stray response')
    w.verify()


@scenario('T07', reach=('twice',),
          bounds='two hostile datagrams in a row, each one of 20 broken messages, 0..20 s apart and repeated')
def twice(h):
    bad = ['', 'x', 'INVITE', '\r\n' * 20, 'SIP/2.0 ' + 'x' * 40, 'SIP/2.0 abc def\r\nVia: x\r\n\r\n' + 'y' * 30,
           template('INVITE').replace('SIP/2.0\r\n', '\r\n', 1), template('INVITE').replace('CSeq: 1', 'CSeq: x'),
           template('INVITE').replace('Expires: 60', 'Expires: abc'), template('INVITE').replace('Expires: 60', 'Expires: 1e999'),
           template('INVITE').replace('From: <sip:alice@10.0.0.2>', 'From: <sip:alice@10.0.0.2'),
           template('INVITE').replace(':5066', ':port'), template('INVITE').replace('Content-Length: 5', 'Content-Length: 500'),
           template('BYE').replace('sip:bob', 'mailto:bob'), template('resp').replace('CSeq: 1 OPTIONS', 'CSeq: 1'),
           template('resp').replace(' 200 ', ' -1 '), template('resp').replace(' 200 ', ' 99999 '),
           'ACK ' + 'sip:a@b SIP/2.0\r\n' * 10, '\x00' * 64, b'\xff' * 64]
    w = World(h)
    b1, b2 = h.choose('b1', bad), h.choose('b2', bad[::3])
    w.feed(b1)
    n = len(SENT)
    w.feed(b1)
    h.check(len(SENT) - n <= 1, 'a copy is answered at most once')
    w.feed(b2)
    h.check(len(w.app.reqs) == 1, 'nothing delivered')
    h.reach('twice')
    w.verify()
