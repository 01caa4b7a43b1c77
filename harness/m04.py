"""M04: whole messages."""
from symx.runner import scenario, quick
from symx import env
from harness.sip import *

AL = ''.join(chr(i) for i in range(33, 127) if chr(i).isalnum())
PRINT = ''.join(chr(i) for i in range(33, 127))
TOK = AL + "-.!%*_+`'~"
LOCAL = (('10.1.1.1', 5060), 'udp')
# name as written -> name of the header it is
KNOWN = [('Subject', 'subject'), ('SUPPORTED', 'supported'), ('k', 'supported'), ('User-Agent', 'user-agent'),
         ('x-CAPS-Name', 'x-caps-name'), ('EXPIRES', 'expires')]


def names(h, which):
    """the mandatory headers in one of several spellings"""
    t = [('Via', 'v', 'vIA'), ('From', 'f', 'FROM'), ('To', 't', 'to'), ('Call-ID', 'i', 'CALL-id'), ('CSeq', 'CSEQ', 'cseq')]
    return [x[which] for x in t]


def lines(msg):
    """what the message says: (header name, its text)"""
    return [(x.name, str(x.body).strip()) for x in msg.headers]


def start(h, kind):
    """start line and a check of what was understood"""
    if kind == 'req':
        m = h.str('method', 1, 2, alphabet=TOK)
        u = 'sip:' + h.str('u', 1, 1, alphabet=AL) + '@10.0.0.1'
        return m + ' ' + u + ' SIP/2.0', ('req', m, u)
    code = h.int('code', 100, 699)
    if kind == 'bare':
        return 'SIP/2.0 ' + str(code) + h.choose('sp', ['', ' ']), ('res', code, 'Unspecified')
    r = h.str('r1', 1, 1, alphabet=PRINT) + h.choose('mid', ['', ' ', '  x:']) + h.str('r2', 1, 1, alphabet=PRINT)
    return 'SIP/2.0 ' + str(code) + ' ' + r, ('res', code, r)


def parse(kind, text):
    from sippy.SipRequest import SipRequest
    from sippy.SipResponse import SipResponse
    return SipRequest(text) if kind == 'req' else SipResponse(text)


def same_start(h, msg, w, what):
    if w[0] == 'req':
        h.check(h.eq(msg.method, w[1]), what + ': method')
        h.check(h.eq(str(msg.ruri), w[2]), what + ': request URI')
    else:
        h.check(h.eq(msg.scode, w[1]), what + ': code')
        h.check(h.eq(msg.reason, w[2]), what + ': reason', got=msg.reason, want=w[2])
    h.check(h.eq(msg.sipver, 'SIP/2.0'), what + ': version')


def same_headers(h, msg, want, what):
    got = lines(msg)
    h.check(len(got) == len(want), what + ': number of headers', got=got, want=want)
    for g, w in zip(got, want):
        h.check(h.eq(g[0], w[0]), what + ': header name in order', got=g, want=w)
        h.check(h.eq(g[1], w[1]), what + ': header value in order', got=g, want=w)


def same_body(h, msg, want, what):
    if want is None:
        h.check(msg.body is None, what + ': no body', got=str(msg.body))
        return
    h.check(msg.body is not None, what + ': body present')
    h.check(h.eq(str(msg.body), want), what + ': body', got=str(msg.body), want=want)


def again(h, kind, msg, sl, want, body, ctype):
    """formatted and parsed once more"""
    how = h.choose('out', ['str', 'local', 'compact'])
    t = str(msg) if how == 'str' else msg.localStr(LOCAL, how == 'compact')
    head, rest = t.split('\r\n\r\n', 1)
    cl = [x.split(':', 1)[1].strip() for x in head.split('\r\n') if x.split(':', 1)[0].lower() in ('content-length', 'l')]
    ct = [x.split(':', 1)[1].strip() for x in head.split('\r\n') if x.split(':', 1)[0].lower() in ('content-type', 'c')]
    h.check(len(cl) == 1, 'one Content-Length', t=t)
    h.check(h.eq(cl[0], str(len(rest.encode()))), 'Content-Length is the number of bytes on the wire', t=t)
    if body is None:
        h.check(h.eq(rest, ''), 'nothing after the header of a message without a body')
    else:
        h.check(len(ct) == 1, 'one Content-Type')
        h.check(h.eq(ct[0], ctype), 'Content-Type kept', got=ct[0], want=ctype)
    m2 = parse(kind, t)
    same_start(h, m2, sl, 'reparsed')
    same_headers(h, m2, want, 'reparsed')
    same_body(h, m2, body, 'reparsed')


@scenario('M04', reach=('req', 'res', 'bare'),
          bounds='requests and responses with symbolic method / user / code / reason; three spellings of the mandatory header names; 0..2 '
                 'further headers, of known, compact, unknown (symbolic) name, at either end of the header, folded or with surrounding '
                 'white space; CRLF, LF or CR line ends')
def headers(h):
    """every header in order"""
    foc = h.choose('focus', ['start', 'spell', 'extra'])
    kind = h.choose('kind', ['req', 'res', 'bare'] if foc == 'start' else ['req', 'res'])
    if foc == 'start':
        sl, w = start(h, kind)
    elif kind == 'req':
        sl, w = 'X sip:u@10.0.0.1 SIP/2.0', ('req', 'X', 'sip:u@10.0.0.1')
    else:
        sl, w = 'SIP/2.0 183 A b', ('res', 183, 'A b')
    h.reach(kind)
    nm = names(h, h.choose('spell', [0, 1, 2]) if foc == 'spell' else 0)
    vals = ['SIP/2.0/UDP 10.0.0.2;branch=z9hG4bKa', '<sip:a@h>;tag=1', '<sip:b@h>', 'c' + h.str('cid', 1, 1, alphabet=PRINT), '1 X']
    can = ['via', 'from', 'to', 'call-id', 'cseq']
    hd = [(n, c, v, v) for n, c, v in zip(nm, can, vals)]
    if foc == 'extra':
        k = h.choose('k', ['known', 'unknown', 'two', 'csv', 'fold', 'ws'])
        v = 'v' + h.str('v', 1, 2, alphabet=PRINT + ' ') + '.'
        if k == 'known':
            n, c = h.choose('kn', KNOWN)
            ex = [(n, c, v, v)]
        elif k == 'unknown':
            n = 'X' + h.str('n', 1, 2, alphabet=TOK)
            ex = [(n, n.lower(), v, v)]
        elif k == 'two':
            ex = [('X-A', 'x-a', v, v), ('x-a', 'x-a', '', ''), ('X-A', 'x-a', 'w: ' + v, 'w: ' + v)]
        elif k == 'csv':
            n = h.choose('csvn', [('Route', 'route'), ('Record-Route', 'record-route'), ('Contact', 'contact'), ('m', 'contact'),
                                  ('Via', 'via')])
            if n[1] == 'via':
                one, two = 'SIP/2.0/UDP h;branch=z', 'SIP/2.0/UDP ' + h.str('hh', 1, 1, alphabet=AL)
            else:
                one, two = '<sip:' + h.str('r1', 1, 1, alphabet=AL) + '@h;lr>', '"x,y" <sip:r@h>;a=b'
            ex = [(n[0], n[1], one + h.choose('comma', [',', ', ', ' , ']) + two, None)]
            exw = [(n[1], one), (n[1], two)]
        elif k == 'fold':
            f = h.choose('fold', ['\r\n ', '\r\n\t', '\r\n  \t '])
            n, c = h.choose('fn', [('X-F', 'x-f'), ('Subject', 'subject')])
            ex = [(n, c, v + f + 'w' + f + 'x y', v + ' w x y')]
        else:
            n, c = h.choose('wn', [('X-W', 'x-w'), ('Subject', 'subject')])
            ex = [(n + h.choose('b', ['', ' ', '\t']), c, h.choose('a', ['', '  ', '\t']) + v + h.choose('e', ['', ' ']), v)]
        at = h.choose('at', [0, 5])
        hd = hd[:at] + ex + hd[at:]
    eol = h.choose('eol', ['\r\n', '\n', '\r'])
    text = sl + '\r\n' + ''.join([n + ':' + ('' if foc == 'extra' and x[0:1] in (' ', '\t') else ' ') + x + '\r\n' for n, c, x, y in hd]) + '\r\n'
    text = text.replace('\r\n', eol)
    want = []
    for n, c, x, y in hd:
        if y is None:
            want += exw
        else:
            want.append((c, y))
    msg = parse(kind, text)
    same_start(h, msg, w, 'parsed')
    same_headers(h, msg, want, 'parsed')
    same_body(h, msg, None, 'parsed')
    again(h, kind, msg, w, want, None, None)


def message(kind, eol, ctype, clen, body):
    s = 'X sip:u@10.0.0.1 SIP/2.0\r\n' if kind == 'req' else 'SIP/2.0 200 OK\r\n'
    s += 'Via: SIP/2.0/UDP 10.0.0.2;branch=z9hG4bKa\r\nFrom: <sip:a@h>;tag=1\r\nTo: <sip:b@h>\r\nCall-ID: c\r\nCSeq: 1 X\r\n'
    if ctype is not None:
        s += ctype + '\r\n'
    if clen is not None:
        s += clen + '\r\n'
    return (s + '\r\n').replace('\r\n', eol) + body


MAND = [('via', 'SIP/2.0/UDP 10.0.0.2;branch=z9hG4bKa'), ('from', '<sip:a@h>;tag=1'), ('to', '<sip:b@h>'), ('call-id', 'c'), ('cseq', '1 X')]


def some_body(h):
    """a body of 1.. characters"""
    k = h.choose('body', ['text', 'wide', 'lines', 'blank'])
    if k == 'text':
        return h.str('bt', 1, 4, alphabet=PRINT + ' \t')
    if k == 'wide':
        return h.str('bw', 1, 3, alphabet='a\x7f\x85\xe9\u07ff\u0800\u2028\uffee')
    if k == 'lines':
        return 'a=' + h.str('bl', 1, 3, alphabet='\r\n \t=x') + 'b'
    return h.str('bb', 1, 4, alphabet='\r\n \x0b')


@scenario('M04', reach=('exact', 'long', 'none', 'zero', 'short'),
          bounds='bodies of 1..4 symbolic characters (printable, 1..3 byte characters, line ends, white space only), Content-Length '
                 'exact, smaller, zero, absent or larger, Content-Type absent or in three spellings, CRLF, LF or CR header line ends')
def body(h):
    """the body is what the length announces"""
    b = some_body(h)
    n = len(b.encode())
    kind = h.choose('kind', ['req', 'res'])
    ln = h.choose('len', ['exact', 'long', 'none', 'zero', 'short', 'neg'])
    ct, ctv = h.choose('ct', [(None, 'application/sdp'), ('Content-Type: text/plain', 'text/plain'), ('c: text/x;a=b', 'text/x;a=b'),
                              ('CONTENT-TYPE:application/Pidf+xml', 'application/Pidf+xml')])
    eol = h.choose('eol', ['\r\n', '\n', '\r']) if ln == 'exact' else '\r\n'
    if eol != '\r\n' and ct is not None and ct[0] != 'c':
        return
    lname = h.choose('ln', ['Content-Length: ', 'l:']) if ln == 'exact' and ct is None else 'Content-Length: '
    want = b
    if ln == 'exact':
        clen = lname + str(n)
    elif ln == 'long':           # more bytes than announced
        k = h.int('k', 1, 16)
        h.assume(k <= n)
        k = int(str(k))
        clen = lname + str(k)
        enc = b.encode()
        try:
            want = enc[:k].decode()
        except UnicodeDecodeError:
            return
    elif ln == 'none':
        clen = None
    elif ln == 'zero':
        clen, want = lname + '0', None
    elif ln == 'neg':
        clen = lname + '-' + str(h.int('neg', 1, 5))
    else:
        more = h.int('more', 1, 9)
        clen = lname + str(n + more)
    text = message(kind, eol, ct, clen, b)
    if ln in ('short', 'neg'):
        try:
            m = parse(kind, text)
        except Exception:
            m = None
        if ln == 'short':
            h.reach('short')
        if ln == 'neg' or not b.endswith('\n'):
            h.check(m is None, 'a body that is not as long as announced is refused', got=str(m))
        return
    h.reach(ln)
    msg = parse(kind, text)
    w = ('req', 'X', 'sip:u@10.0.0.1') if kind == 'req' else ('res', 200, 'OK')
    same_headers(h, msg, MAND, 'parsed')
    same_body(h, msg, want, 'parsed')
    if msg.body is not None:
        h.check(h.eq(msg.body.mtype.name if msg.body.mtype.parsed else msg.body.mtype.body.split(';')[0], ctv.split(';')[0]), 'type of the body')
    again(h, kind, msg, w, MAND, want, ctv)


@scenario('M04', reach=('made',),
          bounds='requests and responses made from parts with a text, SDP (parsed and changed, with 1..3 byte characters) or no body, '
                 'set at creation or later, removed again')
def made(h):
    """messages made by the application"""
    from sippy.SipRequest import SipRequest
    from sippy.SipURL import SipURL
    from sippy.SipVia import SipVia
    from sippy.SipFrom import SipFrom
    from sippy.SipTo import SipTo
    from sippy.SipAddress import SipAddress
    from sippy.SipCallId import SipCallId
    from sippy.SipContentType import SipContentType
    from sippy.MsgBody import MsgBody
    k = h.choose('k', ['none', 'text', 'sdp', 'sdpraw'])
    b = None
    x = h.str('x', 1, 2, alphabet='a\x7f\xe9\u0800')
    ct = 'application/sdp'
    if k == 'text':
        ctp = SipContentType('text/plain;charset=utf-8')
        if h.choose('ctparsed', [False, True]):
            ctp.parse()
        b = MsgBody('t' + x, ctp)
        ct = 'text/plain;charset=utf-8'
    elif k != 'none':
        b = MsgBody('v=0\r\no=- 1 2 IN IP4 1.1.1.1\r\ns=' + x + '\r\nt=0 0\r\nm=audio 4 RTP/AVP 0\r\nc=IN IP4 1.1.1.1\r\na=x\r\n')
        if k == 'sdp':
            b.parse()
            b.content.sections[0].c_header.addr = '10.0.0.' + str(h.int('oct', 1, 200))
            b.content += 'a=' + x
    when = h.choose('when', ['init', 'set', 'copy'])
    r = SipRequest(method='INFO', ruri=SipURL('sip:b@10.0.0.9'), fr0m=SipFrom(address=SipAddress(url=SipURL('sip:a@h'))),
                   via=SipVia('SIP/2.0/UDP h;branch=z9hG4bKx'), to=None, cseq=1, callid=SipCallId(body='c'), body=b if when == 'init' else None)
    if when == 'set':
        r.setBody(b)
    if when == 'copy':
        r.setBody(None if b is None else b.getCopy())
    if h.choose('resp', [False, True]):
        r = r.genResponse(200, 'OK', body=r.getBody())
        kind = 'res'
    else:
        kind = 'req'
    body = None
    if b is not None:
        body = b.localStr(LOCAL)
    h.reach('made')
    w = ('req', 'INFO', 'sip:b@10.0.0.9') if kind == 'req' else ('res', 200, 'OK')
    again(h, kind, r, w, lines(r), body, ct)
