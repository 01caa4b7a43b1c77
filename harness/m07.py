"""M07: multipart bodies."""
from symx.runner import scenario, quick
from symx import env
from harness.sip import *

AL = ''.join(chr(i) for i in range(33, 127) if chr(i).isalnum())
LOCAL = (('10.1.1.1', 5060), 'udp')
HEADS = [
    (),
    (('Content-Type', 'text/plain'),),
    (('Content-ID', '<1@x>'), ('Content-Type', 'application/x+xml;a=b'), ('Content-Disposition', 'by-reference;handling=optional')),
    (('Content-Disposition', 'session'),),
]


class Part(object):
    def __init__(self, heads, content):
        self.heads = list(heads)
        self.content = content

    def text(self, fold=False):
        t = ''
        for n, v in self.heads:
            t += n + ': ' + (v.replace(';', ';\r\n ') if fold else v) + '\r\n'
        return t + '\r\n' + self.content

    def ctype(self):
        for n, v in self.heads:
            if n == 'Content-Type':
                return v
        return 'text/plain'

    def rest(self):
        return [(n.lower(), v.replace('; ', ';')) for n, v in self.heads if n != 'Content-Type']


def lined(s):
    return s if s.endswith('\r\n') else s + '\r\n'


def message(ctv, body):
    s = 'X sip:u@10.0.0.1 SIP/2.0\r\nVia: SIP/2.0/UDP 10.0.0.2;branch=z9hG4bKa\r\nFrom: <sip:a@h>;tag=1\r\nTo: <sip:b@h>\r\nCall-ID: c\r\n'
    s += 'CSeq: 1 X\r\nContent-Type: ' + ctv + '\r\nContent-Length: ' + str(len(body.encode())) + '\r\n\r\n'
    return s + body


def parsed(h, text):
    from sippy.SipRequest import SipRequest
    m = SipRequest(text)
    b = m.getBody()
    h.check(b is not None, 'body present')
    b.parse()
    return m, b


def probe(h, mp, want, what):
    h.check(len(mp.parts) == len(want), what + ': number of parts', got=len(mp.parts))
    for i, (g, w) in enumerate(zip(mp.parts, want)):
        h.check(h.eq(lined(str(g)), lined(w.content)), what + ': content of a part', got=str(g), want=w.content)
        h.check(h.eq(str(g.mtype), w.ctype()), what + ': type of a part', got=str(g.mtype))
        hs = [(x.name, str(x.body).replace('; ', ';')) for x in (mp.part_headers[i] if i < len(mp.part_headers) else [])]
        h.check(h.eq(hs, w.rest()), what + ': headers of a part', got=hs, want=w.rest())


def again(h, m, b, want, kinds=('str', 'local', 'copy', 'msgcopy')):
    """formatted (perhaps after a copy) and parsed again"""
    k = h.choose('out', kinds)
    if k == 'copy':
        m.setBody(b.getCopy())
    t = m.localStr(LOCAL) if k == 'local' else str(m)
    m2, b2 = parsed(h, t)
    probe(h, b2.content, want, 'reparsed')


def no_boundary_line(h, s, b):
    """the text has no line which is the boundary"""
    for ln in s.split('\n'):
        x = ln.rstrip()
        h.assume(h.neg(h.eq(x, '--' + b)))
        h.assume(h.neg(h.eq(x, '--' + b + '--')))


@scenario('M07', reach=('token', 'quoted', 'content', 'heads'),
          bounds='boundaries of 1..2 symbolic characters, plain or quoted, parameter name in two spellings and positions; 1..3 parts; one '
                 'part with 0..4 symbolic characters of -, boundary letter, CR, LF, space around a fixed text; part headers absent, in '
                 'three sets, folded; preamble, epilogue, white space after the boundary')
def split(h):
    """every part, and nothing but the parts"""
    foc = h.choose('focus', ['boundary', 'content', 'heads'])
    bnd, ctv = 'b', 'multipart/mixed;boundary=b'
    if foc == 'boundary':
        q = h.choose('q', ['token', 'quoted'])
        if q == 'token':
            bnd = h.str('bnd', 1, 2, alphabet=AL + "-.+_'")
            ctv = 'multipart/mixed;' + h.choose('pn', ['boundary', 'Boundary', 'x=y;BOUNDARY']) + '=' + bnd
        else:
            bnd = h.str('bnd', 1, 1, alphabet=AL + "'()+_,-./:=? ") + h.str('bnd2', 1, 1, alphabet=AL + "'()+_,-./:=?")
            ctv = h.choose('mt', ['multipart/mixed', 'Multipart/Mixed']) + '; boundary="' + bnd + '"'
        h.reach(q)
        n = h.choose('n', [1, 2])
        parts = [Part(HEADS[1], 'one--b\r\n'), Part(HEADS[2], '--\r\nx\r\n-- b\r\n')][:n]
        for p in parts:
            no_boundary_line(h, p.text(), bnd)
    elif foc == 'content':
        n = h.choose('n', [1, 2, 3])
        at = h.choose('at', [0, n - 1]) if n > 1 else 0
        k = h.choose('ck', ['free', 'mid', 'prefix', 'inner'])
        if k == 'free':
            c = h.str('c', 0, 4, alphabet='-b\r\n x')
        elif k == 'mid':
            c = h.str('c', 1, 2, alphabet=' x\r-') + '--b' + h.str('d', 0, 2, alphabet='-\r\n')
        elif k == 'prefix':
            c = '--b' + h.str('d', 1, 3, alphabet='-bx \r\n')
        else:
            c = '\r\n\r\nA: b' + h.str('d', 0, 1, alphabet='\r\n') + '\r\n\r\nx'
        no_boundary_line(h, c, bnd)
        parts = [Part(HEADS[1 + i], 'p%d\r\n' % i) for i in range(n)]
        parts[at].content = c + '\r\n'
        h.reach('content')
    else:
        n = h.choose('n', [1, 2, 3])
        hs = h.choose('hs', list(range(len(HEADS))))
        parts = [Part(HEADS[(hs + i) % len(HEADS)], 'p' + h.str('x%d' % i, 1, 1, alphabet=AL)) for i in range(n)]
        h.reach('heads')
    fold = foc == 'heads' and h.choose('fold', [False, True])
    pre = h.choose('pre', ['', 'ignored --b\r\n']) if foc == 'heads' else ''
    post = h.choose('post', ['', '\r\n', ' \r\nignored']) if foc == 'heads' else '\r\n'
    ws = h.choose('ws', ['', ' \t']) if foc == 'heads' else ''
    body = pre
    for p in parts:
        body += '--' + bnd + ws + '\r\n' + p.text(fold) + ('' if p.content.endswith('\r\n') else '\r\n')
    body += '--' + bnd + '--' + post
    m, b = parsed(h, message(ctv, body))
    probe(h, b.content, parts, 'parsed')
    h.check(h.eq(b.content.boundary, bnd), 'boundary')
    again(h, m, b, parts)


@scenario('M07', reach=('edited',),
          bounds='1..3 parts; one replaced by text (with or without final line end) or SDP, or one appended, inserted or removed; new '
                 'boundary; the original or its copy edited')
def edited(h):
    """an edit changes nothing but what was edited"""
    from sippy.MsgBody import MsgBody
    from sippy.SipContentType import SipContentType
    n = h.choose('n', [1, 2, 3])
    parts = [Part(HEADS[1 + i], 'p%d' % i + h.str('x%d' % i, 1, 1, alphabet=AL) + '\r\n') for i in range(n)]
    body = ''
    for p in parts:
        body += '--b\r\n' + p.text()
    m, b = parsed(h, message('multipart/mixed;boundary=b', body + '--b--\r\n'))
    side = h.choose('side', ['orig', 'copy'])
    before = [Part(p.heads, p.content) for p in parts]
    other = None
    if side == 'copy':
        other = b
        b = b.getCopy()
        m.setBody(b)
    mp = b.content
    k = h.choose('k', ['replace', 'sdp', 'append', 'insert', 'remove', 'header', 'boundary'])
    at = h.choose('at', list(range(n)))
    ct = SipContentType('text/x')
    v = 'new' + h.str('v', 0, 2, alphabet='a\r\n-')
    no_boundary_line(h, v, 'b')
    if k == 'replace':
        mp.parts[at] = MsgBody(v, ct)
        parts[at] = Part([(a, c) for a, c in parts[at].heads if a != 'Content-Type'] + [('Content-Type', 'text/x')], v)
    elif k == 'sdp':
        sdp = 'v=0\r\no=- 1 2 IN IP4 1.1.1.1\r\ns=-\r\nc=IN IP4 1.1.1.1\r\nt=0 0\r\nm=audio 4 RTP/AVP 0\r\n'
        x = MsgBody(sdp)
        x.parse()
        x.content.sections[0].m_header.port = 7
        mp.parts[at] = x
        parts[at] = Part([(a, c) for a, c in parts[at].heads if a != 'Content-Type'] + [('Content-Type', 'application/sdp')],
                         sdp.replace('audio 4', 'audio 7'))
    elif k == 'append':
        mp.parts.append(MsgBody(v, ct))
        parts.append(Part([('Content-Type', 'text/x')], v))
    elif k == 'insert':
        mp.parts.insert(at, MsgBody(v, ct))
        mp.part_headers.insert(at, [])
        parts.insert(at, Part([('Content-Type', 'text/x')], v))
    elif k == 'remove':
        if n == 1:
            return
        mp.parts.pop(at)
        mp.part_headers.pop(at)
        parts.pop(at)
    elif k == 'header':
        from sippy.SipHeader import SipHeader
        mp.part_headers[at].append(SipHeader('X-New: ' + h.str('hv', 1, 1, alphabet=AL)))
        parts[at].heads.append(('X-New', str(mp.part_headers[at][-1].body)))
    else:
        nb = h.str('nb', 1, 1, alphabet=AL + "'+ ()?") + 'q'
        mp.setBoundary(nb)
        b.mtype = mp.getContentType()
    probe(h, mp, parts, 'edited')
    if other is not None:
        probe(h, other.content, before, 'original')
    again(h, m, b, parts, ('str', 'local'))
    h.reach('edited')


@scenario('M07', reach=('made', 'nested'),
          bounds='0..2 parts appended to a new body with its random boundary (symbolic parts); a multipart within a multipart whose '
                 'boundary is an extension of the outer one')
def made(h):
    """bodies made by the application; nested ones"""
    from sippy.MsgBody import MsgBody
    from sippy.MultipartMixBody import MultipartMixBody
    from sippy.SipContentType import SipContentType
    if h.choose('k', ['new', 'nested']) == 'new':
        mp = MultipartMixBody()
        parts = []
        for i in range(h.choose('n', [1, 2])):
            v = h.str('v%d' % i, 0, 2, alphabet='a\r\n-')
            mp.parts.append(MsgBody(v, SipContentType('text/x')))
            parts.append(Part([('Content-Type', 'text/x')], v))
        if h.choose('cp', [False, True]):
            mp = mp.getCopy()
        m, _ = parsed(h, message('multipart/mixed;boundary=b', '--b\r\n\r\nx\r\n--b--\r\n'))
        b = MsgBody(mp, mp.getContentType())
        m.setBody(b)
        again(h, m, b, parts)
        h.reach('made')
        return
    outer, inner = h.choose('bb', [('b', 'bb'), ('bb', 'b'), ('b', 'b--'), ('b', 'c')])
    a, c = h.str('a', 1, 1, alphabet=AL), h.str('c', 1, 1, alphabet=AL)
    ib = '--' + inner + '\r\nContent-Type: text/x\r\n\r\n' + a + '\r\n--' + inner + '\r\n\r\n' + c + '\r\n--' + inner + '--\r\n'
    ip = Part([('Content-Type', 'multipart/mixed;boundary=' + inner)], ib)
    parts = [Part([('Content-Type', 'text/y')], 'y\r\n'), ip, Part([], 'z\r\n')]
    if outer == 'b' and inner == 'b--':
        return
    body = ''
    for p in parts:
        body += '--' + outer + '\r\n' + p.text()
    m, b = parsed(h, message('multipart/mixed;boundary=' + outer, body + '--' + outer + '--\r\n'))
    probe(h, b.content, parts, 'parsed')
    nb = b.content.parts[1]
    nb.parse()
    want = [Part([('Content-Type', 'text/x')], a), Part([], c)]
    probe(h, nb.content, want, 'nested')
    if h.choose('ed', [False, True]):
        nb.content.parts[0].content = 'E'
        want[0].content = 'E'
    h.reach('nested')
    m2, b2 = parsed(h, str(m))
    b2.content.parts[1].parse()
    probe(h, b2.content.parts[1].content, want, 'nested again')
    h.check(h.eq([str(x) for x in (b2.content.parts[0], b2.content.parts[2])], ['y\r\n', 'z\r\n']), 'other parts')
