"""M05: copies."""
from symx.runner import scenario, quick
from symx import env
from harness.sip import *

AL = ''.join(chr(i) for i in range(33, 127) if chr(i).isalnum())
LOCAL = (('10.1.1.1', 5060), 'udp')


def u_mut(get):
    """changes of a URI reached through get"""
    def other(b, v):
        get(b).other.append('o' + v)

    def user(b, v):
        get(b).username = 'u' + v

    def host(b, v):
        get(b).host = 'h' + v

    def port(b, v):
        get(b).port = 7000

    def up(b, v):
        get(b).userparams.append('p' + v)

    def hd(b, v):
        u = get(b)
        if u.headers is None:
            u.headers = {}
        u.headers['H'] = v

    def lr(b, v):
        u = get(b)
        u.lr = not u.lr

    def misc(b, v):
        u = get(b)
        u.transport, u.ttl, u.maddr, u.method, u.tag, u.usertype = 'tcp', 3, 'm' + v, 'X', 't' + v, 'y'
    return [other, user, host, port, up, hd, lr, misc]


def a_mut(get):
    """changes of an address reached through get"""
    def par(b, v):
        get(b).setParam('p' + v, v)

    def par1(b, v):
        get(b).setParam('q1', 'x' + v)

    def delp(b, v):
        get(b).delParam('q1')

    def name(b, v):
        get(b).name = 'N' + v

    def url(b, v):
        from sippy.SipURL import SipURL
        get(b).url = SipURL('sip:new' + v + '@h')
    return [par, par1, delp, name, url] + u_mut(lambda b: get(b).url)


def at(n, *a):
    """set an attribute to what the function says"""
    def f(b, v):
        for k in a:
            setattr(b, k, n(v))
    return f


def do(f):
    def g(b, v):
        f(b, v)
    return g


# ~ stands for a symbolic letter or digit, ^ for a symbolic digit
ADDR = '"A b~" <sip:u~;up=~@h~:506^;transport=udp;lr;x=~?Q=1>;q1=~;tag=t~'
AM = a_mut(lambda b: b.address)
AUTH = 'Digest username="u",realm="r~",nonce="n~",uri="sip:x",response="~",algorithm=MD5,qop=auth,nc=00000001,cnonce="c",opaque="o~",zz="y~"'
CHAL = 'Digest realm="r~",nonce="n~",algorithm=MD5,qop="auth,auth-int",opaque="o~",stale=FALSE'
AUTHM = [at(lambda v: 'z' + v, 'username', 'uri'), at(lambda v: 'z' + v, 'response', 'nc', 'cnonce'), do(lambda b, v: b.otherparams.append(('k' + v, v)))]
CHALM = [do(lambda b, v: b.qop.append('q' + v)), do(lambda b, v: b.otherparams.append(('k' + v, v))), at(lambda v: 'z' + v, 'nonce', 'opaque')]
NUMM = [do(lambda b, v: b.incNum()), at(lambda v: 77, 'number')]

# header line -> ways to change its parsed body
HDRS = [
    ('From: ' + ADDR, AM + [do(lambda b, v: b.setTag('z' + v)), do(lambda b, v: b.delTag())]),
    ('To: ' + ADDR, [do(lambda b, v: b.setTag('z' + v)), do(lambda b, v: b.setBody(b.address.getCopy()) or b.setTag(v))]),
    ('Contact: ' + ADDR, AM),
    ('Contact: *', []),
    ('Route: ' + ADDR, AM), ('Record-Route: ' + ADDR, AM[:3]), ('Path: ' + ADDR, AM[:3]),
    ('Refer-To: ' + ADDR, AM[:3]), ('Referred-By: ' + ADDR, AM[:3]), ('Also: ' + ADDR, AM[:3]),
    ('Diversion: ' + ADDR, AM[:3]), ('CC-Diversion: ' + ADDR, AM[:3]), ('P-Asserted-Identity: ' + ADDR, AM[:3]),
    ('Via: SIP/2.0/UDP h~:506^;branch=z9hG4bK~;rport;x=~',
     [do(lambda b, v: b.genBranch()), do(lambda b, v: b.setParam('received', '1.2.3.' + v)), do(lambda b, v: b.params.pop('x')),
      at(lambda v: 'h' + v, 'hostname'), at(lambda v: 7000, 'port'), at(lambda v: 'T' + v, 'transport', 'sipver')]),
    ('CSeq: 7^ IN~', [at(lambda v: 9, 'cseq'), at(lambda v: 'M' + v, 'method')]),
    ('RAck: 1^ 7^ IN~', [at(lambda v: 9, 'rseq'), at(lambda v: 9, 'cseq'), at(lambda v: 'M' + v, 'method')]),
    ('RSeq: 5^', NUMM), ('Max-Forwards: 7^', NUMM), ('Expires: 30^', NUMM), ('Content-Length: 3^', NUMM),
    ('Call-ID: ~@h', [do(lambda b, v: b.genCallId()), at(lambda v: 'c' + v, 'body')]),
    ('Content-Type: multipart/mixed;boundary=x~', [do(lambda b, v: b.params.update({'b' + v: v})), at(lambda v: 'n' + v, 'name')]),
    ('Authorization: ' + AUTH, AUTHM), ('Proxy-Authorization: ' + AUTH, AUTHM),
    ('WWW-Authenticate: ' + CHAL, CHALM), ('Proxy-Authenticate: ' + CHAL, CHALM),
    ('Allow: INVITE, A~', [do(lambda b, v: b.methods.append('M' + v)), do(lambda b, v: b.methods.pop())]),
    ('Supported: timer, 1~', [do(lambda b, v: b.caps.append('M' + v)), do(lambda b, v: b.caps.pop())]),
    ('Replaces: c~;from-tag=f~;to-tag=t~;early-only;x=~', [do(lambda b, v: b.params.append('p' + v)), at(lambda v: 'z' + v, 'call_id', 'to_tag'),
                                                       at(lambda v: False, 'early_only')]),
    ('Reason: Q.850; cause=3^; text="x~"', [at(lambda v: 'z' + v, 'protocol', 'reason'), at(lambda v: 5, 'cause')]),
    ('Warning: 39^ a~ "t~"', [at(lambda v: 'z' + v, 'agent', 'text'), at(lambda v: '300', 'code')]),
    ('Server: s~', [at(lambda v: 's' + v, 'body')]), ('User-Agent: s~', [at(lambda v: 's' + v, 'body')]),
    ('cisco-GUID: 1^-2-3-4^', [at(lambda v: (9, 9, 9, 9), 'ciscoGUID')]),
    ('h323-conf-id: 1-2^-3-4', [at(lambda v: (9, 9, 9, 9), 'ciscoGUID')]),
    ('X-Unknown: what ~ver', [at(lambda v: 's' + v, 'body')]),
]


def texts(x):
    """everything one can see of it as text"""
    r = [str(x)]
    if hasattr(x, 'localStr'):
        r.append(x.localStr(LOCAL))
        if type(x).__name__ == 'SipHeader':
            r.append(x.localStr(LOCAL, True))
            r.append(x.name)
    return r


def fields(x, d=0):
    """the values held, as far down as they go"""
    if isinstance(x, (list, tuple)):
        return [fields(y, d + 1) for y in x]
    if isinstance(x, dict):
        return [[k, fields(v, d + 1)] for k, v in x.items()]
    if x is None or isinstance(x, (str, int, float, bool)):
        return x
    if hasattr(x, '__dict__') and d < 9:
        out = [type(x).__name__]
        for k in sorted(set(vars(x)) | set(k for c in type(x).__mro__ for k in vars(c) if not k.startswith('_'))):
            v = getattr(x, k)
            if k in ('hf_names', 'parsed', 'relaxedparser', 'needs_update', 'body_crc') or callable(v):
                continue
            out.append([k, fields(v, d + 1)])
        return out
    return str(x)


VALS = ('username', 'password', 'host', 'port', 'usertype', 'transport', 'ttl', 'maddr', 'method', 'tag', 'lr', 'scheme', 'name', 'hadbrace',
        'hostname', 'sipver', 'cseq', 'rseq', 'number', 'uri', 'realm', 'nonce', 'response', 'qop', 'nc', 'cnonce', 'opaque', 'algorithm',
        'otherparams', 'methods', 'caps', 'call_id', 'from_tag', 'to_tag', 'early_only', 'protocol', 'cause', 'reason', 'code', 'agent',
        'text', 'ciscoGUID', 'params', 'other', 'userparams', 'headers', 'boundary', 'asterisk')


def values(x):
    """public values of the object, and of the address and URI within it"""
    out = [[k, getattr(x, k)] for k in VALS if hasattr(x, k)]
    for k in ('address', 'url'):
        y = getattr(x, k, None)
        if y is not None and not isinstance(y, str):
            out += values(y)
    return out


def two_sides(h, orig, copy, muts, what):
    """equal now; then one side changes and the other does not"""
    t = texts(orig)
    h.check(h.eq(texts(copy), t), what + ': the copy reads the same', got=texts(copy), want=t)
    h.check(type(copy) is type(orig), what + ': the copy is of the same class')
    h.check(h.eq(values(copy), values(orig)), what + ': the copy holds the same values', got=values(copy), want=values(orig))
    if len(muts) == 0:
        return
    m = muts[h.choose('mut', list(range(len(muts))))]
    v = h.str('v', 1, 1, alphabet=AL)
    side = h.choose('side', ['copy', 'orig'])
    mine, other = (copy, orig) if side == 'copy' else (orig, copy)
    f = fields(other)
    m(mine, v)
    h.check(h.eq(texts(other), t), what + ': the other side reads as before', got=texts(other), want=t)
    h.check(h.eq(fields(other), f), what + ': the other side holds what it held', got=fields(other), want=f)
    h.reach('mutated')


@scenario('M05', reach=('mutated',),
          bounds='every header class the library knows, one full-featured value each (a symbolic letter or digit in every part of it), parsed before, after or not; every mutator of the '
                 'class and of what it contains, with a symbolic value, on either side; copies of header and of body; copies of copies')
def headers(h):
    """headers and their bodies"""
    from sippy.SipHeader import SipHeader
    k = h.choose('hdr', list(range(len(HDRS))))
    line, muts = HDRS[k]
    line = line.replace('~', h.str('c', 1, 1, alphabet=AL)).replace('^', h.str('d', 1, 1, alphabet='0123456789'))
    hd = SipHeader(line, fixname=True)
    when = h.choose('parse', ['before', 'after', 'twice'])
    if when != 'after':
        hd.getBody()
    if when == 'after' and k % 2 == 0:
        t = texts(hd)
        hd2 = hd.getCopy()
        h.check(h.eq(texts(hd2), t), 'the copy of an unparsed header reads the same')
        h.check(h.eq(texts(hd), t), 'copying does not change the header')
        two_sides(h, hd.getBody(), hd2.getBody(), muts, 'body')
        return
    if when == 'twice':
        b2 = hd.getBCopy().getCopy()
    else:
        b2 = hd.getBCopy()
    if not b2.parsed:
        b2.parse()
    two_sides(h, hd.getBody(), b2, muts, 'body')


@scenario('M05', reach=('mutated',), bounds='one full-featured URI (sip or sips) and address with symbolic user; all mutators')
def uris(h):
    """URIs and addresses"""
    from sippy.SipURL import SipURL
    from sippy.SipAddress import SipAddress
    k = h.choose('k', ['url', 'plain', 'sips', 'addr'])
    u = 'u' + h.str('u', 1, 1, alphabet=AL)
    if k == 'addr':
        a = SipAddress('"A b" <sip:' + u + '@h;lr;x=1>;q1=2;tag=t', relaxedparser=h.choose('rx', [False, True]))
        two_sides(h, a, a.getCopy(), a_mut(lambda b: b), 'address')
        return
    t = {'url': 'sip:' + u + ';up=1:pw@h:5061;transport=udp;ttl=1;maddr=m;method=INVITE;tag=g;user=phone;lr;x=1?H=1&I=2',
         'plain': 'sip:h', 'sips': 'sips:' + u + '@[2001:db8::1]'}[k]
    o = SipURL(t)
    two_sides(h, o, o.getCopy(), u_mut(lambda b: b), 'URI')


SDP = 'v=0\r\no=- 1 2 IN IP4 1.2.3.4\r\ns=-\r\nc=IN IP4 10.9.9.9\r\nb=AS:1\r\nt=0 0\r\na=g\r\nm=audio 5000 RTP/AVP 0 8\r\ni=x\r\na=s1\r\n' \
      'm=video 5002 RTP/AVP 31\r\nc=IN IP4 10.9.9.8\r\na=s2\r\na=s3\r\n'


def s_mut():
    def sec(b, f):
        return b.content.sections[f]
    return [
        do(lambda b, v: setattr(sec(b, 0).c_header, 'addr', '1.' + v)), do(lambda b, v: setattr(sec(b, 0).m_header, 'port', 9)),
        do(lambda b, v: sec(b, 1).m_header.formats.append(v)), do(lambda b, v: sec(b, 1).addHeader('a', v)),
        do(lambda b, v: sec(b, 1).a_headers.pop()), do(lambda b, v: sec(b, 0).insertHeader(0, 'a', v)),
        do(lambda b, v: b.content.addHeader('a', v)), do(lambda b, v: b.content.sections.pop()),
        do(lambda b, v: setattr(b.content.o_header, 'version', 99)), do(lambda b, v: b.content.addHeader('s', v)),
        do(lambda b, v: setattr(sec(b, 0).m_header, 'transport', v)), do(lambda b, v: setattr(b.content.o_header, 'address', v)),
        do(lambda b, v: b.content.a_headers.pop()), do(lambda b, v: sec(b, 0).addHeader('i', v)),
    ]


MP = '--b\r\nContent-Type: application/sdp\r\nContent-ID: <1>\r\n\r\n' + SDP + '--b\r\nContent-Type: text/plain\r\n\r\nx\r\n--b--\r\n'


def m_mut():
    def app(b, v):
        from sippy.MsgBody import MsgBody
        b.content.parts.append(MsgBody(v, b.content.parts[1].mtype.getCopy()))

    def hdr(b, v):
        from sippy.SipHeader import SipHeader
        b.content.part_headers[0].append(SipHeader('X: ' + v))

    def part(b, v):
        b.content.parts[0].parse()
        b.content.parts[0].content.sections[0].m_header.port = 9
    return [app, hdr, part, do(lambda b, v: b.content.setBoundary('z' + v)), do(lambda b, v: setattr(b.content.parts[1], 'content', v)),
            do(lambda b, v: b.content.parts.pop()), do(lambda b, v: b.mtype.params.update({'x': v})),
            do(lambda b, v: setattr(b.content.part_headers[0][0].body, 'body', v)),
            do(lambda b, v: b.content.parts[1].mtype.params.update({'y': v}))]


@scenario('M05', reach=('mutated',), bounds='SDP, multipart and text bodies, parsed or not when copied; every mutator on either side')
def bodies(h):
    """message bodies"""
    from sippy.MsgBody import MsgBody
    from sippy.SipContentType import SipContentType
    k = h.choose('k', ['sdp', 'mp', 'text'])
    v = h.str('x', 1, 1, alphabet=AL)
    if k == 'sdp':
        b = MsgBody(SDP.replace('a=s1', 'a=s' + v))
        muts = s_mut()
    else:
        ct = SipContentType('multipart/mixed;boundary=b' if k == 'mp' else 'text/plain')
        ct.parse()
        b = MsgBody(MP if k == 'mp' else 't' + v, ct)
        muts = m_mut() if k == 'mp' else [do(lambda b, v: setattr(b, 'content', v)), do(lambda b, v: b.mtype.params.update({'x': v})),
                                          do(lambda b, v: setattr(b.mtype, 'name', v))]
    p = h.choose('parse', ['before', 'after'])
    if p == 'before':
        b.parse()
    c = b.getCopy()
    h.check(h.eq(str(c), str(b)), 'the copy reads the same')
    h.check(h.eq(str(c.mtype), str(b.mtype)), 'the copy has the same type', got=str(c.mtype))
    if p == 'after':
        if h.choose('raw', [False, True]):
            b.content = 'changed'
            h.check(h.neg(h.eq(str(c), 'changed')), 'an unparsed copy is not changed')
            return
        b.parse()
        c.parse()
    two_sides(h, b, c, muts, 'body')


def g_mut():
    def first(b, v):
        b.getHFBody('via').setParam('received', v)

    def tag(b, v):
        b.getHFBody('to').setTag('z' + v)

    def drop(b, v):
        b.delHFs('route')

    def app(b, v):
        from sippy.SipHeader import SipHeader
        b.appendHeader(SipHeader('X-A: ' + v))

    def ins(b, v):
        from sippy.SipHeader import SipHeader
        b.insertHeaderAfter(b.getHF('via'), SipHeader('X-A: ' + v))

    def rep(b, v):
        from sippy.SipHeader import SipHeader
        b.replaceHeader(b.getHF('from'), SipHeader('From: <sip:' + v + '@h>;tag=x'))

    def rem(b, v):
        b.removeHeader(b.getHF('call-id'))

    def cs(b, v):
        b.getHFBody('cseq').cseq = 99

    def body(b, v):
        b.getBody().parse()
        b.getBody().content += 'a=' + v

    def nobody(b, v):
        b.setBody(None)

    def tgt(b, v):
        b.setTarget((('10.7.7.7', 7), 'tcp'))

    def start(b, v):
        if hasattr(b, 'ruri'):
            b.ruri.username = 'z' + v
            b.ruri.other.append('o')
            b.method = 'M' + v
        else:
            b.setSCode(199, 'R' + v)

    def ruri(b, v):
        if hasattr(b, 'ruri'):
            from sippy.SipURL import SipURL
            b.setRURI(SipURL('sip:' + v + '@h'))
        else:
            b.reason = v
    return [first, tag, drop, app, ins, rep, rem, cs, body, nobody, tgt, start, ruri]


@scenario('M05', reach=('mutated',),
          bounds='a request and a response with all mandatory headers, Route and SDP, parsed from text, some headers parsed before the '
                 'copy; every mutator of messages on either side')
def messages(h):
    """whole messages"""
    from sippy.SipRequest import SipRequest
    from sippy.SipResponse import SipResponse
    u = h.str('u', 1, 1, alphabet=AL)
    kind = h.choose('kind', ['req', 'res'])
    sl = 'INVITE sip:' + u + '@h;x=1 SIP/2.0' if kind == 'req' else 'SIP/2.0 200 O' + u
    t = sl + '\r\nVia: SIP/2.0/UDP h;branch=z9hG4bKa\r\nFrom: <sip:a@h>;tag=1\r\nTo: <sip:b@h>\r\nCall-ID: c\r\nCSeq: 1 INVITE\r\n' \
        'Route: <sip:r@h;lr>\r\nRoute: <sip:r2@h;lr>\r\nX-U: ' + u + '\r\nContent-Type: application/sdp\r\nContent-Length: ' + str(len(SDP)) + '\r\n\r\n' + SDP
    m = (SipRequest if kind == 'req' else SipResponse)(t)
    p = h.choose('parse', ['no', 'some', 'all'])
    if p != 'no':
        m.getHFBody('via')
        m.getHFBody('to')
        if p == 'all':
            m.getBody().parse()
            for x in m.headers:
                x.getBody()
    m.setTarget((('10.6.6.6', 6), 'udp'))
    m.nated = True
    m.source = (('10.5.5.5', 5), 'udp')
    c = m.getCopy()
    h.check(type(c) is type(m), 'same kind of message')
    for n in ('method', 'scode', 'reason', 'sipver', 'target', 'source', 'nated', 'rtime', 'user_agent'):
        h.check(h.eq(getattr(c, n, None), getattr(m, n, None)), 'same ' + n)
    if kind == 'req':
        h.check(h.eq(str(c.ruri), str(m.ruri)), 'same request URI')
    tt = texts(m)
    h.check(h.eq(texts(c), tt), 'the copy reads the same', got=texts(c), want=tt)
    for x in m.headers + c.headers:
        x.getBody()
    m.getBody().parse()
    c.getBody().parse()
    muts = g_mut()
    f = muts[h.choose('mut', list(range(len(muts))))]
    v = h.str('v', 1, 1, alphabet=AL)
    mine, other = (c, m) if h.choose('side', ['copy', 'orig']) == 'copy' else (m, c)
    tt = texts(other)
    ff = [other.getTarget(), getattr(other, 'method', None), getattr(other, 'scode', None), len(other.headers)]
    f(mine, v)
    h.check(h.eq(texts(other), tt), 'the other side reads as before', got=texts(other), want=tt)
    h.check(h.eq([other.getTarget(), getattr(other, 'method', None), getattr(other, 'scode', None), len(other.headers)], ff), 'the other side is as before')
    h.reach('mutated')
