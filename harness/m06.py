"""M06: SDP bodies."""
from symx.runner import scenario, quick
from symx import env
from harness.sip import *

AL = ''.join(chr(i) for i in range(33, 127) if chr(i).isalnum())
TEXT = ''.join(chr(i) for i in range(33, 127))
TOK = AL + "-.!%*_+"


class Sect(object):
    """what a media section of the description says"""

    def __init__(self, mtype, port, proto, formats, c, attrs, i=None, b=None, k=None):
        self.mtype, self.port, self.proto, self.formats, self.c = mtype, port, proto, formats, c
        self.attrs, self.i, self.b, self.k = attrs, i, b, k

    def text(self):
        t = 'm=%s ' % self.mtype + str(self.port) + ' ' + self.proto
        for f in self.formats:
            t += ' ' + str(f)
        t += '\r\n'
        for n in ('i', 'c', 'b', 'k'):
            v = getattr(self, n)
            if v is not None:
                t += n + '=' + v + '\r\n'
        for a in self.attrs:
            t += 'a=' + a + '\r\n'
        return t


OWN = {1: [(0,), (1,)], 2: [(a, b) for a in (0, 1) for b in (0, 1)],
       3: [(a, b, c) for a in (0, 1) for b in (0, 1) for c in (0, 1)]}


def section(h, n, rich, own, sym):
    c = None
    if own:
        c = 'IN IP4 10.9.9.' + (str(h.int('ip%d' % n, 10, 99)) if sym else '%d' % (20 + n))
    if not rich:
        return Sect(['audio', 'video', 'image'][n % 3], 5000 + 2 * n, 'RTP/AVP' if n % 3 < 2 else 'udptl',
                    [0, 8] if n % 3 < 2 else ['t38'], c, ['sendrecv', 'x:%d' % n])
    mt = h.choose('mt', ['audio', 'video', 'application', 'Audio'])
    port = h.int('port', 1000, 9999)
    proto = h.choose('proto', ['RTP/AVP', 'x'])
    if mt.lower() in ('audio', 'video'):
        formats = [h.int('f1', 0, 9), h.int('f2', 96, 99)][:h.choose('nf', [0, 1, 2])]
    else:
        formats = [h.str('f', 1, 2, alphabet=TOK), '*'][:h.choose('nf', [1, 2])]
    attrs = h.choose('attrs', [(), ('x:', 1), ('sendonly', 'x:y:z', 'sendonly')])
    attrs = ['v' + h.str('a2', 1, 2, alphabet=TEXT + ' :=') + '.' if a == 1 else a for a in attrs]
    return Sect(mt, port, proto, formats, c, attrs)


def probe(h, sdp, sess, sects, what):
    """the parsed description is the one meant"""
    for n in 'vosiueptrzkb':
        w = sess.get(n)
        g = getattr(sdp, n + '_header')
        h.check((g is None) == (w is None), '%s: %s= present' % (what, n), got=str(g), want=w)
        if w is not None:
            h.check(h.eq(str(g), w), '%s: %s=' % (what, n), got=str(g), want=w)
    h.check(h.eq([str(a) for a in sdp.a_headers], sess.get('a', [])), what + ': session attributes in order')
    h.check(len(sdp.sections) == len(sects), what + ': number of sections')
    for g, w in zip(sdp.sections, sects):
        m = g.m_header
        h.check(h.eq(m.stype, w.mtype), what + ': media type')
        h.check(h.eq(m.port, w.port), what + ': port', got=m.port, want=w.port)
        h.check(h.eq(m.transport, w.proto), what + ': protocol')
        h.check(h.eq(m.formats, w.formats), what + ': formats', got=m.formats, want=w.formats)
        c = w.c if w.c is not None else sess.get('c')
        h.check(h.eq(str(g.c_header), c), what + ': connection', got=str(g.c_header), want=c)
        ct = c.split(' ')
        h.check(h.eq((g.c_header.ntype, g.c_header.atype, g.c_header.addr), (ct[0], ct[1], ct[2])), what + ': connection fields')
        for n in 'ibk':
            x = getattr(g, n + '_header')
            y = getattr(w, n)
            h.check((x is None) == (y is None), '%s: section %s= present' % (what, n))
            if y is not None:
                h.check(h.eq(str(x), y), '%s: section %s=' % (what, n))
        h.check(h.eq([str(a) for a in g.a_headers], w.attrs), what + ': attributes in order', got=[str(a) for a in g.a_headers], want=w.attrs)


def session(h, foc, c):
    sess = {'v': '0', 'o': '- 1 2 IN IP4 1.2.3.4', 's': '-', 't': '0 0', 'a': [], 'c': c}
    if foc == 'session':
        sess['s'] = h.str('s', 0, 2, alphabet=TEXT + ' ') + 'x'
        sess['o'] = h.str('ou', 1, 1, alphabet=TEXT) + ' ' + str(h.int('oi', 1000, 9999)) + ' ' + str(h.int('ov', 1000, 9999)) + ' IN IP6 ::1'
        sess['t'] = str(h.int('t', 1000, 9999)) + ' 0'
        for n in h.choose('opt', ['', 'i', 'u', 'e', 'p', 'b', 'r', 'z', 'k', 'iuepbrzk']):
            sess[n] = n + h.str('x' + n, 1, 1, alphabet=TEXT) + '=1'
        sess['a'] = ['group:BUNDLE 0 1', 'x' + h.str('sa', 1, 1, alphabet=TEXT + ':='), 'group:BUNDLE 0 1'][:h.choose('nsa', [0, 1, 3])]
    return sess


def sess_text(sess, order='vosiuepcbtrzk'):
    t = ''
    for n in order:
        if sess.get(n) is not None:
            t += n + '=' + sess[n] + '\r\n'
    for a in sess['a']:
        t += 'a=' + a + '\r\n'
    return t


def formatted(h, sdp, nm='fmt', kinds=('str', 'local', 'body', 'copy')):
    k = h.choose(nm, kinds)
    if k == 'str':
        return str(sdp)
    if k == 'local':
        return sdp.localStr((('10.1.1.1', 5060), 'udp'))
    if k == 'copy':
        return str(sdp.getCopy())
    from sippy.MsgBody import MsgBody
    return MsgBody(sdp).localStr((('10.1.1.1', 5060), 'udp'))


def parse(h, text, kinds=('direct', 'body'), nm='via'):
    """through the body class or on its own"""
    from sippy.SdpBody import SdpBody
    from sippy.MsgBody import MsgBody
    if h.choose(nm, kinds) == 'direct':
        return SdpBody(text)
    b = MsgBody(text)
    b.parse()
    return b.content


@scenario('M06', reach=('session', 'section', 'many'),
          bounds='1..3 sections, own connection or inherited in every combination; symbolic session name, origin, times, one optional '
                 'session line (or all), 0..3 session attributes; one section with symbolic type, port, protocol, 0..2 formats, 0..3 '
                 'attributes; CRLF or LF line ends')
def carry(h):
    """parse, format, parse: the same description"""
    foc = h.choose('focus', ['session', 'section', 'many'])
    h.reach(foc)
    # number of sections; which own a connection; session level connection or not
    if foc == 'session':
        n, own, hasc = h.choose('n', [(0, (), True), (1, (1,), False), (1, (0,), True), (2, (0, 1), True)])
    elif foc == 'section':
        n, own, hasc = h.choose('n', [(1, (1,), False), (1, (0,), True), (2, (1, 1), False), (2, (0, 1), True)])
    else:
        n, own, hasc = h.choose('n', [(n, o, c) for n in (1, 2, 3) for o in OWN[n] for c in (True, False) if c or all(o)])
    sess = session(h, foc, 'IN IP4 10.9.9.' + str(h.int('ips', 10, 99)) if hasc else None)
    which = n - 1 if foc == 'section' else -1
    sects = [section(h, i, i == which, bool(own[i]), foc == 'many') for i in range(n)]
    if foc == 'many':
        k = h.choose('ibk', [0, 1, n] if n > 1 else [0, 1])
        if k:
            s = sects[k - 1]
            s.i, s.b, s.k = 'info', 'AS:' + str(h.int('b', 10, 99)), 'clear:x'
    text = sess_text(sess) + ''.join([s.text() for s in sects])
    if foc == 'many' and h.choose('eol', ['crlf', 'lf']) == 'lf':
        text = text.replace('\r\n', '\n')
    sdp = parse(h, text, ['direct', 'body'] if foc == 'many' else ['body'])
    if n == 0:
        h.check(h.eq(str(sdp.c_header), sess['c']), 'connection kept')
    probe(h, sdp, sess, sects, 'parsed')
    t2 = formatted(h, sdp, 'fmt', ['str', 'local', 'body', 'copy'] if foc == 'many' else ['copy', 'body'])
    from sippy.SdpBody import SdpBody
    sdp2 = SdpBody(t2)
    if n == 0:
        h.check(h.eq(str(sdp2.c_header), sess['c']), 'connection kept')
    probe(h, sdp2, sess, sects, 'reparsed')
    h.check(t2.endswith('\r\n'), 'complete last line')


@scenario('M06', reach=('addr', 'port', 'same'),
          bounds='1..3 sections with own or inherited connections whose last octets may coincide; one of them re-addressed to a symbolic '
                 'address and/or port, then formatted and parsed again')
def readdress(h):
    """changing one section changes only that section"""
    from sippy.SdpBody import SdpBody
    n = h.choose('n', [1, 2, 3])
    hasc = h.choose('hasc', [True, False])
    sess = {'v': '0', 'o': '- 1 2 IN IP4 1.2.3.4', 's': '-', 't': '0 0', 'a': ['x'], 'c': 'IN IP4 10.9.9.9' if hasc else None}
    sects = []
    for i in range(n):
        own = h.choose('own%d' % i, ['own', 'inh'] if hasc else ['own'])
        c = 'IN IP4 10.9.9.' + h.str('ip%d' % i, 1, 1, alphabet='89') if own == 'own' else None
        sects.append(Sect(['audio', 'video', 'image'][i], 5000 + 2 * i, 'RTP/AVP', [0] if i < 2 else ['t38'], c, ['s%d' % i]))
    sdp = SdpBody(sess_text(sess) + ''.join([s.text() for s in sects]))
    if h.choose('cp', [False, True]):
        orig, sdp = sdp, sdp.getCopy()
    else:
        orig = None
    k = h.choose('k', list(range(n)))
    what = h.choose('what', ['addr', 'port', 'both', 'v6', 'new'])
    sec = sdp.sections[k]
    w = sects[k]
    was = Sect(w.mtype, w.port, w.proto, list(w.formats), w.c, list(w.attrs))
    if what in ('addr', 'both'):
        a = '10.9.9.' + h.str('new', 1, 1, alphabet='789')
        sec.c_header.addr = a
        w.c = 'IN IP4 ' + a
        h.reach('addr')
    if what == 'v6':
        sec.c_header.atype, sec.c_header.addr = 'IP6', '::7'
        w.c = 'IN IP6 ::7'
    if what == 'new':
        sec.addHeader('c', 'IN IP4 10.7.7.7')
        w.c = 'IN IP4 10.7.7.7'
    if what in ('port', 'both'):
        p = h.int('port', 1000, 9999)
        sec.m_header.port = p
        w.port = p
        h.reach('port')
    if n > 1:
        h.reach('same')
    probe(h, sdp, sess, sects, 'changed')
    t = formatted(h, sdp)
    probe(h, SdpBody(t), sess, sects, 'reparsed')
    if orig is not None:
        probe(h, orig, sess, sects[:k] + [was] + sects[k + 1:], 'original')


@scenario('M06', reach=('edited',),
          bounds='1..2 sections; attribute lines appended, inserted, removed; a section added or removed')
def edited(h):
    """edits made by the application are what is sent"""
    from sippy.SdpBody import SdpBody
    from sippy.SdpMediaDescription import SdpMediaDescription
    n = h.choose('n', [1, 2])
    sess = {'v': '0', 'o': '- 1 2 IN IP4 1.2.3.4', 's': '-', 't': '0 0', 'a': ['x'], 'c': 'IN IP4 10.9.9.9'}
    sects = [Sect('audio', 5000 + i, 'RTP/AVP', [0], 'IN IP4 10.9.9.' + h.str('ip%d' % i, 1, 1, alphabet='89'), ['s%d' % i, 'q']) for i in range(n)]
    sdp = SdpBody(sess_text(sess) + ''.join([s.text() for s in sects]))
    ed = h.choose('edit', ['append', 'insert', 'remove', 'addsec', 'delsec', 'iadd', 'sess'])
    v = 'n' + h.str('v', 1, 2, alphabet=TEXT)
    s0 = sdp.sections[n - 1]
    if ed == 'append':
        s0.addHeader('a', v)
        sects[n - 1].attrs.append(v)
    elif ed == 'insert':
        i = h.choose('i', [0, 1, 2])
        s0.insertHeader(i, 'a', v)
        sects[n - 1].attrs.insert(i, v)
    elif ed == 'remove':
        i = h.choose('i', [0, 1])
        s0.a_headers.pop(i)
        sects[n - 1].attrs.pop(i)
    elif ed == 'addsec':
        m = SdpMediaDescription()
        m.addHeader('m', 'video 7000 RTP/AVP 31')
        m.addHeader('c', 'IN IP4 10.9.9.9')
        m += 'a=' + v
        at = h.choose('at', list(range(n + 1)))
        sdp.sections.insert(at, m)
        sects.insert(at, Sect('video', 7000, 'RTP/AVP', [31], 'IN IP4 10.9.9.9', [v]))
    elif ed == 'delsec':
        if n < 2:
            return
        at = h.choose('at', [0, 1])
        sdp.sections.pop(at)
        sects.pop(at)
    elif ed == 'iadd':
        sdp += 'a=' + v
        sects[n - 1].attrs.append(v)
    else:
        sdp.addHeader('a', v)
        sess['a'].append(v)
    probe(h, sdp, sess, sects, 'changed')
    probe(h, SdpBody(formatted(h, sdp)), sess, sects, 'reparsed')
    h.reach('edited')


@scenario('M06', reach=('missing',), bounds='every mandatory line missing in turn, with 1..2 sections')
def mandatory(h):
    """a description without a mandatory line is refused"""
    from sippy.SdpBody import SdpBody
    n = h.choose('n', [1, 2])
    sess = {'v': '0', 'o': '- 1 2 IN IP4 1.2.3.4', 's': '-', 't': '0 0', 'a': [], 'c': None}
    sects = [Sect('audio', 5000 + i, 'RTP/AVP', [0], 'IN IP4 10.9.9.' + str(h.int('ip%d' % i, 10, 99)), []) for i in range(n)]
    miss = h.choose('miss', ['v', 'o', 's', 't', 'c0', 'c1', ''])
    if miss in ('c0', 'c1'):
        if int(miss[1]) >= n:
            return
        sects[int(miss[1])].c = None
    elif miss:
        sess[miss] = None
    try:
        SdpBody(sess_text(sess) + ''.join([s.text() for s in sects]))
        ok = True
    except Exception:
        ok = False
    h.check(ok == (miss == ''), 'accepted only when complete')
    h.reach('missing')


@scenario('M06', reach=('repeated',),
          bounds='b= repeated at session or media level, t=, r=, e=, p= repeated at session level, values symbolic')
def repeated(h):
    """lines that may occur several times are all kept"""
    from sippy.SdpBody import SdpBody
    n = h.choose('name', ['b', 'e', 'p', 't', 'r', 'B'])
    v1, v2 = '1' + h.str('v1', 1, 1, alphabet=AL), '2' + h.str('v2', 1, 1, alphabet=AL)
    sess = 'v=0\r\no=- 1 2 IN IP4 1.2.3.4\r\ns=-\r\n'
    sect = 'm=audio 5000 RTP/AVP 0\r\n'
    two = n.lower() + '=' + v1 + '\r\n' + n.lower() + '=' + v2 + '\r\n'
    c = 'c=IN IP4 10.9.9.9\r\n'
    if n in 'ep':
        t = sess + two + c + 't=0 0\r\n' + sect
    elif n == 'b':
        t = sess + c + two + 't=0 0\r\n' + sect
    elif n == 't':
        t = sess + c + two + sect
    elif n == 'r':
        t = sess + c + 't=0 0\r\n' + two + sect
    else:
        t = sess + c + 't=0 0\r\n' + sect + two
    out = str(SdpBody(t))
    h.reach('repeated')
    got = [x[2:] for x in out.split('\r\n') if x[:1] == n.lower()]
    h.check(h.eq(got[-2:] if n != 't' else got, [v1, v2]), 'repeated line kept', got=got, name=n)
