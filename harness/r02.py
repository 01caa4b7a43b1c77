"""R02: media bodies are re-addressed as the media proxy answered."""
from symx.runner import scenario, quick
from symx import env
from symx.env import SENT, CLK, T0, DUMPS
from harness.sip import *
from harness.rtp import *

SUP = ('RTP/AVP', 'rtp/savp', 'UDP/TLS/RTP/SAVPF', 'udptl', 'UDP/BFCP')


def change(s, side, b, out):
    if side == 'caller':
        s.on_caller_sdp_change(b, out)
    else:
        s.on_callee_sdp_change(b, out)
    env.run_threadq()


def want_cmd(h, cmd, sect, i, side, first, opts=''):
    """the command for a section"""
    c = (sect.c or 'IN IP4 10.0.0.2').split(' ')
    ft, tt = ('FT', 'TT') if side == 'caller' else ('TT', 'FT')
    o = ('6' if c[1] == 'IP6' else '') + opts
    w = 'U' + o + ' CID-%d ' % i + c[2] + ' ' + sect.port + ' ' + ft
    if not first:
        w += ' ' + tt
    h.check(h.eq(cmd, w), 'command for the section', got=cmd, want=w)


def want_sect(sect, port, addr, fam='IP4', hold=False):
    """what the section must look like afterwards"""
    w = ['m=' + sect.m + ' ' + (port if sect.port != '0' else '0') + ' ' + sect.tr + ' ' + sect.fmt, 'c=IN ' + fam + ' ' + addr]
    for a in sect.a:
        if a[:5] == 'rtcp:':
            a = 'rtcp:' + str(int(port) + 1) + ' IN ' + fam + ' ' + addr
        if hold and a == 'sendrecv':
            continue
        w.append('a=' + a)
    if hold and 'sendonly' not in sect.a:
        w.append('a=sendonly')
    return w


def same(h, got, sess, sects, what):
    """the text that goes on, apart from the origin"""
    gs, gm = read(got)
    h.check(len(gs) > 1 and h.eq([x for x in gs if x[:2] != 'o='], sess), what + ': session lines unchanged', got=gs, want=sess)
    h.check(len(gm) == len(sects), what + ': as many sections')
    for g, w in zip(gm, sects):
        h.check(h.eq(g, w), what + ': section', got=g, want=w)


def port(h, nm):
    return h.choose(nm + 'lead', ['1', '9', '55']) + h.str(nm, 2, 2, alphabet=NUM)


@scenario('R02', reach=('done', 'disabled', 'hold', 'skipped'),
          bounds='one to three sections, one of them of each kind: any supported or unsupported transport, disabled, on hold (IPv4, IPv6), IPv6, with its own or the common connection line, with '
                 'an RTCP attribute; symbolic port and address of each answer, with or without an address, IPv6; either side')
def answered(h):
    """the proxy answers all sections"""
    s, c = session(h)
    side = h.choose('side', ['caller', 'callee'])
    n = h.choose('n', [1, 2, 3])
    k = h.choose('k', list(range(n)))
    kind = h.choose('kind', ['plain', 'own', 'tr', 'foreign', 'off', 'hold', 'hold6', 'v6', 'rtcp', 'sess'])
    x = Sect(a=['sendrecv', 'ptime:20'])
    kw = {}
    if kind == 'own':
        x.c = 'IN IP4 192.168.1.' + h.str('lc', 1, 2, alphabet='123456789')
        x.port = port(h, 'lp')
    elif kind == 'tr':
        x.tr = h.choose('tr', SUP)
        if 'udptl' in x.tr:
            x.m, x.fmt = 'image', 't38'
    elif kind == 'foreign':
        x.tr, x.m, x.fmt = 'TCP/MSRP', 'message', '*'
    elif kind == 'off':
        x.port = '0'
    elif kind == 'hold':
        x.c = 'IN IP4 0.0.0.0'
        x.a = h.choose('dir', [['sendrecv', 'ptime:20'], ['sendonly'], ['x'], [], ['sendrecv'], ['sendrecv', 'sendonly', 'sendrecv']])
    elif kind == 'hold6':
        x.c = 'IN IP6 ::'
    elif kind == 'v6':
        x.c = 'IN IP6 2001:db8::' + h.str('lc', 1, 1, alphabet='0123456789abcdef')
    elif kind == 'rtcp':
        x.a = ['rtpmap:0 PCMU/8000', 'rtcp:4001 IN IP4 10.0.0.2', 'ssrc:1 x', 'rtcp-fb:0 nack']
    elif kind == 'sess':
        kw = {'a': ['sendrecv', 'tool:' + h.str('t', 1, 1, alphabet=SAFE)]}
    sects = [Sect(port='50%d0' % i, a=['mid:%d' % i]) for i in range(n)]
    sects[k] = x
    b = body(sects, **kw)
    sess = [l for l in read(str(b))[0] if l[:2] != 'o=']
    out = Out(h)
    rel = [y for y in sects if y.tr != 'TCP/MSRP']
    change(s, side, b, out)
    want = {}
    for i, y in enumerate(rel):
        h.check(len(c.pend) == 1 and not out.done, 'one command at a time, no result before the last answer')
        want_cmd(h, c.pend[0][0], y, i, side, True)
        p, a, fam = '7%d00' % i, '10.0.0.9', 'IP4'
        r = p
        if y is x or (kind == 'foreign' and i == 0):
            p = port(h, 'rp')
            rk = h.choose('reply', ['bare', 'addr', 'v6', 'blank'])
            r = p
            if rk != 'bare':
                a = '1.2.3.' + h.str('ra', 1, 1, alphabet=NUM)
                r = p + ' ' + a
            if rk == 'v6':
                a, fam = 'fe80::' + h.str('ra6', 1, 1, alphabet=NUM), 'IP6'
                r = p + ' ' + a + ' 6'
            elif rk == 'blank':
                r += ' \n'
        c.answer(r)
        hold = y.c in ('IN IP4 0.0.0.0', 'IN IP6 ::')
        want[y] = want_sect(y, p, a, fam, hold)
    h.check(c.pend == [] and len(c.sent) == len(rel), 'no more commands')
    h.check(out.done, 'delivered')
    if not out.done:
        return
    b2, ex = out.got[0]
    h.check(ex is None and b2 is not None, 'delivered as a success')
    h.check(not b2.needs_update, 'marked as done')
    for y in sects:
        if y not in want:
            want[y] = ['m=' + y.m + ' ' + y.port + ' ' + y.tr + ' ' + y.fmt, 'c=IN IP4 10.0.0.2'] + ['a=' + q for q in y.a]
            h.reach('skipped')
    same(h, str(b2), sess, [want[y] for y in sects], 'text')
    same(h, b2.localStr((('10.1.1.1', 5060), 'udp')), sess, [want[y] for y in sects], 'local text')
    h.reach('done')
    if kind == 'off':
        h.reach('disabled')
    if kind == 'hold':
        h.reach('hold')


@scenario('R02', reach=('failed',),
          bounds='one to three sections; the answer to any one of them is missing, an error code, zero, empty, blank, no number or half a number (symbolic characters); the others are good; '
                 'either side')
def failures(h):
    """the proxy fails or talks nonsense"""
    s, c = session(h)
    side = h.choose('side', ['caller', 'callee'])
    n = h.choose('n', [1, 2, 3])
    k = h.choose('k', list(range(n)))
    b = body([Sect(port='50%d0' % i) for i in range(n)])
    out = Out(h)
    change(s, side, b, out)
    for i in range(n):
        h.check(len(c.pend) == 1, 'one command at a time')
        if i != k:
            c.answer('70%d0 1.2.3.4' % i)
            h.check(out.done == (i > k), 'outcome')
            continue
        r = h.choose('reply', [None, 'E', 'E8', '0', '0 1.2.3.4', '', ' ', 'sym', 'symn', '-1', '&& 0'])
        if r == 'sym':
            r = h.str('r', 1, 2, alphabet='Eeab.:&x')
        elif r == 'symn':
            r = '12' + h.str('r', 1, 1, alphabet='Eeab.:&x')
        c.answer(r)
        h.check(out.done, 'the failure is reported', reply=r)
    h.check(out.failed(), 'reported as a failure', got=out.got)
    from sippy.Exceptions.RtpProxyError import RtpProxyError
    h.check(out.failed() and isinstance(out.got[0][1], RtpProxyError), 'with an error the call can deal with')
    h.reach('failed')


@scenario('R02', bounds='bodies without anything to relay: another content type, no sections at all, only foreign or unsupported sections (one or two); either side')
def nothing(h):
    """nothing to relay"""
    from sippy.MsgBody import MsgBody
    from sippy.SipContentType import SipContentType
    s, c = session(h)
    side = h.choose('side', ['caller', 'callee'])
    k = h.choose('k', ['text', 'none', 'one', 'two'])
    f = Sect(m='message', tr='TCP/MSRP', fmt='*')
    if k == 'text':
        ct = SipContentType('text/plain')
        ct.parse()
        b = MsgBody('hello ' + h.str('t', 1, 1, alphabet=SAFE), ct)
    else:
        b = body({'none': [], 'one': [f], 'two': [f, Sect(tr='TCP/RTP/AVP')]}[k])
    t = str(b)
    out = Out(h)
    change(s, side, b, out)
    h.check(c.sent == [], 'no command')
    h.check(out.done, 'delivered all the same')
    if out.done:
        h.check(out.got[0][1] is None and out.got[0][0] is not None, 'as a success')
        h.check(not out.got[0][0].needs_update, 'marked as done')
        if k == 'text':
            h.check(h.eq(str(out.got[0][0]), t), 'unchanged')
        else:
            g, w = read(str(out.got[0][0])), read(t)
            h.check([x for x in g[0] if x[:2] != 'o='] == [x for x in w[0] if x[:2] != 'o='] and g[1] == w[1], 'unchanged', got=str(out.got[0][0]))


@scenario('R02', bounds='a body that cannot be parsed: a mandatory line missing or a number that is none (symbolic character); either side')
def malformed(h):
    """a body one cannot read is refused with an error the call can deal with; no command is sent"""
    from sippy.MsgBody import MsgBody
    from sippy.Exceptions.SdpParseError import SdpParseError
    s, c = session(h)
    side = h.choose('side', ['caller', 'callee'])
    lines = str(body([Sect()])).split('\r\n')[:-1]
    k = h.choose('k', ['v', 'o', 's', 't', 'c', 'port', 'garbage', 'origin'])
    if k in ('v', 'o', 's', 't', 'c'):
        lines = [x for x in lines if x[0] != k]
    elif k == 'port':
        lines[-1] = 'm=audio 4' + h.str('x', 1, 1, alphabet='ax.-:') + '0 RTP/AVP 0'
    elif k == 'garbage':
        lines.insert(2, h.str('x', 1, 3, alphabet='ax.-:'))
    else:
        lines[1] = 'o=- 1 IN IP4 1.2.3.4'
    out = Out(h)
    try:
        change(s, side, MsgBody('\r\n'.join(lines) + '\r\n'), out)
    except SdpParseError:
        pass
    else:
        h.fail('refused', got=out.got)
    h.check(c.sent == [] and not out.done, 'nothing else happens')


@scenario('R02', reach=('kept', 'bumped', 'new'),
          bounds='three bodies in turn on one side, one on the other in between; each with the same or another session id and version (symbolic)')
def origins(h):
    """the origin line: one of the session's own, whose version changes exactly when that of the body does"""
    s, c = session(h)
    side = h.choose('side', ['caller', 'callee'])
    prev = None
    seen = []
    for i in range(3):
        sid = '7' + h.str('s', 1, 1, alphabet='12')
        ver = '3' + h.str('v', 1, 1, alphabet='12')
        b = body([Sect()], o='- ' + sid + ' ' + ver)
        out = Out(h)
        change(s, side, b, out)
        c.answer('7000 1.2.3.4')
        h.check(out.done and out.got[0][1] is None, 'delivered')
        o = [x for x in str(out.got[0][0]).split('\r\n') if x[:2] == 'o='][0][2:].split(' ')
        h.check(o[2 + 1:] == ['IN', 'IP4', env.MYADDR], 'the address is ours', got=o)
        if prev is not None:
            ps, pv, po = prev
            if ps != sid:
                h.check(o[1] != po[1], 'another session has another id', got=o, before=po)
                h.reach('new')
            elif pv != ver:
                h.check(o[1] == po[1] and int(o[2]) == int(po[2]) + 1, 'a new version of the same session', got=o, before=po)
                h.reach('bumped')
            else:
                h.check(o == po, 'the same origin', got=o, before=po)
                h.reach('kept')
        prev = (sid, ver, o)
        if i == 0:
            b = body([Sect()], o='- 91 1')
            out = Out(h)
            change(s, 'callee' if side == 'caller' else 'caller', b, out)
            c.answer('7002 1.2.3.5')
            o2 = [x for x in str(out.got[0][0]).split('\r\n') if x[:2] == 'o='][0][2:].split(' ')
            h.check(o2[1] != o[1], 'each side has an origin of its own')


@scenario('R02', bounds='bodies of both sides under way together (one and two sections, or the same side twice): answers in turn, any one of them a failure')
def together(h):
    """two bodies at once"""
    s, c = session(h)
    sides = h.choose('sides', [('caller', 'callee'), ('callee', 'caller'), ('caller', 'caller')])
    n1, n2 = h.choose('n', [(1, 1), (1, 2), (2, 1), (2, 2)])
    s1 = [Sect(port='41%d0' % i) for i in range(n1)]
    s2 = [Sect(port='42%d0' % i) for i in range(n2)]
    b1, b2 = body(s1), body(s2, o='- 88 1')
    o1, o2 = Out(h), Out(h)
    bad = h.choose('bad', [None] + list(range(n1 + n2)))
    early = h.choose('second', list(range(n1 + 1)))      # the second body comes after that many answers
    change(s, sides[0], b1, o1)
    k1 = k2 = 0
    for i in range(n1 + n2):
        if i == early:
            change(s, sides[1], b2, o2)
        h.check(len(c.pend) == 1, 'one command at a time', pend=len(c.pend))
        mine = i < n1
        y = (s1 + s2)[i]
        h.check((' 10.0.0.2 ' + y.port + ' ') in c.pend[0][0], 'commands in order', got=c.pend[0][0])
        c.answer(None if bad == i else '7%d00 1.2.3.%d' % (i, i))
        h.check(o1.done == (i >= n1 - 1 or (bad is not None and bad <= i)), 'first body delivered when its answers are there')
        h.check(o2.done == (i == n1 + n2 - 1 or (bad is not None and n1 <= bad <= i)), 'second body delivered when its answers are there')
    for o, ss, lo in ((o1, s1, 0), (o2, s2, n1)):
        if bad is not None and lo <= bad < lo + len(ss):
            h.check(o.failed(), 'failure to the body it concerns')
        else:
            h.check(o.got[0][1] is None, 'success')
            gm = read(str(o.got[0][0]))[1]
            for j, y in enumerate(ss):
                h.check(gm[j] == want_sect(y, '7%d00' % (lo + j), '1.2.3.%d' % (lo + j)), 'answer to the section it is for', got=gm[j])


@scenario('R02', bounds='one section, options of the session: bound address of the peer or local address, notification socket and tag (one or two sections), new port of the other side, '
                        'repacketisation (symbolic duration) by the proxy or in the body only; second body with the other side known')
def options(h):
    """the options of commands"""
    k = h.choose('k', ['sbind', 'local', 'nolocal', 'notify', 'newport', 'repack', 'soft', 'known'])
    kw = {}
    if k in ('sbind', 'local', 'nolocal'):
        kw['sbind_supported'] = True
    if k == 'local':
        kw['is_local'] = True
    if k == 'notify':
        kw['tnot_supported'] = True
        kw['notify_socket'] = 'tcp:1.2.3.4:5'
    s, c = session(h, notify_tag='r%204' if k == 'notify' else None, **kw)
    side = h.choose('side', ['caller', 'callee'])
    me, other = (s.caller, s.callee) if side == 'caller' else (s.callee, s.caller)
    opts, tail, sects = '', '', [Sect(a=['rtpmap:0 PCMU/8000', 'fmtp:8 x=y', 'ptime:20', 'sendrecv'])]
    if k == 'sbind':
        a = '1.2.3.' + h.str('ra', 1, 2, alphabet='123456789')
        me.raddress = (a, 5060)
        opts = 'R' + a
    elif k in ('local', 'nolocal'):
        a = '1.2.3.' + h.str('ra', 1, 2, alphabet='123456789')
        me.laddress = a
        opts = 'L' + a if k == 'local' else ''
    elif k == 'newport':
        other.needs_new_port = True
        opts = 'N'
    elif k in ('repack', 'soft'):
        z = h.int('z', 10, 90)
        me.repacketize = z
        me.soft_repacketize = k == 'soft'
        opts = 'z' + str(z) if k == 'repack' else ''
    elif k == 'notify':
        sects.append(Sect(port='5010'))
    out = Out(h)
    if k == 'known':
        o0 = Out(h)
        change(s, 'callee' if side == 'caller' else 'caller', body([Sect()], o='- 99 1'), o0)
        c.answer('7000 1.2.3.4')
        h.check(o0.done, 'delivered')
    change(s, side, body(sects), out)
    for i, y in enumerate(sects):
        got = c.pend[0][0]
        w = 'U' + opts + ' CID-%d 10.0.0.2 %s %s' % ((i, y.port) + ((('FT',) if side == 'caller' else ('TT',))))
        if k == 'known':
            w += ' TT' if side == 'caller' else ' FT'
        if k == 'notify':
            w += ' tcp:1.2.3.4:5 ' + ('r%204' if i == 0 else 'r%204%20' + str(i))
        h.check(h.eq(got, w), 'command', got=got, want=w)
        c.answer('70%d0 1.2.3.4' % i)
    h.check(out.done and out.got[0][1] is None, 'delivered')
    gm = read(str(out.got[0][0]))[1]
    w = want_sect(sects[0], '7000', '1.2.3.4')
    if k in ('repack', 'soft'):
        w[w.index('a=ptime:20')] = 'a=ptime:' + str(z)
    h.check(h.eq(gm[0], w), 'body', got=gm[0], want=w)
    if k == 'newport':
        change(s, side, body(sects), Out(h))
        h.check(c.pend[0][0] == 'U CID-0 10.0.0.2 4000 ' + ('FT' if side == 'caller' else 'TT'), 'asked for a new port once', got=c.pend[0][0])
