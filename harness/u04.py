"""U04: in-dialog requests go where the dialog says and only its messages reach it."""
from symx.runner import scenario, quick
from symx import env
from symx.env import SENT, CLK, T0, DUMPS
from harness.sip import *
from harness.ua import World, Walk, seqno, mbody

# Contact text, URI text, host, has a port
CT = [('<sip:%u@10.0.0.3:%d>', 'sip:%u@10.0.0.3:%d', '10.0.0.3', True),
      ('"Bob B" <sip:%u@10.0.0.3;transport=udp>;expires=5', 'sip:%u@10.0.0.3;transport=udp', '10.0.0.3', False),
      ('sip:%u@10.0.0.4:%d;expires=60', 'sip:%u@10.0.0.4:%d', '10.0.0.4', True),
      ('<sip:10.0.0.3:%d;user=phone;x=y>', 'sip:10.0.0.3:%d;user=phone;x=y', '10.0.0.3', True)]


def hops(h, n):
    out = []
    for i in range(n):
        kind = h.choose('rr%d' % i, ['lr', 'strict', 'noport'])
        port = h.int('rrp%d' % i, 1000, 9999)
        host = '10.0.1.%d' % (i + 1)
        uri = 'sip:p%d@%s' % (i, host)
        if kind != 'noport':
            uri = uri + ':' + str(port)
        if kind != 'strict':
            uri = uri + ';lr'
        out.append((kind, uri, (host, port if kind != 'noport' else 5060)))
    return out


@scenario('U04', reach=('contact', 'loose', 'strict', 'BYE', 'INFO', 'INVITE', 'REFER', 'ka'),
          bounds='established leg of either direction, 4 Contact forms with symbolic port, 0..2 (thorough 3) Record-Route each '
                 'loose (with symbolic port or none) or strict, in one header or several; then 2 (thorough 3) requests sent in '
                 'the dialog (INFO, re-INVITE, keep-alive re-INVITE, REFER, BYE)')
def sent(h):
    kind = h.choose('kind', ['uac', 'uas'])
    ct, cturi, cthost, ported = h.choose('contact', CT)
    cport = h.int('cport', 1000, 9999)
    for a, b in (('%d', str(cport)), ('%u', 'bo')):
        ct, cturi = ct.replace(a, b), cturi.replace(a, b)
    nrr = h.choose('nrr', [0, 1, 2] if quick() else [0, 1, 2, 3])
    rrs = hops(h, nrr)
    texts = ['<' + x[1] + '>' for x in rrs]
    if nrr > 1 and not ported:
        texts = [', '.join(texts)]

    def setup(ua):
        ua.kaInterval = 1000
    w = World(h, kind, contact=ct, rr=texts, setup=setup)
    k = Walk(h, w, 0)
    if kind == 'uac':
        inv = w.inv
        k.p_2xx('up')
        h.check(SENT[0][2] == ('10.0.0.3', 5060), 'the INVITE goes to the next hop')
    else:
        k.a_connect('up')
        w.peer_ack()
    n0 = len(SENT)
    # what the dialog says
    if kind == 'uac':
        rrs.reverse()
    routes = ['<' + x[1] + '>' for x in rrs]
    ruri, dst = cturi, (cthost, cport if ported else 5060)
    if nrr:
        dst = rrs[0][2]
        if rrs[0][0] == 'strict':
            h.reach('strict')
            ruri = rrs[0][1]
            routes = routes[1:] + ['<' + cturi + '>']
        else:
            h.reach('loose')
    else:
        h.reach('contact')
    for i in range(2 if quick() else 3):
        m = h.choose('req%d' % i, ['INFO', 'INVITE', 'ka', 'REFER', 'BYE'])
        n = len(SENT)
        if m == 'INFO':
            w.ev('Info')
        elif m == 'INVITE':
            w.ev('Update')
        elif m == 'ka':
            env.run_until(CLK.now + 1000)
        elif m == 'REFER':
            w.ev('Redirect')
        else:
            w.ev('Disconnect')
        got = SENT[n]
        meth = 'INVITE' if m == 'ka' else m
        h.check(method_of(got[1]) == meth, 'sent', got=got[1].split('\r\n')[0])
        h.reach(m)
        # a strict first hop that has been made the request URI keeps only what may be there
        h.check(got[1].split('\r\n', 1)[0] == meth + ' ' + ruri + ' SIP/2.0', 'request URI',
                got=got[1].split('\r\n', 1)[0], want=ruri)
        h.check(hvals(got[1], 'route') == routes, 'Route set', got=repr(hvals(got[1], 'route')))
        h.check(h.eq(got[2], dst), 'destination', got=got[2], want=dst)
        h.check(hval(got[1], 'call-id') == w.callid, 'Call-ID')
        if m in ('INVITE', 'ka'):
            w.answer(200, body=40 + i)
            a = SENT[-1]
            h.check(method_of(a[1]) == 'ACK', 'acknowledged')
        elif m == 'INFO':
            w.answer_last('INFO', 200)
        if m in ('REFER', 'BYE'):
            break
    h.check(len(DUMPS) == 0, 'no internal exception', dumps=str(DUMPS)[:300])


HEXA = '0123456789abcdef'


def spoil(h, name, v):
    """v, or v with one character replaced by a symbolic one / cut / prolonged; and whether it is still v"""
    how = h.choose(name + '.how', ['same', 'first', 'last', 'cut', 'more', 'none', 'upper'])
    if how == 'same':
        return v, True
    if how == 'none':
        return None, False
    if how == 'cut':
        return v[:-1], False
    if how == 'more':
        return v + 'a', False
    if how == 'upper':
        u = v.upper()
        return u, u == v
    c = h.str(name + '.c', 1, 1, alphabet=HEXA + 'gtGT_-')
    t = c + v[1:] if how == 'first' else v[:-1] + c
    return t, t == v


@scenario('U04', reach=('mine', 'foreign', 'swapped'),
          bounds='established leg of either direction; BYE, INFO, OPTIONS or INVITE received whose Call-ID, From tag or To tag is '
                 'altered: first or last character symbolic, cut, prolonged, absent, upper case, or tags swapped')
def received(h):
    kind = h.choose('kind', ['uac', 'uas'])
    w = World(h, kind)
    k = Walk(h, w, 0)
    if kind == 'uac':
        k.p_2xx('up')
    else:
        k.a_connect('up')
        w.peer_ack()
    f, t = w.peer_tags()
    ft, tt = f.split(';tag=')[1], t.split(';tag=')[1]
    which = h.choose('which', ['callid', 'from', 'to', 'swap'])
    cid, mine = w.callid, True
    if which == 'callid':
        cid, mine = spoil(h, 'cid', cid)
        if cid is None:
            cid = 'x'
    elif which == 'from':
        ft, mine = spoil(h, 'ft', ft)
    elif which == 'to':
        tt, mine = spoil(h, 'tt', tt)
    else:
        ft, tt, mine = tt, ft, False
        h.reach('swapped')
    fs, ts = f.split(';tag=')[0], t.split(';tag=')[0]
    m = h.choose('method', ['BYE', 'INFO', 'OPTIONS', 'INVITE'])
    nlog, nev, n = len(w.log), len(w.events), len(SENT)
    text = w.peer_text(m, frm=fs + (';tag=' + ft if ft is not None else ''), to=ts + (';tag=' + tt if tt is not None else ''),
                       callid=cid, body=9 if m == 'INVITE' else None)
    env.deliver(w.tm, text)
    codes = [code_of(s[1]) for s in SENT[n:]]
    if mine:
        h.reach('mine')
        h.check(len(w.outofdialog) == 0, 'not out of dialog')
        h.check(codes == [100 if m == 'INVITE' else 200], 'answered by the leg', codes=str(codes))
        h.check(w.ended == (m == 'BYE'), 'BYE takes effect')
        h.check(len(w.events) == nev + (0 if m == 'OPTIONS' else 1), 'reported')
    else:
        h.reach('foreign')
        h.check(len(w.outofdialog) == 1, 'treated as out of dialog')
        h.check(codes == [481], 'answered so')
        h.check(len(w.log) == nlog and len(w.events) == nev and not w.ended, 'nothing reaches the leg')
    h.check(len(DUMPS) == 0, 'no internal exception', dumps=str(DUMPS)[:300])


@scenario('U04', reach=('first', 'second', 'neither', 'merged'),
          bounds='two incoming legs with one Call-ID (a call that passes here twice) and From tags that may be equal, in either '
                 'order of being answered; BYE, INFO or re-INVITE with From tag and To tag of either or neither')
def siblings(h):
    from sippy.UA import UA
    from sippy.CCEvents import CCEventConnect
    legs = []

    class Leg(object):
        def __init__(self, gc):
            self.events = []
            self.ended = []
            self.ua = UA(gc, self.event, disc_cbs=(self.disc,), nh_address=('10.0.0.3', 5060))

        def event(self, e, ua):
            self.events.append(e)

        def disc(self, ua, *a):
            self.ended.append(CLK.now)

    out = []

    def recv(req, sip_t):
        if req.getMethod() == 'INVITE' and req.getHFBody('to').getTag() is None:
            leg = Leg(gc)
            legs.append(leg)
            return leg.ua.recvRequest(req, sip_t)
        out.append(req)
        return (req.genResponse(481, 'X'), None, None)
    tm, gc = env.make_tm(recv)
    env.stop_housekeeping()
    tag2 = h.str('tag2', 2, 2, alphabet='ft1')
    tags = ['ft', tag2]
    early = h.choose('early', [False, True])      # the first is answered before the second arrives
    tos = [None, None]

    def up(i):
        from harness.ua import mbody
        n = len(SENT)
        legs[i].ua.recvEvent(CCEventConnect((200, 'OK', mbody(5 + i))))
        tos[i] = hval(SENT[-1][1], 'to').split(';tag=')[1]
        h.check(code_of(SENT[-1][1]) == 200, 'answered')
        env.deliver(tm, request('ACK', cseq='1', frm='<sip:alice@10.0.0.2>;tag=' + tags[i],
                                to='<sip:bob@10.0.0.1>;tag=' + tos[i],
                                via='SIP/2.0/UDP 10.0.0.2:5060;branch=z9hG4bKack%d' % i))
    for i in range(2):
        env.deliver(tm, request('INVITE', cseq='1', frm='<sip:alice@10.0.0.2>;tag=' + tags[i],
                                via='SIP/2.0/UDP 10.0.0.2:5060;branch=z9hG4bKinv%d' % i, body='v=0\r\no=- 1 1 IN IP4 1.1.1.1\r\n'
                                's=-\r\nc=IN IP4 10.0.0.2\r\nt=0 0\r\nm=audio 1000 RTP/AVP 0\r\n'))
        if i == 0 and early:
            up(0)
    h.check(len(legs) == 2, 'two calls')
    if not early:
        up(0)
    up(1)
    if h.eq(tags[0], tags[1]):
        h.reach('merged')
    a = h.choose('ft', [0, 1])
    b = h.choose('tt', [0, 1])
    m = h.choose('method', ['BYE', 'INFO', 'INVITE'])
    n, nev = len(SENT), [len(x.events) for x in legs]
    env.deliver(tm, request(m, cseq='2', frm='<sip:alice@10.0.0.2>;tag=' + tags[a], to='<sip:bob@10.0.0.1>;tag=' + tos[b],
                            via='SIP/2.0/UDP 10.0.0.2:5060;branch=z9hG4bKreq'))
    code = code_of(SENT[n][1])
    hit = None
    if h.eq(tags[a], tags[b]):
        hit = b
    for i in range(2):
        d = len(legs[i].events) - nev[i]
        h.check(d == (1 if i == hit else 0), 'reported to the right leg', leg=i, hit=hit, got=d)
        h.check(len(legs[i].ended) == (1 if i == hit and m == 'BYE' else 0), 'ends the right leg')
    if hit is None:
        h.reach('neither')
        h.check(code == 481 and len(out) == 1, 'out of dialog')
    else:
        h.reach('first' if hit == 0 else 'second')
        h.check(len(out) == 0, 'not out of dialog')
    h.check(len(DUMPS) == 0, 'no internal exception', dumps=str(DUMPS)[:300])
