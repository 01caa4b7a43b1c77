"""B06: only admitted callers get a call, and each answer to them is right."""
from symx.runner import scenario, quick
from symx import env
from symx.env import SENT, CLK, T0, DUMPS
from harness.sip import *
from harness.b2b import *

AL = ''.join(chr(i) for i in range(33, 127) if chr(i).isalnum())
TOK = AL + "-.!%*_+`'~"
KNOWN = ['OPTIONS', 'BYE', 'CANCEL', 'ACK', 'INFO', 'UPDATE', 'REFER', 'NOTIFY', 'PING', 'REGISTER', 'SUBSCRIBE', 'MESSAGE', 'PRACK']


def placed():
    return [s for s in SENT if method_of(s[1]) == 'INVITE']


def answers(addr=None):
    """final responses sent"""
    return [s for s in SENT if code_of(s[1]) is not None and code_of(s[1]) >= 200 and (addr is None or s[2] == addr)]


@scenario('B06', reach=('admitted', 'refused', 'open'),
          bounds='list of 0..2 accepted addresses or none, each with a symbolic number 10..99 in it; source address with another; '
                 'INVITE with one or two Via, the upper naming any of them; one or two calls in a row')
def sources(h):
    n = h.choose('n', [None, 0, 1, 2])
    ips = None if n is None else ['10.0.0.' + str(h.int('a%d' % i, 10, 99)) for i in range(n)]
    cfg = {} if ips is None else {'_accept_ips': ips}
    a = setup(h, ('10.0.0.3',), **cfg)
    ok = None
    for k in range(h.choose('calls', [1, 2])):
        src = ('10.0.0.' + str(h.int('s%d' % k, 10, 99)), 5062)
        m = len(SENT)
        before = len(a.cmap.ccmap)
        via = 'SIP/2.0/UDP 10.0.0.55:5062;branch=z9hG4bKa%d' % k
        if h.choose('via', [1, 2]) == 2:
            via += ', SIP/2.0/UDP 10.0.0.56;branch=z9hG4bKx%d' % k
        env.deliver(a.tm, request('INVITE', callid='c%d' % k, via=via, body=sdp(1)), src)
        ok = True if ips is None else h.any(*[src[0] == x for x in ips])
        if ok:
            h.check(len([s for s in SENT[m:] if method_of(s[1]) == 'INVITE']) == 1, 'a call from an accepted address is placed')
            h.check(len(a.cmap.ccmap) == before + 1, 'it is in the call list')
            h.reach('open' if ips is None else 'admitted')
        else:
            out = SENT[m:]
            h.check(len(out) == 1 and code_of(out[0][1]) == 403, 'any other is refused with 403', n=len(out))
            h.check(out[0][2][0] == src[0], 'the refusal goes to where the request came from')
            h.check(len(a.cmap.ccmap) == before, 'no call is created')
            h.reach('refused')


@scenario('B06', reach=('dialog', '200', '501', 'silent', 'any'),
          bounds='all request methods known to SIP and any of 1..3 symbolic token characters, with or without tag in To')
def outside(h):
    a = setup(h, ('10.0.0.3',))
    if h.choose('k', ['known', 'any']) == 'known':
        m = h.choose('m', KNOWN + ['INVITE'])
    else:
        m = h.str('m', 1, 3, alphabet=TOK)
        h.reach('any')
    tag = h.choose('tag', [None, 't'])
    if m == 'INVITE' and tag is None:
        h.assume(False)
    to = '<sip:bob@10.0.0.1>' + ('' if tag is None else ';tag=' + h.str('tg', 1, 2, alphabet=TOK))
    env.deliver(a.tm, request(m, cseq='7', callid='cX', to=to, contact='<sip:alice@10.0.0.2>'))
    h.check(len(placed()) == 0 and len(a.cmap.ccmap) == 0, 'no call is created')
    h.check(len(DUMPS) == 0, 'no internal exception', dumps=str(DUMPS)[:200])
    f = answers()
    if m == 'ACK':
        h.check(len(SENT) == 0, 'an acknowledgement is not answered')
        h.reach('silent')
        return
    h.check(len(f) == 1, 'one answer', n=len(f))
    c = code_of(f[0][1])
    h.check(f[0][2] == ('10.0.0.2', 5060), 'to the sender')
    h.check(h.eq(hval(f[0][1], 'cseq'), '7 ' + m), 'for this request')
    if m == 'CANCEL' or tag is not None:
        h.check(c == 481, 'nothing to refer to', got=c)
        h.reach('dialog')
    elif m == 'NOTIFY' or m == 'PING':
        h.check(c == 200, 'accepted', got=c)
        h.reach('200')
    else:
        h.check(c == 501, 'not implemented', got=c)
        h.reach('501')


@scenario('B06', reach=('onwards', 'exhausted', 'default'),
          bounds='Max-Forwards absent or 0..255, on one call with one or two routes, with accounting or not; everything until the call is over')
def hops(h):
    mf = h.choose('has', [True, False]) and h.int('mf', 0, 255)
    acct = h.choose('acct', [False, True])
    a = setup(h, ('10.0.0.3', '10.0.0.4'), auth=True, acct=acct)
    c = Peer(h, a, 'caller', CALLER, 10)
    c.invite(maxfwd=None if mf is False else str(mf))
    a.grant()
    if mf is not False and mf <= 1:
        h.check(len(placed()) == 0, 'the call is not sent on')
        f = c.finals()
        h.check(len(f) == 1 and code_of(f[0]) == 483, 'it is refused', got=len(f))
        h.reach('exhausted')
        if acct:
            h.check(len([1 for t, r in a.radius.acct if ('h323-call-origin', 'answer') in r]) == 1 and len(a.radius.acct) == 1,
                    'accounting is closed, once')
    else:
        p = placed()
        h.check(len(p) == 1, 'the call is placed')
        g = hval(p[0][1], 'max-forwards')
        if mf is False:
            h.check(int(g) == 70, 'the usual limit', got=g)
            h.reach('default')
        else:
            h.check(int(g) == mf - 1, 'one hop less', got=g)
            h.reach('onwards')
        o = Peer(h, a, 'callee', '10.0.0.3', 50)
        o.look()
        o.answer(503)
        p = placed()
        h.check(len(p) == 2, 'the second route is tried')
        h.check(hval(p[1][1], 'max-forwards') == g, 'with the same limit')
        c.cancel()
    env.run_out()
    a.clean(h)


@scenario('B06', reach=('passed', 'absent', 'twice'),
          bounds='two names to pass in any of three spellings, a third that is not; 0..2 headers of the first with values of 0..2 symbolic characters '
                 'in the INVITE, in either spelling; two routes')
def passed(h):
    names = h.choose('names', [['x-one', 'x-two'], ['x-two', 'x-one']])
    a = setup(h, ('10.0.0.3;ash=X-Own%3A1', '10.0.0.4'), auth=True, _pass_headers=names)
    sp = h.choose('sp', ['X-One', 'x-one', 'X-ONE'])
    n = h.choose('n', [0, 1, 2])
    vals = []
    for i in range(n):
        v = h.str('v%d' % i, 0, 2, alphabet=''.join(chr(x) for x in range(32, 127)) + '\xe9')
        h.assume(v.strip() == v)
        vals.append(v)
    extra = [sp + ': ' + v for v in vals]
    two = h.choose('two', [False, True])
    if two:
        extra.append('X-Two:second')
    extra.append('X-Three: no')
    c = Peer(h, a, 'caller', CALLER, 10)
    c.invite(extra=extra)
    a.grant()
    o = Peer(h, a, 'callee', '10.0.0.3', 50)
    o.look()
    o.answer(500)
    p = placed()
    h.check(len(p) == 2, 'both routes are tried')
    for i, s in enumerate(p):
        h.check(h.eq(hvals(s[1], 'x-one'), vals), 'headers to pass are passed as they are', got=hvals(s[1], 'x-one'))
        h.check(hvals(s[1], 'x-two') == (['second'] if two else []), 'the other one')
        h.check(hvals(s[1], 'x-three') == [], 'others are not')
        h.check(hvals(s[1], 'x-own') == (['1'] if i == 0 else []), 'those of the route only with it')
    h.reach('absent' if n == 0 else 'passed')
    if n == 2:
        h.reach('twice')


def media(text):
    """[(m= fields, attributes)] of an SDP"""
    out = []
    for ln in text.split('\r\n'):
        if ln.startswith('m='):
            out.append((ln[2:].split(' '), []))
        elif ln.startswith('a=') and out:
            out[-1][1].append(ln[2:])
    return out


@scenario('B06', reach=('kept', 'filtered', 'refused', 'image', 'named'),
          bounds='list of two allowed types (a number 0..127, symbolic, and a name); an offer of one or two audio sections with 1..3 types 0..127 '
                 '(two of them symbolic) with format attributes, or a fax section; an answer likewise')
def types(h):
    ok = h.int('ok', 0, 127)
    a = setup(h, ('10.0.0.3',), _allowed_pts=[ok, 'speex/8000'])
    kind = h.choose('kind', ['one', 'two', 'image'])
    t1, t2 = h.int('t1', 0, 127), h.int('t2', 0, 127)
    h.assume(h.all(t1 != t2, t1 != 97, t2 != 97, t1 != 0, t2 != 0))
    named = h.choose('named', [False, True])
    if kind == 'image':
        sects = [('m=image 5000 udptl t38', [], None)]
    else:
        fm = [t1, t2] + ([97] if named else [])
        at = ['rtpmap:' + str(t1) + ' AAA/8000', 'fmtp:' + str(t1) + ' x=1', 'ptime:20', 'rtpmap:' + str(t2) + ' BBB/8000']
        if named:
            at.append('rtpmap:97 speex/8000')
        sects = [('m=audio 5000 RTP/AVP ' + ' '.join([str(x) for x in fm]), at, fm)]
        if kind == 'two':
            sects.append(('m=audio 5002 RTP/AVP 0', ['sendrecv'], [0]))
    body = 'v=0\r\no=- 1 1 IN IP4 10.0.0.2\r\ns=-\r\nc=IN IP4 10.0.0.2\r\nt=0 0\r\n'
    for m, at, f in sects:
        body += m + '\r\n' + ''.join(['a=' + x + '\r\n' for x in at])
    env.deliver(a.tm, request('INVITE', body=body))
    p = placed()
    want = []
    for m, at, f in sects:
        if f is None:
            want.append(None)
            continue
        want.append([x for x in f if h.any(x == ok, x == 97 and named)])
    if h.any(*[w is not None and len(w) == 0 for w in want]):
        h.check(len(p) == 0, 'an offer without an allowed type is not passed on')
        f = answers()
        h.check(len(f) == 1 and code_of(f[0][1]) == 488, 'it is refused with 488', got=[code_of(x[1]) for x in f])
        env.run_out()
        a.clean(h)
        h.reach('refused')
        return
    h.check(len(p) == 1, 'the call is placed')
    got = media(hdrs(p[0][1])[2])
    h.check(len(got) == len(sects), 'sections kept')
    for (m, at, f), w, (gm, gat) in zip(sects, want, got):
        h.check(h.eq(gm[:3], m[2:].split(' ')[:3]), 'kind, port and transport kept')
        if w is None:
            h.check(gm[3:] == ['t38'], 'other media is left alone')
            h.reach('image')
            continue
        h.check(h.eq(gm[3:], [str(x) for x in w]), 'allowed types only, in order', got=gm[3:])
        keep = []
        for x in at:
            if x.startswith('rtpmap:') or x.startswith('fmtp:'):
                if h.any(*[x.split(':', 1)[1].split(' ')[0] == str(y) for y in w]):
                    keep.append(x)
            else:
                keep.append(x)
        h.check(h.eq(gat, keep), 'attributes of the others are removed', got=gat)
        h.reach('filtered' if len(w) < len(f) else 'kept')
        if named:
            h.reach('named')


@scenario('B06', reach=('challenged', 'asked', 'rejected', 'digest', 'accepted'),
          bounds='authorisation of callers by address and/or credentials: INVITE with or without credentials (3 symbolic characters), '
                 'digest wanted, only digest or none; answer of the authorisation either way')
def digest(h):
    mode = h.choose('mode', [(False, False), (True, False), (True, True)])
    a = setup(h, ('10.0.0.3',), auth=True, digest_auth=mode[0], digest_auth_only=mode[1])
    cred = h.choose('cred', [False, True])
    extra = ()
    if cred:
        u, r, n = (h.str(x, 1, 1, alphabet=AL + ' -.@') for x in ('u', 'r', 'n'))
        extra = ('Authorization: Digest username="' + u + '", realm="' + r + '", nonce="' + n + '", uri="sip:x@y", response="abc"',)
    c = Peer(h, a, 'caller', CALLER, 10)
    c.invite(extra=extra)
    if mode[1] and not cred:
        f = answers()
        h.check(len(f) == 1 and code_of(f[0][1]) == 401, 'challenged at once')
        chal(h, f[0][1])
        h.check(len(a.cmap.ccmap) == 0 and len(a.radius.log) == 0, 'no call is created')
        h.reach('challenged')
        return
    h.check(len(a.radius.log) == 1 and len(placed()) == 0, 'authorisation is asked first')
    user, caller, callee, cid, ip, realm, nonce, uri, resp, ex = a.radius.log[0]
    h.check((caller, callee, cid, ip) == ('alice', 'bob', 'cid1', '10.0.0.2'), 'for this call')
    if cred:
        h.check(h.all(user == u, realm == r, nonce == n, uri == 'sip:x@y', resp == 'abc'), 'with the credentials')
        h.reach('digest')
    else:
        h.check(user == '10.0.0.2' and (realm, nonce, uri, resp) == (None,) * 4, 'with the address')
        h.reach('asked')
    if h.choose('answer', [False, True]):
        a.grant()
        h.check(len(placed()) == 1, 'the call is placed when accepted')
        h.reach('accepted')
        c.cancel()
    else:
        a.radius.done(((), 1))
        f = answers()
        h.check(len(placed()) == 0, 'the call is not placed')
        if mode[0] and not cred:
            h.check(len(f) == 1 and code_of(f[0][1]) == 401, 'credentials are asked for')
            chal(h, f[0][1])
        else:
            h.check(len(f) == 1 and code_of(f[0][1]) == 403, 'refused')
        c.react()
        h.reach('rejected')
    env.run_out()
    a.clean(h)


def chal(h, text):
    ch = hvals(text, 'www-authenticate')
    h.check(len(ch) == 1 and ch[0].startswith('Digest '), 'with a challenge', got=ch)
    from harness.a01 import params, one
    ps = params(ch[0])[1]
    h.check(one(ps, 'realm') == '10.0.0.1', 'realm of the challenge', got=one(ps, 'realm'))
    h.check(one(ps, 'nonce') not in (None, 'DUPLICATE', ''), 'nonce of the challenge')


@scenario('B06', reach=('restarting', 'stopping', 'stopped'),
          bounds='a restart or stop requested before, during or after establishment of a call; another call afterwards; '
                 'stop completes once no call is left')
def stop(h):
    from sippy import b2bua
    a = setup(h, ('10.0.0.3',))
    ended = []
    b2bua.ED2.breakLoop = lambda *x: ended.append(CLK.now)
    c = Peer(h, a, 'caller', CALLER, 10)
    o = Peer(h, a, 'callee', '10.0.0.3', 50)
    when = h.choose('when', ['before', 'during', 'after'])
    how = h.choose('how', ['restart', 'stop'])
    if when != 'before':
        c.invite()
        o.look()
        o.answer(180)
        if when == 'after':
            o.answer(200, body=60)
            c.react()
    ts = CLK.now
    (a.cmap.safeRestart if how == 'restart' else a.cmap.safeStop)(15)
    n = len(SENT)
    env.deliver(a.tm, request('INVITE', callid='c2', via='SIP/2.0/UDP 10.0.0.8:5060;branch=z9hG4bKn', body=sdp(1)), ('10.0.0.8', 5060))
    out = SENT[n:]
    h.check(len(out) == 1 and code_of(out[0][1]) == 503, 'further calls are refused')
    h.check(len(a.cmap.ccmap) == (0 if when == 'before' else 1), 'and create nothing')
    if how == 'restart':
        if when == 'during':
            o.answer(200, body=60)
            h.check(code_of(c.finals()[0]) == 200, 'a call under way goes on')
        if when != 'before':
            c.bye()
            h.check(o.got_bye(), 'until it is hung up')
        h.reach('restarting')
        return
    if when == 'during':
        h.check(len(c.finals()) == 1 and code_of(c.finals()[0]) >= 400, 'the caller is told')
        h.check(len(o.msgs('CANCEL')) == 1, 'the attempt is cancelled')
    if when == 'after':
        h.check(c.got_bye() and o.got_bye(), 'calls are hung up')
    h.reach('stopping')
    env.run_until(ts + h.time('t', 0, 3))
    h.check(len(ended) == (1 if CLK.now >= ts + 0.5 else 0), 'the agent stops half a second later')
    if ended:
        h.reach('stopped')


@scenario('B06', reach=('in', 'out', 'nat', 'hidden', 'shown'),
          bounds='number of 1..3 symbolic characters marked as behind NAT or not; Call-ID hidden or not; six numbers rewritten by a rule on the way in or out')
def numbers(h):
    cfg = {}
    mode = h.choose('mode', ['in', 'out', 'nat', 'id'])
    # (numbers that meet rules are listed: regular expressions are not encoded)
    num = h.choose('number', ['0', '01', '10', '100', '5', '00']) if mode in ('in', 'out') else \
        h.str('num', 1, 3, alphabet='0123456789ab')
    erase = mode == 'out' and h.choose('erase', [False, True])
    want = num
    seen = num
    to = num
    if mode in ('in', 'out'):
        # a leading 0 is replaced, or everything of two kinds
        cfg['static_tr_in' if mode == 'in' else 'static_tr_out'] = 's/^0/+44/'
        if num.startswith('0'):
            want = '+44' + num[1:]
        if mode == 'in':
            seen = want
    if mode == 'nat':
        to = 'nat-' + num
    hide = mode == 'id' and h.choose('hide', [False, True])
    if hide:
        cfg['hide_call_id'] = True
    a = setup(h, ('@10.0.0.3' if erase else '10.0.0.3',), auth=True, **cfg)
    env.deliver(a.tm, request('INVITE', ruri='sip:' + to + '@10.0.0.1', callid='cid1', body=sdp(1)))
    h.check(a.radius.log[0][2] == seen, 'number authorised', got=a.radius.log[0][2])
    a.grant()
    p = placed()
    h.check(len(p) == 1, 'the call is placed')
    h.check(p[0][1].split(' ', 2)[1] == 'sip:' + ('' if erase else want + '@') + '10.0.0.3', 'number called', got=p[0][1].split(' ', 2)[1])
    b = hdrs(p[0][1])[2]
    h.check(('a=nated:yes' in b) == (mode == 'nat'), 'mark of NAT')
    cid = hval(p[0][1], 'call-id')
    h.check(cid != 'cid1', 'the second leg has its own Call-ID')
    if hide:
        h.check('cid1' not in cid, 'which hides that of the first')
        h.reach('hidden')
    elif mode == 'id':
        h.check(cid == 'cid1-b2b_1', 'which is derived from that of the first')
        h.reach('shown')
    else:
        h.reach(mode)
