"""U06: answered challenges are retried exactly once with a valid answer."""
from hashlib import md5, sha256
from symx.runner import scenario, quick
from symx import env
from symx.env import SENT, CLK, T0, DUMPS
from harness.sip import *
from harness.ua import World, Walk, seqno, mbody, sdp

SDP1 = sdp(1)


def params(text):
    """parameters of credentials, names in lower case"""
    out = {}
    rest = text.split(' ', 1)[1].split('"')
    for i in range(1, len(rest), 2):
        rest[i] = rest[i].replace(',', '\0')
    for p in ''.join(rest).split(','):
        n, v = p.split('=', 1)
        out[n.strip().lower()] = v.strip().replace('\0', ',')
    return out


def hx(alg, s):
    return (sha256 if alg is not None and alg.startswith('SHA-256') else md5)(s.encode()).hexdigest()


def digest(c, user, passwd, method, body):
    """RFC 2617 / 7616"""
    alg = c.get('algorithm')
    a1 = hx(alg, user + ':' + c['realm'] + ':' + passwd)
    if alg is not None and alg.endswith('-sess'):
        a1 = hx(alg, a1 + ':' + c['nonce'] + ':' + c['cnonce'])
    a2 = method + ':' + c['uri']
    qop = c.get('qop')
    if qop == 'auth-int':
        a2 = a2 + ':' + hx(alg, body)
    a2 = hx(alg, a2)
    if qop is None:
        return hx(alg, a1 + ':' + c['nonce'] + ':' + a2)
    return hx(alg, ':'.join((a1, c['nonce'], c['nc'], c['cnonce'], qop, a2)))


# challenge parameters and which of several is to be answered
CH = {'plain': ('realm="r 1",nonce="n%s"', True),
      'md5': ('realm="r",nonce="n%s",algorithm=MD5,opaque="o",qop="auth"', True),
      'int': ('realm="r",nonce="n%s",qop="auth-int"', True),
      'both': ('realm="r",nonce="n%s",qop="auth,auth-int",algorithm=SHA-256', True),
      'sess': ('realm="r",nonce="n%s",qop="auth",algorithm=MD5-sess', True),
      'alien': ('realm="r",nonce="n%s",qop="auth",algorithm=XYZ', False),
      'noqop': ('realm="r",nonce="n%s",algorithm=SHA-256', False),
      'badqop': ('realm="r",nonce="n%s",qop="auth-conf"', False)}
SETS = [('plain',), ('md5',), ('int',), ('both',), ('sess',), ('alien',), ('noqop', 'badqop'), ('alien', 'md5'), ()]


def challenge(code, kinds, tag):
    n = 'WWW-Authenticate' if code == 401 else 'Proxy-Authenticate'
    return tuple('%s: Digest %s' % (n, CH[k][0] % (tag + k)) for k in kinds)


def usable(kinds):
    for k in kinds:
        if CH[k][1]:
            return k
    return None


def ahdr(code):
    return 'authorization' if code == 401 else 'proxy-authorization'


def answered(h, data, code, kind, tag, method, user, body):
    """data carries a valid answer to that challenge"""
    a = hvals(data, ahdr(code))
    h.check(len(a) == 1, 'one answer', got=repr(a))
    c = params(a[0])
    want = params('Digest ' + CH[kind][0] % (tag + kind))
    h.check(a[0].split(' ', 1)[0] == 'Digest', 'scheme')
    h.check(c['username'] == user[0], 'user')
    h.check(c['realm'] == want['realm'] and c['nonce'] == want['nonce'], 'realm and nonce of the challenge')
    h.check(c.get('opaque') == want.get('opaque'), 'opaque of the challenge')
    h.check(c.get('algorithm') == want.get('algorithm'), 'algorithm of the challenge')
    # (the default port may be written in one and left out in the other)
    h.check(c['uri'].replace(':5060', '') == data.split(' ', 2)[1].replace(':5060', ''), 'URI is that of the request', got=c['uri'], want=data.split(' ', 2)[1])
    q = want.get('qop')
    if q is None:
        h.check('qop' not in c, 'no qop')
    else:
        h.check(c['qop'] == ('auth' if kind != 'int' else 'auth-int'), 'offered qop')
        h.check(len(c['nc']) == 8 and len(c['cnonce']) > 0, 'nc and cnonce')
    h.check(c['response'] == digest(c, user[0], user[1], method, body), 'digest', got=c['response'])


@scenario('U06', reach=('retried', 'both', 'refused', 'second', 'nocred', 'answered', 'gone'),
          bounds='outgoing leg with or without credentials, body or late offer, extra headers and hop limit; it is challenged up to 3 '
                 'times with 401 or 407 in any order, each with one of 9 sets of challenges (plain, MD5, auth-int, SHA-256, '
                 'MD5-sess, unknown algorithm, unusable qop, none), possibly after a provisional response or after the '
                 'application hung up; then answered')
def invite(h):
    from sippy.CCEvents import CCEventTry
    from sippy.SipHeader import SipHeader
    from sippy.SipReason import SipReason
    user = h.choose('user', [('u', 'p w'), None])
    late = h.choose('late', [False, True])
    w = World(h, 'uac', user=user, start=False)
    w.body = None if late else 1
    ua = w.mkua()
    ua.extra_headers = (SipHeader('X-Own: 7'),)
    ev = CCEventTry((None, 'alice', 'bob', mbody(w.body), None, 'Alice'))
    ev.extra_headers = (SipHeader('X-Ev: a b'),)
    ev.reason_rfc3326 = SipReason(protocol='Q.850', cause=16)
    ev.max_forwards = h.choose('mf', [None, 5])
    ua.recvEvent(ev)
    w.inv = None
    w.look()
    seen = []          # codes answered
    first = w.inv
    failed = False
    for i in range(2 if quick() else 3):
        cur = w.last('INVITE')
        tag = 't%d' % i
        code = h.choose('code%d' % i, [401, 407])
        kinds = h.choose('set%d' % i, SETS if i == 0 else SETS[1:6])
        if i == 0 and h.choose('prov', [False, True]):
            w.answer(180, inv=cur)
        gone = False
        if i == 1 and h.choose('gone', [False, True]):
            gone = True
            w.ev('Disconnect')
            h.reach('gone')
        n = len(w.distinct('INVITE'))
        w.answer(code, inv=cur, contact=None, extra=challenge(code, kinds, tag))
        k = usable(kinds)
        acks = [a for a in w.sent('ACK') if seqno(a[1]) == seqno(cur)]
        h.check(len(acks) == 1, 'the challenge is acknowledged')
        if user is None or k is None or code in seen or gone:
            h.check(len(w.distinct('INVITE')) == n, 'not repeated', log=str([x[0] for x in w.log]))
            h.check(w.ended, 'over')
            if not gone:
                h.check(w.count('fail') == 1, 'failure reported')
                f = [x[0] for x in w.events if x[0].name == 'CCEventFail']
                h.check(len(f) == 1 and f[0].getData()[0] == code, 'with the code of the challenge')
            h.reach('nocred' if user is None else 'refused' if k is None else 'second')
            failed = True
            break
        h.reach('retried')
        h.check(len(w.distinct('INVITE')) == n + 1, 'repeated once')
        h.check(not w.ended and w.count('fail') == 0 and w.events == [x for x in w.events if x[0].name == 'CCEventRing'],
                'nothing reported')
        new = w.last('INVITE')
        for hd in ('call-id', 'from', 'to', 'contact', 'x-own', 'x-ev', 'reason', 'max-forwards', 'content-type'):
            h.check(hvals(new, hd) == hvals(cur, hd), 'unchanged ' + hd, got=repr(hvals(new, hd)))
        h.check(new.split('\r\n')[0] == cur.split('\r\n')[0], 'same request line')
        h.check(hdrs(new)[2] == hdrs(cur)[2], 'same body')
        h.check(seqno(new) > seqno(cur), 'higher sequence number')
        h.check(hval(new, 'via') != hval(cur, 'via'), 'new branch')
        body = hdrs(new)[2]
        answered(h, new, code, k, tag, 'INVITE', user, body)
        if seen:
            h.reach('both')
            # the answer to the earlier challenge is still there
            answered(h, new, seen[0], usable(prev[1]), prev[0], 'INVITE', user, body)
        seen.append(code)
        prev = (tag, kinds)
    if ev.max_forwards is not None:
        h.check(hval(first, 'max-forwards') == '5', 'hop limit')
    if not failed:
        k = Walk(h, w, 0)
        w.inv = w.last('INVITE')
        k.p_2xx('up')
        if late:
            w.ev('Connect')
        h.check(w.count('conn') == 1, 'answered')
        h.check(len([a for a in w.distinct('ACK') if seqno(a) == seqno(w.inv)]) == 1, 'acknowledged')
        h.reach('answered')
    w.finish()
    h.check(w.count('fail', 'disc') == 1, 'ended once')
    h.check(len(DUMPS) == 0, 'no internal exception', dumps=str(DUMPS)[:300])


@scenario('U06', reach=('retried', 'reported'),
          bounds='established leg of either direction sends a re-INVITE that is challenged once or twice (401/407, any order)')
def update(h):
    user = ('u', 'p')
    kind = h.choose('kind', ['uac', 'uas'])
    w = World(h, kind, user=user)
    k = Walk(h, w, 0)
    if kind == 'uac':
        k.p_2xx('up')
    else:
        k.a_connect('up')
        w.peer_ack()
    w.ev('Update')
    seen = []
    for i in range(2):
        cur = w.last('INVITE')
        code = h.choose('code%d' % i, [401, 407])
        n = len(w.distinct('INVITE'))
        w.answer(code, inv=cur, extra=challenge(code, ('md5',), 't%d' % i))
        if code in seen:
            h.check(len(w.distinct('INVITE')) == n, 'not repeated')
            h.check(w.events[-1][0].name == 'CCEventFail' and w.events[-1][0].getData()[0] == code, 'failure reported')
            h.check(not w.ended, 'the call goes on')
            h.reach('reported')
            break
        seen.append(code)
        new = w.last('INVITE')
        h.check(len(w.distinct('INVITE')) == n + 1 and seqno(new) == seqno(cur) + 1, 'repeated once')
        h.check(hdrs(new)[2] == hdrs(cur)[2], 'same body')
        answered(h, new, code, 'md5', 't%d' % i, 'INVITE', user, hdrs(new)[2])
        h.reach('retried')
    w.finish()
    h.check(len(DUMPS) == 0, 'no internal exception', dumps=str(DUMPS)[:300])


@scenario('U06', reach=('passed', 'nothing'),
          bounds='outgoing leg told to pass challenges on (pass_auth), challenged with 401 or 407 by one or two challenges, before or '
                 'after a provisional response')
def passed(h):
    code = h.choose('code', [401, 407])
    kinds = h.choose('set', [('md5',), ('plain', 'both'), ()])

    def setup(ua):
        ua.pass_auth = True
    w = World(h, 'uac', user=h.choose('user', [None, ('u', 'p')]), setup=setup)
    if h.choose('prov', [False, True]):
        w.answer(h.choose('pc', [100, 183]), inv=w.inv)
    w.answer(code, inv=w.inv, extra=challenge(code, kinds, 't'))
    h.check(len(w.distinct('INVITE')) == 1, 'not repeated')
    h.check(w.count('fail') == 1, 'failure reported')
    e = w.events[-1][0]
    h.check(e.name == 'CCEventFail' and e.getData()[0] == code, 'with its code')
    if kinds:
        eh = [str(x) for x in (e.getExtraHeaders() or ())]
        n = ('WWW' if code == 401 else 'Proxy') + '-Authenticate: Digest '
        h.check(len(eh) == len(kinds), 'all challenges', got=repr(eh))
        for i, k in enumerate(kinds):
            h.check(eh[i].startswith(n) and ('nonce="nt%s"' % k) in eh[i], 'in order')
        h.reach('passed')
    else:
        h.reach('nothing')
    w.finish()
    h.check(len(DUMPS) == 0, 'no internal exception', dumps=str(DUMPS)[:300])


@scenario('U06', reach=('ok', 'retried', 'failed', 'timeout', 'stopped', 'again'),
          bounds='a registration agent over 2 (thorough 3) rounds; in each the registrar answers nothing, 200 (granting a symbolic time '
                 'by Contact parameter, by Expires or not at all), a symbolic failure code, or challenges (401/407, usable or not) '
                 'up to 4 times; stopped or not at a symbolic instant')
def register(h):
    from sippy.SipRegistrationAgent import SipRegistrationAgent
    from sippy.SipURL import SipURL
    tm, gc = env.make_tm(lambda *a: None)
    env.stop_housekeeping()
    ok, fail = [], []
    user = h.choose('user', [('u', 'p'), None])
    ag = SipRegistrationAgent(gc, SipURL(username='al', host='10.0.0.3', port=5070), SipURL(username='al', host='10.0.0.1'),
                              user and user[0], user and user[1], exp=100, rok_cb=lambda t, c, a: ok.append((CLK.now, t, a)),
                              rfail_cb=lambda r, a: fail.append((CLK.now, r, a)), cb_arg='arg',
                              target=(('10.0.0.3', 5070), 'udp'))
    ag.doregister()
    prev = None

    def regs():
        out = []
        for s in SENT:
            if s[1] not in [x[1] for x in out]:
                out.append(s)
        return out

    for i in range(2 if quick() else 3):
        tries = 0
        while True:
            rs = regs()
            cur = rs[-1][1]
            h.check(method_of(cur) == 'REGISTER', 'REGISTER')
            if prev is not None:
                h.check(hval(cur, 'call-id') == hval(prev, 'call-id') and hval(cur, 'from') == hval(prev, 'from'),
                        'one registration')
                h.check(seqno(cur) == seqno(prev) + 1, 'next sequence number')
                h.check(hval(cur, 'via') != hval(prev, 'via'), 'new branch')
            h.check(hval(cur, 'contact').endswith('>;expires=100'), 'time asked for')
            prev = cur
            opts = ['chal', 'ok', 'fail', 'none'] if tries == 0 else ['chal', 'ok', 'fail']
            if tries > 0 and quick() and i > 0:
                opts = ['ok']
            act = h.choose('act%d.%d' % (i, tries), opts)
            if act != 'chal':
                break
            code = h.choose('code%d.%d' % (i, tries), [401, 407] if tries < 2 else [401])
            kinds = h.choose('set%d.%d' % (i, tries), [('md5',), ('both',), ('alien',), ()] if tries == 0 else [('md5',)])
            n, nf = len(regs()), len(fail)
            env.deliver(tm, response_to(cur, code, 'X', contact=None, extra=challenge(code, kinds, 'c%d%d' % (i, tries))))
            if user is None or usable(kinds) is None or tries >= 3:
                h.check(len(regs()) == n and len(fail) == nf + 1, 'failure reported')
                h.reach('failed')
                act = 'failed'
                break
            tries += 1
            h.reach('retried')
            h.check(len(regs()) == n + 1 and len(fail) == nf, 'retried at once')
            answered(h, regs()[-1][1], code, usable(kinds), 'c%d%d' % (i, tries - 1), 'REGISTER', user, '')
        nok, nf, n = len(ok), len(fail), len(regs())
        if act == 'ok':
            how = h.choose('how%d' % i, ['contact', 'expires', 'none'])
            sec = h.int('sec%d' % i, 10, 99)
            ct = '<sip:al@10.0.0.1>' + (';expires=' + str(sec) if how == 'contact' else '')
            env.deliver(tm, response_to(cur, 200, 'OK', contact=ct if how != 'none' else None,
                                        extra=('Expires: ' + str(sec),) if how == 'expires' else ()))
            wait = 100 if how == 'none' else sec
            h.check(len(ok) == nok + 1 and len(fail) == nf, 'success reported')
            h.check(ok[-1][2] == 'arg' and h.eq(ok[-1][1] - env.EPOCH - CLK.now, wait), 'with the time of the next one')
            h.reach('ok')
        elif act == 'fail':
            c = h.int('fc%d' % i, 300, 699)
            h.assume(h.all(c != 401, c != 407))
            env.deliver(tm, response_to(cur, c, 'X', contact=None))
            h.check(len(fail) == nf + 1, 'failure reported')
            wait = 60
            h.reach('failed')
        elif act == 'none':
            env.run_until(CLK.now + 32)
            h.check(len(fail) == nf + 1, 'timeout reported')
            wait = 60
            h.reach('timeout')
        else:
            wait = 60
        h.check(len(regs()) == n, 'not before its time')
        t = CLK.now
        if i > 0 and h.choose('stop', [False, True]):
            env.run_until(CLK.now + h.time('ts', 0, 9))
            ag.stopregister()
            env.run_out(limit=100)
            h.check(len(regs()) == n, 'no more registrations once stopped')
            h.check(len(ok) + len(fail) == nok + nf + (1 if act != 'failed' else 0), 'and no more reports')
            h.reach('stopped')
            break
        d = h.time('dt%d' % i, 0, 99)
        h.assume(d < wait)
        env.run_until(t + d)
        h.check(len(regs()) == n, 'not before its time')
        env.run_until(t + wait)
        h.check(len(regs()) == n + 1, 'registered again on time')
        h.reach('again')
    h.check(len(DUMPS) == 0, 'no internal exception', dumps=str(DUMPS)[:300])
