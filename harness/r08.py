"""R08: which media proxies are available, and what they are known to be capable of."""
from symx.runner import scenario, quick
from symx import env
from symx.env import SENT, CLK, T0, DUMPS
from harness.sip import *

CAPS = {'20071218': 'copy_supported', '20080403': 'stat_supported', '20081224': 'tnot_supported', '20090810': 'sbind_supported',
        '20150617': 'wdnt_supported', '20250523': 'copy_p_supported'}


class W(object):
    """the real client on a double of its transport, which takes the commands and answers them as the scenario says"""

    def __init__(self, h, kind='udp'):
        self.h = h
        self.kind = kind
        self.sent = []          # (time, command)
        self.pend = []
        self.down = False
        self.failed_in_cb = 0
        w = self

        class Transport(object):
            def __init__(self, global_config, **kw):
                self.address = kw['address']

            def send_command(self, command, cb=None, *par):
                w.h.check(not w.down, 'nothing is sent after shutdown', cmd=str(command))
                w.sent.append((CLK.now, str(command)))
                w.pend.append((str(command), cb, par))

            def shutdown(self):
                pass

            def get_rtpc_delay(self):
                return 0.1

        import sippy.Core.EventDispatcher as ed
        ed.random = lambda: h.real('rnd', 0, 1)
        import sippy.Rtp_proxy.client as m
        m.Rtp_proxy_client_udp = m.Rtp_proxy_client_stream = Transport
        self.c = m.Rtp_proxy_client({'_sip_address': '10.0.0.1'}, spath='udp:10.0.0.9:22222' if kind == 'udp' else 'tcp:10.0.0.9:22222')

    def take(self, want):
        """exactly these commands have been sent since"""
        got = [x[1] for x in self.sent]
        self.h.check(sorted(got) == sorted(want), 'the commands due are sent and no other', got=got, want=want)
        self.sent = []

    def answer(self, text, cmd=None):
        for i in range(len(self.pend)):
            if cmd is None or self.pend[i][0] == cmd:
                break
        else:
            self.h.check(False, 'the command to be answered is there', cmd=cmd)
        command, cb, par = self.pend.pop(i)
        if text is None and self.kind == 'udp':
            self.c.go_offline()
        if cb is None:
            return
        kw = {'ex': OSError('broken')} if text is None and self.kind != 'udp' else {}
        try:
            cb(text, *par, **kw)
        except Exception as ex:
            # the transport reports an exception of the caller and goes on
            self.h.check(False, 'no exception', ex=type(ex).__name__)

    def due(self, cmd, lo, hi):
        """the next command is this one, and comes in that time"""
        t = CLK.now
        self.take([])
        env.run_until(t + hi)
        self.h.check(len(self.sent) >= 1 and self.sent[0][1] == cmd, 'the command is sent again', got=[x[1] for x in self.sent], want=cmd)
        self.h.check(self.sent[0][0] >= t + lo, 'not before its time', after=self.sent[0][0] - t, lo=lo)
        self.take([cmd])

    def up(self):
        """from the start until it is available"""
        self.take(['V'])
        self.answer('20040107')
        self.take(['VF ' + v for v in CAPS])
        for v in CAPS:
            self.h.check(not self.c.online, 'not available before the capabilities are known')
            self.answer('1', 'VF ' + v)
        self.on()
        self.take(['Ib'])

    def on(self):
        self.h.check(self.c.online, 'available')

    def off(self):
        self.h.check(not self.c.online, 'not available')

    def quiet(self, t):
        env.run_until(CLK.now + t)
        self.take([])


V1, V2 = 53.9, 66.1
H1, H2 = 0.89, 1.11


@scenario('R08', reach=('known', 'again'), bounds='each of the six capability questions answered "1", or one of them by: "0", an error, any one or two characters, nothing (a failure over either transport); '
                                'questions answered in either order; before that the version question answered right, wrong, by an error or not at all up to twice')
def capabilities(h):
    """what the proxy can do"""
    kind = h.choose('transport', ['udp', 'stream'])
    w = W(h, kind)
    for i in range(2):
        bad = h.choose('version', [0, 'E1', '20040108', None])
        if bad == 0:
            break
        w.take(['V'])
        w.answer(bad)
        w.off()
        w.due('V', V1, V2)
        w.sent = [(CLK.now, 'V')]
    w.take(['V'])
    w.off()
    w.answer('20040107')
    for again in range(2):
        w.take(['VF ' + v for v in CAPS])
        w.off()
        vs = list(CAPS)
        if h.choose('rev', [False, True]):
            vs.reverse()
        odd = h.choose('odd', [0, 2, 5])
        what = h.choose('what', ['1', '0', 'E72', 'any', None]) if again == 0 else '1'
        if what == 'any':
            what = h.str('what', 1, 2, alphabet='019E')
        for i, v in enumerate(vs):
            w.off()
            w.answer(what if i == odd else '1', 'VF ' + v)
        if what is not None:
            break
        # not known: all over again
        w.off()
        h.check(not any(getattr(w.c, CAPS[v]) for i, v in enumerate(vs) if i == odd), 'not used while unknown')
        w.due('V', V1, V2)
        w.answer('20040107')
        h.reach('again')
    w.on()
    w.take(['Ib'])
    for i, v in enumerate(vs):
        h.check((getattr(w.c, CAPS[v]) is True) == (True if i != odd else h.eq(what, '1')), 'a capability is used exactly if the proxy has it', cap=CAPS[v])
    h.reach('known')


@scenario('R08', reach=('lost', 'back', 'stays'), bounds='up to 5 (thorough: 7) of: the status question answered, failed; a command of a session answered, failed; time passing until the next question; '
                                                  'shutdown; then recovery; period randomised symbolically; both transports')
def life(h):
    """going up and down"""
    kind = h.choose('transport', ['udp', 'stream'])
    w = W(h, kind)
    w.up()
    c = w.c
    ib = True               # a status question is open
    for i in range(4 if quick() else 6):
        a = h.choose('act', ['ok', 'fail', 'cmdok', 'cmdfail', 'wait', 'down'])
        if a == 'ok':
            h.assume(ib)
            w.answer('sessions created: 5\nactive sessions: 2\n', 'Ib')
            ib = False
            w.on()
            w.take([])
        elif a == 'wait':
            if not ib:
                w.due('Ib', H1, H2)
                ib = True
                h.reach('stays')
            else:
                w.quiet(5)
            w.on()
        elif a == 'cmdok':
            c.send_command('U x')
            w.take(['U x'])
            w.answer('1234', 'U x')
            w.on()
        elif a == 'down':
            c.shutdown()
            w.down = True
            got = []
            c.send_command('U x', lambda r, *p: got.append((r, p)), 'p')
            env.run_threadq()
            h.check(got == [(None, ('p',))], 'a command after shutdown fails', got=got)
            if h.choose('late', [False, True]) and ib:
                w.answer('sessions created: 5\n', 'Ib')
            env.run_until(CLK.now + 200)
            w.take([])
            return
        else:
            if a == 'fail':
                h.assume(ib)
                w.answer(None, 'Ib')
                ib = False
            else:
                h.assume(kind == 'udp')
                c.send_command('U x')
                w.take(['U x'])
                w.answer(None, 'U x')
            w.off()
            h.reach('lost')
            t = CLK.now
            # what was under way may still end, but changes nothing
            if a == 'cmdfail':
                if not ib:
                    env.run_until(t + H2)
                    h.assume(len(w.sent) <= 1)
                    w.sent = []
                if h.choose('old', ['ok', 'fail']) == 'ok':
                    w.answer('active sessions: 1\n', 'Ib')
                else:
                    w.answer(None, 'Ib')
                w.off()
            w.sent = []
            env.run_until(t + V1)
            w.take([])
            env.run_until(t + V2)
            w.take(['V'])
            w.off()
            r = h.choose('back', ['20040107', None])
            if r is None:
                w.answer(None, 'V')
                w.off()
                w.due('V', V1, V2)
            w.answer('20040107', 'V')
            h.check(w.c.online, 'available again')
            w.take(['Ib'])
            ib = True
            h.reach('back')
    if ib:
        w.quiet(3)
    else:
        w.due('Ib', H1, H2)


@scenario('R08', bounds='a status answer with the five known lines (each number one to two symbolic digits) in either order, an unknown line, and one line without a number, with a symbolic text of '
                        'one to two characters as number, or empty; or an answer which is empty')
def status(h):
    """what the proxy reports"""
    w = W(h)
    w.up()
    names = [('sessions created', 'sessions_created'), ('active sessions', 'active_sessions'), ('active streams', 'active_streams'),
             ('packets received', 'preceived'), ('packets transmitted', 'ptransmitted')]
    k = h.choose('k', [0, 1, 2, 3, 4])
    bad = h.choose('bad', ['no', 'extra', 'blank', 'text', 'none', 'nothing'])
    lines = []
    for i, (n, a) in enumerate(names):
        v = h.str('n', 1, 2, alphabet=NUM) if i == k else str(10 + i)
        if i == k and bad == 'blank':
            v = ''
        elif i == k and bad == 'text':
            v = h.str('t', 1, 2, alphabet='xE.')
        elif i == k and bad == 'none':
            lines.append(n)
            continue
        lines.append(n + ': ' + v)
        if i == k:
            val = v
    if bad == 'extra':
        lines.insert(k, 'total nothing: x')
    if h.choose('rev', [False, True]):
        lines.reverse()
    w.answer('\n'.join(lines) if bad != 'nothing' else '', 'Ib')
    w.on()
    if bad in ('no', 'extra'):
        for i, (n, a) in enumerate(names):
            h.check(getattr(w.c, a) == (int(val) if i == k else 10 + i), 'as reported', name=a)
    w.due('Ib', H1, H2)
    w.answer('active sessions: 7\n', 'Ib')
    h.check(w.c.active_sessions == 7, 'the last report counts')


@scenario('R08', reach=('none', 'some'), bounds='three media proxies, each available or not; any random choice')
def choice(h):
    """which proxy a session gets"""
    import sippy.Rtp_proxy.session as m
    from sippy.Exceptions.RtpProxyError import RtpProxyError

    class C(object):
        def __init__(self, online):
            self.online = online
            self.active_sessions = h.choose('active', [None, 0, 3]) if not online else 3

        def __getattr__(self, name):
            from sippy.Rtp_proxy.client import Rtp_proxy_client
            return getattr(Rtp_proxy_client, name)
    r = h.real('rnd', 0, 1)
    h.assume(r < 1)
    m.random = lambda: r
    cs = [C(h.choose('on', [True, False])) for i in range(3)]
    try:
        s = m.Rtp_proxy_session({'_rtp_proxy_clients': cs}, call_id='C')
    except RtpProxyError:
        h.check(not any(c.online for c in cs), 'refused only if none is available')
        h.reach('none')
        return
    h.check(s.rtp_proxy_client.online, 'an available one is chosen')
    h.reach('some')
