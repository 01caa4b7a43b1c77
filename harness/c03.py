"""C03: configuration."""
import io
import builtins
import sys as _sys
from symx.runner import scenario, quick
from symx import env
from symx.env import SENT, CLK, T0, DUMPS
from harness.sip import *

TRUE, FALSE = ('on', 'yes', 'true', '1'), ('off', 'no', 'false', '0')
MARK = 'symbolicvalue'


def conf():
    import sippy.MyConfigParser as m
    return m.MyConfigParser(), m


def kinds(m):
    """option names of each kind"""
    r = {'B': [], 'I': [], 'S': []}
    for k, (t, _) in m.SUPPORTED_OPTIONS.items():
        r[t].append(k)
    return r


def from_file(h, m, g, pairs, section='general', values=None):
    """read(): the file has the option lines; text which is symbolic takes the place of a mark once configparser has found the line"""
    text = '[other]\nx = 1\n# comment\n[%s]\n' % section
    sub = {}
    for i, (k, v) in enumerate(pairs):
        mark = v
        if hasattr(v, 'c'):        # symbolic text
            mark = MARK + str(i)
            sub[mark] = v
        text += k + ' = ' + mark + '\n'
    real = m.RawConfigParser._read

    def _read(self, fp, name):
        real(self, fp, name)
        for sec in self._sections:
            for k in list(self._sections[sec]):
                if self._sections[sec][k] in sub:
                    self._sections[sec][k] = sub[self._sections[sec][k]].strip()
    m.RawConfigParser._read = _read
    m.open = lambda name, *a: io.StringIO(text)
    try:
        m.MyConfigParser.read(g, '/etc/x.conf')
    finally:
        m.RawConfigParser._read = real


def give(h, m, g, how, key, value):
    """the value from a source; whether it was accepted"""
    try:
        if how == 'file':
            from_file(h, m, g, [(key, value)])
        else:
            g.check_and_set(key, value)
    except ValueError:
        return False
    return True


def isint(v):
    """decimal number, as int() takes it; its value"""
    v = v.strip()
    sign = 1
    if len(v) > 0 and v[0] in '+-':
        sign = -1 if v[0] == '-' else 1
        v = v[1:]
    if len(v) == 0:
        return None
    n = 0
    for c in v:
        if c not in NUM:
            return None
        n = n * 10 + (ord(c) - 48)
    return sign * n


def limits(key, n):
    if key in ('keepalive_ans', 'keepalive_orig'):
        return n >= 0
    if key == 'max_credit_time':
        return n > 0
    if key == 'sip_port':
        return 0 < n < 65536
    return True


@scenario('C03', reach=('accepted', 'refused'), bounds='each numeric option, from the command line or from a file, with and without an earlier value; text of up to three (with five digits '
          'around the port limit) symbolic characters out of digits, signs, blank and a letter')
def numbers(h):
    """numeric options"""
    g, m = conf()
    key = h.choose('key', sorted(kinds(m)['I']))
    how = h.choose('how', ['line', 'file'])
    old = h.choose('old', [None, '7'])
    if old:
        g.check_and_set(key, old)
    if key == 'sip_port' and h.choose('big', [False, True]):
        v = '655' + h.str('v', 2, 2, alphabet=NUM)
    else:
        v = h.str('v', 0, 3, alphabet='0123456789+- x')
    ok = give(h, m, g, how, key, v)
    n = isint(v)
    good = n is not None and limits(key, n)
    h.check(ok == good, 'exactly the numbers allowed are accepted', key=key, v=v)
    if good:
        h.reach('accepted')
        h.check(key in g and g[key] == n and g.getdefault(key, None) == n, 'value as written')
        if key == 'sip_port':
            h.check(g['_sip_port'] == n, 'port used')
    else:
        h.reach('refused')
        h.check((key in g) == bool(old) and g.getdefault(key, None) == (7 if old else None), 'the earlier value stays')
        if key == 'sip_port':
            h.check(g.getdefault('_sip_port', None) == (7 if old else None), 'the earlier port stays')


@scenario('C03', reach=('accepted', 'refused'), bounds='each switch, from the command line or from a file, with and without an earlier value; every spelling in any case, shorter or longer text, '
          'text of up to three symbolic letters')
def switches(h):
    """switches"""
    g, m = conf()
    key = h.choose('key', sorted(kinds(m)['B']))
    how = h.choose('how', ['line', 'file'])
    old = h.choose('old', [None, 'on', 'off'])
    if old:
        g.check_and_set(key, old)
    f = h.choose('form', ['word', 'text'])
    if f == 'word':
        w = h.choose('word', list(TRUE + FALSE) + ['tru', 'offf', '', '2'])
        v = ''
        up = h.choose('up', [False, True, None])
        v = w.upper() if up else w.capitalize() if up is None else w
        v = h.choose('pad', ['', ' ']) + v
    else:
        v = h.str('v', 0, 3, alphabet='onfOeys01 ')
    ok = give(h, m, g, how, key, v)
    x = v.strip().lower()
    t, n = any(h.eq(x, w) for w in TRUE), any(h.eq(x, w) for w in FALSE)
    h.check(ok == (t or n), 'exactly the spellings of a switch are accepted', key=key, v=v)
    if ok:
        h.reach('accepted')
        h.check(key in g and g[key] is t, 'value as written', got=g[key])
    else:
        h.reach('refused')
        h.check((key in g) == bool(old) and g.getdefault(key, None) == (None if not old else old == 'on'), 'the earlier value stays')


LISTS = ('accept_ips', 'rtp_proxy_clients', 'pass_headers', 'allowed_pts')


@scenario('C03', bounds='each text option, from the command line or from a file, after an earlier value or not; text of up to two symbolic printable characters around a letter')
def texts(h):
    """text options"""
    g, m = conf()
    key = h.choose('key', sorted(k for k in kinds(m)['S'] if k not in LISTS + ('pre_auth_proc',)))
    how = h.choose('how', ['line', 'file'])
    if h.choose('old', [False, True]):
        g.check_and_set(key, 'other')
    v = h.str('v', 0, 1) + 'x' + h.str('w', 0, 1)
    h.check(give(h, m, g, how, key, v), 'accepted')
    h.check(h.eq(g[key], v.strip()), 'value as written', got=g[key])
    if key == 'sip_address':
        h.check(h.eq(g['_sip_address'], v.strip()), 'address used')


@scenario('C03', reach=('one', 'three', 'refused'), bounds='each list option, from the command line or from a file, after an earlier value or not; up to three elements with a symbolic character, '
          'blanks around the commas; payload types by number or by name')
def lists(h):
    """lists"""
    g, m = conf()
    key = h.choose('key', list(LISTS))
    how = h.choose('how', ['line', 'file'])
    old = h.choose('old', [False, True])
    if old:
        g.check_and_set(key, '9,8')
    n = h.choose('n', [1, 2, 3])
    sep = h.choose('sep', [',', ', ', ' ,'])
    x = h.str('x', 1, 1, alphabet='aBx07')
    el = (['1' + x, '[G' + x + ']', '18'] if key == 'allowed_pts' else ['H' + x, '10.0.0.1', 'udp:' + x])[:n]
    t = el[0]
    for e in el[1:]:
        t += sep + e
    ok = give(h, m, g, how, key, t)
    if key == 'allowed_pts':
        good = x in NUM
        h.check(ok == good, 'payload types are numbers or names', v=t)
        want = [int('1' + x), 'G' + x, 18][:n] if good else [9, 8] if old else None
        if not good:
            h.reach('refused')
    else:
        h.check(ok, 'accepted')
        want = [e.lower() for e in el] if key == 'pass_headers' else el
    if want is None:
        h.check('_allowed_pts' not in g and key not in g, 'nothing set')
        return
    got = g['_' + key]
    h.check(len(got) == len(want) and all(h.eq(a, b) for a, b in zip(got, want)), 'elements', got=got, want=want)
    if ok:
        h.check(h.eq(g[key], t), 'text as written')
        h.reach('one' if n == 1 else 'three' if n == 3 else '')


@scenario('C03', bounds='the options for any local address, with and without an address before')
def address(h):
    """any local address"""
    g, m = conf()
    how = h.choose('how', ['line', 'file'])
    if h.choose('old', [False, True]):
        g.check_and_set('sip_address', '1.2.3.4')
    v = h.choose('v', ['*', '0.0.0.0', '::', ' * ', '::1', '0.0.0.1'])
    h.check(give(h, m, g, how, 'sip_address', v), 'accepted')
    a = g['_sip_address']
    if v in ('::1', '0.0.0.1'):
        h.check(a == v, 'address', got=a)
    else:
        from sippy.SipConf import SipConf
        h.check(a is SipConf.my_address, 'any address', got=a)


@scenario('C03', bounds='an option or section the program does not know, the sections of others, several options of which one is bad')
def unknown(h):
    """unknown options"""
    g, m = conf()
    g.check_and_set('keepalive_ans', '5')
    k = h.choose('k', ['unknown', 'section', 'bad', 'line', 'sip_addres'])
    try:
        if k == 'unknown':
            from_file(h, m, g, [('keepalive_an', '3')])
        elif k == 'section':
            from_file(h, m, g, [('keepalive_ans', '3')], 'special')
        elif k == 'bad':
            from_file(h, m, g, [('logfile', '/x'), ('keepalive_ans', 'x')])
        elif k == 'line':
            g.check_and_set('keepalive_an', '3')
        else:
            g.check_and_set('sip_addres', '3')
        ok = True
    except (KeyError, ValueError) as e:
        ok = False
        h.check(k == 'bad' or 'keepalive_an' in str(e) or 'sip_addres' in str(e), 'the option is named', e=str(e))
    h.check(ok == (k == 'section'), 'refused')
    h.check(g['keepalive_ans'] == 5 and 'sip_addres' not in g, 'configuration as before')


class Stop(Exception):
    pass


def run_main(h, argv, files=()):
    """main_func() up to its event loop with the rest of the program replaced; the configuration it has then"""
    import sippy.b2bua as b
    import sippy.MyConfigParser as m
    cap = {}

    class Rec(object):
        def __init__(self, name):
            self.name = name

        def __call__(self, *a, **kw):
            for x in a:
                if isinstance(x, m.MyConfigParser):
                    cap['g'] = x
            cap.setdefault('calls', []).append((self.name, a, kw))
            return Rec(self.name)

        def __getattr__(self, n):
            if n.startswith('__'):
                raise AttributeError(n)
            return Rec(self.name + '.' + n)

    class Conf(m.MyConfigParser):
        def __init__(self):
            m.MyConfigParser.__init__(self)
            cap['g'] = self

        def read(self, fname):
            from_file(h, m, self, files)

        def write(self, f):
            pass

    def loop():
        raise Stop()

    def usage(*a):
        raise Stop('usage')
    b.MyConfigParser = Conf
    for n in ('SipLogger', 'RadiusAuthorisation', 'CallMap', 'B2BSimpleAPI', 'Rtp_proxy_client', 'StatefulProxy', 'SipTransactionManager', 'Wss_server', 'Wss_server_opts',
              'Signal', 'daemonize', 'SipLogger', 'B2BRoute'):
        setattr(b, n, Rec(n))

    class ED(object):
        pass
    b.ED2 = ED()
    b.ED2.loop = loop
    b.usage = usage
    b.open = lambda *a: Rec('open')

    class Sys(object):
        pass
    s = Sys()
    s.argv = ['b2bua.py'] + argv
    s.__stderr__ = io.StringIO()
    b.sys = s
    err = None
    try:
        b.main_func()
    except Stop as e:
        err = str(e)
    return cap['g'], cap.get('calls', []), err


PAIRS = [(['-f'], ['--foreground=on']), (['-D'], ['--digest_auth=off']), (['-u', '-s', '1.2.3.4'], ['--auth_enable=0', '--static_route=1.2.3.4']), (['-H'], ['--hide_call_id=yes']),
         (['-A', '0'], ['--acct_enable=no', '--start_acct_enable=no']), (['-A', '1'], ['--acct_enable=yes', '--start_acct_enable=no']),
         (['-A', '2'], ['--acct_enable=yes', '--start_acct_enable=true']), (['-k', '1'], ['--keepalive_ans=32']), (['-k', '2'], ['--keepalive_orig=32']),
         (['-k', '3'], ['--keepalive_ans=32', '--keepalive_orig=32']), (['-k', '0'], [])]
SAME = [('-l', 'sip_address', '1.2.3.4'), ('-p', 'sip_port', '5061'), ('-P', 'pidfile', '/p'), ('-L', 'logfile', '/l'), ('-s', 'static_route', '1.1.1.1'),
        ('-a', 'accept_ips', '1.1.1.1,2.2.2.2'), ('-t', 'static_tr_in', 's/a/b/'), ('-T', 'static_tr_out', 's/a/b/'), ('-m', 'max_credit_time', '60'),
        ('-F', 'allowed_pts', '0,8,[G729]'), ('-R', 'radiusclient.conf', '/r'), ('-h', 'pass_headers', 'X-A,x-b'), ('-c', 'b2bua_socket', '/s'),
        ('-M', 'max_radiusclients', '3'), ('-r', 'rtp_proxy_clients', 'udp:1.1.1.1')]


def state(g):
    r = {k: (g[k] if k not in ('acct_enable', 'start_acct_enable', 'digest_auth', 'auth_enable', 'hide_call_id', 'foreground') else bool(g[k]))
         for k in g.options('general')}
    for k, v in g._private_keys.items():
        if k not in ('_orig_argv', '_rtp_proxy_clients', '_radius_client', '_sip_logger', '_cmap', '_sip_tm', '_static_routes'):
            r[k] = str(v) if k in ('_sip_address', '_sip_port') else v
    return r


@scenario('C03', reach=('flags', 'values', 'order'), bounds='each short option against its long form and the configuration file; the file before or after another value of the same option on the command '
          'line; -A and -k out of range; the user interface switched on and off')
def program(h):
    """the program"""
    kind = h.choose('kind', ['flags', 'values', 'order', 'range', 'ui', 'route'])
    if kind == 'flags':
        a, b = h.choose('pair', PAIRS)
        g1, c1, e1 = run_main(h, a)
        g2, c2, e2 = run_main(h, b)
        h.check(e1 == '' and e2 == '', 'runs', e1=e1, e2=e2)
        h.check(state(g1) == state(g2), 'same configuration', a=state(g1), b=state(g2))
        g3, c3, e3 = run_main(h, ['-C', '/f'], [x[2:].split('=', 1) for x in b])
        h.check(state(g1) == state(g3) and e3 == '', 'same from the file', a=state(g1), b=state(g3))
        h.check(('daemonize' in [x[0] for x in c1]) == (a != ['-f']) == ('daemonize' in [x[0] for x in c3]), 'foreground')
        h.check(('RadiusAuthorisation' in [x[0] for x in c1]) == (g1['auth_enable'] or g1['acct_enable']), 'helper started when needed')
        h.reach('flags')
    elif kind == 'values':
        o, k, v = h.choose('same', SAME)
        pad = h.choose('pad', ['', ' '])
        g1, c1, e1 = run_main(h, [o, pad + v])
        g2, c2, e2 = run_main(h, ['--' + k + '=' + v + pad])
        g3, c3, e3 = run_main(h, ['--config', '/f'], [(k, v)])
        h.check(e1 == e2 == e3 == '', 'runs', e=[e1, e2, e3])
        h.check(state(g1) == state(g2) == state(g3), 'same configuration', a=state(g1), b=state(g2), z=state(g3))
        n = [[x[2].get('spath') for x in c if x[0] == 'Rtp_proxy_client'] for c in (c1, c2, c3)]
        h.check(n == [['udp:1.1.1.1'] if o == '-r' else []] * 3, 'media proxies', got=n)
        h.reach('values')
    elif kind == 'order':
        k, v, w, f = h.choose('opt', [('keepalive_ans', '1', '2', 'keepalive_ans'), ('sip_address', '*', '1.2.3.4', '_sip_address'), ('sip_address', '1.2.3.4', '5.6.7.8', '_sip_address'),
                                      ('pass_headers', 'X-A', 'X-B', '_pass_headers'), ('accept_ips', '1.1.1.1', '2.2.2.2', '_accept_ips'),
                                      ('acct_enable', 'on', 'off', 'acct_enable'), ('allowed_pts', '0', '8', '_allowed_pts'), ('sip_port', '1', '2', '_sip_port')])
        want = run_main(h, ['--' + k + '=' + w])[0]
        g1 = run_main(h, ['--' + k + '=' + v, '-C', '/f'], [(k, w)])[0]
        g2 = run_main(h, ['-C', '/f', '--' + k + '=' + w], [(k, v)])[0]
        h.check(g1[f] == want[f] and g2[f] == want[f], 'the later source counts', got=[g1[f], g2[f]], want=want[f])
        h.check(g1[k] == want[k] and g2[k] == want[k], 'the later source counts')
        g3 = run_main(h, ['--' + k + '=' + w, '-C', '/f'], [('logfile', '/z')])[0]
        h.check(g3[f] == want[f] and g3['logfile'] == '/z', 'others stay')
        h.reach('order')
    elif kind == 'range':
        o = h.choose('o', ['-A', '-k'])
        n = h.choose('n', ['-1', '4', '3', '2'])
        g, c, e = run_main(h, [o, n])
        ok = n == '2' or (n == '3' and o == '-k')
        h.check((e == '') == ok and (e == 'usage') == (not ok), 'range', o=o, n=n, e=e)
    elif kind == 'ui':
        import sippy
        made = []

        class UI(object):
            def __init__(self, g):
                made.append(1)
        import types
        mod = types.ModuleType('sippy.UI.Controller')
        mod.UIController = UI
        pk = types.ModuleType('sippy.UI')
        pk.Controller = mod
        _sys.modules['sippy.UI'] = pk
        _sys.modules['sippy.UI.Controller'] = mod
        v = h.choose('v', [None, 'on', 'off'])
        try:
            run_main(h, ['--ui=' + v] if v else [])
        finally:
            del _sys.modules['sippy.UI'], _sys.modules['sippy.UI.Controller']
        h.check(bool(made) == (v == 'on'), 'user interface as configured', v=v)
    else:
        a = h.choose('a', [['-u'], ['--auth_enable=off'], ['-u', '-s', '1.2.3.4'], []])
        g, c, e = run_main(h, a)
        h.check((e == 'usage') == (a in (['-u'], ['--auth_enable=off'])), 'a route is needed without authorisation', e=e)
