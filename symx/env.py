"""Environment stubs shared by the harnesses (both modes).

Virtual clock, deterministic unique tokens, a recording UDP server, recorded
exception dumps.  Everything else is the real code from /repo.
"""
import sys
import os

REPO = os.environ.get('SX_REPO', '/repo')

EPOCH = 1700000000.0      # offset of the wall clock from the virtual monotonic clock
T0 = 4096.0               # monotonic time at which every path starts
MYADDR = '10.9.8.7'         # configured address of this host


class VClock(object):
    def __init__(self):
        self.now = T0
        self.ns = None          # reading of the nanosecond clock when a harness sets it

    def mono(self):
        return self.now

    def wall(self):
        return self.now + EPOCH


CLK = VClock()
TOK = {'n': 0}
DUMPS = []                # exceptions the code under test swallowed via dump_exception
SENT = []                 # everything transmitted: (server, data, address, time)
_real = {}


def _token_hex(n=16):
    TOK['n'] += 1
    return ('%0*x' % (2 * n, 0xA0000 + TOK['n']))[-2 * n:]


def _token_bytes(n=16):
    TOK['n'] += 1
    return (TOK['n']).to_bytes(n, 'big')


def _randbelow(n):
    TOK['n'] += 1
    return min(1000 + TOK['n'], n - 1)


def _random():
    return 0.5


def _randint(a, b):
    return a


def install(sym):
    """Patch the environment; must run before any sippy module is imported."""
    import time
    import secrets
    import random
    import uuid
    for m, n, f in ((time, 'time', CLK.wall), (time, 'monotonic', CLK.mono),
                    (secrets, 'token_hex', _token_hex), (secrets, 'token_bytes', _token_bytes),
                    (secrets, 'randbelow', _randbelow), (random, 'random', _random),
                    (random, 'randint', _randint)):
        _real.setdefault((m.__name__, n), getattr(m, n))
        setattr(m, n, f)
    if not sym:
        sys.dont_write_bytecode = True
        if REPO not in sys.path:
            sys.path.insert(0, REPO)
    import sippy.Time.clock_dtime as cd

    def clock_getdtime(t):
        return CLK.wall() if t == cd.CLOCK_REALTIME else CLK.mono()
    cd.clock_getdtime = clock_getdtime

    def clock_getntime(t):
        if CLK.ns is not None:
            return CLK.ns
        return int(cd.clock_getdtime(t) * 10**9)
    cd.clock_getntime = clock_getntime
    import sippy.Core.Exceptions as ce

    def dump_exception(msg, f=None, extra=None):
        et, ev, tb = sys.exc_info()
        if ev is not None and not isinstance(ev, Exception):
            raise ev
        DUMPS.append((str(msg) if isinstance(msg, str) else 'msg', et.__name__ if et else None, ev))
    ce.dump_exception = dump_exception
    import sippy.Time.MonoTime as mt
    mt.clock_getdtime = clock_getdtime
    from sippy.Core.EventDispatcher import ED2
    import _thread

    class _Inline(object):
        """thread hand-over: run inline, in order (single-threaded model)"""
        def __getattr__(self, n):
            return lambda *a, **k: None

        def call_from_thread(self, f, *a):
            THREADQ.append((f, a))
    ED2.elp = _Inline()
    _real['loaded'] = True


THREADQ = []


def run_threadq(limit=100):
    n = 0
    while THREADQ and n < limit:
        f, a = THREADQ.pop(0)
        f(*a)
        n += 1
    return n


def reset():
    """fresh environment for one path"""
    CLK.now = T0
    CLK.ns = None
    TOK['n'] = 0
    del DUMPS[:]
    del SENT[:]
    del THREADQ[:]
    from sippy.Core.EventDispatcher import ED2
    from sippy.Time.MonoTime import MonoTime
    import _thread
    g = MonoTime.globals
    g.monot_max = CLK.mono()
    g.realt_flt.lastval = EPOCH
    ED2.tlisteners = []
    ED2.twasted = 0
    ED2.endloop = False
    ED2.signals_pending = []
    ED2.my_ident = _thread.get_ident()
    ED2.last_ts = MonoTime()
    from sippy.SipConf import SipConf
    SipConf.my_address = MYADDR
    SipConf.my_port = _P['port']
    SipConf.my_transport = _P['transport']
    SipConf.my_uaname = 'Sippy'
    SipConf.allow_formats = None
    SipConf.autoconvert_tel_url = False


class _LazyP(dict):
    def __missing__(self, k):
        from sippy.SipConf import MyPort, MyTransport
        self['port'] = MyPort(5060)
        self['transport'] = MyTransport('udp')
        return self[k]


_P = _LazyP()


# ------------------------------------------------------------------ time

def timers():
    from sippy.Core.EventDispatcher import ED2
    return [t for t in ED2.tlisteners if t.cb_func is not None]


def next_deadline():
    ts = timers()
    if not ts:
        return None
    m = ts[0].etime.monot
    for t in ts[1:]:
        if t.etime.monot < m:
            m = t.etime.monot
    return m


def set_time(t):
    """advance the clock; t is never before the current reading, so it is the maximum seen"""
    CLK.now = t
    if _real.get('track_max', True):
        from sippy.Time.MonoTime import MonoTime
        MonoTime.globals.monot_max = t


def dispatch():
    from sippy.Core.EventDispatcher import ED2
    from sippy.Time.MonoTime import MonoTime
    ED2.last_ts = MonoTime()
    ED2.dispatchTimers()


def fire_next():
    """advance to the earliest pending timer and run it; False when none"""
    d = next_deadline()
    if d is None:
        return False
    if d > CLK.now:
        set_time(d)
    dispatch()
    return True


def stop_housekeeping():
    """cancel the timers pending now (the periodic cache purge of a fresh manager), so that they do not
    multiply paths where they cannot matter"""
    for t in timers():
        t.cancel()


def run_out(limit=60):
    """fire timers until none is left"""
    n = 0
    while fire_next():
        n += 1
        if n > limit:
            raise RuntimeError('too many timer events')


def run_until(t, limit=200):
    """run every timer due up to and including time t, then set the clock to t"""
    n = 0
    while True:
        d = next_deadline()
        if d is None or d > t:
            break
        if d > CLK.now:
            set_time(d)
        dispatch()
        n += 1
        if n > limit:
            raise RuntimeError('too many timer events')
    set_time(t)
    from sippy.Core.EventDispatcher import ED2
    from sippy.Time.MonoTime import MonoTime
    ED2.last_ts = MonoTime()


# ------------------------------------------------------------------ network

def make_udp():
    from sippy.Udp_server import Udp_server, Udp_server_opts
    from sippy.Network_server import Network_server

    class FakeUdp(Udp_server):
        def __init__(self, global_config, uopts):
            Network_server.__init__(self, uopts)

        def send_to(self, data, address, delayed=False):
            SENT.append((self, data, address, CLK.now))

        def addr2str(self, address):
            return 'udp'

        def shutdown(self):
            pass
    return (FakeUdp, Udp_server_opts)


class NullLogger(object):
    def write(self, *a, **k):
        pass

    def shutdown(self):
        pass


def make_tm(req_cb, addr='10.0.0.1', port=5060, **attrs):
    from sippy.SipTransactionManager import SipTransactionManager
    gc = {'_sip_address': addr, '_sip_port': port, '_sip_logger': NullLogger(), 'nh_addr': ('10.0.0.9', 5060)}
    cls = type('TM', (SipTransactionManager,), dict(attrs, model_udp_server=make_udp()))
    tm = cls(gc, req_cb)
    gc['_sip_tm'] = tm
    return tm, gc


def the_server(tm):
    return list(tm.l4r.cache_l2s.values())[0]


def deliver(tm, data, addr=('10.0.0.2', 5060), transport='udp'):
    from sippy.Network_server import Remote_address
    from sippy.Time.MonoTime import MonoTime
    tm.handleIncoming(data, Remote_address(addr, transport), the_server(tm), MonoTime())


def holds(tm, obj):
    """the manager still keeps obj in one of its tables"""
    for d in list(vars(tm).values()):
        if isinstance(d, dict):
            if any(v is obj for v in list(d.values())):
                return True
        elif isinstance(d, (list, tuple, set)):
            if any(v is obj for v in list(d)):
                return True
    return False
