"""R05: media end points."""
import builtins
import errno
from symx.runner import scenario, quick
from symx import env
from symx.env import SENT, CLK, T0, DUMPS
from harness.sip import *


class Seg(object):
    """audio or its encoding: pieces (origin, first, length) whose numbers may be symbolic; a frame is a byte"""

    def __init__(self, parts=()):
        self.parts = [p for p in parts]

    def n(self):
        r = 0
        for p in self.parts:
            r = r + p[2]
        return r

    def __add__(self, o):
        return Seg(self.parts + (o.parts if isinstance(o, Seg) else []))

    __iadd__ = __add__

    def __radd__(self, o):
        return Seg(([] if not isinstance(o, Seg) else o.parts) + self.parts)

    def extend(self, o):
        self.parts += o.parts

    def __mul__(self, k):
        return Seg([('silence', 0, k)])

    def __getitem__(self, s):
        if s.start is None:
            return self.cut(s.stop)[0]
        return self.cut(s.start)[1]

    def cut(self, k):
        a, b = [], []
        for p in self.parts:
            if b or k <= 0:
                b.append(p)
            elif k >= p[2]:
                a.append(p)
                k = k - p[2]
            else:
                a.append((p[0], p[1], k))
                b.append((p[0], p[1] + k, p[2] - k))
                k = 0
        return Seg(a), Seg(b)


def seglen(x):
    return x.n() if isinstance(x, Seg) else builtins.len(x)


def norm(h, parts):
    """adjacent pieces of one origin joined"""
    r = []
    for p in parts:
        if p[2] == 0:
            continue
        if r and r[-1][0] == p[0] and (p[0] == 'silence' or h.eq(r[-1][1] + r[-1][2], p[1])):
            r[-1] = (p[0], r[-1][1], r[-1][2] + p[2])
        else:
            r.append(p)
    return r


def same(h, a, b):
    a, b = norm(h, a), norm(h, b)
    if len(a) != len(b):
        return False
    for x, y in zip(a, b):
        if x[0] != y[0] or not (x[2] == y[2]) or (x[0] != 'silence' and not (x[1] == y[1])):
            return False
    return True


def patch(h, codec):
    """the audio library of the modules replaced by operations on pieces"""
    import sippy.Rtp.Core.AudioChunk as ac
    import sippy.Rtp.OutputWorker as ow
    import sippy.Rtp.Ingest as ing
    import sippy.Rtp.Codecs.G711 as g1
    import sippy.Rtp.Codecs.G722 as g2
    for m in (ac, ow, ing, g1, g2):
        m.len = seglen
    ac.pcm16_from = g1.pcm16_from = g2.pcm16_from = lambda x: x
    g1.linear2ulaw = lambda x: Seg(x.parts)
    g1.ulaw2linear = lambda x: Seg(x.parts)

    def resample(x, a, b):
        h.check(a != b, 'another rate')
        n = x.n()
        k = (n * b + a - 1) // a
        return Seg([('r-' + x.parts[0][0], 0, k)])
    ac.resample_linear = resample
    arr = lambda t, x=(): x if isinstance(x, Seg) else Seg([('silence', 0, seglen(x))])
    ow.array = g2.array = arr

    class G722(object):
        def __init__(self, srate, br, **kw):
            h.check(srate == 8000 and br == 64000, 'G.722 mode')

        def encode(self, x):
            return Seg(x.parts)

        decode = encode
    g2.G722 = G722
    return ac, ow, ing, g1.G711Codec if codec == 'G711' else g2.G722Codec


class Synth(object):
    def __init__(self, crate, ft):
        self.crate, self.ft, self.log = crate, ft, []

    def next_pkt(self, size, pt, pload=None):
        self.log.append(('pkt', size, pt, pload))
        return ('pkt', len(self.log) - 1)

    def skip(self, n):
        self.log.append(('skip', n))


class Params(object):
    def __init__(self, codec, ptime=20, sr=16000):
        self.codec, self.out_ptime, self.out_sr = codec, ptime, sr


class Proc(object):
    def create_channel(self, proc_in=None):
        return None


@scenario('R05', reach=('resampled', 'silence', 'skipped', 'more'),
          bounds='packets of 20 ms (thorough: 10, 30) of both codecs; two (thorough: three) chunks of 1 to 400 frames each, at 8000 or 16000 Hz, handed over before the first or during the '
                 'second period; up to eight periods; ended before or after; audio library replaced by arithmetic on lengths')
def output(h):
    """packets sent"""
    codec = h.choose('codec', ['G711', 'G722'])
    ac, ow, ing, C = patch(h, codec)
    made = []

    def synth(*a):
        made.append(Synth(*a))
        return made[-1]
    ow.RtpSynth = synth
    ow.acquire_rtp_proc = lambda: None
    ow.release_rtp_proc = lambda p: None
    pt = h.choose('ptime', [20] if quick() else [10, 20, 30])
    w = ow.RTPOutputWorker(Params(C, pt))
    w._proc = None
    w._enc_buffer = Seg()
    size = pt * 8
    sent = []
    w.set_pkt_send_f(sent.append)
    w.has_started = True
    syn = made[0]
    h.check((syn.crate, syn.ft) == (8000, pt), 'clock rate and duration of packets', got=(syn.crate, syn.ft))
    chunks = []

    def give(i):
        n = h.int('n', 1, 400)
        rate = h.choose('rate', [8000, 16000])
        c = ac.AudioChunk(Seg([('c%d' % i, 0, n)]), rate)
        w.soundout(c)
        chunks.append((i, n, rate))
        if rate != 8000:
            h.reach('resampled')
    late = h.choose('late', [False, True])
    nch = 2 if quick() else 3
    for i in range(nch - late):
        give(i)
    t = now = 1000
    nper = 0
    ended = False
    for k in range(4 * nch):
        nper += 1
        if late and k == 1:
            give(nch - 1)
        r = w._proc_in(now, 0 if k == 0 else t)
        h.check(len(syn.log) <= nper and (len(syn.log) == nper or not any(c for c in chunks)) or late, 'one packet or gap each period', n=len(syn.log), nper=nper)
        h.check(r == t + pt * 1000000, 'the next one a period later', got=r)
        t = r
        now = t + 5
        if syn.log and syn.log[-1][0] == 'skip' and len(chunks) == nch:
            h.reach('skipped')
            break
    w.end()
    n0 = len(syn.log)
    h.check(w._proc_in(now, t) is None and len(syn.log) == n0, 'nothing after the end')
    want, total = [], 0
    for i, n, rate in chunks:
        total = total + n
        m = n if rate == 8000 else (n + 1) // 2
        want.append(('c%d' % i if rate == 8000 else 'r-c%d' % i, 0, m))
        pad = (size - m % size) % size
        if pad != 0:
            want.append(('silence', 0, pad))
            h.reach('silence')
    got = []
    for x in syn.log:
        if x[0] == 'pkt':
            h.check(x[1] == size and x[3].n() == size and x[2] == C.ptype, 'a whole packet of the codec', got=x[:3])
            got += x[3].parts
        else:
            h.check(x[1] == 1, 'gap of one packet')
    h.check(len(sent) == len([x for x in syn.log if x[0] == 'pkt']) and [x[1] for x in sent] == [i for i, x in enumerate(syn.log) if x[0] == 'pkt'], 'each packet is sent', got=sent)
    h.check(same(h, got, want), 'all the audio in order, then silence up to the end of the packet', got=got, want=want)
    h.check(w.get_frm_ctrs() == (total, total), 'every frame counted once', got=w.get_frm_ctrs())
    if len(got) > 2:
        h.reach('more')


@scenario('R05', bounds='both codecs, output rates of 8000, 16000, 24000 and 48000 Hz (G.711: multiples of 8000), up to 100000 frames')
def conversions(h):
    """frame counts and durations"""
    codec = h.choose('codec', ['G711', 'G722'])
    ac, ow, ing, C = patch(h, codec)
    c = C()
    rate = h.choose('rate', [8000, 16000, 24000, 48000])
    n = h.int('n', 0, 100000)
    c.out_srate = rate
    k = rate // 8000
    h.check(c.e2d_frames(n) == n * k, 'samples of an encoded piece')
    h.check(c.d2e_frames(n * k) == n, 'and back')
    h.check(c.d2e_frames(n, 8000) == n and c.e2d_frames(n, 8000) == n, 'at the rate given')
    d = c.d2e_frames(n)
    h.check(d * k <= n and n < (d + 1) * k, 'never more than there is')
    e = c.e2t(n) * 8000 - n
    h.check(-1e-3 < e and e < 1e-3, 'duration')
    h.check(h.eq(C.rtpmap(), 'rtpmap:%d %s/8000' % (C.ptype, C.ename)), 'as announced')


class Pkt(object):
    def __init__(self, **kw):
        self.__dict__.update(kw)


@scenario('R05', reach=('chunk', 'lost', 'update', 'left over'),
          bounds='output at 8000 or 16000 Hz; two (thorough: three) packets or gaps (lost packets) of 1 to 1000 frames from the jitter buffer, one or two at a time, '
                 'arrival times symbolic; packets that cannot be parsed; the stream updated in between')
def received(h):
    """audio received"""
    codec = h.choose('codec', ['G711', 'G722'])
    ac, ow, ing, C = patch(h, codec)
    rate = h.choose('rate', [8000, 16000])
    script = []

    class JBuf(object):
        def __init__(self, size):
            pass

        def udp_in(self, data, rtime):
            r = script.pop(0)
            if r is None:
                raise ing.RTPParseError('bad')
            return r
    ing.RtpJBuf = JBuf
    out = []
    s = ing.RTPInStream(Params(C, 20, rate), out.append)
    s.out_buffer = Seg()
    if codec == 'G711':
        s.codec.silence = lambda n: Seg([('silence', 0, n)])
    times = {}
    lseq = 7
    want = []
    npk = 2 if quick() else 3
    two, bad, upd = h.choose('mode', [(False, False, False), (True, False, False), (False, True, False), (False, False, True)])
    lost = h.choose('lost', [None] + list(range(npk)))
    res = []
    last = None
    for i in range(npk):
        n = h.int('n', 1, 1000)
        if i == lost:
            g = 2
            res.append(Pkt(content=Pkt(type=ing.RTPFrameType.ERS, lseq_start=lseq, lseq_end=lseq + g - 1, ts_diff=n)))
            lseq = lseq + g
            want.append(('silence', 0, n))
            h.reach('lost')
        else:
            times[i] = h.real('t', 100, 200) if i == npk - 1 else 100 + i / 8
            last = i
            res.append(Pkt(content=Pkt(type=None, frame=Pkt(rtp=Pkt(lseq=lseq))), rtp_data=Seg([('p%d' % i, 0, n)]), opaque=times[i]))
            lseq = lseq + 1
            want.append(('p%d' % i, 0, n))
        if two and i == 0:
            continue
        script.append(res)
        res = []
        n0 = len(out)
        s.rtp_received(b'x', ('1.2.3.4', 5), 100)
        # whole chunks, as many as there are; time stamps from the latest packet
        new = out[n0:]
        first = None if last is None else [x for x in want if x[0] == 'p%d' % last][0]
        for c in new:
            h.reach('chunk')
            h.check(c.samplerate == rate, 'at the rate asked for')
        if new and last == i:
            # distance from the first frame of the latest packet to the start of the first of the new chunks, in frames
            before = 0
            for p in want[:-1]:
                before = before + p[2]
            done = n0 * 800
            d = new[0].rtime - times[i] - (done - before) / 8000
            h.check(-1e-4 < d and d < 1e-4, 'time stamp of a chunk agrees with the arrival of its audio', d=d)
            for a, b in zip(new, new[1:]):
                d = b.rtime - a.rtime - 0.1
                h.check(-1e-4 < d and d < 1e-4, 'and that of the next one with its duration')
        if bad:
            bad = False
            script.append(None)
            s.rtp_received(b'x', ('1.2.3.4', 5), 100)
            h.check(len(out) == n0 + len(new), 'a packet which is none changes nothing')
        if upd and i == 0:
            s.stream_update()
            lseq = 5
            h.reach('update')
    total = 0
    for p in want:
        total = total + p[2]
    h.check(len(out) * 800 <= total and total < (len(out) + 1) * 800, 'a chunk every 100 ms', n=len(out))
    if rate == 8000:
        got = []
        for c in out:
            h.check(c.audio.n() == 800, 'of 100 ms')
            got += c.audio.parts
        got += s.out_buffer.parts
        h.check(same(h, got, want), 'all the audio, in order', got=got, want=want)
    else:
        for c in out:
            h.check(c.audio.n() == 1600, 'of 100 ms')
    if s.out_buffer.n() > 0:
        h.reach('left over')
    h.check(not DUMPS, 'no exception')


@scenario('R05', bounds='silence in place of up to 400 lost frames, output at 8000 or 16000 Hz')
def silence(h):
    """silence in place of what was lost"""
    ac, ow, ing, C = patch(h, 'G722')
    c = C()
    c.out_srate = h.choose('rate', [8000, 16000, 48000])
    n = h.int('n', 1, 400)
    h.check(c.silence(n).n() == n, 'as long as what was lost', got=c.silence(n).n())
    import sippy.Rtp.Codecs.G711 as g1
    k = h.choose('k', [1, 160])
    h.check(g1.G711Codec().silence(k) == b'\xff' * k, 'G.711')


@scenario('R05', reach=('even', 'odd', 'none'), bounds='any range of ports given or not (1 to 65535), any random choice; up to three (thorough: five) ports in use')
def ports(h):
    """ports"""
    import sippy.Network_server as ns
    import sippy.Rtp.EPoint as ep
    lo = h.int('lo', 1, 65530)
    hi = h.int('hi', 2, 65535)
    kind = h.choose('range', ['given', 'default'])
    h.assume(lo < hi)
    a = ns.RTP_port_allocator(lo, hi) if kind == 'given' else ns.RTP_port_allocator()
    if kind == 'default':
        lo, hi = 1024, 65535
    picks = []

    def rnd(x, y):
        h.check(x == 0 and y >= 0, 'range of the choice')
        v = h.int('rnd', 0, 33000)
        h.assume(v <= y)
        return v
    ns.randint = rnd
    e = ep.RTPEPoint.__new__(ep.RTPEPoint)
    e.rtp_params = Pkt(rtp_family=2, rtp_lport=0)
    e._rtp_server, e.rserv, e.writer = None, None, None
    e.state_lock = Lock()
    nused = h.choose('used', [0, 1, 3] if quick() else [0, 1, 2, 3, 5])
    other = h.choose('err', [None, errno.EACCES])

    class Server(object):
        def create_channel(self, pkt_in=None, bind_host=None, bind_port=None, bind_family=None):
            picks.append(bind_port)
            h.check(lo <= bind_port and bind_port <= hi and bind_port % 2 == 0, 'an even port of the range', got=bind_port)
            h.check(bind_host == '10.0.0.1' and bind_family == 2, 'address')
            if len(picks) <= nused:
                raise OSError(errno.EADDRINUSE, 'used')
            if other:
                raise OSError(other, 'no')
            return 'channel'
    h.reach('odd' if lo % 2 else 'even')
    try:
        r = e._bind_channel(Server(), '10.0.0.1', a)
    except OSError as x:
        h.check(other and x.errno == other and len(picks) == nused + 1, 'only ports in use are skipped')
        return
    except ns.PortAllocationError:
        h.reach('none')
        h.check(len(picks) <= nused and len(picks) >= (hi - lo - 1) // 2, 'given up only after as many tries as there are ports', n=len(picks))
        return
    h.check(r == 'channel' and len(picks) == nused + 1 and not other, 'the first one which is free', n=len(picks))
    h.check(e.rtp_params.rtp_lport == picks[-1], 'port known')


class Lock(object):
    held = False

    def __enter__(self):
        assert not self.held, 'lock taken twice'
        self.held = True

    def __exit__(self, *a):
        self.held = False

    def acquire(self, *a):
        self.__enter__()

    def release(self):
        self.held = False


class World(object):
    def __init__(self, h):
        import sippy.Rtp.EPoint as ep
        import sippy.Rtp.Singletons as sg
        import sippy.Rtp.Params as pm
        import sippy.Rtp.Handlers as hm
        self.h, self.ep = h, ep
        self.servers, self.channels, self.writers, self.sent = [], [], [], []
        self.used = []
        w = self
        sg._rtp_server_singleton, sg._rtp_server_refcount = None, 0
        sg._rtp_server_lock = Lock()
        ep.Lock = Lock
        pm.local4remote = lambda host, family=None: '10.9.8.7' if family == pm.AF_INET else '[::9]'

        class Channel(object):
            def __init__(self, cb, host, port, fam):
                self.cb, self.local_addr, self.fam, self.target, self.closed, self.out = cb, (host, port), fam, None, 0, []

            def set_target(self, host, port):
                h.check(not self.closed, 'target of an open channel')
                self.target = (host, port)

            def close(self):
                self.closed += 1

            def send_pkt(self, p):
                h.check(not self.closed, 'sent on an open channel')
                self.out.append(p)

        class Server(object):
            def __init__(self):
                self.down = 0
                w.servers.append(self)

            def create_channel(self, pkt_in=None, bind_host=None, bind_port=None, bind_family=None):
                h.check(not self.down, 'server still there')
                if (bind_family, bind_port) in w.used:
                    raise OSError(errno.EADDRINUSE, 'used')
                c = Channel(pkt_in, bind_host, bind_port, bind_family)
                w.channels.append(c)
                return c

            def shutdown(self):
                h.check(all(c.closed for c in w.channels), 'no channel is left')
                self.down += 1

        class Writer(object):
            def __init__(self, params):
                self.ptime, self.log, self.f, self.sound = params.out_ptime, [], None, []
                w.writers.append(self)

            def set_pkt_send_f(self, f):
                self.f = f

            def start(self):
                self.log.append('start')

            def end(self):
                self.log.append('end')

            def join(self):
                self.log.append('join')

            def soundout(self, c):
                self.sound.append(c)

        class In(object):
            def __init__(self, params, audio_in):
                self.got, self.audio_in, self.upd = [], audio_in, 0

            def rtp_received(self, *a):
                self.got.append(a)

            def stream_update(self):
                self.upd += 1

            def stream_connect(self, a):
                self.audio_in = a
        hd = hm.RTPHandlers()
        hd.writer_cls, hd.rtp_instream_cls, hd.rtp_server_cls = Writer, In, Server
        self.handlers = hd
        self.nextport = 20000

        def palloc(ntry):
            self.nextport += 2
            return self.nextport
        self.conf = Pkt(palloc=palloc)

    def open(self):
        return [c for c in self.channels if not c.closed]

    def live(self):
        for x in self.writers:
            self.h.check(x.log in (['start'], ['start', 'end', 'join']), 'writers start and end once', got=x.log)
        return [x for x in self.writers if x.log == ['start']]


TARGETS = [None, ('1.2.3.4', 5000), ('1.2.3.5', 5002), ('[::1]', 5000), ('0:0:0:0:0:0:0:1', 5000)]


@scenario('R05', reach=('swapped', 'ended', 'other'),
          bounds='an end point with or without target and fixed port, two (thorough: three) updates of target, packet duration and address family, packets from a symbolic '
                 'port in between, a second end point beside it; the port in use for the other family; shut down once or twice')
def endpoint(h):
    """an end point from set-up to shutdown"""
    w = World(h)
    import sippy.Rtp.Params as pm
    fixed = h.choose('fixed', [0, 30000])

    def params(tg, ptime=20):
        p = pm.RTPParams(tg, ptime, 16000, 'IP6' if tg and ':' in tg[0] else 'IP4')
        p.codec = None
        p.rtp_lport = fixed
        return p
    tg = h.choose('tg', TARGETS[:3])
    p = params(tg)
    e = w.ep.RTPEPoint(w.conf, p, 'app', w.handlers)
    o = None
    if h.choose('second', [False, True]) and not fixed:
        o = w.ep.RTPEPoint(w.conf, params(('9.9.9.9', 9)), 'app2', w.handlers)
        h.reach('other')
    ptime = 20
    for i in range(2 if quick() else 3):
        tg0, fam0 = e.rtp_params.rtp_target, e.rtp_params.rtp_proto
        tg = h.choose('tg', TARGETS)
        pt = h.choose('pt', [20, 30])
        q = params(tg, pt)
        if o is None and h.choose('used', [False, True]) and not fixed:
            w.used = [(q.rtp_family, c.local_addr[1]) for c in w.open()]
        old = [c for c in w.open() if o is None or c is not o.rserv]
        ow = [x for x in w.live() if o is None or x is not o.writer]
        e.update(q)
        chans = [c for c in w.open() if o is None or c is not o.rserv]
        wr = [x for x in w.live() if o is None or x is not o.writer]
        h.check(len(chans) == 1 and e.rserv is chans[0], 'one channel', n=len(chans))
        c = chans[0]
        h.check(c.fam == q.rtp_family, 'of the family asked for')
        if q.rtp_proto == fam0:
            h.check(c is old[0], 'the channel stays')
        else:
            h.reach('swapped')
        want = pm.canonicalize_rtp_target(tg)
        h.check(want is None or c.target == want, 'target of what is sent', got=c.target)
        h.check(len(wr) == (0 if tg is None else 1) and (e.writer is (wr[0] if wr else None)), 'one writer while there is a target', n=len(wr))
        if wr:
            h.check(wr[0].ptime == pt, 'packet duration', got=wr[0].ptime)
            h.check(wr[0] is (ow[0] if ow else None) or not ow or pt != ptime or q.rtp_proto != fam0, 'the writer stays when it can')
            wr[0].f('pkt')
            h.check(c.out[-1] == 'pkt', 'what is written goes to the channel')
        ptime = pt
        n = len(e.rsess.got)
        sp = h.int('sp', 4999, 5003)
        src = h.choose('src', ['1.2.3.4', '::1']) if i == 0 else '1.2.3.4'
        c.cb(b'data', (src, sp), 5000000000)
        ok = want is None or (src == want[0] and sp == want[1])
        h.check(len(e.rsess.got) == n + (1 if ok else 0), 'only packets of the target are taken', ok=ok)
        if ok:
            h.check(e.rsess.got[-1] == (b'data', (src, sp), 5.0), 'packet with its time')
        e.soundout(Pkt(nframes=1, audio=[1]))
        h.check(not wr or len(wr[0].sound) == 1 + (wr[0] in ow) * (len(wr[0].sound) - 1), 'audio goes to the writer')
    h.check(e.rsess.upd == (2 if quick() else 3), 'the stream starts anew')
    srv = w.servers[0]
    e.shutdown()
    if h.choose('twice', [False, True]):
        e.shutdown()
    h.check(all(c.closed == 1 for c in w.channels if o is None or c is not o.rserv), 'every channel closed once')
    if o is not None:
        h.check(srv.down == 0 and w.open() == [o.rserv] and len(w.live()) == 1, 'the other one stays')
        o.shutdown()
    h.check(not w.open() and not w.live() and srv.down == 1 and len(w.servers) == 1, 'everything released once', down=srv.down)
    h.reach('ended')
    e.soundout(Pkt(nframes=1, audio=[1]))
