"""R03: media proxy commands survive formatting and parsing."""
from symx.runner import scenario, quick
from symx import env
from harness.sip import *

ID = 'abYZ019@._-%'
OPT = 'EIASWZzr690NFT'       # option characters (R, L and c start options with values)
FIELDS = ('destination_ip', 'local_ip', 'codecs', 'otherparams', 'remote_ip', 'remote_port', 'from_tag', 'to_tag', 'notify_socket', 'notify_tag', 'subargs')


def ip(h, nm):
    return h.choose(nm + '.lead', ['1.2.3.', '10.200.30.']) + h.str(nm, 1, 2, alphabet=NUM)


def fields(o):
    """what the command says"""
    out = [getattr(o, k) for k in FIELDS]
    if out[3] is None:
        out[3] = ''
    return out


class Want(object):
    """an update or lookup command"""
    def __init__(self, h, focus):
        for k in FIELDS:
            setattr(self, k, None)
        self.otherparams = ''
        self.remote_ip, self.remote_port, self.from_tag = '1.2.3.4', '5000', 'ft'
        self.call_id = 'cid'
        if focus in ('addr', 'alladdr'):
            if focus == 'alladdr' or h.choose('R', [True, False]):
                self.destination_ip = ip(h, 'r')
            if focus == 'alladdr' or h.choose('L', [True, False]):
                self.local_ip = ip(h, 'l')
        if focus in ('codecs', 'alladdr'):
            self.codecs = [[h.int('c', 0, 127)], [8, h.int('c', 0, 127)], [h.int('c', 0, 127), 0, 101]][h.choose('nc', [0, 1, 2] if focus == 'codecs' else [0])]
        if focus in ('addr', 'codecs', 'opts', 'alladdr'):
            n = h.choose('no', [0, 1, 2] if focus != 'alladdr' else [0, 1])
            self.otherparams = ''.join([h.str('o%d' % i, 1, 1, alphabet=OPT) for i in range(n)])
        if focus == 'ids':
            self.call_id = h.str('cid', 1, 2, alphabet=ID)
            self.from_tag = h.str('ft', 1, 2, alphabet=ID)
            self.remote_ip = h.choose('rip', ['10.0.0.', 'fe80::']) + h.str('rip', 1, 1, alphabet=NUM)
            self.remote_port = h.str('rport', 1, 3, alphabet=NUM)
        if focus in ('ids', 'tags'):
            if h.choose('to', [True, False]):
                self.to_tag = h.str('tt', 1, 2, alphabet=ID)
        if focus in ('tags',):
            if h.choose('ntf', [True, False]):
                self.notify_socket = 'tcp:%%CC_SELF%%:' + h.str('ns', 1, 1, alphabet=NUM)
                self.notify_tag = 'r%20' + h.str('nt', 1, 2, alphabet=ID)
        if focus in ('tags', 'sub'):
            if h.choose('sub', [True, False]):
                self.subargs = 'M4:1 S' + h.choose('sub2', ['', ' && M5:1 C x', '  y']) + h.str('sx', 1, 1, alphabet=ID)

    def fields(self):
        return [getattr(self, k) for k in FIELDS]

    def opts(self, order):
        """the options in one of the orders in which they may come"""
        p = {'R': 'R' + self.destination_ip if self.destination_ip is not None else '',
             'L': 'L' + self.local_ip if self.local_ip is not None else '',
             'c': 'c' + ','.join([str(c) for c in self.codecs]) if self.codecs is not None else '',
             'o': self.otherparams}
        return ''.join([p[k] for k in order])

    def tail(self, swap=False, notify=True):
        f, t = (self.from_tag, self.to_tag) if not swap else (self.to_tag, self.from_tag)
        s = self.call_id + ' ' + self.remote_ip + ' ' + self.remote_port + ' ' + f
        if t is not None:
            s += ' ' + t
        if self.notify_socket is not None and notify:
            s += ' ' + self.notify_socket + ' ' + self.notify_tag
        if self.subargs is not None:
            s += ' && ' + self.subargs
        return s


FOCUS = ('addr', 'codecs', 'opts', 'ids', 'tags', 'sub')


@scenario('R03', reach=('again',),
          bounds='update and lookup commands built from their parts, up to two of the parts at a time symbolic: addresses (1-2 symbolic digits), one to three codecs 0..127, up to two other '
                 'option characters, identifiers of 1-2 characters, with or without to tag, notification, subcommands; tags swapped, notification left out')
def built(h):
    """command -> text -> command"""
    from sippy.Rtp_proxy.cmd import Rtp_proxy_cmd, UpdateLookupOpts
    w = Want(h, h.choose('focus', FOCUS))
    ty = h.choose('type', ['U', 'L']) if w.otherparams == '' else 'U'
    o = UpdateLookupOpts(None, w.destination_ip, w.local_ip, w.codecs, w.otherparams)
    for k in FIELDS[4:]:
        setattr(o, k, getattr(w, k))
    t = ty + o.getstr(w.call_id)
    c = Rtp_proxy_cmd(t)
    h.check(c.type == ty, 'type')
    h.check(h.eq(c.call_id, w.call_id), 'call id', got=c.call_id)
    h.check(h.eq(fields(c.ul_opts), w.fields()), 'the same command', text=t, got=fields(c.ul_opts), want=w.fields())
    h.check(h.eq(str(c), t), 'the same text again', got=str(c), want=t)
    h.check(h.eq(o.getstr(w.call_id, skipnotify=True).split(' ', 1)[1], w.tail(notify=False)), 'without notification')
    if w.to_tag is not None:
        h.check(h.eq(o.getstr(w.call_id, swaptags=True).split(' ', 1)[1], w.tail(swap=True)), 'with tags swapped', got=o.getstr(w.call_id, swaptags=True))
    else:
        try:
            o.getstr(w.call_id, swaptags=True)
        except Exception:
            pass
        else:
            h.fail('no tags to swap')
    h.reach('again')


@scenario('R03', bounds='texts of update and lookup commands, options in every order, lower or upper case command letter, extra blanks between the words')
def parsed(h):
    """text -> command -> text -> command"""
    from sippy.Rtp_proxy.cmd import Rtp_proxy_cmd
    focus = h.choose('focus', FOCUS + ('alladdr',))
    w = Want(h, focus)
    order = h.choose('order', ['RLco', 'oRLc', 'RoLc', 'LcoR', 'coLR', 'LRoc'] if focus in ('addr', 'codecs', 'alladdr') else ['RLco'])
    op = w.opts(order)
    if w.otherparams != '' and order.index('o') > 0 and op[:len(w.otherparams)] != w.otherparams:
        # a digit, comma or dot behind a value is part of the value
        h.assume(h.all(*[w.otherparams[0] != x for x in NUM + '.,']))
    ty, sp = h.choose('type', [('U', ' '), ('u', '  '), ('L', ' ')] if focus in ('ids', 'sub') else [('U', ' ')])
    t = ty + op + ' ' + w.tail().replace(' ', sp, 2)
    c = Rtp_proxy_cmd(t)
    h.check(h.eq([c.type, c.call_id], [ty.upper(), w.call_id]), 'type and call id')
    h.check(h.eq(fields(c.ul_opts), w.fields()), 'understood', text=t, got=fields(c.ul_opts), want=w.fields())
    c2 = Rtp_proxy_cmd(str(c))
    h.check(h.eq(fields(c2.ul_opts), w.fields()), 'an equivalent command', text=str(c), got=fields(c2.ul_opts), want=w.fields())


@scenario('R03', bounds='the other commands: D, P, S, R, C, Q with any option character or two and arguments of up to two symbolic characters; G with and without options and arguments; V, VF, I, X; '
                        'either case')
def others(h):
    """the other commands"""
    from sippy.Rtp_proxy.cmd import Rtp_proxy_cmd
    k = h.choose('k', ['D', 'P', 'S', 'R', 'C', 'Q', 'G', 'V', 'I', 'X'])
    low = h.choose('low', [False, True])
    o = h.str('o', 0, 2, alphabet='azw019F ' if k in 'VIX' else 'azw019')
    a = h.str('a', 1, 2, alphabet=ID) + h.choose('more', ['', ' y z'])
    if k == 'G':
        t = h.choose('form', ['o', 'o a', ' a', ''])
        t = 'G' + t.replace('o', 'o#').replace('a', a).replace('o#', o)
    elif k in 'VIX':
        t = k + o
    else:
        t = k + o + ' cid ' + a
    c = Rtp_proxy_cmd(t[0].lower() + t[1:] if low else t)
    h.check(c.type == k, 'type')
    if k not in 'GVIX':
        h.check(h.eq([c.command_opts, c.call_id, c.args], [o, 'cid', a]), 'parts', got=[c.command_opts, c.call_id, c.args])
    h.check(h.eq(str(c).rstrip(), t.rstrip()), 'the same text', got=str(c), want=t)
    c2 = Rtp_proxy_cmd(str(c))
    h.check(h.eq([c2.type, c2.command_opts, c2.call_id, c2.args], [c.type, c.command_opts, c.call_id, c.args]), 'the same command again')


@scenario('R03', bounds='counters: one to three names out of which any is the total duration; answers of the proxy with symbolic numbers, added up; sum of two; both forms of the text')
def statistics(h):
    """statistics of the proxy add up"""
    from sippy.Rtp_proxy.cmd import Rtpp_stats
    names = h.choose('names', [['a'], ['a', 'b'], ['nsess_created', 'b', 'c']])
    s, t = Rtpp_stats(names), Rtpp_stats(names)
    f = h.choose('f', list(range(len(names))))
    v = [[h.int('v%d' % i, 0, 99) if j == f and i < 2 else 7 * i + j for j in range(len(names))] for i in range(3)]
    s.parseAndAdd(' '.join([str(x) for x in v[0]]))
    t.parseAndAdd(' '.join([str(x) for x in v[1]]))
    s.parseAndAdd(' '.join([str(x) for x in v[2]]) + h.choose('end', ['', '\n']))
    h.check(h.eq([getattr(s, n) for n in names], [v[0][j] + v[2][j] for j in range(len(names))]), 'added up')
    s += t
    w = [v[0][j] + v[1][j] + v[2][j] for j in range(len(names))]
    h.check(h.eq([getattr(s, n) for n in names], w), 'summed')
    h.check(h.eq([getattr(t, n) for n in names], v[1]), 'the other unchanged')
    if h.choose('verbose', [False, True]):
        s.verbose = True
        h.check(h.eq(str(s), ' '.join([n + '=' + str(x) for n, x in zip(names, w)])), 'text')
    else:
        h.check(h.eq(str(s), ' '.join([str(x) for x in w])), 'text')
