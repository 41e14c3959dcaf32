"""Scenario families: which server behaviours, configurations, IO schedules and call orders the real
library is driven through.  This module only generates; nothing here decides what is right."""
import itertools, random, struct
import tlspeer as T
from tlspeer import plain, CCS, ext, VERS, key_share, server_hello, enc_exts, alpn_ext, certificate, certificate_msg, cert_entry, der, msg
from conndrv import Scenario, Group, Race, Attempt, IO, sizes

CHACHA, AES = 0x1303, 0x1301
SUITES = (CHACHA, AES)
REG = {}                        # property -> list of generator functions

def family(*props):
    def d(f):
        for p in props: REG.setdefault(p, []).append(f)
        return f
    return d

# ------------------------------------------------------------------ building blocks
_cert = certificate()
GOOD_CERT = certificate_msg([cert_entry(_cert)])
ALPN2 = b'\x02h2\x08http/1.1'

def one(m): return lambda p, t=22: [p.keys.record(t, m)]
def prec(p, m): return [plain(22, m)]
def erec(p, m): return [p.keys.record(22, m)]

def flow(suite=CHACHA, sh=None, shrec=None, ee=None, eerec=erec, cert=GOOD_CERT, certrec=erec, pre=(), mid=(), mid2=(), post=(), stop=None):
    """A complete server flight with parts replaced.  sh: message or function of the peer; pre, mid,
    mid2, post: extra records (bytes or functions) before SH, before EE, before Cert, at the end."""
    def plan(p):
        val = lambda x: x(p) if callable(x) else x
        out = [val(x) for x in pre]
        m = val(sh) if sh is not None else p.good_hello(suite)
        out += shrec(p, m) if shrec else [plain(22, m)]
        if stop == 'sh': return out
        p.install(suite, m)
        out += [val(x) for x in mid]
        e = val(ee) if ee is not None else enc_exts()
        if e is not False: out += eerec(p, e)
        if stop == 'ee': return out
        out += [val(x) for x in mid2]
        c = val(cert)
        if c is not False: out += certrec(p, c)
        out += [val(x) for x in post]
        return [b''.join(x) if isinstance(x, list) else x for x in out]
    return plan

def er(t, content, **kw): return lambda p: p.keys.record(t, content, **kw)

MODES = ('all',) * 6 + ('rand', 'flaky', 'failfirst', 'tiny')
class Gen:
    """Collects scenarios with reproducible variety in randomness, IO and server key."""
    def __init__(self, seed, scale=1):
        self.rng = random.Random(seed); self.seed, self.scale, self.out = seed, scale, []
        self.simple, self.only = [], False
    def io(self, mode=None, writes=None):
        r = random.Random(self.rng.random())
        m = mode or self.rng.choice(MODES)
        return IO(sizes(r, m), sizes(r, writes or (m if m != 'tiny' else 'rand')), scribble=r.random() < .3)
    def add(self, desc, plan, cfg=None, io=None, acts=None, rng=(), sk=None, mode=None):
        a = [] if cfg is None else [('cfg', cfg)]
        a.append(('attempt', Attempt(plan, io or self.io(mode), rng, sk)))
        if io is None and mode is None and not rng: self.simple.append((desc, cfg, plan, sk))
        a += acts if acts is not None else [('finish',), ('query',), ('close',), ('query',)]
        self.raw(desc, a)
    def raw(self, desc, acts, expect=None):
        self.out.append(Scenario((), desc, acts, seed=self.seed * 1000003 + len(self.out), expect=expect))
    def n(self, k): return max(1, int(k * self.scale))

SINGLE = ('C02', 'C03', 'C04', 'C08', 'C10', 'C11', 'C13', 'C15')
def zoo(g, k, props=SINGLE):
    """About k server behaviours (description, configuration, plan, server key) of every kind there is, evenly from the families."""
    out = []
    if g.only: return out
    for p in props:
        h = Gen(g.rng.randrange(1 << 40), 1); h.only = True
        for f in REG[p]: f(h)
        out += g.rng.sample(h.simple, min(len(h.simple), max(1, k // len(props))))
    g.rng.shuffle(out); return out

def cuts(m, *at):
    at = [0] + sorted(set(min(len(m), max(0, a)) for a in at)) + [len(m)]
    return [m[a:b] for a, b in zip(at, at[1:]) if a < b]

def random_cuts(r, m, k): return cuts(m, *[r.randrange(len(m) + 1) for _ in range(k)])

# ------------------------------------------------------------------ baseline: a little of everything
@family('base')
def base(g):
    for s in SUITES:
        for mode in ('all', 'rand', 'flaky', 'onefail'):
            g.add('good flight', flow(s), mode=mode)
            g.add('good flight, alpn', flow(s, ee=enc_exts([alpn_ext([b'h2'])])), dict(alpn=ALPN2, sni=b'example.com'), mode=mode)
    for t in (10, 40, 0): g.add('alert %d' % t, flow(pre=[plain(21, bytes([2, t]))]))
    g.add('nothing', lambda p: [])
    g.add('no suites', flow(), dict(suites=0)); g.add('no groups', flow(), dict(grp=0)); g.add('no signatures', flow(), dict(sig=0))
    g.add('rng fails', flow(), rng=['fail']); g.add('rng fails later', flow(), rng=[None, 'fail']); g.add('zero key', flow(), rng=['zero'])
    g.add('tampered', flow(mid=[er(22, enc_exts(), flip=(3, 1))]))

# ------------------------------------------------------------------ ServerHello
def sh_variants():
    """(name, function of the peer giving a ServerHello message)"""
    V = []
    def v(name, f): V.append((name, f))
    ks = lambda p: key_share(p.share())
    for ver in (0x0300, 0x0301, 0x0302, 0x0304, 0x0303 ^ 0x8000, 0):
        v('supported_versions %04x' % ver, lambda p, ver=ver: server_hello([ks(p), ext(43, struct.pack('>H', ver))]))
    v('versions list', lambda p: server_hello([ks(p), ext(43, b'\x02\x03\x04')]))
    v('versions short', lambda p: server_hello([ks(p), ext(43, b'\x03')]))
    v('versions empty', lambda p: server_hello([ks(p), ext(43, b'')]))
    v('versions long', lambda p: server_hello([ks(p), ext(43, b'\x03\x04\x03\x04')]))
    v('no versions', lambda p: server_hello([ks(p)]))
    v('no share', lambda p: server_hello([VERS]))
    v('no extensions', lambda p: server_hello([]))
    v('order swapped', lambda p: server_hello([VERS, ks(p)]))
    for n in (1, 31, 32, 33, 255):
        v('session id %d' % n, lambda p, n=n: server_hello([ks(p), VERS], sid=b'\x07' * n))
        v('session id length %d' % n, lambda p, n=n: server_hello([ks(p), VERS], sid_len=n))
    for c in (1, 2, 64, 128, 255): v('compression %d' % c, lambda p, c=c: server_hello([ks(p), VERS], comp=c))
    for s in (0x0000, 0x1300, 0x1302, 0x1304, 0x1305, 0x0013, 0x0313, 0x00ff, 0xffff, 0xc02f, 0x9301, 0x1311, 0x5303):
        v('suite %04x' % s, lambda p, s=s: server_hello([ks(p), VERS], suite=s))
    for gr in (0, 1, 22, 24, 25, 29, 256, 0x1700, 0x0117, 0x8017):
        v('group %d' % gr, lambda p, gr=gr: server_hello([key_share(p.share(), gr), VERS]))
    v('x25519 share', lambda p: server_hello([key_share(b'\x09' * 32, 29), VERS]))
    for d in (-65, -64, -33, -32, -1, 1, 32, 65):
        v('share cut %+d' % d, lambda p, d=d: server_hello([key_share((p.share() + p.share())[:65 + d]), VERS]))
        v('share length %+d' % d, lambda p, d=d: server_hello([key_share(p.share(), ln=65 + d), VERS]))
    for f in (0, 1, 2, 3, 5, 6, 7, 0x84, 255):
        v('form %d' % f, lambda p, f=f: server_hello([key_share(bytes([f]) + p.share()[1:]), VERS]))
    v('compressed', lambda p: server_hello([key_share(bytes([2 + p.pub[1] % 2]) + p.share()[1:33]), VERS]))
    v('infinity', lambda p: server_hello([key_share(b'\0'), VERS]))
    pt = lambda x, y: b'\4' + x.to_bytes(32, 'big') + y.to_bytes(32, 'big')
    for nm, f in (('y+1', lambda p: pt(p.pub[0], (p.pub[1] + 1) % T.P)), ('x+1', lambda p: pt((p.pub[0] + 1) % T.P, p.pub[1])),
                  ('zero', lambda p: bytes([4]) + b'\0' * 64), ('y zero', lambda p: pt(p.pub[0], 0)), ('x zero', lambda p: pt(0, p.pub[1])),
                  ('ones', lambda p: b'\4' + b'\xff' * 64), ('p', lambda p: pt(T.P, T.P)), ('swapped', lambda p: pt(p.pub[1], p.pub[0])),
                  ('x = p', lambda p: pt(T.P, T.lift_x(0) or 0)), ('y >= p', lambda p: pt(T.G[0], T.G[1])),
                  ('msb of y', lambda p: pt(p.pub[0], p.pub[1] ^ (1 << 255))), ('lsb of x', lambda p: pt(p.pub[0] ^ 1, p.pub[1])),
                  ('twist', lambda p: pt(next(x for x in range(p.pub[0], T.P) if T.lift_x(x) is None), p.pub[1]))):
        v('point ' + nm, lambda p, f=f: server_hello([key_share(f(p)), VERS]))
    # coordinates that are right modulo p but not reduced: x + p for a small x on the curve
    small = [x for x in range(60) if T.lift_x(x) is not None]
    for x in small[:4]:
        y = T.lift_x(x)
        v('unreduced x %d' % x, lambda p, x=x, y=y: server_hello([key_share(pt(x + T.P, y)), VERS]))
    v('retry', lambda p: server_hello([VERS, ext(51, b'\0\x17')], random=T.HRR_RANDOM))
    v('retry with share', lambda p: server_hello([VERS, ks(p)], random=T.HRR_RANDOM))
    v('retry with cookie', lambda p: server_hello([VERS, ext(44, b'\0\2ab')], random=T.HRR_RANDOM))
    v('almost retry', lambda p: server_hello([VERS, ks(p)], random=T.HRR_RANDOM[:31] + b'\x9d'))
    v('downgrade random', lambda p: server_hello([VERS, ks(p)], random=b'\1' * 24 + b'DOWNGRD\x01'))
    for k in (1, 2, 3, 10, 40, 75, 79, 80, 81, 82, 83, 84, 85, 100, 115, 116, 117, 118, 119):
        v('cut by %d' % k, lambda p, k=k: server_hello([ks(p), VERS], body_cut=k))
    v('tail', lambda p: server_hello([ks(p), VERS], tail=b'\0'))
    v('longer tail', lambda p: server_hello([ks(p), VERS], tail=b'\0' * 40))
    v('empty body', lambda p: msg(2, b''))
    for n in (37, 38, 39, 40, 41, 42): v('zero body %d' % n, lambda p, n=n: msg(2, b'\3\3' + b'\0' * (n - 2)))
    v('random zero', lambda p: server_hello([ks(p), VERS], random=b'\0' * 32))
    return V

def ext_variants(mk, lists):
    """Perturbations of an extension block.  lists: p -> list of (type, body); mk(p, block) -> message."""
    V = []
    def v(name, f): V.append((name, f))
    def blk(es, ln=None, tail=b''):
        b = b''.join(e if isinstance(e, bytes) else ext(*e) for e in es)
        return (len(b + tail) if ln is None else ln).to_bytes(2, 'big') + b + tail
    known = [0, 1, 5, 10, 13, 14, 15, 16, 18, 19, 20, 21, 41, 42, 43, 44, 45, 47, 48, 49, 50, 51]
    for t in known + [2, 3, 4, 6, 17, 22, 23, 27, 28, 34, 35, 40, 46, 52, 57, 0x0a0a, 0x1616, 0x3374, 0xff01, 0xfe0d, 0xffff, 0x0133, 0x2b00]:
        for b in (b'', b'\0\0', b'\0\2\0\x17'):
            for pos in (0, 1, 99):
                def f(p, t=t, b=b, pos=pos):
                    l = [(x, y) for x, y in lists(p) if x != t]; l.insert(pos, (t, b)); return mk(p, blk(l))
                v('extension %d (%d bytes) at %d' % (t, len(b), pos), f)
    for i in (0, 1, 2):
        for d in (-4, -2, -1, 1, 2, 4, 60, 255, 256, 0xff00):
            def f(p, i=i, d=d):
                l = list(lists(p))
                if i < len(l): l[i] = (l[i][0], l[i][1], (len(l[i][1]) + d) % 65536)
                return mk(p, blk(l))
            v('entry %d length %+d' % (i, d), f)
            def f(p, i=i, d=d):
                l = list(lists(p))
                if i < len(l): l[i] = (l[i][0], l[i][1] + b'\0' * d if 0 < d < 300 else l[i][1][:d] if d < 0 else l[i][1])
                return mk(p, blk(l))
            if d <= 256: v('entry %d body %+d' % (i, d), f)
        def f(p, i=i):
            l = list(lists(p)); l += l[i:i + 1]; return mk(p, blk(l))
        v('entry %d repeated' % i, f)
        def f(p, i=i):
            l = list(lists(p)); l[i:i] = l[i:i + 1]; return mk(p, blk(l))
        v('entry %d doubled' % i, f)
        def f(p, i=i):
            l = list(lists(p)); del l[i:i + 1]; return mk(p, blk(l))
        v('entry %d missing' % i, f)
    for d in (-70, -5, -4, -3, -2, -1, 1, 2, 3, 4, 5, 256, 30000):
        def f(p, d=d):
            b = blk(lists(p)); return mk(p, max(0, len(b) - 2 + d).to_bytes(2, 'big') + b[2:])
        v('block length %+d' % d, f)
        if 0 < d < 300:
            for fill in (0, 1, 255):
                v('block tail %d of %d' % (d, fill), lambda p, d=d, fill=fill: mk(p, blk(lists(p), tail=bytes([fill]) * d)))
                v('message tail %d of %d' % (d, fill), lambda p, d=d, fill=fill: mk(p, blk(lists(p)) + bytes([fill]) * d))
    v('no block', lambda p: mk(p, b'')); v('half a length', lambda p: mk(p, b'\0')); v('empty block', lambda p: mk(p, b'\0\0'))
    v('all reversed', lambda p: mk(p, blk(list(lists(p))[::-1])))
    v('ignored among others', lambda p: mk(p, blk([(0, b'')] + list(lists(p)))))
    v('many', lambda p: mk(p, blk([(0x4000 + i, b'') for i in range(300)] + list(lists(p)))))
    return V

def sh_mk(p, block): return msg(2, b'\3\3' + b'\x5a' * 32 + b'\0' + b'\x13\x03' + b'\0' + block)
def sh_list(p): return [(51, b'\0\x17\0\x41' + p.share()), (43, b'\3\4')]
def sh_list2(p): return [(43, b'\3\4'), (51, b'\0\x17\0\x41' + p.share())]
def ee_mk(p, block): return msg(8, block)
def ee_list(p): return [(0, b''), (10, b'\0\2\0\x17'), (16, b'\0\3\2h2')]

@family('C04')
def c04(g):
    for name, f in sh_variants():
        s = g.rng.choice(SUITES)
        g.add('ServerHello: ' + name, flow(CHACHA, sh=f))
        if g.rng.random() < .3: g.add('ServerHello twice: ' + name, flow(CHACHA, sh=f, shrec=lambda p, m: [plain(22, c) for c in random_cuts(random.Random(len(m)), m, 2)]))
    # every suite against every configuration
    for mask in (1, 2, 3, 0xff, 0xfd, 0xfe, 0xfc, 4, 0x80, 5, 6):
        for s in (CHACHA, AES, 0x1302, 0x1304):
            g.add('suite %04x against mask %d' % (s, mask), flow(s if s in SUITES else CHACHA, sh=lambda p, s=s: server_hello([key_share(p.share()), VERS], s)), dict(suites=mask))
    # two deviations in one hello
    sv = sh_variants()
    for _ in range(g.n(60)):
        (n1, f1) = g.rng.choice(sv)
        k, x = g.rng.randrange(4, 90), g.rng.choice((1, 2, 0x80, 0xff))
        def f(p, f1=f1, k=k, x=x):
            m = bytearray(f1(p)); m[k % len(m)] ^= x; return bytes(m)
        g.add('ServerHello: %s, byte %d ^ %d' % (n1, k, x), flow(CHACHA, sh=f))
    # every byte of the hello changed
    for k in range(4, 123):
        for x in ((1, 0x80) if g.scale < 2 else (1, 2, 4, 8, 16, 32, 64, 128, 255)):
            if 6 <= k < 38 and x != 1: continue
            if 55 < k < 115 and k % 5 and g.scale < 2: continue
            def f(p, k=k, x=x):
                m = bytearray(p.good_hello()); m[k] ^= x; return bytes(m)
            g.add('ServerHello byte %d ^ %d' % (k, x), flow(CHACHA, sh=f))
    # server keys with structure
    for i, sk in enumerate((1, 2, 3, T.N - 1, T.N - 2, (T.N + 1) // 2, 1 << 128, (1 << 255) % T.N)):
        g.add('server key %d' % i, flow(SUITES[i % 2]), sk=sk)

@family('C15')
def c15(g):
    V = [('SH ' + n, flow(sh=f), None) for n, f in ext_variants(sh_mk, sh_list)]
    V += [('SH2 ' + n, flow(sh=f), None) for n, f in ext_variants(sh_mk, sh_list2) if 'extension' not in n]
    cfg = dict(alpn=ALPN2, sni=b'example.com')
    V += [('EE ' + n, flow(ee=f), cfg) for n, f in ext_variants(ee_mk, ee_list)]
    V += [('EE plain ' + n, flow(ee=f), None) for n, f in ext_variants(ee_mk, lambda p: [(10, b'\0\2\0\x17')]) if 'extension' not in n or g.rng.random() < .4]
    # every bit of a message that has the extensions it may have, so also types next to the known ones
    full = enc_exts([ext(10, b'\0\2\0\x17'), ext(0, b''), alpn_ext([b'h2'])])
    for k in range(len(full) * 8):
        V.append(('EE bit %d' % k, flow(ee=bytes(b ^ (128 >> k % 8 if i == k // 8 else 0) for i, b in enumerate(full))), cfg))
    for t in (43, 51):
        for k in range(16):
            V.append(('SH type %d bit %d' % (t, k), flow(sh=lambda p, t=t, k=k: server_hello(
                [(lambda e: bytes([e[0] ^ (1 << k >> 8), e[1] ^ (1 << k & 255)]) + e[2:] if e[:2] == bytes([0, t]) else e)(e) for e in (key_share(p.share()), VERS)])), None))
            V.append(('SH type %d bit %d added' % (t, k), flow(sh=lambda p, t=t, k=k: server_hello([key_share(p.share()), VERS, ext(t ^ 1 << k, b'')])), None))
    keep = [v for v in V if 'extension' not in v[0]] + [v for v in V if 'extension' in v[0] and (g.scale > 1 or g.rng.random() < .6)]
    for n, pl, c in keep: g.add(n, pl, c)

@family('C10')
def c10(g):
    lists = [b'\x02h2', ALPN2, b'\x01a\x01b\x01c', b'\x03abc\x02ab\x01a', b'\xff' + b'x' * 255, b'\xff' + b'x' * 255 + b'\x01x' + b'\xfe' + b'y' * 254,
             b'\x04a\0bc\x01a', b'\x01\0\x02\0\0', b'\x02h2\x02h2', b'\x08http/1.1\x07http/1.\x02h2\x02h3', b'\x01h']
    def names(l):
        out = []
        while l: out.append(l[1:1 + l[0]]); l = l[1 + l[0]:]
        return out
    for l in lists:
        ns = names(l)
        sel = set(ns) | {b'h2', b'h', b'zz', b'', b'x' * 254, b'x' * 255, b'y' * 254, b'a', b'http/1.1', b'http/1.1 ', b'h2\x08', b'ab\0', l[1:][:255]}
        sel |= {n[:-1] for n in ns} | {(n + b'!')[:255] for n in ns} | {n.upper() for n in ns} | {n[1:] for n in ns}
        for s in sorted(sel):
            g.add('offer %r select %r' % (l[:20], s[:20]), flow(ee=enc_exts([alpn_ext([s])])), dict(alpn=l))
        for raw in (b'', b'\0', b'\0\0', b'\0\1', b'\0\1\0', b'\0\2\1', b'\0\3\2h2'[:-1], b'\0\3\2h2x', b'\0\4\2h2', b'\0\2\2h2', b'\0\3\3h2', b'\0\3\1h2',
                    b'\0\6\2h2\2h2', b'\0\4\2h2\0', b'\1\3\2h2', b'\0\3\2h2\0\3\2h2', b'\0\x04\x00\x02h2'):
            if l in lists[:3]: g.add('offer %r raw %r' % (l[:20], raw), flow(ee=enc_exts([alpn_ext([], raw=raw)])), dict(alpn=l))
        g.add('offer %r select two' % l[:20], flow(ee=enc_exts([alpn_ext(ns[:1] * 2)])), dict(alpn=l))
        g.add('offer %r, two extensions' % l[:20], flow(ee=enc_exts([alpn_ext(ns[:1]), alpn_ext(ns[-1:])])), dict(alpn=l))
        g.add('offer %r, valid and then bad' % l[:20], flow(ee=enc_exts([alpn_ext(ns[:1]), ext(51, b'')])), dict(alpn=l))
        g.add('offer %r, bad and then valid' % l[:20], flow(ee=enc_exts([ext(0x7777, b''), alpn_ext(ns[:1])])), dict(alpn=l))
    for raw in ([b'h2'], [b'x' * 255]):
        g.add('unsolicited', flow(ee=enc_exts([alpn_ext(raw)])))
        g.add('unsolicited, list of length 0', flow(ee=enc_exts([alpn_ext(raw)])), dict(alpn=b''))
        g.add('unsolicited, null list', flow(ee=enc_exts([alpn_ext(raw)])), dict(alpn=None, alpnlen=7))
        g.add('unsolicited after sni', flow(ee=enc_exts([ext(0, b''), alpn_ext(raw)])), dict(sni=b'h2'))
    g.add('unsolicited sni', flow(ee=enc_exts([ext(0, b'')]))); g.add('sni answered', flow(ee=enc_exts([ext(0, b'')])), dict(sni=b'x'))
    g.add('sni of length 0', flow(ee=enc_exts([ext(0, b'')])), dict(sni=b''))
    # selection in ServerHello is not a selection
    g.add('selection in ServerHello', flow(sh=lambda p: server_hello([key_share(p.share()), VERS, alpn_ext([b'h2'])])), dict(alpn=ALPN2))
    # the name is not reported before it is selected: queries in the middle of attempts
    for stop in ('sh', 'ee', None):
        g.add('stop after %s' % stop, flow(ee=enc_exts([alpn_ext([b'http/1.1'])]), stop=stop), dict(alpn=ALPN2),
              acts=[('query',), ('finish',), ('query',), ('query',), ('close',), ('query',), ('finish',), ('query',)])
    # successive connections, names of different lengths
    r = g.rng
    L = b'\x01a\x02bb\x08http/1.1' + b'\xff' + b'L' * 255 + b'\x40' + b'M' * 64
    NS = [b'a', b'bb', b'http/1.1', b'L' * 255, b'M' * 64, None]
    seqs = [(a, b) for a in NS for b in NS] + [tuple(r.choice(NS) for _ in range(r.randint(3, 5))) for _ in range(g.n(20))]
    for q in seqs:
        acts = [('cfg', dict(alpn=L))]
        for i, nme in enumerate(q):
            fail = r.random() < .15
            e = enc_exts(([alpn_ext([nme])] if nme else []) + ([ext(99, b'')] if fail else []))
            if r.random() < .2: acts.append(('cfg', dict(alpn=r.choice((L, None, b'\x01a')))))
            pl = flow(ee=e, stop=r.choice(('sh', 'ee', None, None)))
            acts += [('attempt', Attempt(pl, g.io())), ('finish',), ('query',)]
            if r.random() < .7: acts.append(('close',))
            acts.append(('query',))
        g.raw('names ' + '/'.join(str(len(x or b'')) for x in q), acts)

# ------------------------------------------------------------------ configurations
@family('C06')
def c06(g):
    for m in range(256): g.add('suites %d' % m, flow(SUITES[m >> 1 & 1]), dict(suites=m), acts=[('finish',), ('close',)], mode='all')
    masks = {0, 0xffff} | {1 << i for i in range(16)} | {1 << i | 1 for i in range(16)} | {0xffff ^ (1 << i) for i in range(16)}
    for m in sorted(masks):
        g.add('signatures %x' % m, flow(), dict(sig=m), acts=[('connect',), ('close',)], mode='all')
        g.add('groups %x' % m, flow(), dict(grp=m), acts=[('connect',), ('close',)], mode='all')
    for a, b, c in itertools.product((0, 1, 2, 3), (0, 1, 2, 0x8001), (0, 1, 2, 3, 4)):
        g.add('masks %d %d %d' % (a, b, c), flow(), dict(sig=a, grp=b, suites=c), acts=[('connect',), ('query',), ('close',)])
    for n in [0, 1, 2, 3, 63, 64, 127, 128, 250, 251, 252, 253, 254, 255, 256, 257, 300, 1000, 4096, 16000, 16100, 16150, 16200, 16240, 16250, 16260, 16280, 16300, 16384, 16385, 30000, 32768, 60000,
              65000, 65380, 65400, 65420, 65425, 65426, 65427, 65428, 65429, 65430, 65431, 65432, 65433, 65434, 65435, 65436, 65437, 65438, 65440, 65450, 65500, 65526, 65527, 65530, 65531, 65532, 65535, 65536, 65537, 66000, 70000, 131072]:
        for nm in (b'n' * n, bytes(1 + (i * 37) % 255 for i in range(n))) if n < 300 else (b'n' * n,):
            g.add('server name of %d' % n, flow(), dict(sni=nm), acts=[('finish',), ('close',)], mode='all' if n > 3000 else None)
    for n in range(16180, 16300, 3 if g.scale < 2 else 1):
        g.add('server name of %d' % n, flow(), dict(sni=b'n' * n), acts=[('finish',), ('close',)], mode='all')
    L = [b'\x01a', b'\x02h2', ALPN2, b'\xff' + b'q' * 255, (b'\xff' + b'q' * 255) * 3, (b'\x05abcde') * 2700, (b'\xff' + b'q' * 255) * 255, (b'\xff' + b'q' * 255) * 256, b'\x01z' * 32000,
         b'\x01z' * 32713, b'\x01z' * 32714, b'\x01z' * 32715, b'\x01z' * 32716, b'\x01z' * 32717, b'\x01z' * 32767, b'\x01z' * 32768, b'\x01z' * 32800, b'\x04a\0\0b']
    for l in L:
        g.add('protocols of %d' % len(l), flow(), dict(alpn=l), acts=[('finish',), ('close',)], mode='all' if len(l) > 3000 else None)
        g.add('protocols of %d and name' % len(l), flow(), dict(alpn=l, sni=b'example.com'), acts=[('finish',), ('close',)], mode='all')
    for l in (b'\0', b'\x02h', b'\x02h2\0', b'\x00\x02h2', b'\x05abcd', b'\xff'):
        g.add('ill-formed protocols %r' % l, flow(), dict(alpn=l), acts=[('finish',), ('close',)])
    for total in range(65300 - 98, 65340):
        if total % 3 and g.scale < 2: continue
        a = total // 2; a -= a % 2
        g.add('extensions near the limit', flow(), dict(alpn=b'\x01z' * (a // 2), sni=b'n' * (total + 120 - a)), acts=[('connect',), ('close',)], mode='all')
    g.add('null name', flow(), dict(sni=None)); g.add('null list', flow(), dict(alpn=None, alpnlen=99)); g.add('empty list', flow(), dict(alpn=b''))
    g.add('empty name', flow(), dict(sni=b''))
    # the configuration is read when the attempt starts
    for a, b in itertools.product((dict(suites=1), dict(suites=2), dict(alpn=ALPN2), dict(sni=b'abc'), dict(grp=0), dict(sig=0), dict(suites=0), dict(alpn=None), dict(sni=None)), repeat=2):
        g.raw('reconfigured', [('cfg', a), ('attempt', Attempt(flow(AES if a.get('suites') == 2 else CHACHA), g.io())), ('finish',), ('cfg', b), ('attempt', Attempt(flow(AES if b.get('suites', a.get('suites')) == 2 else CHACHA), g.io())), ('finish',), ('close',)])
    r = g.rng
    for _ in range(g.n(150)):
        c = dict(suites=r.choice((1, 2, 3, r.randrange(256))), sig=r.choice((1, 1, 3, r.randrange(65536))), grp=r.choice((1, 1, 9, r.randrange(65536))))
        if r.random() < .6: c['sni'] = bytes(r.randrange(1, 256) for _ in range(r.choice((1, 5, 20, 100, 400))))
        if r.random() < .6: c['alpn'] = b''.join(bytes([len(x)]) + x for x in [bytes(r.randrange(256) for _ in range(r.randint(1, 30))) for _ in range(r.randint(1, 6))])
        s = AES if c['suites'] & 3 == 2 else CHACHA
        g.add('random configuration', flow(s), c, acts=[('finish',), ('close',)])

# ------------------------------------------------------------------ record protection and keys
def frag(r, k, t=22, pads=(0,)):
    return lambda p, m: [p.keys.record(t, c, r.choice(pads)) for c in random_cuts(r, m, k)]

@family('C07')
def c07(g):
    r = g.rng
    for s in SUITES:
        for i in range(g.n(40)):
            g.add('random keys', flow(s, sh=lambda p, s=s, i=i: server_hello([key_share(p.share()), VERS] if i % 2 else [VERS, key_share(p.share())], s, random=random.Random(i).randbytes(32))), sk=r.randrange(1, T.N))
        for pad in list(range(0, 40, 1 if g.scale > 1 else 3)) + [63, 64, 65, 255, 256, 257, 1000, 4095, 16000]:
            g.add('padding %d' % pad, flow(s, eerec=lambda p, m, pad=pad: [p.keys.record(22, m, pad)], certrec=lambda p, m, pad=pad: [p.keys.record(22, m, pad)] if pad + len(m) <= 16384 else [p.keys.record(22, m)]), mode='all' if pad > 600 else None)
        for n in (2, 3, 100, 254, 255, 256, 257, 258, 300, 520) + ((4000,) if g.scale >= 2 else ()):
            # n protected records before the end: sequence numbers past one byte (and two)
            big = certificate_msg([cert_entry(certificate(), exts=b'')], ctx=b'', tail=b'') if n < 4 else msg(11, b'\0' + (n + 300).to_bytes(3, 'big') + b'\0' * (n + 300))
            def recs(p, m, n=n):
                k = max(1, n - 1)
                out = [p.keys.record(22, m[i:i + 1]) for i in range(min(k, len(m) - 1))]
                return out + [p.keys.record(22, m[len(out):])]
            g.add('%d protected records' % n, flow(s, cert=big, certrec=recs), mode='all')
            def alert(p, m, n=n):
                return [p.keys.record(22, m[i:i + 1]) for i in range(n)] + [p.keys.record(21, b'\2\x28')]
            g.add('alert after %d protected records' % n, flow(s, cert=big, certrec=alert), mode='all')
        if s == SUITES[g.seed % 2] or g.scale >= 2:         # and past two bytes
            big = msg(11, b'\0' + (65600).to_bytes(3, 'big') + b'\0' * 65600)
            g.add('65536 protected records', flow(s, cert=big, certrec=lambda p, m: [p.keys.record(22, m[i:i + 1]) for i in range(65540)] + [p.keys.record(22, m[65540:])]), mode='all')
        for n in (0, 1, 15, 16, 17, 31, 32, 33, 47, 48, 63, 64, 65, 100, 255, 256, 1000, 16383, 16384):
            body = msg(11, b'\0' + n.to_bytes(3, 'big') + b'\0' * n)
            g.add('message of %d' % len(body), flow(s, cert=body, certrec=lambda p, m: [p.keys.record(22, c) for c in cuts(m, 16384)]), mode='all' if n > 600 else None)
            g.add('alert sent by the client after %d' % n, flow(s, mid=[er(22, msg(8, b'\0' * n)[:16384])]), mode='all' if n > 600 else None)
        # what the transcript covers: hellos in fragments, with change-cipher-specs and configurations of all sizes
        for k in (1, 2, 5):
            g.add('hello in %d fragments' % k, flow(s, shrec=lambda p, m, k=k: [plain(22, c) for c in random_cuts(random.Random(k), m, k)]))
        g.add('hello and ccs', flow(s, pre=[CCS], mid=[CCS, CCS], mid2=[CCS]))
        for n in (1, 100, 300, 2000, 16200, 16300, 20000, 40000):
            g.add('transcript with a name of %d' % n, flow(s), dict(sni=b'n' * n), mode='all')
        # closing while the keys are there
        g.add('close with keys', flow(s, stop='sh'), acts=[('finish',), ('close',), ('query',)])
        g.add('close with keys later', flow(s, stop='ee'), acts=[('finish',), ('close',), ('query',)])
        # records under the wrong key, nonce or header
        for nm, kw in (('next', dict(seq=1)), ('far', dict(seq=256)), ('high', dict(seq=1 << 32)), ('highest', dict(seq=(1 << 64) - 1)), ('version', dict(aad_ver=0x0301)), ('own version', dict(ver=0x0301)), ('zero version', dict(ver=0))):
            g.add('record: ' + nm, flow(s, mid=[er(22, enc_exts(), **kw)]))
        g.add('client key', flow(s, mid=[lambda p: p.keys.record(22, enc_exts(), key=T.expand_label(p.keys.c, b'key', b'', 16 if p.keys.suite == AES else 32))]))
        # the key in all its shapes: leading zero bytes in the shared secret's x coordinate
    # client keys chosen so that the shared secret or the share starts with zero bytes
    found = 0
    for i in range(1, 4000):
        d = (i * 0x1234567).to_bytes(32, 'little')
        pt = T.mul(int.from_bytes(d, 'little'), T.G)
        if pt[0] >> 248 == 0 or pt[1] >> 248 == 0:
            g.add('share with a zero byte', flow(SUITES[found % 2]), rng=[d]); found += 1
            if found >= 4: break
    sk = 7; base = T.mul(sk, T.G); found = 0
    for i in range(1, 4000):
        d = (i * 0x7654321).to_bytes(32, 'little')
        pt = T.mul(int.from_bytes(d, 'little'), base)
        if pt[0] >> 248 == 0:
            g.add('shared secret with a zero byte', flow(SUITES[found % 2]), rng=[d], sk=sk); found += 1
            if found >= 3: break

@family('C02')
def c02(g):
    r = g.rng
    EE, CERT = enc_exts(), GOOD_CERT
    for s in SUITES:
        inj = []
        for nm, m in (('EE', EE), ('Certificate', CERT), ('Finished', msg(20, b'\0' * 32)), ('SH', None), ('fragment', EE[:3]), ('nothing', b'')):
            inj.append(('plaintext ' + nm, lambda p, m=m: plain(22, p.good_hello(s) if m is None else m)))
        for lvl, code in ((1, 0), (2, 0), (2, 40), (2, 10), (1, 90), (2, 255), (0, 0)): inj.append(('plaintext alert %d' % code, plain(21, bytes([lvl, code]))))
        inj += [('short plaintext alert', plain(21, b'\2')), ('plaintext heartbeat', plain(24, b'\1\0\0')), ('plaintext type 0', plain(0, b'x')), ('plaintext type 255', plain(255, b'x' * 40))]
        for n in (0, 1, 2, 15, 16, 17, 18, 40): inj.append(('garbage of %d' % n, plain(23, bytes(r.randrange(256) for _ in range(n)))))
        inj.append(('cleartext in application data', plain(23, EE + b'\x16' + b'\0' * 16)))
        for nm, kw in (('replayed', dict(seq=0)), ('next', dict(seq=1, advance=False)), ('after next', dict(seq=2)), ('third', dict(seq=3)), ('back', dict(seq=(1 << 64) - 1)), ('byte swapped', dict(seq=1 << 56)),
                       ('tag bit', dict(flip=(-1, 1))), ('tag start', dict(flip=(-16, 0x80))), ('first byte', dict(flip=(0, 1))), ('type byte', dict(flip=(-17, 0x16 ^ 0x15))), ('cut', dict(cut=1)), ('cut tag', dict(cut=16)), ('other version', dict(aad_ver=0x0301)), ('outer handshake', dict(outer=22)),
                       ('altered version', dict(ver=0x0301, aad_ver=0x0303)), ('altered version 0304', dict(ver=0x0304, aad_ver=0x0303)), ('altered version 0', dict(ver=0, aad_ver=0x0303)), ('low byte of the version', dict(ver=0x0302, aad_ver=0x0303)),
                       ('high byte of the version', dict(ver=0x0203, aad_ver=0x0303)), ('altered type', dict(outer=23, aad_outer=22)), ('altered type 21', dict(outer=23, aad_outer=21)), ('altered length', dict(aad_len=1)), ('altered length -256', dict(aad_len=-256)),
                       ('length of the content only', dict(aad_len=-16)), ('no header', dict(aad=b'')), ('zero header', dict(aad=b'\0' * 5)), ('another version throughout', dict(ver=0x0301)), ('version zero throughout', dict(ver=0)),
                       *[('keys of ' + x, dict(side=x)) for x in ('client', 'application', 'early', 'empty transcript', 'hello transcript', 'no early secret', 'handshake secret')], ('no iv', dict(iv=b'\0' * 12))):
            for t, m in ((22, EE), (22, CERT), (21, b'\2\x28'), (22, EE[:3])):
                inj.append(('%s %d/%d' % (nm, t, m[0]), er(t, m, **kw)))
        inj.append(('inner ccs', er(20, b'\1'))); inj.append(('inner application data', er(23, b'hello'))); inj.append(('inner heartbeat', er(24, b'\1\0\0')))
        inj.append(('inner nothing', lambda p: p.keys.record(0, b'', raw_inner=b'\0' * 5)))
        for i, (nm, x) in enumerate(inj):
            pos = i % 4 if g.scale < 2 else None
            places = {0: dict(mid=[x]), 1: dict(mid2=[x]), 2: dict(eerec=lambda p, m, x=x: [p.keys.record(22, m[:3]), x(p) if callable(x) else x, p.keys.record(22, m[3:])]),
                      3: dict(certrec=lambda p, m, x=x: [p.keys.record(22, m[:100]), x(p) if callable(x) else x, p.keys.record(22, m[100:])])}
            for k, kw in places.items():
                if pos is None or k == pos or k == (pos + 1) % 4 or k == 0: g.add('%s at %d' % (nm, k), flow(s, **kw))
        # leftovers: bytes after the ServerHello in its own record or protected by nothing
        for nm, left in (('one byte', b'\x08'), ('EE', EE), ('EE and Certificate', EE + CERT), ('another hello', None), ('zeros', b'\0' * 4), ('half EE', EE[:5]), ('Certificate', CERT[:50])):
            g.add('leftover ' + nm, flow(s, shrec=lambda p, m, left=left: [plain(22, m + (m if left is None else left))]))
            g.add('leftover %s in a second fragment' % nm, flow(s, shrec=lambda p, m, left=left: [plain(22, m[:50]), plain(22, m[50:] + (m if left is None else left))]))
            g.add('leftover %s, rest protected' % nm, flow(s, shrec=lambda p, m, left=left: [plain(22, m + (m if left is None else left))], ee=(EE[5:] or False) if nm == 'half EE' else None))
        # swapped and dropped records
        def swapped(p):
            a, b = p.keys.record(22, EE), p.keys.record(22, CERT); return b + a
        g.add('swapped', flow(s, mid=[swapped], ee=False, cert=False))
        def dropped(p):
            p.keys.record(22, EE); return p.keys.record(22, CERT)
        g.add('dropped', flow(s, mid=[dropped], ee=False, cert=False))
        def doubled(p):
            a = p.keys.record(22, EE); p.keys.seq -= 1; return a + a
        g.add('doubled', flow(s, mid=[doubled], ee=False))
        def late(p):
            a = [p.keys.record(22, EE)]; a += [p.keys.record(22, CERT[i:i + 1]) for i in range(4)]; return b''.join(a) + a[r.randrange(5)]
        for _ in range(4): g.add('replayed later', flow(s, mid=[late], ee=False, cert=False))
        # every bit of short records, every field of longer ones
        n = len(EE) + 1 + 16
        for bit in range(0, 8 * n, 1 if g.scale >= 2 else 5):
            g.add('EE record bit %d' % bit, flow(s, eerec=lambda p, m, bit=bit: [p.keys.record(22, m, flip=(bit // 8, 1 << bit % 8))]))
        for _ in range(g.n(25)):
            k, x = r.randrange(len(CERT) + 17), 1 << r.randrange(8)
            g.add('Certificate record byte %d' % k, flow(s, certrec=lambda p, m, k=k, x=x: [p.keys.record(22, m, flip=(k, x))]))
        for k in range(1, 19): g.add('record short by %d' % k, flow(s, eerec=lambda p, m, k=k: [p.keys.record(22, m, cut=k)]))
        # forged after n good ones
        for n in (1, 2, 7, 255, 256, 257):
            def forged(p, m, n=n):
                m = msg(11, b'\0' + (n + 9).to_bytes(3, 'big') + b'\0' * (n + 9))
                out = [p.keys.record(22, m[i:i + 1]) for i in range(n)]
                return out + [p.keys.record(22, m[n:], seq=r.choice((0, n, n % 256, 1)) if n > 2 else 0)]
            g.add('replay of a position after %d' % n, flow(s, certrec=forged), mode='all')

@family('C03')
def c03(g):
    r = g.rng
    EE, CERT = enc_exts(), GOOD_CERT
    types = [0, 1, 2, 3, 4, 5, 6, 8, 11, 12, 13, 14, 15, 16, 20, 22, 24, 25, 67, 128, 253, 254, 255] if g.scale < 2 else list(range(256))
    bodies = (b'', b'\0\0', b'\0' * 40)
    for t in types:
        for phase in ('sh', 'ee', 'cert'):
            for i, b in enumerate(bodies):
                m = msg(t, b)
                cutp = r.randint(1, len(m))
                whole, frags = [m], cuts(m, cutp)
                parts = frags if i == 1 else whole
                first = i == 2 and r.random() < .7      # only a beginning
                if first: parts = [m[:r.choice((1, 2, 3, 4, 5, 20))]]
                if phase == 'sh': g.add('type %d for SH' % t, flow(pre=[plain(22, c) for c in parts]))
                if phase == 'ee': g.add('type %d for EE' % t, flow(mid=[er(22, c) for c in parts]))
                if phase == 'cert': g.add('type %d for Certificate' % t, flow(mid2=[er(22, c) for c in parts]))
    # what may not come between the fragments of a message, in each phase and at each position
    between = [('bad ccs', 20, b'\2'), ('long ccs', 20, b'\1\1'), ('empty ccs', 20, b''), ('application data', 23, b'x' * 20), ('heartbeat', 24, b'\1'), ('unknown', 99, b'y'), ('type 0', 0, b''),
               ('ccs', 20, b'\1'), ('alert', 21, b'\2\x28'), ('warning', 21, b'\1\x5a'), ('type 21 empty', 21, b''), ('type 255', 255, b'z' * 50), ('type 19', 19, b'\1'), ('type 25', 25, b'\1')]
    for nm, t, b in between:
        for k in (1, 3, 4, 5, 38, 80, 122):
            g.add('%s in SH at %d' % (nm, k), flow(shrec=lambda p, m, k=k, t=t, b=b: [plain(22, m[:k]), plain(t, b), plain(22, m[k:])]))
        g.add('%s before SH' % nm, flow(pre=[plain(t, b)]))
        for k in (1, 2, 3, 4, 5):
            g.add('%s in EE at %d' % (nm, k), flow(eerec=lambda p, m, k=k, t=t, b=b: [p.keys.record(22, m[:k]), plain(t, b), p.keys.record(22, m[k:])]))
            g.add('inner %s in EE at %d' % (nm, k), flow(eerec=lambda p, m, k=k, t=t, b=b: [p.keys.record(22, m[:k]), p.keys.record(t, b), p.keys.record(22, m[k:])]))
        for k in (1, 4, 5, 200):
            g.add('%s in Certificate at %d' % (nm, k), flow(certrec=lambda p, m, k=k, t=t, b=b: [p.keys.record(22, m[:k]), plain(t, b), p.keys.record(22, m[k:])]))
            g.add('inner %s in Certificate at %d' % (nm, k), flow(certrec=lambda p, m, k=k, t=t, b=b: [p.keys.record(22, m[:k]), p.keys.record(t, b), p.keys.record(22, m[k:])]))
    # whole orders of messages
    def seqs():
        M = {'S': None, 'E': EE, 'C': CERT, 'V': msg(15, b'\4\3\0\0'), 'F': msg(20, b'\0' * 32), 'N': msg(4, b'\0' * 20), 'R': msg(13, b'\0\0\0'), 'K': msg(24, b'\0')}
        for n in (1, 2, 3):
            for q in itertools.product('SECFV', repeat=n): yield q, M
        for q in ('SECVF', 'SEVF', 'SEF', 'SF', 'SCEF', 'SERC', 'SEN', 'SEK', 'SECC', 'SEEC', 'SSEC'): yield tuple(q), M
    for q, M in seqs():
        def plan(p, q=q, M=M):
            out = []
            for c in q:
                m = p.good_hello() if c == 'S' else M[c]
                out.append(p.keys.record(22, m) if p.keys else plain(22, m))
                if c == 'S' and not p.keys: p.install(CHACHA, m)
            return out
        if len(q) < 3 or q[0] == 'S' or g.rng.random() < .15: g.add('order ' + ''.join(q), plan)
    # orders and repetitions, with everything that may have been offered and answered
    for cfg, es in ((dict(alpn=ALPN2), ([], [alpn_ext([b'h2'])])), (dict(sni=b'host'), ([], [ext(0, b'')])), (dict(alpn=ALPN2, sni=b'host'), ([], [alpn_ext([b'h2'])], [ext(0, b''), alpn_ext([b'http/1.1'])], [ext(10, b'\0\2\0\x17')])), (dict(), ([], [ext(10, b'\0\2\0\x17')]))):
        for a, b in itertools.product(es, repeat=2):
            A_, B_ = enc_exts(a), enc_exts(b)
            for q in ((A_, B_), (A_, B_, CERT), (A_, CERT, B_), (A_, A_[:5]), (CERT, A_), (A_, msg(13, b'\0\0\0'), CERT), (A_, msg(4, b'\0' * 20)), (A_, msg(20, b'\0' * 32)), (A_, msg(15, b'\4\3\0\0'), CERT), (A_, msg(8, b'')), (A_, None, CERT), (A_, msg(24, b'\0'), B_)):
                for joined in (False, True):
                    def recs(p, q=q, joined=joined):
                        ms = [p.good_hello() if x is None else x for x in q]
                        return b''.join(p.keys.record(22, x) for x in ([b''.join(ms)] if joined else ms))
                    g.add('several messages, configured', flow(g.rng.choice(SUITES), mid=[recs], ee=False, cert=False), cfg)
    # several messages in one record, messages across the key change
    g.add('EE and Certificate in one record', flow(ee=EE + CERT, cert=False))
    g.add('EE and a wrong one in one record', flow(ee=EE + EE, cert=False))
    g.add('Certificate and EE in one record', flow(ee=CERT + EE, cert=False))
    for k in range(1, len(EE)):
        g.add('EE across the key change at %d' % k, flow(shrec=lambda p, m, k=k: [plain(22, m + EE[:k])], ee=EE[k:]))
        g.add('EE across the key change, separate records, at %d' % k, flow(shrec=lambda p, m, k=k: [plain(22, m), plain(22, EE[:k])], ee=EE[k:]))
    for k in range(1, 20):
        g.add('EE and %d bytes of Certificate' % k, flow(ee=EE + CERT[:k], cert=CERT[k:]))
    g.add('Certificate request', flow(mid2=[er(22, msg(13, b'\0\0\0'))]))

@family('C08')
def c08(g):
    r = g.rng
    after = [('query',), ('close',), ('query',), ('close',), ('query',)]
    codes = list(range(0, 131)) + [200, 254, 255] if g.scale >= 2 else sorted({0, 1, 2, 10, 20, 21, 22, 30, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 60, 70, 71, 72, 80, 86, 90, 100, 109, 110, 111, 112, 113, 114, 115, 116, 117, 120, 121, 127, 128, 200, 254, 255})
    for code in codes:
        for lvl in (1, 2) if code not in (0, 40) else (0, 1, 2, 3, 255):
            g.add('alert %d/%d for SH' % (lvl, code), flow(pre=[plain(21, bytes([lvl, code]))]), acts=[('finish',)] + after)
            which = r.randrange(2)
            g.add('alert %d/%d with keys' % (lvl, code), flow(r.choice(SUITES), **{'mid' if which else 'mid2': [er(21, bytes([lvl, code]))]}), acts=[('finish',)] + after)
    for b in (b'', b'\2', b'\2\x28\0', b'\2\x28\2\x28', b'\1\0\1\0\1\0'):
        g.add('alert of %d bytes' % len(b), flow(pre=[plain(21, b)])); g.add('encrypted alert of %d bytes' % len(b), flow(mid=[er(21, b)]))
        g.add('padded alert of %d bytes' % len(b), flow(mid=[er(21, b, pad=30)]))
    # every cause at every stage, with write faults while alerting
    causes = {
        'bad hello': flow(sh=lambda p: server_hello([VERS], comp=1)), 'record type': flow(pre=[plain(99, b'')]), 'bad ccs': flow(pre=[plain(20, b'\2')]), 'too long': flow(pre=[plain(22, b'', ln=16385) + b'\0' * 10]),
        'message too long': flow(pre=[plain(22, b'\2\xff\xff\xff')]), 'tampered': flow(mid=[er(22, enc_exts(), flip=(0, 1))]), 'bad ee': flow(ee=enc_exts([ext(99, b'')])), 'wrong type': flow(mid=[er(22, GOOD_CERT)]),
        'certificate': flow(), 'bad certificate': flow(cert=certificate_msg([cert_entry(b'\0')])), 'inner type': flow(mid2=[er(23, b'x')]), 'plaintext after keys': flow(mid=[plain(21, b'\2\x28')]),
        'all padding': flow(mid=[lambda p: p.keys.record(0, b'', raw_inner=b'\0' * 9)]), 'leftover': flow(shrec=lambda p, m: [plain(22, m + b'\x08')])}
    for nm, pl in causes.items():
        for ws in ([1 << 20, 0], [1 << 20, 3, 0], [1 << 20, 1, 1, 1, 1, 1, 0], [1 << 20, 6, 0], [1 << 20, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1], [1 << 20, 5, -1], [1 << 20, 0, 0, 0, 0], [1 << 20, 23, 0], [0, 1 << 20, 2, -3]):
            g.add('%s, writes %s' % (nm, [x for x in ws if x < 100]), pl, io=IO(None, iter(ws)), acts=[('finish',), ('query',), ('close',), ('close',), ('query',)])
        g.add(nm + ', again', pl, acts=[('finish',), ('query',), ('finish',), ('query',), ('close',), ('finish',), ('close',), ('query',)])
    # no further output after failing or closing; closing at every moment
    for stop in ('nothing', 'sh', 'ee', 'all'):
        for k in (0, 1, 4, 5, 6, 50, 100, 127, 128, 129, 140, 160):
            def pl(p, stop=stop, k=k):
                if stop == 'nothing': return [b''.join(flow()(p))[:k]]
                return [b''.join(flow(stop=None if stop == 'all' else stop)(p))[:k + (128 if stop == 'ee' else 0)]]
            g.add('close after %s/%d' % (stop, k), pl, acts=[('finish',), ('close',), ('query',), ('close',)])
    for w in (0, 1, 2, 4, 5, 6, 20, 100, 130, 140, 150):
        # close while the hello is half written, then connect again
        io = IO(None, iter([w, 0] if w else [0]))
        g.add('close after writing %d' % w, flow(), io=io, acts=[('connect',), ('query',), ('close',), ('query',), ('finish',), ('close',)])
        io = IO(None, iter(([w, 0] if w else [0]) + [0, 0, 0, 1, 0]))
        g.add('close after writing %d, failing' % w, flow(), io=io, acts=[('connect',), ('query',), ('close',), ('query',), ('finish',), ('close',)])
    for n in (1, 2, 23, 24): # close_notify with keys, cut
        g.add('close_notify cut at %d' % n, flow(stop='sh'), io=IO(None, iter([1 << 20, n, 0])), acts=[('finish',), ('close',), ('query',), ('close',)])
    # local failures
    for rr in (['fail'], [None, 'fail'], ['zero'], ['order']):
        for io in (None, 'flaky'): g.add('rng %s' % rr, flow(), rng=rr, mode=io, acts=[('connect',), ('query',), ('close',), ('query',), ('finish',), ('query',)])
    for c in (dict(suites=0), dict(sig=0), dict(grp=0), dict(sni=b'n' * 66000)):
        g.add('configuration %s' % list(c), flow(), c, acts=[('connect',), ('query',), ('connect',), ('close',), ('query',)])

    # every other way to fail, and every alert there is, followed by calls; some with write faults while alerting
    for i, (nm, cfg, pl, sk) in enumerate(zoo(g, g.n(420), ('C02', 'C03', 'C04', 'C04', 'C10', 'C11', 'C13', 'C13', 'C15'))):
        ws = r.choice((None, None, None, [1 << 20, 0], [1 << 20, r.randint(1, 30), 0], [1 << 20, 1, 1, 1, 1, 1, 1]))
        g.add('zoo: ' + nm, pl, cfg, io=IO(None, iter(ws)) if ws else g.io(), acts=[('finish',), ('query',), r.choice((('close',), ('finish',), ('query',))), ('close',), ('query',)], sk=sk)
    for code in (42, 43, 46, 48, 10, 20, 22, 47, 50, 70, 109, 110): g.add('error for alert %d' % code, ERRORS[code], acts=[('finish',), ('query',), ('close',)])

ERRORS = {42: flow(cert=certificate_msg([cert_entry(b'\x30\0')])), 43: flow(cert=certificate_msg([cert_entry(certificate(oid=bytes.fromhex('2b6570')))])), 46: flow(), 48: flow(AES), 10: flow(mid=[er(22, GOOD_CERT)]), 20: flow(mid=[er(22, b'x', flip=(0, 1))]),
          22: flow(mid=[plain(23, b'', ln=16641)]), 47: flow(sh=lambda p: server_hello([key_share(p.share()), VERS], comp=1)), 50: flow(sh=lambda p: server_hello([key_share(p.share()), VERS], tail=b'\0')), 70: flow(sh=lambda p: server_hello([key_share(p.share()), ext(43, b'\3\3')])),
          109: flow(sh=lambda p: server_hello([VERS])), 110: flow(ee=enc_exts([ext(99, b'')]))}

@family('C11')
def c11(g):
    r = g.rng
    # every way of cutting the hello in two, three; byte by byte
    n = 123
    for k in range(1, n, 1 if g.scale >= 2 else 3): g.add('hello cut at %d' % k, flow(shrec=lambda p, m, k=k: [plain(22, c) for c in cuts(m, k)]))
    for k in (1, 2, 3, 4, 5, 6): g.add('hello cut at %d' % k, flow(shrec=lambda p, m, k=k: [plain(22, c) for c in cuts(m, k)]))
    g.add('hello byte by byte', flow(shrec=lambda p, m: [plain(22, m[i:i + 1]) for i in range(len(m))]))
    g.add('hello byte by byte with ccs', flow(shrec=lambda p, m: [plain(22, m[i:i + 1]) + CCS for i in range(len(m))]))
    for s in SUITES:
        for _ in range(g.n(50)):
            k = r.randint(1, 6); pads = r.choice(((0,), (0, 1, 7), (0, 200)))
            cc = lambda: r.choice(((), (), (CCS,), (CCS, CCS)))
            names = r.choice((0, 1, 200))
            ee = enc_exts([ext(10, b'\0\2\0\x17')] * (names > 0))
            rr = random.Random(r.random())
            def mix(p, m, rr=rr, k=k, pads=pads):
                out = []
                for c in random_cuts(rr, m, rr.randint(0, k)):
                    out += [CCS] * rr.choice((0, 0, 1, 2)); out.append(p.keys.record(22, c, rr.choice(pads)) if p.keys else plain(22, c))
                return out
            g.add('random cut', flow(s, ee=ee, shrec=mix, eerec=mix, certrec=mix, pre=cc(), mid=cc(), mid2=cc()))
        # EE and Certificate in shared records, cut anywhere
        both = enc_exts() + GOOD_CERT
        for k in list(range(1, 16)) + [100, 200, len(both) - 1]:
            g.add('EE and Certificate cut at %d' % k, flow(s, ee=both, cert=False, eerec=lambda p, m, k=k: [p.keys.record(22, c) for c in cuts(m, k)]))
        for k in range(1, 8):
            g.add('EE cut at %d' % k, flow(s, eerec=lambda p, m, k=k: [p.keys.record(22, c) for c in cuts(m, k)]))
    # boundary sizes of records, plain and protected
    for n in (16382, 16383, 16384, 16385, 16386, 16640, 16641, 20000, 65535):
        m = msg(2, b'\0' * (n - 4))
        g.add('plain record of %d' % n, flow(pre=[plain(22, m)]), mode='all')
        g.add('plain record of %d, garbage' % n, flow(pre=[plain(22, b'\2\1\0\0' + b'\0' * (n - 4))]), mode='rand')
        g.add('plain alert of %d' % n, flow(pre=[plain(21, b'\2\x28' + b'\0' * (n - 2))]), mode='all')
        g.add('plain ccs of %d' % n, flow(pre=[plain(20, b'\1' * n)]), mode='all')
        g.add('plain ccs of %d after keys' % n, flow(mid=[plain(20, b'\1' * n)]), mode='all')
        for s in SUITES:
            big = msg(11, b'\0\0\xff\xf0' + b'\0' * 0xfff0)
            if n <= 16390: g.add('protected content of %d' % n, flow(s, cert=big, certrec=lambda p, m, n=n: [p.keys.record(22, m[:n]), p.keys.record(22, m[n:n + 16000])]), mode='all')
            if n <= 16390: g.add('protected content of %d with padding' % n, flow(s, cert=big, certrec=lambda p, m, n=n: [p.keys.record(22, m[:n - 5], 5), p.keys.record(22, m[n - 5:n + 16000])]), mode='all')
            if n <= 16641: g.add('padded to %d' % n, flow(s, eerec=lambda p, m, n=n: [p.keys.record(22, m, n - len(m) - 1)]), mode='all')
            g.add('protected record announcing %d' % n, flow(s, mid=[lambda p, n=n: plain(23, b'\0' * n)]), mode='all')
    for n in (16623, 16624, 16625): g.add('padded to record %d' % n, flow(eerec=lambda p, m, n=n: [p.keys.record(22, m, n - 17 - len(m))]), mode='all')
    # only the header arrives
    for t in (20, 21, 22, 23, 24):
        for n in (0, 1, 2, 3, 16384, 16385, 16640, 16641, 65535):
            g.add('header %d/%d' % (t, n), lambda p, t=t, n=n: [plain(t, b'', ln=n)])
            g.add('protected header %d/%d' % (t, n), flow(mid=[plain(t, b'', ln=n)], ee=False, cert=False))
    for v in (0, 0x0300, 0x0301, 0x0302, 0x0304, 0xffff):
        g.add('record version %04x' % v, flow(shrec=lambda p, m, v=v: [plain(22, m, v)]))
    # messages up to the limit
    lim = 131072
    for total in (lim - 4096, lim - 1, lim, lim + 1, lim + 4, lim + 5, 200000, (1 << 24) + 3) if g.scale >= 2 else (lim - 1, lim, lim + 5):
        body = b'\0' + (total - 8).to_bytes(3, 'big') + cert_entry(_cert) + b'\0' * (total - 8 - len(cert_entry(_cert))) if total < 1 << 20 else b'\0'
        m = msg(11, body, total - 4)
        m = m[:min(len(m), 140000)]
        g.add('message of %d' % total, flow(cert=m, certrec=lambda p, m: [p.keys.record(22, m[i:i + 16384]) for i in range(0, len(m), 16384)]), mode='all')
    for ln in (lim - 5, lim - 4, lim - 3, lim - 1, lim, lim + 1, 0x20000 + 2, 0xffffff, 0x800000):
        for ph in ('sh', 'ee', 'cert'):
            t = dict(sh=2, ee=8, cert=11)[ph]; h = bytes([t]) + ln.to_bytes(3, 'big')
            for more in (b'', b'\0' * 30):
                x = plain(22, h + more) if ph == 'sh' else er(22, h + more)
                g.add('%s announcing %d' % (ph, ln), flow(**{dict(sh='pre', ee='mid', cert='mid2')[ph]: [x]}, stop=None))
    # empty records and paddings
    for t in (20, 21, 22, 23, 24, 1):
        for pad in (0, 1, 50): g.add('empty protected %d, padding %d' % (t, pad), flow(mid=[er(t, b'', pad=pad)]))
        g.add('empty plain %d' % t, flow(pre=[plain(t, b'')]))
    for n in (1, 2, 15, 16, 100, 16385): g.add('all padding %d' % n, flow(mid=[lambda p, n=n: p.keys.record(0, b'', raw_inner=b'\0' * n)]), mode='all')
    g.add('empty plain handshake in the middle', flow(shrec=lambda p, m: [plain(22, m[:9]), plain(22, b''), plain(22, m[9:])]))
    for c in (b'', b'\0', b'\2', b'\xff', b'\1\1', b'\1\0'): g.add('ccs %r' % c, flow(mid=[plain(20, c)])); g.add('early ccs %r' % c, flow(pre=[plain(20, c)]))
    for k in (1, 5, 40): g.add('%d ccs' % k, flow(pre=[CCS] * k, mid=[CCS] * k, mid2=[CCS] * k, post=[CCS]))

@family('C13')
def c13(g):
    r = g.rng
    def c(desc, *certs, **kw): g.add(desc, flow(r.choice(SUITES), cert=certificate_msg([x if isinstance(x, tuple) else cert_entry(x) for x in certs] if certs else [], **kw)))
    C = certificate
    e = lambda b: b
    good = C()
    c('good', good); c('two', good, good); c('three', good, good, good); c('good and bad', good, b'\x30\0'); c('bad and good', b'\x30\0', good)
    # list structure
    for d in (-300, -100, -3, -2, -1, 1, 2, 3, 5, 1000, 0xff0000):
        n = len(cert_entry(good))
        g.add('list length %+d' % d, flow(cert=certificate_msg([cert_entry(good)], list_len=max(0, n + d))))
        g.add('entry length %+d' % d, flow(cert=certificate_msg([cert_entry(good, dlen=max(0, len(good) + d))])))
        g.add('second entry length %+d' % d, flow(cert=certificate_msg([cert_entry(good), cert_entry(good, dlen=max(0, len(good) + d))])))
        if 0 < d < 60000:
            g.add('tail %d' % d, flow(cert=certificate_msg([cert_entry(good)], tail=b'\0' * d)))
            g.add('list tail %d' % d, flow(cert=certificate_msg([cert_entry(good), b'\0' * d])))
            g.add('extensions length %d' % d, flow(cert=certificate_msg([cert_entry(good, elen=d)])))
            g.add('extensions %d' % d, flow(cert=certificate_msg([cert_entry(good, exts=b'\0' * d), cert_entry(good)])))
            g.add('context length %d' % d, flow(cert=certificate_msg([cert_entry(good)], ctx_len=d % 256)))
            g.add('context %d' % (d % 256), flow(cert=certificate_msg([cert_entry(good)], ctx=b'c' * (d % 256))))
    g.add('empty list', flow(cert=certificate_msg([]))); g.add('empty entry', flow(cert=certificate_msg([cert_entry(b'')]))); g.add('good and empty', flow(cert=certificate_msg([cert_entry(good), cert_entry(b'')])))
    for n in range(0, 12): g.add('body of %d' % n, flow(cert=msg(11, certificate_msg([cert_entry(good)])[4:4 + n])))
    for n in range(0, 12): g.add('zero body of %d' % n, flow(cert=msg(11, b'\0' * n)))
    g.add('extension in entry', flow(cert=certificate_msg([cert_entry(good, exts=ext(5, b'\1\0'))])))
    # certificate contents
    for v in (None, 0, 1, 3, 127, 255): c('version %s' % v, C(version=v))
    for raw in (b'', der(2, b''), der(2, b'\0\2'), der(2, b'\2\0'), der(3, b'\2'), der(2, b'\2') * 2, b'\2', b'\2\1', der(2, b'\2') + b'\0', der(0x30, b'\2')): c('version %s' % raw.hex(), C(version_raw=raw))
    oids = [b'', b'\x2a', T.OID_ECDSA_SHA256[:-1], T.OID_ECDSA_SHA256 + b'\0', T.OID_ECDSA_SHA256[:-1] + b'\1', T.OID_ECDSA_SHA256[:-1] + b'\3', T.OID_EC, bytes.fromhex('2a864886f70d01010b'), bytes.fromhex('2b6570'), b'\x2b' + T.OID_ECDSA_SHA256[1:]]
    for o in oids: c('algorithm %s' % o.hex(), C(oid=o))
    alg = der(0x30, der(6, T.OID_ECDSA_SHA256))
    for nm, a in (('null parameters', der(0x30, der(6, T.OID_ECDSA_SHA256) + b'\5\0')), ('no object', der(0x30, b'')), ('integer', der(0x30, der(2, b'\1'))), ('set', der(0x31, der(6, T.OID_ECDSA_SHA256))), ('bare', der(6, T.OID_ECDSA_SHA256))):
        c('algorithm ' + nm, C(alg=a))
    N = T.N
    for i, v in enumerate((0, 1, 2, N - 1, N, N + 1, N * 2, (1 << 256) - 1, 1 << 256, 1 << 255, (1 << 256) + 5, 1 << 300, 1 << 2000, -1, -5, -(1 << 255), N >> 1)):
        enc = v if v >= 0 else v.to_bytes(v.bit_length() // 8 + 1, 'big', signed=True)
        c('r %d' % i, C(r=enc)); c('s %d' % i, C(s=enc)); c('both %d' % i, C(r=enc, s=enc))
    for raw in (b'', b'\0', b'\0\1', b'\0\0\1', b'\0\x80', b'\x80', b'\xff', b'\0' * 40 + b'\1', b'\0' * 33, b'\1' * 32, b'\1' * 33, b'\x7f' + b'\xff' * 31, b'\0' + b'\xff' * 32, b'\xff' * 32):
        c('r %s' % raw.hex()[:20], C(r=raw)); c('s %s' % raw.hex()[:20], C(s=raw))
    ri = T.der_int(5)
    for nm, s in (('empty', b''), ('one integer', der(0x30, ri)), ('three', der(0x30, ri * 3)), ('no integers', der(0x30, b'')), ('bare', ri + ri), ('tail', der(0x30, ri + ri) + b'\0'), ('tail inside', der(0x30, ri + ri + b'\0')), ('octets', der(0x30, der(4, b'\5') + ri)), ('octets second', der(0x30, ri + der(4, b'\5'))),
                  ('long length', der(0x30, ri + ri, b'\x81\6')), ('overlong', der(0x30, ri + ri, b'\x7f')), ('set', der(0x31, ri + ri)), ('short', der(0x30, ri + b'\2')), ('second cut', der(0x30, ri + b'\2\5\1'))):
        c('signature ' + nm, C(sig=s))
    for b in (b'', b'\0', b'\1' + der(0x30, ri + ri), b'\7', b'\x80' + der(0x30, ri + ri), der(0x30, ri + ri), b'\0\0' + der(0x30, ri + ri)): c('bits %s' % b.hex(), C(bits=b))
    t1, t2 = der(0x17, b'240101000000Z'), der(0x18, b'20340101000000Z')
    for nm, v in (('generalized', der(0x30, t1 + t2)), ('both generalized', der(0x30, t2 + t2)), ('one', der(0x30, t1)), ('none', der(0x30, b'')), ('three', der(0x30, t1 * 3)), ('strings', der(0x30, der(0x0c, b'x') * 2)), ('second wrong', der(0x30, t1 + der(2, b'\1'))), ('bare', t1), ('set', der(0x31, t1 + t2)), ('integer', ri), ('empty times', der(0x30, der(0x17, b'') * 2)), ('cut', der(0x30, t1 + b'\x17')), ('garbage', der(0x30, t1 + b'\x17\x50'))):
        c('validity ' + nm, C(validity=v))
    for d in ('version', 'serial', 'alg', 'issuer', 'validity', 'subject', 'spki', 'exts'):
        c('without ' + d, C(drop=(d,)))
        for nm, v in (('empty', b''), ('null', b'\5\0'), ('octets', der(4, b'abc')), ('cut', b'\x30\x20\0'), ('no length', b'\x30'), ('long tag', b'\x1f\x81\1\0'), ('indefinite', b'\x30\x80\0\0'), ('four length bytes', b'\x30\x84\0\0\0\1\0'), ('five', b'\x30\x85\0\0\0\0\1\0'), ('huge', b'\x30\x84\xff\xff\xff\xff'), ('max', b'\x30\x83\xff\xff\xff'), ('sequence', b'\x30\0')):
            c('%s %s' % (d, nm), C(parts={d: v}))
    c('tail', C(tail=b'\0')); c('tail object', C(tail=b'\5\0')); c('outer set', C(outer_tag=0x31)); c('tbs set', C(tbs_tag=0x31)); c('without extensions', C(exts=False))
    c('two certificates in one entry', good + good)
    for x in (b'', b'\x30', b'\x30\0', b'\x30\x80', b'\x30\x81', b'\x30\x81\0', b'\x30\x82\0', b'\x30\x84\x7f\xff\xff\xff', b'\x30\x88' + b'\xff' * 8, b'\x30\xff', b'\0', b'\0\0', b'\x31\0', b'\xff' * 20, b'\x30\x7f', b'\x30\x7e' + b'\x30' * 126, b'\x30\x03\x30\x01\x30'):
        if x: c('raw %s' % x.hex()[:30], x)
    # truncation at every byte: plainly, and with all enclosing lengths corrected
    step = 1 if g.scale >= 2 else 3
    for k in range(1, len(good), step): c('cut to %d' % k, good[:k])
    tbs = good[4 + 0:]
    def refit(b, n):       # keep n bytes of the content of every object on the way
        return b
    inner = C()[4:]
    for k in range(1, len(inner), step): c('outer content cut to %d' % k, der(0x30, inner[:k]))
    hl = 3 if inner[1] == 0x81 else 4
    tl = (inner[2] if inner[1] == 0x81 else inner[2] * 256 + inner[3])
    tb, rest = inner[hl:hl + tl], inner[hl + tl:]
    for k in range(0, len(tb), step): c('tbs cut to %d' % k, der(0x30, der(0x30, tb[:k]) + rest))
    # every byte changed
    for k in range(0, len(good)):
        for x in ((1, 0x80, 0xff, 2, 0x20) if g.scale >= 2 else r.sample((1, 0x80, 0xff, 2, 0x20, 3), 2)):
            b = bytearray(good); b[k] ^= x; c('byte %d ^ %d' % (k, x), bytes(b))
    # nested deeply, and long
    deep = b'\5\0'
    for _ in range(60): deep = der(0x30, deep)
    c('deep', deep); c('deep subject', C(parts={'subject': deep}))
    for n in (100, 127, 128, 129, 200, 255, 256, 257, 1000, 5000): c('long extension %d' % n, C(extra_ext=der(0x30, der(6, b'\x55\x1d\x11') + der(4, b'e' * n))))
    # bytes beyond the certificate's own encoding
    for k in range(1, 30): c('second entry supplies the missing %d bytes' % k, good[:-k], good)

@family('C14')
def c14(g):
    R = ['fail', 'zero', 'order', 'order+1', 'order-1', 'ones', 'one', 'short', None]
    for a in R:
        for b in R:
            g.add('rng %s %s' % (a, b), flow(), rng=[a, b], acts=[('finish',), ('query',), ('close',), ('finish',), ('query',), ('close',)])
    for a in R: g.add('rng %s x4' % a, flow(), rng=[a] * 4, acts=[('finish',), ('query',), ('finish',), ('query',), ('close',)])
    for k in range(0, 256, 4):
        d = bytearray(b'\x11' * 32); d[k // 8] ^= 1 << k % 8
        g.add('key with bit %d' % k, flow(), rng=[bytes(d)], acts=[('connect',), ('close',)], mode='all')
        g.add('random with bit %d' % k, flow(), rng=[None, bytes(d)], acts=[('connect',), ('close',)], mode='all')
    for n in (2, 3, 6):
        for s in SUITES: g.add('%d attempts' % n, flow(s), acts=[('finish',)] * n + [('close',)])
    g.add('attempts closed early', flow(), acts=[('connect',), ('close',)] * 6)
    g.add('suspended attempts draw once', flow(), mode='onefail')
    for mode in ('flaky', 'rand', 'onefail', 'tiny'):
        for k in range(g.n(8)): g.add('suspended', flow(), mode=mode, acts=[('finish',), ('finish',), ('close',), ('finish',)])
    for first in R[:3]:
        g.add('failure and a second attempt', flow(), rng=[first], acts=[('connect',), ('query',), ('connect',), ('query',), ('close',), ('query',), ('finish',)])
        g.add('failure of the random and a second attempt', flow(), rng=[None, first], acts=[('connect',), ('query',), ('connect',), ('query',), ('close',), ('query',), ('finish',)])
    for v in (1, 2, 255, 256, T.N - 1, T.N, T.N + 1, T.N + 2, 2**256 - 1, 2**255, 2**128, 2**64 - 1, 2**64):
        g.add('key %d le' % (v % 1000), flow(), rng=[v.to_bytes(32, 'little')], acts=[('finish',), ('query',)])
        g.add('key %d be' % (v % 1000), flow(), rng=[v.to_bytes(32, 'big')], acts=[('finish',), ('query',)])

# ------------------------------------------------------------------ IO schedules
def c05_plans():
    E = enc_exts([alpn_ext([b'h2'])])
    return [('good', flow(ee=E)), ('good aes', flow(AES, ee=E)), ('fragments', flow(shrec=lambda p, m: [plain(22, c) for c in cuts(m, 2, 4, 40)], mid=[CCS], ee=E, eerec=lambda p, m: [p.keys.record(22, c) for c in cuts(m, 1, 5)], certrec=lambda p, m: [p.keys.record(22, c, 3) for c in cuts(m, 3, 200)])),
            ('shared record', flow(ee=E + GOOD_CERT, cert=False)), ('alert', flow(mid=[er(21, b'\2\x28')])), ('early alert', flow(pre=[CCS, plain(21, b'\2\x46')])), ('bad hello', flow(sh=lambda p: server_hello([VERS]))),
            ('tampered', flow(mid=[CCS, er(22, E, flip=(2, 2))])), ('bad type', flow(mid2=[plain(99, b'abc')])), ('stops in EE', flow(ee=E, stop='ee', eerec=lambda p, m: [p.keys.record(22, m)[:-4]])), ('stops in a header', flow(ee=E, stop='ee', eerec=lambda p, m: [p.keys.record(22, m), b'\x17\3'])), ('nothing', lambda p: [])]

@family('C05')
def c05(g):
    r = g.rng
    cfg = dict(alpn=ALPN2, sni=b'host')
    def sched(ws=None, rs=None): return IO(iter(rs) if rs else None, iter(ws) if ws else None, scribble=r.random() < .5)
    ends = [('finish',), ('query',)]
    for nm, pl in c05_plans():
        seed = r.randrange(1 << 30)
        def add(desc, io):
            g.add('%s: %s' % (nm, desc), pl, cfg, io=io, acts=ends); g.out[-1].seed = seed; g.out[-1].focus = ('pair', nm)
        add('reference', IO())
        for mode in ('one', 'tiny', 'onefail'):
            if mode == 'one' or nm in ('good', 'fragments', 'alert', 'bad hello'):
                rr = random.Random(r.random()); add('reads ' + mode, IO(sizes(rr, mode), None))
        rr = random.Random(r.random()); add('writes one', IO(None, sizes(rr, 'one'))); add('writes onefail', IO(None, sizes(rr, 'onefail')))
        for mode in ('rand', 'flaky', 'failfirst'):
            for _ in range(g.n(6)):
                rr = random.Random(r.random()); add(mode, IO(sizes(rr, mode), sizes(rr, mode), scribble=True))
        # a single failure after k bytes read, for every k through the first records; and two failures
        for k in list(range(0, 12)) + sorted(r.sample(range(12, 520), g.n(22))):
            add('failure after reading %d' % k, StopIO(reads=[k]))
        for _ in range(g.n(12)):
            ks = sorted(r.sample(range(0, 520), r.randint(2, 5))); add('failures after reading %s' % ks, StopIO(reads=ks))
            ks = sorted(r.sample(range(0, 200), r.randint(1, 4))); add('failures after writing %s' % ks, StopIO(writes=ks))
        for k in list(range(0, 8)) + sorted(r.sample(range(8, 180), g.n(6))):
            add('failure after writing %d' % k, StopIO(writes=[k]))
    for nm, cf, pl, sk in zoo(g, g.n(110)):
        seed = r.randrange(1 << 30)
        for mode in ('ref', 'flaky', 'onefail'):
            rr = random.Random(r.random())
            g.add('zoo: %s: %s' % (nm, mode), pl, cf, io=IO() if mode == 'ref' else IO(sizes(rr, mode), sizes(rr, 'flaky'), scribble=True), acts=ends, sk=sk); g.out[-1].seed = seed; g.out[-1].focus = ('pair', 'zoo: %s %d' % (nm, seed))
    # the hello in several records, writes failing at every boundary
    for n in (16150, 16200, 16250, 30000):
        seed = r.randrange(1 << 30)
        for io in [IO()] + [StopIO(writes=[k]) for k in (0, 3, 5, 6, 16000, 16388, 16389, 16390, 16393, 16394, 16395)] + [IO(None, iter([1 << 14] * 40))]:
            g.add('long hello %d' % n, flow(), dict(sni=b'n' * n), io=io, acts=ends); g.out[-1].seed = seed; g.out[-1].focus = ('pair', 'long%d' % n)

class StopIO(IO):
    """Fails exactly once when the given numbers of bytes have been read or written."""
    def __init__(self, reads=(), writes=(), repeat=1):
        super().__init__()
        self.rs, self.ws, self.rn, self.wn = sorted(reads), sorted(writes), 0, 0
    def _cut(self, stops, done, amt):
        if stops and stops[0] <= done:
            stops.pop(0); return 0
        return min(amt, stops[0] - done) if stops else amt
    def read_size(self, amt): return self._cut(self.rs, self.rn, amt)
    def write_size(self, amt): return self._cut(self.ws, self.wn, amt)
    def did_read(self, n): self.rn += n
    def did_write(self, n): self.wn += n

# ------------------------------------------------------------------ reuse and call orders
def endings(r):
    """Plans by which an attempt ends or stalls at some point."""
    E = enc_exts([alpn_ext([b'h2'])])
    return [flow(ee=E), flow(AES, ee=E), flow(ee=E, stop='sh'), flow(ee=E, stop='ee'), flow(pre=[plain(21, b'\2\x28')]), flow(mid=[er(21, b'\2\x50')]), flow(sh=lambda p: server_hello([VERS])), lambda p: [],
            lambda p: [plain(22, p.good_hello())[:r.choice((3, 5, 20, 127))]], flow(shrec=lambda p, m: [plain(22, m[:30])], stop='sh'), flow(mid=[er(22, E, flip=(0, 1))]), flow(ee=E, stop='ee', eerec=lambda p, m: [p.keys.record(22, m[:4])]),
            flow(ee=E, eerec=lambda p, m: [p.keys.record(22, m + GOOD_CERT[:50])], cert=False), flow(ee=E, eerec=lambda p, m: [p.keys.record(22, m), p.keys.record(22, GOOD_CERT)[:40]], cert=False), flow(pre=[CCS, plain(99, b'')]),
            flow(ee=E, mid=[CCS], cert=certificate_msg([])), flow(ee=enc_exts([alpn_ext([b'zz'])])), flow(shrec=lambda p, m: [plain(22, m + b'\x08\0\0')], stop='sh'), flow(pre=[plain(22, b'\2\2\2\2')])]

@family('C09')
def c09(g):
    r = g.rng
    cfgs = [dict(), dict(alpn=ALPN2), dict(alpn=ALPN2, sni=b'host'), dict(suites=1), dict(suites=2), dict(suites=3), dict(alpn=None), dict(sni=None)]
    E = endings(r)
    finals = [flow(ee=enc_exts([alpn_ext([b'http/1.1'])])), flow(AES), flow(), flow(mid=[er(22, enc_exts(), seq=1)]), flow(eerec=lambda p, m: [p.keys.record(22, c) for c in cuts(m, 2)], shrec=lambda p, m: [plain(22, c) for c in cuts(m, 1, 50)])]
    for i, e in enumerate(E):
        for j, f in enumerate(finals):
            for closed in (True, False):
                acts = [('cfg', dict(alpn=ALPN2)), ('attempt', Attempt(e, g.io())), ('finish',), ('query',)]
                if closed or True: acts += [('close',)] if closed else [('connect',), ('close',)]
                acts += [('query',), ('attempt', Attempt(f, g.io())), ('finish',), ('query',), ('close',), ('query',)]
                g.raw('ending %d, then %d' % (i, j), acts)
    # closed at every point of reading and writing, then a full attempt
    for k in list(range(0, 30, 2)) + sorted(r.sample(range(30, 520), g.n(40))):
        g.raw('abandoned after reading %d' % k, [('cfg', dict(alpn=ALPN2)), ('attempt', Attempt(flow(r.choice(SUITES), ee=enc_exts([alpn_ext([b'h2'])])), StopIO(reads=[k]))), ('connect',), ('close',), ('query',), ('attempt', Attempt(r.choice(finals), g.io())), ('finish',), ('query',)])
    for k in list(range(0, 12)) + sorted(r.sample(range(12, 180), g.n(15))):
        g.raw('abandoned after writing %d' % k, [('cfg', dict(alpn=ALPN2)), ('attempt', Attempt(flow(), StopIO(writes=[k]))), ('connect',), ('close',), ('query',), ('attempt', Attempt(r.choice(finals), g.io())), ('finish',), ('query',)])
    g.raw('after a configuration error', [('cfg', dict(suites=0)), ('attempt', Attempt(flow())), ('connect',), ('query',), ('cfg', dict(suites=3)), ('finish',), ('query',), ('close',)])
    # the same object against a fresh one: the last attempt of each pair has the same randomness
    for _ in range(g.n(120)):
        acts = []
        for _ in range(r.randint(2, 6)):
            if r.random() < .5: acts.append(('cfg', r.choice(cfgs)))
            acts += [('attempt', Attempt(r.choice(E + finals), g.io(), rng=r.choice(([], [], [], ['fail'], [None, 'fail'], ['zero'])))), r.choice((('finish',), ('connect', r.randint(1, 3)))), ('query',)]
            if r.random() < .6: acts.append(('close',))
        g.raw('history', acts)
    # every kind of failure, then a plain attempt
    for nm, cfg, pl, sk in zoo(g, g.n(220)):
        g.raw('zoo: %s, then another attempt' % nm, ([('cfg', cfg)] if cfg else []) + [('attempt', Attempt(pl, g.io(), sk=sk)), r.choice((('finish',), ('connect', 2)))] + ([('close',)] if r.random() < .6 else []) + [('query',), ('attempt', Attempt(r.choice(finals), g.io())), ('finish',), ('query',), ('close',)])
    for s in SUITES:
        for n in (20,): g.raw('many attempts', sum([[('attempt', Attempt(r.choice(E), g.io())), ('finish',), ('close',)] for _ in range(n)], []))

@family('C16')
def c16(g):
    r = g.rng
    ops = ['connect', 'close', 'query', 'getcfg', 'nulls']
    E = endings(r)
    for n in (0, 1, 2, 3):
        for q in itertools.product(ops, repeat=n):
            if n == 3 and g.scale < 2 and r.random() < .4: continue
            g.raw('calls ' + '/'.join(q), [('attempt', Attempt(r.choice(E), g.io()))] + [(x,) for x in q])
    for q in itertools.product(('connect', 'close', 'query'), repeat=4):
        g.raw('calls ' + '/'.join(q), [('cfg', dict(alpn=ALPN2)), ('attempt', Attempt(r.choice(E), g.io('flaky')))] + [(x,) for x in q])
    for _ in range(g.n(150)):
        acts = []
        for _ in range(r.randint(3, 14)):
            x = r.random()
            if x < .2: acts.append(('cfg', r.choice((dict(alpn=ALPN2), dict(alpn=None), dict(sni=b'x'), dict(suites=r.randrange(4)), dict(sig=r.randrange(3)), dict(grp=r.randrange(3)), dict(alpn=b'\xff' + b'k' * 255)))))
            elif x < .4: acts.append(('attempt', Attempt(r.choice(E), g.io())))
            else: acts.append((r.choice(ops + ['connect', 'finish']),))
        g.raw('random calls', acts)
    for nm, cfg, pl, sk in zoo(g, g.n(120)):
        acts = ([('cfg', cfg)] if cfg else []) + [('attempt', Attempt(pl, g.io(), sk=sk))]
        g.raw('zoo: ' + nm, acts + [(r.choice(ops + ['connect', 'finish']),) for _ in range(r.randint(2, 7))])
    for k in range(0, 160, 7):
        g.raw('free in the middle of writing', [('attempt', Attempt(flow(), StopIO(writes=[k]))), ('connect',)])
        g.raw('free in the middle of reading', [('attempt', Attempt(flow(), StopIO(reads=[3 * k]))), ('connect',)])

@family('C12')
def c12(g):
    r = g.rng
    CV, FIN = msg(15, b'\4\3\0\x48' + b'\x30' * 72), msg(20, b'\0' * 32)
    for s in SUITES:
        for nm, post in (('verify and finished', [er(22, CV), er(22, FIN)]), ('finished', [er(22, FIN)]), ('application data', [er(23, b'hello')]), ('silence', []), ('close_notify', [er(21, b'\1\0')]), ('plain close_notify', [plain(21, b'\1\0')])):
            for certs in (GOOD_CERT, certificate_msg([]), False, certificate_msg([cert_entry(_cert)] * 3)):
                for again in (1, 4): g.add('%s after the certificate' % nm, flow(s, cert=certs, post=post), acts=[('finish',), ('connect', again), ('query',), ('close',), ('connect', again)])
        def fin(p):
            th = T.hashlib.sha256(p.transcript).digest()
            fk = T.expand_label(p.keys.s, b'finished', b'', 32)
            return p.keys.record(22, msg(20, T.hmac.new(fk, th, T.hashlib.sha256).digest()))
        for kw in (dict(cert=False), dict(), dict(ee=False, cert=False)): g.add('real finished', flow(s, post=[fin], **kw), acts=[('finish',), ('connect', 3)])
    for e in endings(r): g.add('ending', e, acts=[('finish',), ('connect', 3), ('close',), ('connect', 2), ('query',)])
    g.add('repeated', lambda p: [], acts=[('connect', 50), ('close',), ('connect', 5)])
    for s in range(0, 6):
        q = ['SE', 'SC', 'SEC', 'SF', 'SEF', 'SECF'][s]
        M = {'S': None, 'E': enc_exts(), 'C': GOOD_CERT, 'F': FIN}
        def plan(p, q=q):
            out = []
            for c in q:
                m = p.good_hello() if c == 'S' else M[c]
                out.append(p.keys.record(22, m) if p.keys else plain(22, m))
                if c == 'S': p.install(CHACHA, m)
            return out
        g.add('order ' + q, plan, acts=[('finish',), ('connect', 2)])
    # alerts of every kind, at every moment
    for code in list(range(0, 128)) + [200, 255]:
        for lvl in (1, 2):
            where = r.choice((dict(pre=[plain(21, bytes([lvl, code]))]), dict(mid=[er(21, bytes([lvl, code]))]), dict(mid2=[er(21, bytes([lvl, code]))]))) if code not in (0, 90, 40, 255) else None
            for w in [where] if where else [dict(pre=[plain(21, bytes([lvl, code]))]), dict(mid=[er(21, bytes([lvl, code]))]), dict(mid2=[er(21, bytes([lvl, code]))]), dict(cert=certificate_msg([]), post=[er(21, bytes([lvl, code]))])]:
                g.add('alert %d/%d' % (lvl, code), flow(r.choice(SUITES), **w), acts=[('finish',), ('connect', 2), ('close',), ('connect',)])
    for nm, cfg, pl, sk in zoo(g, g.n(350)): g.add('zoo: ' + nm, pl, cfg, acts=[('finish',), ('connect', 2), ('close',), ('connect',)], sk=sk)
    for n in ERRORS: g.add('error for alert %d' % n, ERRORS[n], acts=[('finish',), ('connect',), ('close',), ('connect',)])
    # local failures and write failures
    for rr in (['fail'], [None, 'fail'], ['zero'], ['order'], [None, 'zero']): g.add('rng %s' % rr, flow(), rng=rr, acts=[('connect', 2), ('close',), ('connect', 2), ('finish',)])
    for c in (dict(suites=0), dict(sig=0), dict(grp=0), dict(sni=b'n' * 66000), dict(alpn=b'\0\0'), dict(alpn=b'\xff')): g.add('configuration %s' % list(c), flow(), c, acts=[('connect', 3), ('close',), ('connect',)])
    for k in (0, 1, 5, 9, 100, 130): g.add('write fails at %d' % k, flow(), io=StopIO(writes=[k]), acts=[('connect', 3), ('finish',), ('connect',)])
    for k in range(0, 520, 13): g.add('read fails at %d' % k, flow(r.choice(SUITES)), io=StopIO(reads=[k]), acts=[('connect', 2), ('finish',), ('connect',)])
    for k in range(0, 520, 19): g.add('the stream ends at %d' % k, lambda p, k=k: [b''.join(flow()(p))[:k]], acts=[('finish',), ('connect', 2), ('close',), ('connect',)])
    for key in (1, 5, T.N - 1): g.add('valid self-signature', flow(cert=certificate_msg([cert_entry(certificate(key=T.mul(key, T.G)))])))

@family('C18')
def c18(g):
    r = g.rng; Z = zoo(g, g.n(320)); mem = []
    extra = [dict(alpn=ALPN2), dict(alpn=b'\x02h3\x02h2'), dict(suites=1), dict(suites=2), dict(sni=b'example.com'), dict(sni=b'a' * 200, alpn=b'\x01x' * 300), dict(grp=0), dict(suites=0)]
    ends = [lambda: [('finish',), ('query',), ('close',)], lambda: [('connect', r.randint(1, 6)), ('close',), ('query',)], lambda: [('finish',)], lambda: [('connect', 2)]]
    def attempt(d, cfg, plan, sk):
        cfg = dict(cfg or {}); [cfg.setdefault(k, v) for k, v in (r.choice(extra).items() if r.random() < .25 else ())]
        rng = [r.choice([None, 'fail', 'zero'])] if r.random() < .08 else ()
        return [('cfg', dict(dict(alpn=None, sni=None, suites=3, grp=1, sig=1), **cfg)), ('attempt', Attempt(plan, g.io(r.choice((None, None, 'flaky', 'onefail' if r.random() < .2 else 'rand'))), rng, sk))] + r.choice(ends)()
    for z in Z:
        acts = attempt(*z)
        while r.random() < .3: acts += attempt(*r.choice(Z))
        g.raw(z[0], acts); mem.append(g.out[-1])
    for z in [('good', None, flow(s, ee=e), None) for s in SUITES for e in (enc_exts(), enc_exts([alpn_ext([b'h2'])]), None) for _ in range(3)]:
        g.raw('complete flight', attempt(z[0], dict(alpn=ALPN2), *z[2:])); mem.append(g.out[-1])
    for mode, n in (('calls', 60), ('nested', 110), ('baton', 110), ('free', 60)):
        for i in range(g.n(n)): g.out.append(Group('%s %d' % (mode, i), r.sample(mem, r.choice((2, 2, 3, 4))), mode, r.randrange(1 << 30)))
    # short attempts, each in one call
    short = []
    for z in [('good %d' % i, dict(alpn=ALPN2) if i % 3 else {}, flow(s, ee=e), None) for i, (s, e) in enumerate(itertools.product(SUITES, (enc_exts(), enc_exts([alpn_ext([b'h2'])]), enc_exts([alpn_ext([b'h3'])]))))] + r.sample(Z, min(len(Z), 14)):
        g.raw('one call: ' + z[0], [('cfg', dict(dict(alpn=None, sni=None, suites=3, grp=1, sig=1), **(z[1] or {}))), ('attempt', Attempt(z[2], IO(), (), z[3])), ('connect',), ('close',)])
        short.append(g.out[-1])
    g.out.append(Race('race', short, g.n(40)))

@family('C17')
def c17(g):
    r = g.rng
    def add(desc, acts):
        g.raw(desc, acts); g.out[-1].mem = True
    cfgs = [dict(), dict(alpn=ALPN2), dict(sni=b'example.com', alpn=b'\x01x' * 8000), dict(sni=b'a' * 15000), dict(suites=0), dict(grp=0), dict(suites=1), dict(suites=2)]
    def attempt(d, cfg, plan, sk, io=None, rng=()):
        c = dict(r.choice(cfgs) if r.random() < .15 else {}); c.update(cfg or {})
        return [('cfg', dict(dict(alpn=None, sni=None, suites=3, grp=1, sig=1), **c)), ('attempt', Attempt(plan, g.io(io), rng, sk))]
    ends = [[('finish',)], [('finish',), ('close',)], [('finish',), ('close',), ('close',), ('query',)], [('connect', 1)], [('connect', 3), ('close',)], [('connect', 2)], []]
    good = [('good %x' % s_, dict(alpn=ALPN2), flow(s_, ee=enc_exts([alpn_ext([b'h2'])])), None) for s_ in SUITES]
    # the same life five times over
    for z in zoo(g, g.n(220)) + good * 3:
        io, end = r.choice((None, 'flaky', 'rand')), r.choice(ends); acts = []
        for k in range(5): acts += ([('again',)] if k else []) + attempt(*z, io=io) + end
        add('five lives: ' + z[0], acts)
    for what in ('fail', 'zero'):
        for at in (0, 1):
            acts = []
            for k in range(5): acts += ([('again',)] if k else []) + attempt(*good[0], rng=[None] * at + [what]) + [('connect', 2), ('close',)]
            add('five lives: random source %s at %d' % (what, at), acts)
    # many attempts on one object
    def split(p, m): return [er(22, m[i:i + 16000])(p) for i in range(0, len(m), 16000)]
    def filled(n): return certificate_msg([cert_entry(b'\x30' + bytes([0x83]) + n.to_bytes(3, 'big') + bytes(n))])
    for desc, zs, k in [('large messages', [('', None, flow(r.choice(SUITES), cert=filled(n), certrec=split), None) for n in (70000, 120000, 131000)], 40),
                        ('complete flights', good, 40), ('large protocols', [('', dict(alpn=b'\x01x' * 30000), lambda p: [], None)], 40), ('mixed', zoo(g, 60), 60)]:
        acts = []
        for _ in range(g.n(k)): acts += attempt(*r.choice(zs), io='all' if desc != 'mixed' else None) + r.choice(ends[:2])
        add('many attempts: ' + desc, acts)
    # much data in one attempt
    for desc, plan in [('ccs first', lambda p: [CCS] * 6000), ('ccs later', flow(post=[CCS] * 6000)), ('ccs in between', flow(mid=[CCS] * 3000, mid2=[CCS] * 3000)),
                       ('empty handshake records', flow(post=[er(22, b'')] * 60)), ('a stream of records', flow(post=[er(22, b'\x0b' + (0xffffff).to_bytes(3, 'big') + bytes(16000))] + [er(22, bytes(16384))] * 20)),
                       ('plain stream', lambda p: [plain(22, b'\x02\x01\xff\xf0' + bytes(16000))] + [plain(22, bytes(16384))] * 20),
                       ('many extensions', flow(ee=enc_exts([ext(0x1000 + i, b'') for i in range(4000)]), eerec=split)), ('many entries', flow(cert=certificate_msg([cert_entry(b'\0') for _ in range(20000)]), certrec=split))]:
        add('much data: ' + desc, attempt('', dict(alpn=ALPN2), plan, None, io='all') + [('finish',), ('query',), ('close',)])

@family('C01')
def c01(g):
    r = g.rng
    streams = [flow(ee=enc_exts([alpn_ext([b'h2']), ext(10, b'\0\2\0\x17'), ext(0, b'')])), flow(AES), flow(shrec=lambda p, m: [plain(22, c) for c in cuts(m, 3, 60)])]
    cfg = dict(alpn=ALPN2, sni=b'host')
    # truncated streams, then everything that can be called
    for k in sorted(r.sample(range(0, 560), g.n(60))):
        g.add('stream cut at %d' % k, lambda p, k=k: [b''.join(streams[0](p))[:k]], cfg)
    # mutated plaintext streams
    for i in range(g.n(220)):
        seed = r.random()
        def plan(p, seed=seed):
            q = random.Random(seed)
            b = bytearray(b''.join(q.choice(streams)(p)))
            for _ in range(q.randint(1, 4)):
                k = q.randrange(min(len(b), q.choice((10, 140, 10000)))); o = q.randrange(5)
                if o == 0: b[k] ^= 1 << q.randrange(8)
                elif o == 1: b[k] = q.choice((0, 1, 0x7f, 0x80, 0xff, q.randrange(256)))
                elif o == 2: del b[k:k + q.randint(1, 8)]
                elif o == 3: b[k:k] = bytes(q.randrange(256) for _ in range(q.randint(1, 8)))
                else: b[k:k] = b[q.randrange(len(b)):][:q.randint(1, 60)]
            return [bytes(b)]
        g.add('mutated stream', plan, cfg)
    # mutated messages, correctly framed and encrypted
    def mutate(q, m):
        m = bytearray(m)
        for _ in range(q.randint(1, 3)):
            if not m: break
            k = q.randrange(len(m)); o = q.randrange(6)
            if o == 0: m[k] ^= 1 << q.randrange(8)
            elif o == 1: m[k] = q.choice((0, 1, 0x7f, 0x80, 0x82, 0x84, 0x88, 0xff, q.randrange(256)))
            elif o == 2: del m[k:k + q.randint(1, 9)]
            elif o == 3: m[k:k] = bytes(q.randrange(256) for _ in range(q.randint(1, 9)))
            elif o == 4: del m[k:]
            else: m[k:k + 2] = q.choice((b'\0\0', b'\xff\xff', b'\0\1', b'\x80\0'))
        return bytes(m)
    def remsg(q, m): return msg(m[0], mutate(q, m[4:]))
    for i in range(g.n(500)):
        q0 = random.Random(r.random()); which = i % 4
        def sh(p, q0=q0, which=which):
            m = p.good_hello(); return remsg(random.Random(q0.random()), m) if which == 0 else m
        E = enc_exts([alpn_ext([b'h2']), ext(10, b'\0\2\0\x17'), ext(0, b'')])
        ee = remsg(q0, E) if which == 1 else mutate(q0, E) if which == 3 and i % 8 == 3 else E
        ce = remsg(q0, GOOD_CERT) if which == 2 else mutate(q0, GOOD_CERT) if which == 3 and i % 8 == 7 else GOOD_CERT
        g.add('mutated message', flow(sh=sh, ee=ee, cert=ce), cfg)
    for i in range(g.n(80)):
        n = r.choice((1, 2, 4, 5, 6, 20, 200, 3000))
        b = bytes(r.choice((0, 1, 2, 3, 20, 21, 22, 23, 255, r.randrange(256))) for _ in range(n))
        g.add('random bytes', lambda p, b=b: [b]); g.add('random plaintext message', lambda p, b=b: [plain(22, b)])
        g.add('random encrypted message', flow(mid=[er(r.choice((22, 22, 22, 21, 23, 0, r.randrange(256))), b)]), cfg)
        g.add('random record', flow(mid=[lambda p, b=b: plain(r.choice((20, 21, 22, 23)), b)]), cfg)
    # the shapes that used to be dangerous: lengths at and across every boundary
    for t in (2, 8, 11):
        for ln in (0, 1, 2, 3, 255, 256, 65535, 65536, 0xffffff):
            for have in (0, 1, 2, 4, 40):
                x = bytes([t]) + ln.to_bytes(3, 'big') + b'\0' * have
                g.add('message header %d %d %d' % (t, ln, have), flow(**{dict([(2, 'pre'), (8, 'mid'), (11, 'mid2')])[t]: [plain(22, x) if t == 2 else er(22, x)]}))
    for n in range(0, 20): g.add('protected record of %d' % n, flow(mid=[plain(23, b'\0' * n)], ee=False, cert=False))
    for c in (dict(alpn=b'\xff'), dict(alpn=b'\0\0\0'), dict(alpn=b'\5ab'), dict(alpn=b'\2h2\xff'), dict(sni=b'n' * 65535), dict(sni=b'n' * 200000), dict(alpn=b'\xff' * 65536), dict(alpn=b'\xff' * 70000)):
        g.add('odd configuration', flow(ee=enc_exts([alpn_ext([b'h2'])])), c, mode='all')
    # one record with many small messages; many empty messages
    g.add('many messages', flow(ee=enc_exts() * 2000, cert=False, eerec=lambda p, m: [p.keys.record(22, m[:16384])]))
    g.add('many plain messages', flow(pre=[plain(22, msg(0, b'') * 4000)]))
    g.add('many ccs', flow(pre=[CCS * 3000]), mode='all'); g.add('many empty records', flow(pre=[plain(22, b'') * 3000]), mode='all')
