"""Inputs for the crylib checks: for each property a list of traces, each a list of (operation, arguments).
gen(prop, big, seed): big is False for the quick tier."""
import itertools, random
from crydrv import Pat, Pt

GROUP = 150
def grouped(ops): return [ops[i:i + GROUP] for i in range(0, len(ops), GROUP)]

# ---------------------------------------------------------------- C20
BL = {'256': 64, '512': 128}
def c20(big, R):
    ops, traces = [], []
    for alg, B in BL.items():
        for n in range(0, 2 * B + 3 if not big else 5 * B + 3):
            ops.append(('h.hash', [alg, R.randbytes(n)]))
        for n in [3 * B - 9, 3 * B, 1000, 4095, 4096, 4097, 8191, 8192, 8193, 16384, 32768, 65535, 65536, 65537, 70000]:
            ops.append(('h.hash', [alg, Pat(n, 1)]))
        for n in [131072 + 55, 300000, 2097152 + 111] + ([16777216 + 63] if big else []): ops.append(('h.hash', [alg, Pat(n, 7)]))
        for v in (0, 255, 128):
            for n in (B - 17, B - 9, B - 8, B, 2 * B): ops.append(('h.hash', [alg, bytes([v]) * n]))
        # whole blocks, then the end in both ways
        for k in range(0, 4):
            for end in [None] + list(range(0, 2 * B + 2, 1 if big else 3)) + [B - 17, B - 16, B - 9, B - 8, B - 1, B, B + 1]:
                t = [('h.new', ['s', alg])] + [('h.block', ['s', R.randbytes(B)]) for _ in range(k)]
                traces.append(t + [('h.finish', ['s'])] if end is None else t + [('h.finishw', ['s', R.randbytes(end)])])
        # the buffering hasher: fill to p, then a piece of q
        edge = [0, 1, 2, B // 2, B - 17, B - 16, B - 9, B - 8, B - 2, B - 1, B, B + 1, B + 2, 2 * B - 1, 2 * B, 2 * B + 1, 3 * B]
        for p in range(0, B + 1):
            qs = sorted(set(edge + [max(0, B - p - 1), B - p, B - p + 1, 2 * B - p, 2 * B - p + 1] + (list(range(0, 2 * B + 3)) if big and B == 64 else [])))
            t = []
            for q in qs:
                t += [('h.new', ['s', 'b' + alg]), ('h.feed', ['s', R.randbytes(p)]), ('h.feed', ['s', R.randbytes(q)]), ('h.get', ['s']),
                      ('h.feed', ['s', R.randbytes(R.choice([0, 1, 5, B]))]), R.choice([('h.finish', ['s']), ('h.finishw', ['s', R.randbytes(R.choice([0, 1, B - p, B]))])])]
            traces.append(t)
        # a block put into a partly filled buffer
        for p in list(range(0, B + 1, 1 if big else 7)) + [1, B - 1, B]:
            traces.append([('h.new', ['s', 'b' + alg]), ('h.feed', ['s', R.randbytes(p)]), ('h.block', ['s', R.randbytes(B)]), ('h.get', ['s']),
                           ('h.feed', ['s', R.randbytes(R.randrange(0, B))]), ('h.block', ['s', R.randbytes(B)]), ('h.get', ['s']), ('h.finish', ['s'])])
        for _ in range(400 if big else 80):   # histories with forks
            traces.append(history(alg, B, R))
    return grouped(ops) + traces
def history(alg, B, R):
    t, slots, n = [('h.new', ['s0', 'b' + alg])], ['s0'], 1
    for _ in range(R.randrange(5, 30)):
        s = R.choice(slots); k = R.random()
        if k < .5: t.append(('h.feed', [s, R.randbytes(R.choice([0, 1, R.randrange(0, 3 * B), B, 2 * B, R.randrange(0, 20)]))]))
        elif k < .65: t.append(('h.block', [s, R.randbytes(B)]))
        elif k < .85: t.append(('h.get', [s]))
        elif k < .95 and len(slots) < 3:
            t.append(('h.fork', [s, 's%d' % n])); slots.append('s%d' % n); n += 1
        elif len(slots) > 1:
            t.append(R.choice([('h.finish', [s]), ('h.finishw', [s, R.randbytes(R.randrange(0, 2 * B))])])); slots.remove(s)
    return t + [('h.finish', [s]) for s in slots]

# ---------------------------------------------------------------- C21
def c21(big, R):
    ops, traces = [], []
    for alg, B in BL.items():
        H = B // 2
        for n in list(range(0, B + H + 3)) + [2 * B - 1, 2 * B, 2 * B + 1, 1000]:
            for m in [R.randrange(0, 3 * B)] + ([0, B - 9, B] if big or n in (0, 1, B - 1, B, B + 1) else []):
                ops.append(('m.auth', [alg, R.randbytes(n), R.randbytes(m)]))
        for m in list(range(0, 2 * B + 2)) + [1000, 5000, 70000]:
            ops.append(('m.auth', [alg, R.randbytes(R.choice([0, 20, H, B, B + 1])), R.randbytes(m) if m < 2000 else Pat(m, 3)]))
        for v in (0, 0x36, 0x5c, 255):
            for n in (1, H, B - 1, B, B + 1): ops.append(('m.auth', [alg, bytes([v]) * n, b'x' * 40]))
        for s in [0, 1, H - 1, H, H + 1, B - 1, B, B + 1, 200]:
            for i in [0, 1, H, B - 1, B, B + 1, 300]: ops.append(('k.ext', [alg, R.randbytes(s), R.randbytes(i)]))
        for n in list(range(0, 4 * H + 3)) + [9 * H, 9 * H + 1, 10 * H - 1, 16 * H, 100 * H + 7, 127 * H, 128 * H, 128 * H + 1, 129 * H, 254 * H + 1, 255 * H - 1, 255 * H]:
            ops.append(('k.exp', [alg, R.randbytes(H), R.randbytes(R.choice([0, 1, 10, H, B, 200])), n]))
        for i in list(range(0, 2 * B + 2, 1 if big else 3)) + [B - H - 1, B - H, B - 1, B]:
            ops.append(('k.exp', [alg, R.randbytes(H), R.randbytes(i), R.choice([1, H, H + 1, 2 * H, 3 * H - 1, 5 * H])]))
        for kind in (alg, 'b' + alg):
            for n in [0, 1, H, B - 1, B, B + 1, 2 * B, 3 * B + 7]:
                for k in range(0, 3):
                    for end in [None, 0, 1, B - 17, B - 9, B - 8, B - 1, B, B + 1, 2 * B]:
                        t = [('m.new', ['s', kind, R.randbytes(n)])] + [('m.block', ['s', R.randbytes(B)]) for _ in range(k)]
                        traces.append(t + [('m.finish', ['s']) if end is None else ('m.finishw', ['s', R.randbytes(end)])])
        for _ in range(600 if big else 200):
            t = [('m.new', ['s', 'b' + alg, R.randbytes(R.choice([0, 5, H, B, B + 3, R.randrange(0, 3 * B)]))])]
            for _ in range(R.randrange(0, 12)):
                t.append(('m.block', ['s', R.randbytes(B)]) if R.random() < .15 else ('m.feed', ['s', R.randbytes(R.choice([0, 1, B - 1, B, B + 1, R.randrange(0, 3 * B)]))]))
            traces.append(t + [R.choice([('m.finish', ['s']), ('m.finishw', ['s', R.randbytes(R.randrange(0, 2 * B))])])])
    return grouped(ops) + traces

# ---------------------------------------------------------------- C22, C23
KEY = {'gcm128': 16, 'gcm192': 24, 'gcm256': 32, 'chacha': 32}
def nonces(R): return R.choice([R.randbytes(12), R.randbytes(12), bytes(12), b'\xff' * 12, bytes(11) + b'\x01', b'\xff' * 8 + bytes(4)])
class Obj:
    """One cipher object used for several messages."""
    def __init__(self, alg, R, key=None): self.t = [('a.new', ['s', alg, (key or R.randbytes(KEY[alg])).hex()])]
    def seal(self, n, a, m): self.t.append(('a.seal', ['s', n.hex(), a, m])); return self
    def open(self, n, a, c, tag): self.t.append(('a.open', ['s', n.hex(), a, c, tag.hex()])); return self

LENS = [0, 1, 2, 3, 7, 8, 12, 15, 16, 17, 31, 32, 33, 47, 48, 49, 63, 64, 65, 79, 80, 96, 112, 127, 128, 129, 255, 256, 257]
def c22(big, R, seal):
    ops, traces = [], []
    for alg in KEY:
        step = LENS if big else [0, 1, 5, 15, 16, 17, 32, 33, 48, 63, 64, 65, 128, 129]
        for a in step:      # every aad length class against every message length class
            o = Obj(alg, R)
            for m in step:
                n, aad, msg = nonces(R), R.randbytes(a), R.randbytes(m)
                o.seal(n, aad, msg)
            traces.append(o.t)
        for a in range(0, 70):
            o = Obj(alg, R); o.seal(nonces(R), R.randbytes(a), R.randbytes(R.randrange(0, 70)))
            o.seal(nonces(R), R.randbytes(R.randrange(0, 70)), R.randbytes(a + 60 * (a % 3))); traces.append(o.t)
        for v in (0, 255):
            for n in (0, 16, 40, 64, 100): traces.append(Obj(alg, R, bytes([v]) * KEY[alg]).seal(bytes([v]) * 12, bytes([v]) * (n // 2), bytes([v]) * n).t)
        block = 64 if alg == 'chacha' else 16
        sizes = [1000, 4096 - 32, 4096, 4096 + 1, 16384, 16385, 254 * block, 255 * block, 256 * block + 1, 257 * block, 300 * block, 70000]
        for n in sizes: traces.append(Obj(alg, R).seal(nonces(R), R.randbytes(13), Pat(n, n % 256)).t)
        for a in (1000, 4096, 255 * 16, 256 * 16 + 3, 70000): traces.append(Obj(alg, R).seal(nonces(R), Pat(a, 9), R.randbytes(20)).t)
        if alg in ('gcm128', 'chacha') or big: traces.append(Obj(alg, R).seal(nonces(R), b'aad', Pat(65536 * block + 5, 3)).t)
        # opening what the reference sealed
        for a in step:
            o = Obj(alg, R); key = bytes.fromhex(o.t[0][1][2])
            for m in step:
                n, aad, msg = nonces(R), R.randbytes(a), R.randbytes(m)
                c = seal(alg, key, n, aad, msg); o.open(n, aad, c[:-16], c[-16:])
            traces.append(o.t)
        for m in (1000, 4096, 16384, 256 * block + 1, 300 * block, 70000):
            o = Obj(alg, R); key = bytes.fromhex(o.t[0][1][2]); n, p = R.randbytes(12), R.randbytes(m)
            c = seal(alg, key, n, b'', p); traces.append(o.open(n, b'', c[:-16], c[-16:]).t)
    for k, nk in (('128', 16), ('192', 24), ('256', 32)):
        for i in range(8 * nk): ops.append(('s.aes', [k, (1 << i).to_bytes(nk, 'big').hex(), bytes(16).hex()]))
        for i in range(128): ops.append(('s.aes', [k, bytes(nk).hex(), (1 << i).to_bytes(16, 'big').hex()]))
        for i in range(256): ops.append(('s.aes', [k, bytes([i] * nk).hex(), bytes([255 - i] * 16).hex()]))
        for i in range(1000 if big else 200): ops.append(('s.aes', [k, R.randbytes(nk).hex(), R.randbytes(16).hex()]))
    for n in range(0, 200): ops.append(('s.chacha', [R.randbytes(32).hex(), nonces(R).hex(), '%08x' % R.choice([0, 1, R.getrandbits(31), 0xfffffff0]), R.randbytes(n)]))
    for c in [0, 1, 2, 255, 256, 65535, 65536, 0x7fffffff, 0x80000000, 0xffffff00, 0xfffffffe, 0xffffffff]:
        for n in [0, 1, 63, 64] + ([65, 128] if c < 0xffffffff else []): ops.append(('s.chacha', [R.randbytes(32).hex(), R.randbytes(12).hex(), '%08x' % c, R.randbytes(n)]))
    for n in (16384, 16385, 20000, 70000): ops.append(('s.chacha', [R.randbytes(32).hex(), R.randbytes(12).hex(), '%08x' % R.getrandbits(24), Pat(n, 5)]))
    for i in range(100): ops.append(('p.key', [R.randbytes(32).hex(), nonces(R).hex()]))
    ops += [('p.auth', [k.hex(), m]) for k, m in poly_cases(big, R)]
    for k, m in poly_cases(False, R)[::3]:   # the same in pieces
        t = [('p.new', ['s', k.hex()])]; i = 0
        while len(m) - i >= 16 and R.random() < .8:
            n = 16 * R.randrange(1, 1 + (len(m) - i) // 16)
            if n == 16 and R.random() < .5: t.append(('p.block', ['s', m[i:i + 16]]))
            else: t.append(('p.feed', ['s', m[i:i + n]]))
            i += n
        e = m[i:]; traces.append(t + [('p.finishw', ['s', e])])
        traces.append([('p.new', ['s', k.hex()]), ('p.feed', ['s', m]), ('p.feed', ['s', e]), ('p.finish', ['s'])])
    return grouped(ops) + traces

POLY = (1 << 130) - 5
def poly_cases(big, R):
    cs = []
    rs = [bytes(16), b'\x01' + bytes(15), b'\x02' + bytes(15), b'\x04' + bytes(15), b'\xff' * 16, b'\xfc\xff\xff\x0f' * 4]
    ss = [bytes(16), b'\xff' * 16, b'\xfb' + b'\xff' * 15, b'\x01' + bytes(15)]
    for r in rs:
        for s in ss:
            for m in [b'', b'\xff', b'\xff' * 15, b'\xff' * 16, b'\xff' * 17, b'\xff' * 32, b'\xff' * 48, b'\xff' * 64, bytes(16), bytes(1), bytes(33),
                      b'\xfb' + b'\xff' * 15, b'\xff' * 31 + b'\xfb', b'\xff' * 16 + b'\xfb' + b'\xfe' * 15 + b'\x01' * 16]:
                cs.append((r + s, m))
    # r = 1: the accumulator is the sum of the blocks; aim at values around the prime and around powers of two
    for target in [0, 1, 2, 3, 4, 5, POLY - 1, POLY - 2, (1 << 128) - 1, 1 << 128, (1 << 129) - 1, 1 << 129, (1 << 128) - 5, 3 << 128, (1 << 64) - 1, 1 << 64]:
        for nb in (3, 4, 5, 6):
            for _ in range(2):
                ms = [R.choice([R.getrandbits(128), (1 << 128) - 1]) for _ in range(nb - 1)]
                rest = (target - sum(ms) - nb * (1 << 128)) % POLY
                while rest >= 1 << 128 and nb < 9:
                    d = min(rest, (1 << 128) - 1); ms.append(d); rest = (rest - d - (1 << 128)) % POLY
                    if len(ms) > 8: break
                if rest < 1 << 128:
                    for s in (bytes(16), b'\xff' * 16): cs.append((b'\x01' + bytes(15) + s, b''.join(x.to_bytes(16, 'little') for x in ms + [rest])))
    for n in range(0, 100): cs.append((R.randbytes(32), R.randbytes(n)))
    for _ in range(2000 if big else 300):
        cs.append((bytes(R.choice([0, 255, R.randrange(256)]) for _ in range(32)), bytes(R.choice([0, 255, 255, R.randrange(256)]) for _ in range(R.choice([16, 32, 33, 48, 64, 80])))))
    cs.append((R.randbytes(32), R.randbytes(5000)))
    return cs

def c23(big, R, seal):
    traces = []
    def flip(b, i): x = bytearray(b); x[i // 8] ^= 1 << (i % 8); return bytes(x)
    for alg in KEY:
        cases = [(0, 0), (0, 1), (5, 0), (13, 20), (16, 16), (20, 33), (32, 64), (3, 100), (17, 257)] + ([(60, 300), (0, 1000), (100, 65), (1, 15), (15, 1), (33, 48)] if big else [])
        for a, m in cases:
            o = Obj(alg, R); key = bytes.fromhex(o.t[0][1][2]); n, aad, msg = R.randbytes(12), R.randbytes(a), R.randbytes(m)
            c = seal(alg, key, n, aad, msg); ct, tag = c[:-16], c[-16:]
            def good(): o.open(n, aad, ct, tag)
            good()
            for i in range(128): o.open(n, aad, ct, flip(tag, i))
            good()
            for i in range(0, 8 * m, 1 if m < 40 or big else 7): o.open(n, aad, flip(ct, i), tag)
            for i in range(96): o.open(flip(n, i), aad, ct, tag)
            for i in range(0, 8 * a): o.open(n, flip(aad, i), ct, tag)
            good()
            # several bits, byte swaps, constants
            for _ in range(60 if big else 20):
                x = bytearray(tag); k = R.sample(range(16), 2); x[k[0]], x[k[1]] = x[k[1]], x[k[0]]
                if bytes(x) != tag: o.open(n, aad, ct, bytes(x))
                d = R.getrandbits(8) or 1; x = bytearray(tag); x[k[0]] ^= d; x[k[1]] ^= d; o.open(n, aad, ct, bytes(x))
                if m > 1:
                    i, j = R.sample(range(m), 2); x = bytearray(ct); x[i], x[j] = x[j], x[i]
                    if bytes(x) != ct: o.open(n, aad, bytes(x), tag)
            for t in (bytes(16), b'\xff' * 16, tag[::-1], bytes(x ^ 255 for x in tag), tag[8:] + tag[:8], tag[:15] + bytes([tag[15] ^ 255]), bytes([tag[0] ^ 255]) + tag[1:],
                      tag[:8] + bytes(8), bytes(8) + tag[8:], tag[:4] + R.randbytes(12), R.randbytes(16)):
                if t != tag: o.open(n, aad, ct, t)
            # lengths: bytes moved between aad and ciphertext, zero bytes added or removed
            for k in (1, 2, 15, 16, 17):
                o.open(n, aad + bytes(k), ct, tag); o.open(n, aad, ct + bytes(k), tag); o.open(n, aad, ct + R.randbytes(k), tag)
                if len(ct) >= k: o.open(n, aad, ct[:-k], tag); o.open(n, aad + ct[:k], ct[k:], tag); o.open(n, aad, ct[k:], tag)
                if len(aad) >= k: o.open(n, aad[:-k], ct, tag); o.open(n, aad[:-k], aad[-k:] + ct, tag)
            if a or m: o.open(n, ct, aad, tag) if ct != aad else None; o.open(n, b'', b'', tag)
            good()
            traces.append(o.t)
            for i in range(0, 8 * KEY[alg], 1 if big else 5):
                traces.append(Obj(alg, R, flip(key, i)).open(n, aad, ct, tag).t)
        # multi-block messages with changes in late blocks
        o = Obj(alg, R); key = bytes.fromhex(o.t[0][1][2]); n, aad, msg = R.randbytes(12), R.randbytes(40), R.randbytes(2000)
        c = seal(alg, key, n, aad, msg); ct, tag = c[:-16], c[-16:]
        for i in R.sample(range(16000), 600 if big else 120) + [0, 127, 128, 15999, 15872]: o.open(n, aad, flip(ct, i), tag)
        traces.append(o.t)
    return traces

# ---------------------------------------------------------------- C24
M64 = (1 << 64) - 1
SPECIAL = [0, 0, 1, 2, M64, M64, M64 - 1, 1 << 63, (1 << 63) - 1, (1 << 63) + 1, 1 << 32, (1 << 32) - 1, M64 << 32 & M64]
def limbs(n, R):
    k = R.random()
    if k < .06: return R.choice([0, 1, 2, (1 << 64 * n) - 1, (1 << 64 * n) - 2, 1 << (64 * n - 1), (1 << (64 * n - 1)) - 1])
    if k < .14: return 1 << R.randrange(64 * n)
    if k < .22: return (1 << R.randrange(1, 64 * n + 1)) - 1
    if k < .3: return R.getrandbits(64 * n) >> R.randrange(64 * n)
    v = 0
    for i in range(n): v |= (R.choice(SPECIAL) if R.random() < .6 else R.getrandbits(64)) << 64 * i
    if R.random() < .25: v &= (1 << 64 * R.randrange(1, n + 1)) - 1
    return v
def hx(v, n): return '%0*x' % (16 * n, v & ((1 << 64 * n) - 1))
def division(n, R):
    """numerator and divisor; often near the corners of schoolbook division"""
    k = R.random()
    if k < .3:
        b = limbs(n, R) or 1; return limbs(n, R), b
    if k < .75:         # a = q b + r with chosen quotient and remainder
        db = R.randrange(1, n + 1); b = limbs(db, R) or 1
        q = limbs(max(1, n - db + R.randrange(0, 2)), R)
        r = R.choice([0, 1, b - 1, b - 2, b >> 1, R.randrange(b)]) % b
        a = q * b + r
        if a < 1 << 64 * n: return a, b
        return a % (1 << 64 * n), b
    if k < .9:          # top digits of both nearly equal
        db = R.randrange(1, n + 1); b = limbs(db, R) | 1 << (64 * db - 1 - R.randrange(0, 8))
        a = (b << 64 * R.randrange(0, n - db + 1)) + R.choice([-1, 0, 1]) * R.choice([0, 1, limbs(1, R)])
        return a % (1 << 64 * n), b
    b = R.choice([1, 2, 3, M64, 1 << 63, 1 << 64, (1 << 64) + 1, (1 << 64) - 1, (1 << 64 * n) - 1, 1 << 64 * (n - 1)])
    return limbs(n, R), b % (1 << 64 * n) or 1
def c24(big, R):
    ops = []; k = 6 if big else 1
    for n in range(1, 9):
        if n == 7 and not big: reps = 15
        else: reps = 45 * k
        for _ in range(reps):
            a, b = limbs(n, R), limbs(n, R)
            if R.random() < .15: b = a
            elif R.random() < .1: b = ((1 << 64 * n) - a) % (1 << 64 * n)
            elif R.random() < .1: b = ~a % (1 << 64 * n)
            A, B, d = hx(a, n), hx(b, n), hx(limbs(1, R), 1)
            for o in ('oadd', 'osub', 'add', 'sub', 'cmp'): ops.append(('u.' + o, [n, A, B]))
            ops += [('u.double', [n, A]), ('u.muld', [n, A, d]), ('u.count', [n, A]), ('u.from', [n, A, d])]
            if R.random() < .4: ops += [('u.logic', [n, A, B]), ('u.bool', [n, A, R.randrange(2)]), ('u.fmt', [n, A, A.upper()])]
            for o in ('shr', 'shl'): ops.append(('u.' + o, [n, A, R.choice([0, 1, 2, 31, 32, 33, 62, 63, R.randrange(64)])]))
            ops.append(('u.shr', [n, A, R.choice([64, 65, 127, 128, R.randrange(64, 1000)])]))
            if a: ops.append(('u.lalign', [n, A]))
            i = R.choice([0, 63, 64 * n - 1, R.randrange(64 * n)])
            ops += [('u.bit', [n, A, i]), ('u.setbit', [n, A, i, R.randrange(2)]), ('u.setbyte', [n, A, i // 8, '%02x' % R.choice([0, 255, R.randrange(256)])])]
            ops.append(('u.resize', [n, A, R.randrange(1, 10)]))
            if n in (2, 3, 4, 5, 6, 8):
                ops += [('u.wmul', [n, A, B]), ('u.wshl', [n, A, R.choice([0, 1, 63, 64, R.randrange(64)])]), ('u.bytes', [n, A])]
        for i in range(64 * n):   # every bit position once
            if n in (1, 2, 4) or big or i % 64 in (0, 1, 31, 32, 62, 63):
                A = hx(1 << i, n); ops += [('u.count', [n, A]), ('u.bit', [n, A, i]), ('u.lalign', [n, A]), ('u.setbit', [n, hx(-1, n), i, 0]), ('u.setbit', [n, hx(0, n), i, 1])]
        for sft in range(64):
            A = hx(R.getrandbits(64 * n), n); ops += [('u.shr', [n, A, sft]), ('u.shl', [n, A, sft])]
            if n in (2, 3, 4, 5, 6, 8): ops.append(('u.wshl', [n, A, sft]))
    for n in (2, 3, 4, 5, 6, 8):
        for _ in range(600 * k):
            a, b = division(n, R); ops.append(('u.div', [n, hx(a, n), hx(b, n)]))
        for _ in range(120 * k): ops.append(('u.wmul', [n, hx(limbs(n, R), n), hx(limbs(n, R), n)]))
    def sg(n):
        v = limbs(n, R)
        if R.random() < .08: return R.choice(['p' + hx(0, n), 'n' + hx(-1, n), 'p' + hx(1, n), 'n' + hx(0, n), 'n' + hx(1, n), 'p' + hx(-1, n)])
        return R.choice('pn') + hx(v, n)
    small = lambda n: R.choice(['p' + hx(R.randrange(5), n), 'n' + hx(-R.randrange(1, 5), n)])
    ismin = lambda x: x[0] == 'n' and set(x[1:]) == {'0'}
    for n in (1, 2, 3, 4, 8):
        for _ in range(150 * k):
            a = sg(n); b = a if R.random() < .1 else small(n) if R.random() < .2 else sg(n)
            if R.random() < .1: b = ('n' if a[0] == 'p' else 'p') + a[1:]
            for o in ('add', 'sub', 'xor', 'cmp'): ops.append(('i.' + o, [n, a, b]))
            for o in ('neg', 'abs', 'not', 'sign'): ops.append(('i.' + o, [n, a]))
            ops.append(('i.resize', [n, a, R.randrange(1, 10)]))
            if n in (3, 4, 8):
                if not (ismin(a) and ismin(b)): ops.append(('i.wmul', [n, a, b]))
                if not ismin(a) and not ismin(b) and not (b[0] == 'p' and set(b[1:]) == {'0'}): ops.append(('i.div', [n, a, b]))
        if n in (3, 4, 8):
            for _ in range(200 * k):
                x, y = division(n, R); sa, sb = R.choice('pn'), R.choice('pn')
                if sa == 'n': x = -x
                if sb == 'n': y = -y
                f = lambda v: ('n' if v < 0 else 'p') + hx(v, n)
                if not ismin(f(x)): ops.append(('i.div', [n, f(x), f(y)]))
            for x in range(-4, 5):
                for y in range(-4, 5):
                    f = lambda v: ('n' if v < 0 else 'p') + hx(v, n)
                    ops.append(('i.wmul', [n, f(x), f(y)]))
                    if y: ops.append(('i.div', [n, f(x), f(y)]))
    return grouped(ops)

# ---------------------------------------------------------------- C25
P256 = 0xffffffff00000001000000000000000000000000ffffffffffffffffffffffff
N256 = 0xffffffff00000000ffffffffffffffffbce6faada7179e84f3b9cac2fc632551
FIELDS = dict(poly=(3, POLY), p192=(3, 2**192 - 2**64 - 1), max192=(3, 2**192 - 237), m127=(3, 2**127 - 1), tiny2=(3, 2), tiny13=(3, 13),
              p256=(4, P256), n256=(4, N256), p255=(4, 2**255 - 19), max256=(4, 2**256 - 189), k256=(4, 2**256 - 2**32 - 977),
              word=(4, 2**64 - 59), p129=(4, 2**128 + 51), tiny3=(4, 3), tiny5=(4, 5), tiny17=(4, 17))
def c25(big, R):
    ops = []
    for f, (n, p) in FIELDS.items():
        W = 1 << 64 * n
        H = lambda v: hx(v, n)
        if p < 100: xs = list(range(p)); pairs = list(itertools.product(xs, xs))
        else:
            sp = [0, 1, 2, 3, p - 1, p - 2, p - 3, p // 2, p // 2 + 1, p - p // 3, W % p, (W % p + 1) % p, (-W) % p, (1 << (p.bit_length() - 1)) - 1, 1 << (p.bit_length() - 1),
                  (1 << 64) - 1, 1 << 64, (1 << 128) - 1, pow(2, -1, p), pow(3, -1, p), (p - (1 << 64)) % p, (p - (1 << 32)) % p, p >> 64, p & M64, p & ~M64, p ^ M64]
            sp = sorted({x % p for x in sp})
            rnd = lambda: R.choice([R.randrange(p), limbs(n, R) % p, limbs(n, R) % p, p - 1 - (limbs(n, R) >> R.randrange(64 * n)) % p])
            xs = sp + [rnd() for _ in range(120 if big else 25)]
            pairs = [(x, y) for x in sp for y in sp if big or R.random() < .5] + [(rnd(), rnd()) for _ in range(1500 if big else 150)]
            pairs += [(x, x) for x in xs] + [(x, (p - x) % p) for x in xs] + [(x, (p - x + R.choice([-1, 1])) % p) for x in xs]
        for x, y in pairs:
            ops += [('f.add', [f, H(x), H(y)]), ('f.sub', [f, H(x), H(y)]), ('f.mul', [f, H(x), H(y)])]
            if y and (p < 100 or R.random() < .25): ops.append(('f.div', [f, H(x), H(y)]))
        for x in xs:
            ops += [('f.double', [f, H(x)]), ('f.neg', [f, H(x)]), ('f.sqr', [f, H(x)]), ('f.count', [f, H(x)])]
            if x: ops.append(('f.inv', [f, H(x)]))
            for d in [0, 1, 2, 3, 4, 8, M64, M64 - 1, 1 << 63, R.getrandbits(64)]: ops.append(('f.muld', [f, H(x), hx(d, 1)]))
        for v in [0, 1, p - 1, p, p + 1, 2 * p - 1, 2 * p, 2 * p + 1, W - 1, W - 2, W - p, (W // p) * p, (W // p) * p - 1, (W // p) * p + 1, W // 2] + \
                 [limbs(n, R) for _ in range(150 if big else 40)] + [R.randrange(1, max(2, W // p)) * p + R.choice([-1, 0, 1]) for _ in range(40)]:
            if 0 <= v < W: ops.append(('f.new', [f, H(v)]))
    for f in ('p256', 'n256', 'max256', 'tiny17'):
        p = FIELDS[f][1]
        for g in ('p256', 'n256', 'tiny17', 'tiny5', 'max256', 'word'):
            q = FIELDS[g][1]
            for v in {x % p for x in [0, 1, p - 1, q - 1, q, q + 1, R.randrange(p), R.randrange(p), N256 + R.getrandbits(120)]}: ops.append(('f.conv', [f, hx(v, 4), g]))
    return grouped(ops)

# ---------------------------------------------------------------- C26, C27
TINY = {'7a': (7, 0, 3, (1, 2), 13), '7b': (7, 1, 1, (0, 1), 5), '11c': (11, 1, 1, (0, 1), 7), '13': (13, 7, 6, (1, 1), 11), '13c': (13, 11, 5, (2, 3), 5),
        '17': (17, 3, 12, (1, 4), 23), '31': (31, 10, 14, (0, 13), 23)}
LARGE = {'p256': (P256, P256 - 3, 0x5ac635d8aa3a93e7b3ebbd55769886bc651d06b0cc53b0f63bce3c3e27d2604b,
                  (0x6b17d1f2e12c4247f8bce6e563a440f277037d812deb33a0f4a13945d898c296, 0x4fe342e2fe1a7f9b8ee7eb4a7c0f9e162bce33576b315ececbb6406837bf51f5), N256),
         'k256': (2**256 - 2**32 - 977, 0, 7, (0x79be667ef9dcbbac55a06295ce870b07029bfcdb2dce28d959f2815b16f81798, 0x483ada7726a3c4655da4fbfc0e1108a8fd17b448a68554199c47d08ffb10d4b8),
                  0xfffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141)}
CURVES = dict(TINY, **LARGE)
def padd(c, P, Q):
    p, a = CURVES[c][:2]
    if P is None: return Q
    if Q is None: return P
    if P[0] == Q[0]:
        if (P[1] + Q[1]) % p == 0: return None
        l = (3 * P[0] ** 2 + a) * pow(2 * P[1], -1, p)
    else: l = (Q[1] - P[1]) * pow(Q[0] - P[0], -1, p)
    x = (l * l - P[0] - Q[0]) % p
    return (x, (l * (P[0] - x) - P[1]) % p)
def pmul(c, k, P):
    R = None
    while k:
        if k & 1: R = padd(c, R, P)
        P = padd(c, P, P); k >>= 1
    return R
def neg(c, P): return P and (P[0], -P[1] % CURVES[c][0])
def allpoints(c):
    p, a, b = CURVES[c][:3]
    return [(x, y) for x in range(p) for y in range(p) if (y * y - x ** 3 - a * x - b) % p == 0]
def proj(c, P, z):
    p = CURVES[c][0]
    return Pt((0, z, 0)) if P is None else Pt((P[0] * z % p, P[1] * z % p, z))
def lift(c, x):
    p, a, b = CURVES[c][:3]
    r = (x ** 3 + a * x + b) % p; y = pow(r, (p + 1) // 4, p)
    return (x, y) if y * y % p == r else None

def c26(big, R):
    ops = []; h = lambda v: '%064x' % v
    for c, (p, a, b, G, n) in TINY.items():
        pts = allpoints(c); reps = [proj(c, P, z) for P in [None] + pts for z in range(1, p)]
        pairs = list(itertools.product(reps, reps))
        lim = 10 ** 9 if big and p < 17 else 60000 if big else 2600
        if len(pairs) > lim:
            core = [(x, y) for P in [None] + pts for Q in [None] + pts for x in [proj(c, P, R.randrange(1, p))] for y in [proj(c, Q, R.randrange(1, p))]]
            same = [(proj(c, P, z), proj(c, Q, y)) for P in [None] + pts for Q in (P, neg(c, P), None) for z in R.sample(range(1, p), 2) for y in R.sample(range(1, p), 2)]
            pairs = core + same + R.sample(pairs, max(0, lim - len(core) - len(same)))
        ops += [('e.add', [c, x, y]) for x, y in pairs] + [('e.one', [c, x]) for x in reps] + [('e.const', [c])]
        ms = list(itertools.product(reps, range(n)))
        if not big and len(ms) > 700: ms = R.sample(ms, 400) + [(proj(c, P, R.randrange(1, p)), k) for P in [None] + pts for k in range(n)]
        ops += [('e.mul', [c, x, h(k)]) for x, k in ms]
        ops += [('e.new', [c, h(x), h(y)]) for x in range(p) for y in range(p)]
        aff = [Pt(P) for P in pts]
        ops += [('e.aadd', [c, P, Q]) for P in aff for Q in aff if P[0] != Q[0] or P == Q and P[1]] + [('e.aone', [c, P]) for P in aff if P[1]]
    for c, (p, a, b, G, n) in LARGE.items():
        k = (4 if c == 'p256' else 2) * (5 if big else 1)
        sc = [1, 2, 3, 4, 5, n - 1, n - 2, n // 2, n // 2 + 1, 1 << 255 if 1 << 255 < n else 7, (1 << 128) - 1, 1 << 64, (1 << 255) - 1]
        base = [pmul(c, s, G) for s in sc] + [pmul(c, R.randrange(1, n), G) for _ in range(3 * k)]
        base += [P for P in (lift(c, x) for x in [0, 1, 2, 3, 5, 6, p - 1, p - 2, p - 3] + [p - R.getrandbits(40) for _ in range(4)] + [R.getrandbits(64) for _ in range(4)] + [n + R.getrandbits(100) for _ in range(3)]) if P]
        zs = lambda: R.choice([1, 1, 2, p - 1, R.randrange(1, p), R.getrandbits(64) or 1, p - R.getrandbits(64) - 1, p // 2])
        for _ in range(60 * k):
            P, Q = R.choice(base), R.choice(base); ops.append(('e.add', [c, proj(c, P, zs()), proj(c, Q, zs())]))
        for P in base:
            ops.append(('e.one', [c, proj(c, P, zs())])); ops.append(('e.aone', [c, Pt(P)]))
            for Q in (P, neg(c, P), None, padd(c, P, P), neg(c, padd(c, P, P)), padd(c, P, G)):
                ops.append(('e.add', [c, proj(c, P, zs()), proj(c, Q, zs())])); ops.append(('e.add', [c, proj(c, Q, zs()), proj(c, P, zs())]))
                if Q and (P[0] != Q[0] or P == Q): ops.append(('e.aadd', [c, Pt(P), Pt(Q)]))
            x, y = P
            for X, Y in ((x, y), (x, p - y), (y, x), (x, (y + 1) % p), ((x + 1) % p, y), (x, 0), (0, y), (p - x, y), (x, y ^ 1), (x ^ 1 << 200, y)):
                if X < p and Y < p: ops.append(('e.new', [c, h(X), h(Y)]))
        ops += [('e.add', [c, proj(c, None, zs()), proj(c, None, zs())]), ('e.one', [c, proj(c, None, 1)]), ('e.one', [c, proj(c, None, p - 2)]), ('e.const', [c]), ('e.new', [c, h(0), h(0)])]
        for s in [0] + sc + [R.randrange(n) for _ in range(6 * k)] + [n - 1 - R.getrandbits(R.randrange(1, 200)) for _ in range(2 * k)] + [(1 << i) for i in R.sample(range(256), 4 * k) if 1 << i < n] + [limbs(4, R) % n for _ in range(6 * k)]:
            ops.append(('e.mul', [c, proj(c, R.choice([G, G, R.choice(base)]), zs()), h(s)]))
        ops.append(('e.mul', [c, proj(c, None, 1), h(5)]))
    return [ops[i:i + 40] for i in range(0, len(ops), 40)]

def c27(big, R):
    ops = []; h = lambda v: '%064x' % v
    for c, (p, a, b, G, n) in TINY.items():
        Qs = [pmul(c, d, G) for d in range(1, n)]
        extra = [P for P in allpoints(c) if P not in Qs]           # outside the subgroup, for curves with a cofactor
        full = list(itertools.product(range(len(Qs)), range(n), range(n), range(n)))
        lim = (60000 if big else 3500)
        if len(full) > lim: full = R.sample(full, lim)
        for q, e, r, s in full:
            E = e + n * R.choice([0, 0, 0, 1, 7, ((1 << 256) - 1 - e) // n])
            ops.append(('e.ver', [c, proj(c, Qs[q], R.randrange(1, p)), h(E), h(r), h(s)]))
        for d in range(1, n):
            for _ in range(40 if big else 12):
                ks = [R.randrange(0, n) for _ in range(R.randrange(1, 5))]
                e = R.choice([R.randrange(0, n), 0, n, R.getrandbits(256)])
                ks += [k for k in range(1, n) for Rx in [pmul(c, k, G)] if Rx and Rx[0] % n and (e + Rx[0] % n * d) % n][:1]
                if usable(c, d, e, ks): ops.append(('e.sign', [c, h(d), h(e)] + [h(k) for k in ks]))
    for c, (p, a, b, G, n) in LARGE.items():
        k = (5 if c == 'p256' else 1) * (5 if big else 1)
        hashes = [0, 1, n - 1, n, n + 1, (1 << 256) - 1, 1 << 255, p % (1 << 256), n // 2]
        zs = lambda: R.choice([1, 1, R.randrange(1, p), p - 1])
        ver = lambda Q, e, r, s: ops.append(('e.ver', [c, proj(c, Q, zs()), h(e), h(r % n), h(s % n)]))
        for i in range(12 * k):
            d = R.choice([1, 2, n - 1, n - 2, R.randrange(1, n), R.randrange(1, n)]); Q = pmul(c, d, G)
            e = R.choice(hashes + [R.getrandbits(256)] * 6)
            kk = R.choice([1, 2, n - 1, R.randrange(1, n), R.randrange(1, n), R.getrandbits(128) | 1])
            x = pmul(c, kk, G)[0] % n; s = pow(kk, -1, n) * (e + x * d) % n
            ops.append(('e.sign', [c, h(d), h(e)] + [h(v) for v in R.choice([[], [0], [0, 0]]) + [kk, R.randrange(1, n)]]))
            if not s: continue
            ver(Q, e, x, s); ver(Q, e, x, n - s)
            for de, dr, ds in ((1, 0, 0), (0, 1, 0), (0, 0, 1), (0, -x, 0), (0, 0, -s), (-e, 0, 0)):
                if 0 <= e + de < 1 << 256: ver(Q, e + de, x + dr, s + ds)
            ver(Q, e, s, x); ver(Q, e, n - x, s); ver(neg(c, Q), e, x, s); ver(padd(c, Q, G) or G, e, x, s); ver(G, e, x, s)
            ver(Q, e, x, pow(s, -1, n)); ver(Q, e, 0, 0); ver(Q, e, 0, s); ver(Q, e, x, 0); ver(Q, e, 1, 1); ver(Q, e, n - 1, n - 1)
            ver(Q, e ^ (1 << R.randrange(256)), x, s); ver(Q, e, x ^ (1 << R.randrange(255)), s); ver(Q, e, x, s ^ (1 << R.randrange(255)))
        # a public key made for chosen values: R' = (e G + r Q) / s
        for i in range(8 * k):
            kk = R.randrange(1, n); P = pmul(c, kk, G)
            if i % 2:                # an x-coordinate not below the order
                P = None
                while not P: P = lift(c, n + R.randrange(1, p - n))
            r, s, e = P[0] % n, R.randrange(1, n), R.choice(hashes + [R.getrandbits(256)] * 4)
            ri = pow(r, -1, n); Q = padd(c, pmul(c, s * ri % n, P), neg(c, pmul(c, e * ri % n, G)))
            if Q: ver(Q, e, r, s); ver(Q, e, r, n - s); ver(Q, e + 1 if e + 1 < 1 << 256 else e - 1, r, s); ver(neg(c, Q), e, r, s)
        # the sum meets equal points, opposite points, or one term is infinity
        for i in range(4 * k):
            r = R.randrange(1, n); s = R.randrange(1, n)
            for m in (1, 2, 3, n - 1, n - 2):                 # Q = m G, u = +- m v
                Q = pmul(c, m, G); ver(Q, m * r % n, r, s); ver(Q, -m * r % n, r, s); ver(Q, 0, r, s); ver(Q, n, r, s)
            for m in (1, 2, n - 1):                           # e = m r: the sum is the double of u G; make it valid
                u = R.randrange(1, n); T = pmul(c, 2 * u % n, G)[0] % n
                e = m * T % n; s2 = e * pow(u, -1, n) % n
                if s2: ver(pmul(c, m, G), e, T, s2)
            d = R.randrange(1, n); kk = R.randrange(1, n); x = pmul(c, kk, G)[0] % n   # hash 0: u is zero
            ver(pmul(c, d, G), 0, x, pow(kk, -1, n) * x * d % n); ver(pmul(c, d, G), n, x, pow(kk, -1, n) * x * d % n)
    return [ops[i:i + 40] for i in range(0, len(ops), 40)]
def usable(c, d, e, ks):
    p, a, b, G, n = CURVES[c]
    return any(k and (pmul(c, k, G) or (0,))[0] % n and (e + pmul(c, k, G)[0] % n * d) % n for k in ks)

def long(prop, big, seed, seal):
    """Messages of half a gigabyte and more: their lengths in bits, or bytes, take more than 32 bits."""
    R, M = random.Random('long/%s/%d' % (prop, seed)), 1 << 20
    if prop == 'C20':
        return [[('l.hash', [a, (n << 20) // B, R.randbytes(k)])] for a, B in BL.items() for n, k in [(512, R.randrange(1, 3 * B))] + ([(512, 0), (4096, R.randrange(1, B))] if big else [])]
    if prop != 'C22': return []
    key = lambda a: R.randbytes(KEY[a])
    t = [[('l.aad', [a, key(a).hex(), R.randbytes(12).hex(), n, R.randrange(0, 40)])] for a, n in [('gcm128', 512)] + ([('gcm256', 4096), ('chacha', 4096), ('chacha', 512)] if big else [])]
    for a in ['gcm256'] + (['gcm128', 'gcm192'] if big else []):
        k, n, la, more = key(a), R.randbytes(12), R.randrange(1, 40), R.randrange(0, 40)
        lc = 512 * M + more
        tag = seal(a, k, n, bytes(la), seal(a, k, n, b'', bytes(lc))[:lc])[lc:]
        blocks = [0, 1, 252, 253, 254, 255, 65532, 65533, 65534, 65535, (1 << 24) - 3, (1 << 24) - 2, (1 << 24) - 1, 1 << 24, (lc - 1) // 16] + [R.randrange(lc // 16) for _ in range(20)]
        t.append([('l.open', [a, k.hex(), n.hex(), la, 512, more, tag.hex()] + blocks)])
        if big: t.append([('l.open', [a, k.hex(), n.hex(), la, 512, more, bytes(16).hex()] + blocks)])
    return t
def gen(prop, big, seed, seal):
    R = random.Random('%s/%d/%s' % (prop, seed, big))
    return dict(C20=lambda: c20(big, R), C21=lambda: c21(big, R), C22=lambda: c22(big, R, seal), C23=lambda: c23(big, R, seal),
                C24=lambda: c24(big, R), C25=lambda: c25(big, R), C26=lambda: c26(big, R), C27=lambda: c27(big, R))[prop]()
