"""A TLS 1.3 server toolkit for driving libturtls: it can build every record and message a
server may send, well-formed or not.  It is a *generator*: verdicts come from the TLA+
specification, never from here."""
import ctypes, ctypes.util, hashlib, hmac, functools

# ----------------------------------------------------------------- P-256
P = 2**256 - 2**224 + 2**192 + 2**96 - 1
N = 0xffffffff00000000ffffffffffffffffbce6faada7179e84f3b9cac2fc632551
B = 0x5ac635d8aa3a93e7b3ebbd55769886bc651d06b0cc53b0f63bce3c3e27d2604b
G = (0x6b17d1f2e12c4247f8bce6e563a440f277037d812deb33a0f4a13945d898c296,
     0x4fe342e2fe1a7f9b8ee7eb4a7c0f9e162bce33576b315ececbb6406837bf51f5)

def _dbl(p):
    x, y, z = p
    if z == 0 or y == 0: return (1, 1, 0)
    s = 4 * x * y * y % P
    m = 3 * (x - z * z) * (x + z * z) % P
    x3 = (m * m - 2 * s) % P
    return (x3, (m * (s - x3) - 8 * y ** 4) % P, 2 * y * z % P)

def _add(p, q):
    if p[2] == 0: return q
    if q[2] == 0: return p
    x1, y1, z1 = p; x2, y2, z2 = q
    z1z, z2z = z1 * z1 % P, z2 * z2 % P
    u1, u2 = x1 * z2z % P, x2 * z1z % P
    s1, s2 = y1 * z2 * z2z % P, y2 * z1 * z1z % P
    if u1 == u2: return _dbl(p) if s1 == s2 else (1, 1, 0)
    h, r = (u2 - u1) % P, (s2 - s1) % P
    h2 = h * h % P; h3 = h * h2 % P
    x3 = (r * r - h3 - 2 * u1 * h2) % P
    return (x3, (r * (u1 * h2 - x3) - s1 * h3) % P, h * z1 * z2 % P)

@functools.lru_cache(4096)
def mul(k, pt):
    """Affine scalar multiple, or None for infinity."""
    acc, base = (1, 1, 0), (pt[0], pt[1], 1)
    while k:
        if k & 1: acc = _add(acc, base)
        base = _dbl(base); k >>= 1
    if acc[2] == 0: return None
    zi = pow(acc[2], -1, P)
    return (acc[0] * zi * zi % P, acc[1] * zi ** 3 % P)

def lift_x(x):
    """A y for the x coordinate, or None."""
    r = (x ** 3 - 3 * x + B) % P
    y = pow(r, (P + 1) // 4, P)
    return y if y * y % P == r else None

def enc_pt(pt, form=4):
    return bytes([form]) + pt[0].to_bytes(32, 'big') + pt[1].to_bytes(32, 'big')

# ----------------------------------------------------------------- AEAD (libcrypto)
_lc = ctypes.CDLL('libcrypto.so.3')
for f in ('EVP_CIPHER_CTX_new', 'EVP_aes_128_gcm', 'EVP_chacha20_poly1305', 'EVP_aes_192_gcm', 'EVP_aes_256_gcm'):
    getattr(_lc, f).restype = ctypes.c_void_p
_p = ctypes.c_void_p
_lc.EVP_EncryptInit_ex.argtypes = [_p, _p, _p, ctypes.c_char_p, ctypes.c_char_p]
_lc.EVP_EncryptUpdate.argtypes = [_p, ctypes.c_char_p, _p, ctypes.c_char_p, ctypes.c_int]
_lc.EVP_CIPHER_CTX_ctrl.argtypes = [_p, ctypes.c_int, ctypes.c_int, ctypes.c_char_p]
_lc.EVP_CIPHER_CTX_free.argtypes = [_p]

def seal(suite, key, nonce, aad, pt):
    """ciphertext || tag"""
    ctx = _lc.EVP_CIPHER_CTX_new()
    c = {0x1301: _lc.EVP_aes_128_gcm, 0x1303: _lc.EVP_chacha20_poly1305, 'gcm128': _lc.EVP_aes_128_gcm, 'gcm192': _lc.EVP_aes_192_gcm,
         'gcm256': _lc.EVP_aes_256_gcm, 'chacha': _lc.EVP_chacha20_poly1305}[suite]()
    _lc.EVP_EncryptInit_ex(ctx, c, None, key, nonce)
    n = ctypes.c_int(0); out = ctypes.create_string_buffer(len(pt) + 16)
    if aad: _lc.EVP_EncryptUpdate(ctx, None, ctypes.byref(n), aad, len(aad))
    if pt: _lc.EVP_EncryptUpdate(ctx, out, ctypes.byref(n), pt, len(pt))
    _lc.EVP_EncryptFinal_ex(_p(ctx), ctypes.byref(out, len(pt)), ctypes.byref(n))
    tag = ctypes.create_string_buffer(16)
    _lc.EVP_CIPHER_CTX_ctrl(ctx, 0x10, 16, tag)
    _lc.EVP_CIPHER_CTX_free(ctx)
    return out.raw[:len(pt)] + tag.raw

# ----------------------------------------------------------------- key schedule
def hkdf_extract(salt, ikm): return hmac.new(salt, ikm, hashlib.sha256).digest()
def hkdf_expand(prk, info, n):
    out, t, i = b'', b'', 1
    while len(out) < n:
        t = hmac.new(prk, t + info + bytes([i]), hashlib.sha256).digest(); out += t; i += 1
    return out[:n]
def expand_label(secret, label, ctx, n):
    lab = b'tls13 ' + label
    return hkdf_expand(secret, n.to_bytes(2, 'big') + bytes([len(lab)]) + lab + bytes([len(ctx)]) + ctx, n)
def derive(secret, label, th): return expand_label(secret, label, th, 32)

class Keys:
    """Server-side handshake keys."""
    def __init__(self, suite, dh, transcript):
        early = hkdf_extract(b'\0' * 32, b'\0' * 32)
        hs = hkdf_extract(derive(early, b'derived', hashlib.sha256(b'').digest()), dh)
        th = hashlib.sha256(transcript).digest()
        self.suite, self.seq = suite, 0
        none, hello = hashlib.sha256(b'').digest(), hashlib.sha256(transcript[:4 + int.from_bytes(transcript[1:4], 'big')]).digest()
        master = hkdf_extract(derive(hs, b'derived', none), b'\0' * 32)
        self.others = {'client': derive(hs, b'c hs traffic', th), 'application': derive(master, b's ap traffic', th), 'early': derive(early, b'c e traffic', hello), 'empty transcript': derive(hs, b's hs traffic', none),
                       'hello transcript': derive(hs, b's hs traffic', hello), 'no early secret': derive(hkdf_extract(b'\0' * 32, dh), b's hs traffic', th), 'handshake secret': hs}
        kl = 16 if suite == 0x1301 else 32
        self.s, self.c = derive(hs, b's hs traffic', th), derive(hs, b'c hs traffic', th)
        self.key, self.iv = expand_label(self.s, b'key', b'', kl), expand_label(self.s, b'iv', b'', 12)

    def record(self, inner_type, content, pad=0, seq=None, outer=23, ver=0x0303, flip=None, key=None,
               aad_ver=None, raw_inner=None, cut=0, advance=True, aad_outer=23, aad_len=0, aad=None, iv=None, side=None):
        """One protected record.  flip: (position, mask) in ciphertext||tag."""
        n = self.seq if seq is None else seq
        if advance: self.seq += 1
        inner = (content + bytes([inner_type]) + b'\0' * pad) if raw_inner is None else raw_inner
        if side:                # as if sealed by somebody else: with the client's key, or that of another secret
            sec = self.others[side]
            key, iv = expand_label(sec, b'key', b'', len(self.key)), expand_label(sec, b'iv', b'', 12)
        nonce = bytes(a ^ b for a, b in zip(iv or self.iv, n.to_bytes(12, 'big')))
        ln = len(inner) + 16
        hdr = bytes([outer]) + ver.to_bytes(2, 'big') + ln.to_bytes(2, 'big')
        if aad is None: aad = bytes([aad_outer]) + (ver if aad_ver is None else aad_ver).to_bytes(2, 'big') + ((ln + aad_len) % 65536).to_bytes(2, 'big')
        ct = bytearray(seal(self.suite, key or self.key, nonce, aad, inner))
        if flip: ct[flip[0] % len(ct)] ^= flip[1]
        if cut:
            ct = ct[:-cut]
            hdr = hdr[:3] + len(ct).to_bytes(2, 'big')
        return hdr + bytes(ct)

def plain(t, data, ver=0x0303, ln=None):
    return bytes([t]) + ver.to_bytes(2, 'big') + (len(data) if ln is None else ln).to_bytes(2, 'big') + data

CCS = plain(20, b'\x01')

# ----------------------------------------------------------------- messages
def msg(t, body, ln=None):
    return bytes([t]) + (len(body) if ln is None else ln).to_bytes(3, 'big') + body

def ext(t, body, ln=None):
    return t.to_bytes(2, 'big') + (len(body) if ln is None else ln).to_bytes(2, 'big') + body

def ext_block(exts, ln=None):
    b = b''.join(exts)
    return (len(b) if ln is None else ln).to_bytes(2, 'big') + b

VERS = ext(43, b'\x03\x04')
def key_share(share, group=23, ln=None): return ext(51, group.to_bytes(2, 'big') + (len(share) if ln is None else ln).to_bytes(2, 'big') + share)

HRR_RANDOM = bytes.fromhex('cf21ad74e59a6111be1d8c021e65b891c2a211167abb8c5e079e09e2c8a8339c')

def server_hello(exts, suite=0x1303, random=b'\x5a' * 32, ver=0x0303, sid=b'', sid_len=None, comp=0, ext_len=None,
                 tail=b'', body_cut=0):
    body = ver.to_bytes(2, 'big') + random + bytes([len(sid) if sid_len is None else sid_len]) + sid + \
        suite.to_bytes(2, 'big') + bytes([comp]) + ext_block(exts, ext_len) + tail
    if body_cut: body = body[:-body_cut]
    return msg(2, body)

def alpn_ext(names, list_len=None, raw=None):
    if raw is not None: return ext(16, raw)
    l = b''.join(bytes([len(n)]) + n for n in names)
    return ext(16, (len(l) if list_len is None else list_len).to_bytes(2, 'big') + l)

def enc_exts(exts=(), ln=None, tail=b''):
    return msg(8, ext_block(exts, ln) + tail)

# ----------------------------------------------------------------- DER / certificates
def der(tag, data, lenform=None):
    n = len(data)
    if lenform is not None: l = lenform
    elif n < 128: l = bytes([n])
    else:
        b = n.to_bytes((n.bit_length() + 7) // 8, 'big'); l = bytes([0x80 | len(b)]) + b
    return bytes([tag]) + l + data

def der_int(v):
    if isinstance(v, bytes): return der(2, v)
    b = v.to_bytes(v.bit_length() // 8 + 1, 'big')
    return der(2, b)

OID_ECDSA_SHA256 = bytes.fromhex('2a8648ce3d040302')
OID_EC = bytes.fromhex('2a8648ce3d0201'); OID_P256 = bytes.fromhex('2a8648ce3d030107')
OID_CN = bytes.fromhex('550403')

def name(cn=b'example.com'):
    return der(0x30, der(0x31, der(0x30, der(6, OID_CN) + der(0x0c, cn))))

def certificate(version=2, serial=1, oid=OID_ECDSA_SHA256, r=0x1234567, s=0x89abcdef, key=G, parts=None, sig=None,
                alg=None, tbs_tag=0x30, outer_tag=0x30, tail=b'', exts=True, validity=None, bits=None, drop=None,
                sig_tail=b'', extra_ext=b'', version_raw=None):
    sigalg = der(0x30, der(6, oid)) if alg is None else alg
    fields = []
    if version is not None: fields.append(('version', der(0xa0, version_raw if version_raw is not None else der(2, bytes([version])))))
    fields += [('serial', der_int(serial)), ('alg', sigalg), ('issuer', name()),
               ('validity', validity if validity is not None else der(0x30, der(0x17, b'240101000000Z') + der(0x17, b'340101000000Z'))),
               ('subject', name()),
               ('spki', der(0x30, der(0x30, der(6, OID_EC) + der(6, OID_P256)) + der(3, b'\0' + enc_pt(key))))]
    if exts: fields.append(('exts', der(0xa3, der(0x30, der(0x30, der(6, bytes.fromhex('551d13')) + der(4, b'\x30\0')) + extra_ext))))
    if parts: fields = [(n, parts.get(n, v)) for n, v in fields]
    if drop: fields = [(n, v) for n, v in fields if n not in drop]
    tbs = der(tbs_tag, b''.join(v for _, v in fields))
    if sig is None: sig = der(0x30, der_int(r) + der_int(s) + sig_tail)
    body = tbs + sigalg + der(3, b'\0' + sig if bits is None else bits)
    return der(outer_tag, body) + tail

def cert_entry(data, exts=b'', dlen=None, elen=None):
    return (len(data) if dlen is None else dlen).to_bytes(3, 'big') + data + \
        (len(exts) if elen is None else elen).to_bytes(2, 'big') + exts

def certificate_msg(entries, ctx=b'', ctx_len=None, list_len=None, tail=b''):
    l = b''.join(entries)
    return msg(11, bytes([len(ctx) if ctx_len is None else ctx_len]) + ctx + (len(l) if list_len is None else list_len).to_bytes(3, 'big') + l + tail)

# ----------------------------------------------------------------- ClientHello reading
class Hello:
    """Tolerant reader of the client's first flight (only used to answer it)."""
    def __init__(self, tx):
        self.ok, self.share = False, None
        body, pos = b'', 0
        while pos + 5 <= len(tx) and tx[pos] == 22:
            n = int.from_bytes(tx[pos + 3:pos + 5], 'big')
            if pos + 5 + n > len(tx): return
            body += tx[pos + 5:pos + 5 + n]; pos += 5 + n
            if len(body) >= 4 and len(body) >= 4 + int.from_bytes(body[1:4], 'big'): break
        if len(body) < 4 or len(body) < 4 + int.from_bytes(body[1:4], 'big'): return
        self.msg = body
        try:
            p = 4 + 34; p += 1 + body[p]
            p += 2 + int.from_bytes(body[p:p + 2], 'big'); p += 1 + body[p]; p += 2
            while p + 4 <= len(body):
                t, n = int.from_bytes(body[p:p + 2], 'big'), int.from_bytes(body[p + 2:p + 4], 'big')
                d = body[p + 4:p + 4 + n]; p += 4 + n
                if t == 51 and len(d) >= 71:
                    s = d[6:71]
                    self.share = (int.from_bytes(s[1:33], 'big'), int.from_bytes(s[33:65], 'big'))
            self.ok = self.share is not None
        except IndexError: pass

class Peer:
    """One server side of one connection attempt."""
    def __init__(self, tx, sk):
        self.hello = Hello(tx); self.sk = sk; self.keys = None; self.pub = mul(sk, G)
        self.transcript = self.hello.msg if self.hello.ok else b''

    def share(self): return enc_pt(self.pub)

    def good_hello(self, suite=0x1303, **kw):
        return server_hello([key_share(self.share()), VERS], suite, **kw)

    def install(self, suite, sh_msg, pub_used=None):
        """Derive the keys after sh_msg (a complete ServerHello message)."""
        try:
            dh = mul(self.sk, self.hello.share)[0].to_bytes(32, 'big') if self.hello.ok else b'\1' * 32
        except (TypeError, ValueError): dh = b'\1' * 32
        self.keys = Keys(suite, dh, self.transcript + sh_msg)
        return self.keys
