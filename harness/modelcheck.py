"""Checks the abstract machine (specs/Turtls.tla) and turns its behaviours into scenarios for the real library.
Nothing here judges: the permitted outcomes come with each script from TLC."""
import json, os, random, re
import build, tlc
import tlspeer as T
from tlspeer import plain, ext, VERS, key_share, server_hello, enc_exts, alpn_ext, msg, ext_block, certificate, certificate_msg, cert_entry, der
from conndrv import Scenario, Attempt, IO

OFFER = b'\x02h2\x08http/1.1'
SUITE = dict(chacha=0x1303, aes=0x1301)

# ---------------------------------------------------------------- messages
def hello(p, v):
    ks = lambda s=None, **k: key_share(p.share() if s is None else s, **k)
    sh = lambda es, **k: server_hello(es, **k)
    return {
        'chacha': lambda: p.good_hello(0x1303), 'aes': lambda: p.good_hello(0x1301),
        'short': lambda: msg(2, b'\3\3' + b'\x5a' * 20), 'retry': lambda: sh([VERS, ext(51, b'\0\x17')], random=T.HRR_RANDOM),
        'sidlong': lambda: sh([ks(), VERS], sid=b'\7' * 33), 'sid': lambda: sh([ks(), VERS], sid=b'\7' * 32),
        'suite': lambda: sh([ks(), VERS], suite=0x1302), 'compression': lambda: sh([ks(), VERS], comp=1),
        'extlen': lambda: sh([ks(), VERS], ext_len=7), 'exttrunc': lambda: sh([ks(), VERS, b'\0\x2b\0']),
        'dup': lambda: sh([ks(), VERS, VERS]), 'unknown': lambda: sh([ks(), VERS, ext(0x7777, b'')]),
        'misplaced': lambda: sh([ks(), VERS, ext(0, b'')]), 'version': lambda: sh([ks(), ext(43, b'\3\3')]),
        'noversion': lambda: sh([ks()]), 'group': lambda: sh([ks(group=24), VERS]), 'form': lambda: sh([ks(b'\2' + p.share()[1:]), VERS]),
        'point': lambda: sh([ks(p.share()[:64] + bytes([p.share()[64] ^ 1])), VERS]), 'noshare': lambda: sh([VERS]),
        'verlen': lambda: sh([ks(), ext(43, b'\3')]), 'ksshort': lambda: sh([ext(51, b'\0'), VERS]),
    }[v]()

def encrypted_extensions(v):
    return {
        'none': lambda: enc_exts(), 'first': lambda: enc_exts([alpn_ext([b'h2'])]), 'second': lambda: enc_exts([alpn_ext([b'http/1.1'])]),
        'notoffered': lambda: enc_exts([alpn_ext([b'h3'])]), 'unknown': lambda: enc_exts([ext(0x7777, b'ab')]),
        'misplaced': lambda: enc_exts([ext(51, b'')]), 'dup': lambda: enc_exts([ext(10, b'\0\2\0\x17')] * 2),
        'extlen': lambda: msg(8, ext_block([ext(10, b'\0\2\0\x17')], 3)), 'exttrunc': lambda: enc_exts([b'\0\x0a\0']),
        'alpnform': lambda: enc_exts([alpn_ext([], raw=b'\0\5\2h2')]), 'alpnmany': lambda: enc_exts([alpn_ext([b'h2', b'http/1.1'])]),
    }[v]()

_c = {}
def cert(v):
    if v not in _c:
        C = lambda **k: certificate_msg([cert_entry(certificate(**k))])
        _c[v] = {
            'good': lambda: C(), 'version': lambda: C(version=0), 'algorithm': lambda: C(oid=bytes.fromhex('2a864886f70d01010b')),
            'list': lambda: certificate_msg([cert_entry(certificate())], list_len=5), 'emptycert': lambda: certificate_msg([cert_entry(b'')]),
            'parse': lambda: certificate_msg([cert_entry(certificate()[:40])]), 'signature': lambda: C(sig=der(0x30, der(4, b'\5') * 2)),
        }[v]()
    return _c[v]

TYPES = dict(SH=2, EE=8, CERT=11, FIN=20)
def message(p, m):
    if m['v'] == 'long': return bytes([TYPES[m['ty']]]) + b'\xff\0\0' + b'\x33' * 60
    return hello(p, m['v']) if m['ty'] == 'SH' else encrypted_extensions(m['v']) if m['ty'] == 'EE' else cert(m['v']) if m['ty'] == 'CERT' else msg(20, b'\x77' * 32)

PLAIN = dict(ccs=(20, b'\1'), ccs0=(20, b''), ccs2=(20, b'\1\1'), ccsbad=(20, b'\2'), alert=(21, b'\2\x28'), close=(21, b'\1\0'), alert99=(21, b'\2\x63'),
             alert1=(21, b'\2'), alert3=(21, b'\2\x28\0'), app=(23, b'\7' * 40), app16=(23, b'\7' * 16), app0=(23, b''), hs0=(22, b''), type24=(24, b'\7' * 10),
             hsbig=(22, b'\7' * 16385), ccsbig=(20, b'\7' * 16385), appbig=(23, b'\7' * 16640), apphuge=(23, b'\7' * 16641), **{'24huge': (24, b'\7' * 16641)})
SEALED = dict(ealert=(21, b'\2\x28', 0), eclose=(21, b'\1\0', 0), ealert99=(21, b'\2\x63', 0), ealert1=(21, b'\2', 0), ealert3=(21, b'\2\x28\0', 0), ealertpad=(21, b'\2\x2f', 297),
              eccs=(20, b'\1', 0), eapp=(23, b'hello', 0), ehs0=(22, b'', 0), e24=(24, b'\7' * 5, 0), ebig=(22, b'\7' * 16385, 0), eover=(21, b'\2\x2f', 16384 + 97))

class Server:
    """Spells out the records of one attempt."""
    def __init__(self, p, recs, r):
        self.p, self.r, self.cur, self.pos, self.sent, self.out = p, r, None, 0, [], []
        for x in recs: self.out.append(self.record(x))
    def piece(self, m, part):
        r = self.r
        if part in ('w', 'h1', 'h4'): self.cur, self.pos = message(self.p, m), 0
        n = len(self.cur)
        end = n if part in ('w', 't') else r.randint(1, 3) if part == 'h1' else r.choice((4, 4, 5, n - 1, r.randint(4, n - 1)))
        b, self.pos = self.cur[self.pos:end], end
        self.done = m if end == n else None
        return b
    def record(self, x):
        p, r = self.p, self.r
        if x['k'] == 'data':
            b, done = b'', []
            for m, part in x['pieces']:
                b += self.piece(m, part)
                if self.done: done.append((self.done, self.cur))
            rec = self.seal(22, b, r.choice((0, 0, 0, 1, 30))) if x['sealed'] else plain(22, b)
            for m, whole in done:
                if p.keys is None and m['ty'] == 'SH' and m['v'] in SUITE: p.install(SUITE[m['v']], whole)
            return rec
        n = x['name']
        if n in PLAIN: return plain(*PLAIN[n])
        if n in SEALED: t, b, pad = SEALED[n]; return self.seal(t, b, pad)
        if n == 'epad': return self.seal(0, b'', 8)
        k = p.keys
        if n == 'tamper': return k.record(22, enc_exts(), flip=(r.randrange(200), 1 << r.randrange(8)))
        if n == 'replay': return self.sent[-1] if self.sent else k.record(22, enc_exts(), seq=k.seq + 1, advance=False)
        if n == 'reorder': return k.record(22, enc_exts(), seq=k.seq + r.randint(1, 3), advance=False)
        if n == 'otherkey': return k.record(22, enc_exts(), key=bytes([k.key[0] ^ 1]) + k.key[1:])
        raise KeyError(n)
    def seal(self, t, b, pad):
        self.sent.append(self.p.keys.record(t, b, pad=pad)); return self.sent[-1]

class ModelIO(IO):
    """Cuts and failures at the positions in the two byte streams that the script names."""
    def __init__(self, seed):
        super().__init__(); self.r = random.Random(seed)
        self.wmarks, self.rmarks, self.acut = [], [], None
        self.wpos = self.rpos = 0; self.read = False; self.offsets = None
    def err(self): return self.r.choice((0, -1, -7))
    def write_size(self, amt):
        if self.read:                       # what comes now is an alert
            if self.acut is None: return amt
            n, self.acut = self.acut, 0
            return n or self.err()
        while self.wmarks and self.wmarks[0][0] <= self.wpos:
            if self.wmarks[0][1]: self.wmarks[0][1] -= 1; return self.err()
            self.wmarks.pop(0)
        return min(amt, self.wmarks[0][0] - self.wpos) if self.wmarks else amt
    def did_write(self, n): self.wpos += n
    def read_size(self, amt):
        self.read = True
        while self.rmarks and self.at(self.rmarks[0]) <= self.rpos:
            if self.rmarks[0][2]: self.rmarks[0][2] -= 1; return self.err()
            self.rmarks.pop(0)
        return min(amt, self.at(self.rmarks[0]) - self.rpos) if self.rmarks else amt
    def did_read(self, n): self.rpos += n
    def at(self, m):
        rec, got, _ = m
        o = self.offsets; start = o[min(rec, len(o) - 1)]
        n = (o[rec + 1] - start) if rec + 1 < len(o) else 0
        k = {0: 0, 1: 1 + (m[0] * 7 + 3) % 4, 2: 5, 3: 6 + (m[0] * 31 + 11) % 97}[got]
        return start + (min(k, max(5, n - 1)) if got == 3 else min(k, n))

def concretize(sc, desc, seed):
    """A script of the abstract machine as a scenario."""
    acts, expect, cur = [], [], None
    r = random.Random(seed)
    def close(opt, open_): cur['expect'] = dict(o=[list(x) for x in opt], open=int(open_))
    def mark(l, key):
        if not l or l[-1][:-1] != list(key): l.append(list(key) + [0])
        return l[-1]
    for e in sc['script']:
        k = e[0]
        if k == 'cfg':
            c = e[1]
            acts.append(('cfg', dict(suites=sum({'chacha': 1, 'aes': 2}[s] for s in c['suites']), alpn=OFFER if c['alpn'] else None, grp=int(c['groups']), sig=int(c['sigs']))))
        elif k == 'start':
            io = ModelIO(r.random())
            cur = dict(recs=[], io=io, rng=[], got=0, n=0, w=0, expect=None); expect.append(cur)
            def plan(p, cur=cur, seed=r.random()):
                s = Server(p, cur['recs'], random.Random(seed))
                o = [0]
                for b in s.out: o.append(o[-1] + len(b))
                cur['io'].offsets = o
                return s.out
            a = Attempt(plan, io); cur['rng'] = a.rng
            acts += [('attempt', a), ('connect',)]
        elif k == 'resume': acts.append(('resume',))
        elif k == 'close':
            if e[1]: close(e[2], True)
            acts.append(('close',))
            if r.random() < .3: acts.append(('query',))
        elif k == 'rng':
            if e[1] == 'fail1': cur['rng'].append('fail')
            if len(e) > 2: close(e[2], False)
        elif k == 'wpart': cur['w'] = r.choice((1, 3, 4, 5, 6, 9, 60, 130)); mark(cur['io'].wmarks, (cur['w'],))
        elif k == 'wfail': mark(cur['io'].wmarks, (cur['w'],))[-1] += 1
        elif k == 'rec': cur['recs'].append(e[1]); cur['n'] += 1; cur['got'] = 0
        elif k in ('rpart', 'rfail'):
            # after the header was read in one go the script does not say so: `got' is in the event
            rec, got = cur['n'] - (1 if e[1] else 0), e[2]
            if k == 'rpart': mark(cur['io'].rmarks, (rec, got + 1))
            else: mark(cur['io'].rmarks, (rec, got))[-1] += 1
        elif k == 'afail': cur['io'].acut = r.choice((0, 0, 1, 5, 6, 20))
        elif k == 'out': close(e[1], False)
        else: raise KeyError(k)
    if cur and cur['expect'] is None: close(sc['opt'], True)
    return Scenario((), desc, acts, seed=seed, expect=[c['expect'] for c in expect])

# ---------------------------------------------------------------- TLC
def emit(cfg, simulate=0, seed=1, timeout=300):
    extra = ['-simulate', 'num=%d' % simulate, '-depth', '400', '-seed', str(seed)] if simulate else []
    rc, out, sec = tlc.tlc('MC_Turtls', cfg + '.cfg', heap='4g', extra=extra, timeout=timeout)
    if rc: raise build.ToolError('TLC on %s: exit %d\n%s' % (cfg, rc, out[-3000:]))
    l = sorted(set(re.findall(r'^<<"SCRIPT", "(.*)">>$', out, re.M)))
    if not l: raise build.ToolError('TLC on %s printed no scripts\n%s' % (cfg, out[-3000:]))
    return [json.loads(json.loads('"%s"' % x)) for x in l], tlc.stats(out), sec

PROFILE = dict(C01='io', C02='order', C03='order', C04='order', C05='io', C06='life', C07='order', C08='io', C09='life', C10='life', C11='order', C12='order', C13='order',
               C14='life', C15='order', C16='life', C17='life', C18='life')

class Behaviours: pass
def behaviours(prop, tier, seed):
    prof = PROFILE[prop]; thorough = tier != 'quick'
    b = Behaviours(); b.evidence = {}
    name = 'MC_' + prof + ('_thorough' if thorough else '')
    rc, out, sec = tlc.tlc('MC_Turtls', name + '.cfg', heap='12g' if thorough else '4g', timeout=1800 if thorough else 300)
    if rc: raise build.ToolError('the abstract machine violates its properties (%s), exit %d:\n%s' % (name, rc, out[-4000:]))
    b.transitions, b.states = tlc.stats(out)
    b.evidence['abstract_machine'] = dict(instance=name, states_generated=b.transitions, distinct_states=b.states, seconds=round(sec, 1))
    # a machine with a mistake must not pass
    name = 'MN_' + prof
    rc, out, _ = tlc.tlc('MC_Turtls', name + '.cfg', heap='4g', timeout=300)
    m = re.search(r'Invariant (\w+) is violated', out)
    if not m: raise build.ToolError('the abstract machine with a planted mistake (%s) passes, exit %d:\n%s' % (name, rc, out[-4000:]))
    b.evidence['abstract_machine']['planted_mistake_found_by'] = m.group(1)
    exact, st, _ = emit('ME_' + prof)
    rnd, _, _ = emit('MR_' + prof, simulate=3000 if thorough else 400, seed=seed)
    r = random.Random(seed * 31 + sum(map(ord, prop)))
    k = 6000 if thorough else 500
    pick = exact if len(exact) <= k else r.sample(exact, k)
    rnd = rnd if len(rnd) <= k else r.sample(rnd, k)
    b.evidence['behaviours'] = dict(enumerated=len(exact), enumeration_states=st[1], replayed=len(pick), random_replayed=len(rnd))
    b.scenarios = [concretize(s, 'behaviour of the abstract machine (%s %d): %s' % (prof, i, short(s)), seed * 100003 + i) for i, s in enumerate(pick + rnd)]
    return b

def short(s):
    o = []
    for e in s['script']:
        if e[0] == 'rec':
            x = e[1]
            o.append(x['name'] if x['k'] == 'special' else ('{%s}' if x['sealed'] else '[%s]') % ' '.join('%s.%s/%s' % (m['ty'], m['v'], q) for m, q in x['pieces']))
        elif e[0] in ('rpart', 'rfail'): o.append('%s@%d' % (e[0], e[2]))
        elif e[0] == 'rng': o += [e[1]] if e[1] != 'ok' else []
        elif e[0] == 'cfg': o.append('cfg(%s%s)' % ('+'.join(sorted(e[1]['suites'])), ''.join(k[0] if e[1][k] else '-' for k in ('alpn', 'groups', 'sigs'))))
        elif e[0] != 'out': o.append(e[0])
    return ' '.join(o)
