"""Runs operations on crylib through the harness binary and records the results."""
import hashlib, os, select, subprocess, sys, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor
import build

class Pat:
    """A long byte string given by Pattern(n, seed)."""
    def __init__(self, n, seed): self.n, self.seed = n, seed
    def bytes(self): return bytes(((i % 251) * 7 + (i // 251 % 239) * 13 + self.seed) & 255 for i in range(self.n))
class Pt(tuple):
    """A point as a tuple of coordinates."""

def token(x):           # as the harness reads it
    if isinstance(x, Pat): return '@%d,%d' % (x.n, x.seed)
    if isinstance(x, Pt): return ','.join('%x' % c for c in x)
    if isinstance(x, (bytes, bytearray)): return x.hex() or '-'
    return str(x)
def value(x):           # as the specification reads it
    if isinstance(x, Pat): return ['@', x.n, x.seed]
    if isinstance(x, Pt): return ['%064x' % c for c in x]
    if isinstance(x, (bytes, bytearray)): return ['x', x.hex()]
    return x

# results: i integer, d byte string (may be long), p point, n number or text
SCHEMA = {
    'u.oadd': 'nini', 'u.osub': 'nini', 'u.lalign': 'ni', 'u.count': 'iiii', 'u.bit': 'i', 'u.cmp': 'iiiiiiiinn', 'u.from': 'nnnniinnnnnnn',
    'i.sign': 'iiiinnnnn', 'i.cmp': 'iiiiiiii', 'f.new': 'ninnnnn', 'f.count': 'i',
    'e.const': 'nnnpnp', 'e.new': 'iippp', 'e.add': 'ppppii', 'e.one': 'ppppippi', 'e.mul': 'pp', 'e.aadd': 'pi', 'e.aone': 'pppp',
    'e.ver': 'i', 'e.sign': 'nni', 's.aes': 'nnii', 's.chacha': 'dd', 'a.seal': 'dndn', 'a.open': 'idid', 'l.open': 'in', 'k.exp': 'd',
}
def result(kind, w):
    if kind == 'i': return int(w)
    if kind == 'p': return w.split(',')
    if kind == 'd':
        h = '' if w == '-' else w
        return ['x', h] if len(h) <= 6000 else ['#', len(h) // 2, hashlib.sha256(bytes.fromhex(h)).hexdigest()]
    return '' if w == '-' else w
def parse(op, line):
    if line.startswith('!'): return None, line[1:]
    w = line.split(' '); sch = SCHEMA.get(op, 'n' * len(w))
    try:
        if len(w) != len(sch): return None, 'malformed'
        return [result(k, x) for k, x in zip(sch, w)], ''
    except ValueError: return None, 'malformed'

def serve(binary, lines, idle):
    """Answers to the lines, in order; shorter if the process died or hung (then also why)."""
    fi, pin = tempfile.mkstemp(dir=build.BUILD); fo, pout = tempfile.mkstemp(dir=build.BUILD)
    try:
        with os.fdopen(fi, 'w') as f: f.write('\n'.join(lines) + '\n')
        with open(pin) as i, os.fdopen(fo, 'w') as o: p = subprocess.Popen([binary], stdin=i, stdout=o, stderr=subprocess.DEVNULL)
        size, t, why = 0, time.time(), ''
        while True:
            try: p.wait(0.2); break
            except subprocess.TimeoutExpired: pass
            s = os.path.getsize(pout)
            if s != size: size, t = s, time.time()
            elif time.time() - t > idle: p.kill(); p.wait(); why = 'hang'; break
        got = open(pout).read().split('\n')[:-1]
        if not why and len(got) < len(lines): why = 'died'
        return got[:len(lines)], why
    finally:
        os.unlink(pin); os.unlink(pout)

def run(binary, traces, jobs=8, idle=60):
    """traces: lists of (op, args).  Returns recorded traces for the specification."""
    rec = [None] * len(traces)
    def work(mine, idle=idle):
        todo = list(mine)
        while todo:
            lines, owner = [], []
            for t in todo:
                for k, (op, args) in enumerate(traces[t]):
                    lines.append(' '.join([op] + [token(a) for a in args])); owner.append((t, k))
            got, why = serve(binary, lines, idle)
            ans = {}
            for (t, k), line in zip(owner, got): ans.setdefault(t, []).append(line)
            stuck = owner[len(got)][0] if len(got) < len(lines) else None
            if stuck is not None: ans.setdefault(stuck, []).append('!' + (why or 'died'))
            for t in ans:
                if stuck is not None and t != stuck and len(ans[t]) < len(traces[t]): continue
                ev = []
                for (op, args), line in zip(traces[t], ans[t]):
                    r, f = parse(op, line)
                    ev.append(dict(o=op, g=op[0] if op[0] in 'uife' else 's', a=[value(a) for a in args], r=r or [], f=f))
                    # what a slot holds after a panic is not defined
                    if f and op[0] in 'hmpa' and op.split('.')[1] not in ('auth', 'hash', 'key'): break
                rec[t] = dict(id=t, ev=ev)
            todo = [t for t in todo if rec[t] is None] if stuck is not None else []
    # the operations on gigabytes have a process each and more time
    long = [i for i, t in enumerate(traces) if t[0][0].startswith('l.')]
    rest = [i for i in range(len(traces)) if i not in set(long)]
    with ThreadPoolExecutor(jobs) as ex:
        l = ex.map(lambda i: work([i], 800), long)
        list(ex.map(work, [rest[i::jobs] for i in range(min(jobs, len(rest)))])); list(l)
    return rec
