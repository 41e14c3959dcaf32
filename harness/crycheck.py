"""Checks of the cryptographic properties C20..C27: real executions of crylib, judged by CrylibTrace.tla."""
import json, os, random, re, sys, tempfile, time
from collections import Counter
from concurrent.futures import ThreadPoolExecutor
import build

def weight(t): return sum(60 + (t_['a'] and sum(x[1] if isinstance(x, list) and x[0] == '@' else len(str(x)) for x in t_['a']) or 0) for t_ in t['ev'])

def judge(traces, verbose=False, timeout=800):
    """Returns {id: (number of operations judged, [positions of wrong results])}, states, transitions."""
    import tlc
    batches, cur, w = [], [], 0
    for t in traces:
        k = sum(len(json.dumps(e)) for e in t['ev'])
        if cur and w + k > 60_000_000: batches.append(cur); cur, w = [], 0
        cur.append(t); w += k
    if cur: batches.append(cur)
    res, st, tr = {}, 0, 0
    for b in batches:
        b = sorted(b, key=lambda t: -weight(t))
        fd, path = tempfile.mkstemp(prefix='traces', suffix='.ndjson', dir=build.BUILD)
        with os.fdopen(fd, 'w') as f:
            for t in b: f.write(json.dumps(t) + '\n')
        try: rc, out, sec = tlc.tlc('CrylibTrace', env=dict(TRACES=path), heap='12g', timeout=timeout)
        finally: os.unlink(path)
        if verbose: print(out[-4000:])
        bad = {}
        for m in re.finditer(r'<<\s*"REJECT",\s*(\d+),\s*(\d+),', out): bad.setdefault(int(m[1]), []).append(int(m[2]))
        for m in re.finditer(r'<<\s*"DONE",\s*(\d+),\s*(\d+),\s*(\d+)\s*>>', out):
            i = int(m[1]); res[i] = (int(m[2]), sorted(bad.get(i, [])))
            if len(res[i][1]) != int(m[3]): raise build.ToolError('TLC output is incomplete for trace %d' % i)
        missing = [t['id'] for t in b if t['id'] not in res]
        if missing or rc: raise build.ToolError('TLC did not judge %d of %d traces (first: %s), exit %d:\n%s' % (len(missing), len(b), missing[:3], rc, out[-4000:]))
        g, d = tlc.stats(out); st += d; tr += g
    return res, st, tr

def selftest():
    """The Java overrides agree with the TLA+ definitions, and these with published vectors."""
    import tlc
    rc, out, sec = tlc.tlc('MC_SelfTest', heap='4g', timeout=300)
    ok = re.findall(r'"SELFTEST ok",\s*"([^"]*)"', out)
    if rc or 'SELFTEST FAILED' in out or len(ok) < 20: raise build.ToolError('the specification failed its self-test:\n' + out[-3000:])
    return len(ok)

def corrupt(o, r, R):
    """The results with one of them made wrong."""
    # after a failed copying open the buffer may hold anything but the plaintext
    r = list(r); k = R.randrange(3 if o == 'a.open' and r[0] == 0 else len(r)); v = r[k]
    if isinstance(v, int): r[k] = 1 - v if v in (0, 1) else v + 1
    elif v == ['x']: r[k] = ['00', '00']
    elif isinstance(v, list) and v and v[0] in ('x', '#'):
        if not v[-1]: r[k] = [v[0], *v[1:-1], '00']
        else: i = R.randrange(len(v[-1])); r[k] = v[:-1] + [v[-1][:i] + '%x' % (int(v[-1][i], 16) ^ 1) + v[-1][i + 1:]]
    elif isinstance(v, list): r[k] = v[:-1] + [corrupt('', [v[-1]], R)[0]]
    elif v == 'ok': r[k] = 'ko'
    elif v in ('x', ''): r[k] = '00'
    else:
        d = [i for i, c in enumerate(v) if c in '0123456789abcdefABCDEF' and v[max(0, i - 1):i + 2] != '0x']
        i = R.choice([i for i in d if not v.startswith('0x') or i > 1]); r[k] = v[:i] + ('%x' % (int(v[i], 16) ^ 1)) + v[i + 1:]
    return r
def controls(traces, R):
    """Copies of recorded traces with one wrong result each: the specification has to reject them there."""
    by, out = {}, []
    for t in traces:
        for p, e in enumerate(t['ev']):
            if e['r'] and not e['f'] and e['r'] != ['ok']: by.setdefault(e['o'], []).append((t, p))
    for o, l in sorted(by.items()):
        for t, p in R.sample(l, min(3, len(l))):
            if t['ev'][p]['g'] == 's': ev = [dict(e) for e in t['ev'][:p + 1]]
            else: ev = [dict(t['ev'][p])]
            ev[-1]['r'] = corrupt(ev[-1]['o'], ev[-1]['r'], R); out.append(dict(id=0, ev=ev))
    return out
def short(x): s = json.dumps(x); return s if len(s) < 90 else s[:80] + '...'
def check(prop, rep, tier, seed):
    import build_cry, crydrv, crygen, tlspeer
    binary, _ = build_cry.all_cry()
    verbose = '--verbose' in sys.argv
    pool = ThreadPoolExecutor(1); st = pool.submit(selftest)
    t0 = time.time()
    raw = []
    for big, s in [(False, seed), (False, seed + 1000), (False, seed + 2000)] if tier == 'quick' else [(True, seed), (True, seed + 1)] + [(False, seed + 3 + i) for i in range(8)]:
        raw += crygen.gen(prop, big, s, tlspeer.seal)
    raw = crygen.long(prop, tier != 'quick', seed, tlspeer.seal) + raw
    t1 = time.time()
    traces = crydrv.run(binary, raw)
    t2 = time.time()
    ctl = controls(traces, random.Random(seed))
    for i, t in enumerate(ctl): t['id'] = len(traces) + i
    res, states, trans = judge(traces + ctl, verbose)
    missed = [t['ev'][-1] for t in ctl if len(t['ev']) - 1 not in res[t['id']][1]]
    if missed and not any(res[t['id']][1] for t in traces): raise build.ToolError('the specification accepted %d results made wrong, such as %s' % (len(missed), json.dumps(missed[0])[:2000]))
    t3 = time.time()
    ops, panics, seen = Counter(), Counter(), set()
    for t in traces:
        for e in t['ev']:
            ops[e['o']] += 1; seen.add(hash((e['o'], json.dumps(e['a']))))
            if e['f']: panics[e['f'][:40]] += 1
    for t in traces:
        for p in res[t['id']][1]:
            e = t['ev'][p]
            key = e['o'] + ' ' + ' '.join(short(a) for a in e['a'])
            rep.violation(key, dict(trace=t['id'], event=p, reason='%s(%s) gave %s' % (e['o'], ', '.join(short(a) for a in e['a']), e['f'] or ' '.join(short(r) for r in e['r'])),
                                    operation=e, history=t['ev'][:p] if e['o'] not in ('h.hash',) and e['g'] == 's' else []))
    R = random.Random(seed)
    samples = []
    for t in R.sample(traces, min(4, len(traces))):
        k = R.randrange(len(t['ev'])); e = t['ev'][k]
        samples.append(dict(operation=e['o'], arguments=[short(a) for a in e['a']], results=[short(r) for r in e['r']], verdict='wrong' if k in res[t['id']][1] else 'right'))
    rep.cov = dict(states=states, transitions=trans, traces_validated_against_impl=len(traces), operations_validated=sum(ops.values()), distinct_operations=len(seen), corrupted_results_rejected=len(ctl),
                   operations=dict(sorted(ops.items())), abnormal_ends=dict(panics), specification_selftests=st.result(),
                   seconds_generating=round(t1 - t0, 1), seconds_executing=round(t2 - t1, 1), seconds_validating=round(t3 - t2, 1), samples=samples)
    rep.assume = ['the inputs are those the generators produce: exhaustive for tiny fields and curves, otherwise structured around digit, block and modulus boundaries and random',
                  'TLC, and the Java overrides of the cryptographic operators (compared with their TLA+ definitions by MC_SelfTest on every run)']
    return rep.finish()
