"""Check of C28: real executions of crylib, one instruction at a time, judged by ConstTimeTrace.tla."""
import json, os, random, re, shutil, subprocess, sys, tempfile, time
from collections import Counter
from concurrent.futures import ThreadPoolExecutor
import build, tlc

BUILDS = ('release', 'light', 'plain')          # optimized fully, a little, not at all
WIDTHS = (1, 2, 3, 4, 5, 6, 8)
U2 = ['overflowing_add', 'overflowing_add_assign', 'overflowing_sub', 'overflowing_sub_assign'] + \
     [o + s for o in 'add sub xor and or nor xnor nand'.split() for s in ('', '_assign')]
U1 = ['not', 'not_assign', 'count_digits', 'len', 'left_align', 'control']
UN = ['mul_digit_assign', 'shift_right', 'shift_right_assign', 'shift_left', 'shift_left_assign', 'widening_shift_left']
UF = ['and_bool', 'and_bool_assign']
I2 = [o + s for o in 'add sub xor'.split() for s in ('', '_assign')]
I1 = ['neg', 'neg_assign', 'not', 'not_assign', 'abs', 'abs_assign', 'is_negative', 'is_positive', 'len']
P = 2**256 - 2**224 + 2**192 + 2**96 - 1
Q = 0xffffffff00000000ffffffffffffffffbce6faada7179e84f3b9cac2fc632551

def build_bins():
    src, t = build.VERIF + '/ctharness', build.BUILD + '/ct'
    if build.REPO != '/repo':          # development only
        alt = build.BUILD + '/ctharness-src'
        shutil.rmtree(alt, ignore_errors=True); shutil.copytree(src, alt)
        f = alt + '/Cargo.toml'; s = open(f).read().replace('/repo/crylib', build.REPO + '/crylib'); open(f, 'w').write(s)
        src = alt
    env = build.cargo_env(t)
    for k in [k for k in env if k.startswith('CARGO_PROFILE_')]: del env[k]
    for b in BUILDS:
        build.fresh(t, ['crylib', 'ctharness'], b)
        build.sh(['cargo', 'build', '--offline', '--locked', '--profile', b, '--manifest-path', src + '/Cargo.toml'], env=env)
    return {b: '%s/%s/ctharness' % (t, b) for b in BUILDS}

def corners(n):
    m = 64 * n
    c = [0, 1, 2**m - 1, 2**(m - 1), 2**64 - 1, 2**m - 2**(m - 64), 2**63]
    if n > 1: c += [2**64, 2**m - 2**64, 2**(m - 64)]
    if n > 2: c += [2**(m - 64) - 2**64]
    return sorted(set(c))
def rnd(n, R):
    k, m = R.randrange(4), 64 * n
    if k == 0: return R.getrandbits(R.randint(1, m))
    if k == 1: return sum(R.choice((0, 1, 2**64 - 1, 2**63, R.getrandbits(64))) << 64 * i for i in range(n))
    return R.getrandbits(m)
def classes(R, k):
    """(group, operation, width as the harness has it, operands) for every operation and width; k random operands each."""
    h = lambda v, n: '%0*x' % (16 * n, v)
    out = []
    for n in WIDTHS:
        c = corners(n)
        two = [(x, y) for x in c for y in c] + [(rnd(n, R), rnd(n, R)) for _ in range(k)]
        two += [(x, x) for x in [rnd(n, R) for _ in range(k // 4)]]
        one = c + [2**i for i in range(0, 64 * n, 7)] + [rnd(n, R) for _ in range(k)]
        digit = [0, 1, 2, 63, 64, 65, 127, 128, 2**63, 2**64 - 1] + [R.getrandbits(64) for _ in range(4)]
        num = [(x, d) for x in c for d in digit] + [(rnd(n, R), R.choice(digit + [R.randrange(64), R.getrandbits(64)])) for _ in range(k)]
        for o in U2 + (['widening_mul'] if n > 1 else []): out.append(('u', o, n, [(h(x, n), h(y, n)) for x, y in two]))
        for o in U1: out.append(('u', o, n, [(h(x, n),) for x in one if x or o != 'left_align']))
        for o in UN:
            if n > 1 or o != 'widening_shift_left': out.append(('u', o, n, [(h(x, n), '%x' % d) for x, d in num]))
        for o in UF: out.append(('u', o, n, [(h(x, n), str(f)) for x in one for f in (0, 1)]))
        if n in (1, 3, 4, 8):
            s = lambda x: R.choice('np') + h(x, n)
            for o in I2: out.append(('i', o, n, [(s(x), s(y)) for x, y in two]))
            for o in I1: out.append(('i', o, n, [(g + h(x, n),) for x in one for g in 'np']))
    for f, m in (('p256', P), ('n256', Q)):
        c = [0, 1, 2, m - 1, m - 2, (m - 1) // 2, (m + 1) // 2, 2**64 - 1, 2**64, 2**192, m - 2**64, 2**256 - m, 2**256 - m - 1]
        two = [(x % m, y % m) for x in c for y in c] + [(rnd(4, R) % m, rnd(4, R) % m) for _ in range(k)]
        for x in [rnd(4, R) % m for _ in range(k // 4)]: two += [(x, x), (x, m - x if x else 0), (x, (m - x - 1) % m), (x, (x + 1) % m)]
        for o in ('add', 'sub', 'sub_assign', 'count_digits'): out.append(('f', o, f, [(h(x, 4), h(y, 4)) for x, y in two]))
    return out

def execute(binary, jobs):
    """jobs: lists of (class number, line), all of a class together.  Returns what was seen of each."""
    def one(todo):
        res = []
        while len(res) < len(todo):
            p = subprocess.run([binary], input=''.join(l + '\n' for _, l in todo[len(res):]), stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, timeout=600)
            got = p.stdout.split('\n')[:-1]
            for g in got:
                a, b = g.split(' '); res.append((int(a), b))
                if b == '-': raise build.ToolError('the harness does not know ' + todo[len(res) - 1][1])
            # an execution that ended abnormally is seen to be different from one that did not
            if len(res) < len(todo): res.append((0, '!'))
            if len(res) > len(todo): raise build.ToolError('the harness answered more than it was asked')
            if len(todo) - len(res) > 0 and not got and sum(r[1] == '!' for r in res) > 200: raise build.ToolError('the harness does not run')
        return res
    with ThreadPoolExecutor(8) as ex: return list(ex.map(one, jobs))

def watch(binary, cl, which):
    """{class number: [(operands, instructions, digest)]}.  All of a class is executed by one process: addresses of libraries differ between processes."""
    jobs = [[] for _ in range(8)]
    for k, c in enumerate(sorted(which, key=lambda c: -len(which[c]))): jobs[k % 8].append(c)
    jobs = [j for j in jobs if j]
    seen = execute(binary, [[(c, ' '.join((cl[c][0] + '.' + cl[c][1], str(cl[c][2])) + a)) for c in j for a in which[c]] for j in jobs])
    out = {}
    for j, s in zip(jobs, seen):
        it = iter(s)
        for c in j: out[c] = [(a,) + next(it) for a in which[c]]
    return out

def judge(traces, timeout=600):
    fd, path = tempfile.mkstemp(prefix='traces', suffix='.ndjson', dir=build.BUILD)
    with os.fdopen(fd, 'w') as f:
        for t in traces: f.write(json.dumps(t) + '\n')
    try: rc, out, sec = tlc.tlc('ConstTimeTrace', env=dict(TRACES=path), heap='8g', timeout=timeout)
    finally: os.unlink(path)
    res = {int(m[2]): (m[1], int(m[3])) for m in re.finditer(r'<<\s*"(LEAK|SAME|UNKNOWN)",\s*(\d+),\s*(\d+)', out)}
    if rc or len(res) != len(traces): raise build.ToolError('TLC did not judge %d of %d traces, exit %d:\n%s' % (len(traces) - len(res), len(traces), rc, out[-4000:]))
    if any(v == 'UNKNOWN' for v, _ in res.values()): raise build.ToolError('an operation that the specification does not know')
    return res, tlc.stats(out)

def model(tier):
    """The limb algorithms of ConstTime.tla are constant-time and right; the planted ones are seen to leak."""
    cfg = 'MC_ConstTime' + ('_thorough' if tier != 'quick' else '') + '.cfg'
    rc, out, sec = tlc.tlc('ConstTime', cfg=cfg, heap='4g', workers=4)
    if rc: raise build.ToolError('ConstTime.tla is violated:\n' + out[-3000:])
    g, d = tlc.stats(out); bad = 0
    for a in ('count_digits_fast', 'branching_abs', 'branching_field_sub', 'lazy_add'):
        rc, out, sec = tlc.tlc('ConstTime', cfg='MN_ConstTime_%s.cfg' % a, heap='2g', workers=2)
        if rc != 12 or 'SamePath is violated' not in out: raise build.ToolError('ConstTime.tla accepts %s:\n%s' % (a, out[-3000:]))
        bad += 1
    return g, d, bad

def check(prop, rep, tier, seed):
    with build.lock(): bins = build_bins(); build.java()
    pool = ThreadPoolExecutor(1); mod = pool.submit(model, tier)
    R = random.Random(seed)
    cl = classes(R, 100 if tier == 'quick' else 2500)
    t0 = time.time()
    ev = {c: [] for c in range(len(cl))}
    which = {c: cl[c][3] for c in ev}
    for b in BUILDS:
        seen = watch(bins[b], cl, which)
        nxt = {}
        for c, s in seen.items():
            ev[c] += [dict(b=b, a=list(a), n=n, p=p) for a, n, p in s]
            ways = {}
            for a, n, p in s: ways.setdefault((n, p), []).append(a)
            # only what differs here has to be looked at in the other builds
            if len(ways) > 1:
                l = sorted(ways.values(), key=len); few = 60 if b == 'release' else 40
                nxt[c] = [a for r in range(few) for w in l[:few] if r < len(w) for a in [w[r]]][:few]
        which = nxt
        if not which: break
    t1 = time.time()
    traces = [dict(id=c, g=cl[c][0], op=cl[c][1], w=str(cl[c][2]), ev=ev[c]) for c in ev]
    # recorded executions of which one is made to differ
    ctl = []
    for c in R.sample([c for c in ev if cl[c][1] != 'control'], 40):
        e = [dict(x) for x in ev[c] if x['b'] == 'release']
        if len({(x['n'], x['p']) for x in e}) == 1:
            k = R.randrange(len(e)); e[k]['n'] += 1
            ctl.append(dict(traces[c], id=len(traces) + len(ctl), ev=e))
    res, (trans, states) = judge(traces + ctl)
    miss = [t for t in ctl if res[t['id']][0] != 'LEAK']
    if miss: raise build.ToolError('the specification accepted %d traces made to differ' % len(miss))
    # with one digit there is little that can differ
    for c in ev:
        if any(x['n'] < 2 and x['p'] != '!' for x in ev[c]): raise build.ToolError('instructions are not seen')
        if cl[c][1] == 'control' and cl[c][2] > 1 and res[c][0] != 'LEAK': raise build.ToolError('an operation that leaks was not seen to (%d digits)' % cl[c][2])
    t2 = time.time()
    ops = Counter(); only = []
    for c in ev:
        ops['%s.%s' % cl[c][:2]] += len(ev[c])
        if cl[c][1] == 'control': continue
        if res[c][0] == 'LEAK':
            w = {}
            for x in ev[c]:
                if x['b'] == 'release': w.setdefault((x['n'], x['p']), x['a'])
            two = list(w.items())[:2]
            name = {'u': 'UBigInt', 'i': 'BigInt', 'f': 'FieldElement'}[cl[c][0]] + '<%s>.%s' % (cl[c][2], cl[c][1])
            rep.violation(name, dict(reason='takes %s' % ' and '.join('%d instructions for (%s)' % (k[0], ', '.join(a)) if k[1] != '!' else 'a panic for (%s)' % ', '.join(a) for k, a in two),
                                     executions=[x for x in ev[c] if (x['n'], x['p']) in dict(two)][:10], other_builds=[x for x in ev[c] if x['b'] != 'release'][:10]))
        elif len({(x['n'], x['p']) for x in ev[c] if x['b'] == 'release'}) > 1: only.append('%s.%s %s' % cl[c][:3])
    g, d, bad = mod.result()
    samples = []
    for c in R.sample(sorted(ev), 4):
        x = R.choice(ev[c]); samples.append(dict(operation='%s.%s' % cl[c][:2], width=cl[c][2], build=x['b'], operands=x['a'], instructions=x['n'], digest=x['p']))
    rep.cov = dict(states=d + states, transitions=g + trans, model_states=d, traces_validated_against_impl=len(traces), executions_validated=sum(ops.values()),
                   instructions_observed=sum(x['n'] for c in ev for x in ev[c]), operations=dict(sorted(ops.items())), traces_made_to_differ_rejected=len(ctl), leaking_algorithms_refuted_in_the_model=bad,
                   differing_in_the_release_build_only=only, seconds_executing=round(t1 - t0, 1), seconds_validating=round(t2 - t1, 1), samples=samples)
    rep.assume = ['what an observer sees is the sequence of executed instructions; memory addresses and the time single instructions take are not observed',
                  'an operation that takes different paths only in the optimized build, or only in the unoptimized one, is not reported',
                  'the operands are those the generator produces: limb boundaries, all pairs of corner values, and random ones', 'x86-64, and the installed compiler']
    return rep.finish()
