"""Checks of the connection properties C01..C18: real executions of libturtls, judged by TurtlsTrace.tla."""
import os, random, sys, time
import build, conndrv

def preload():
    """The shim has to be in the process from the start."""
    if 'rngshim' not in os.environ.get('LD_PRELOAD', ''):
        lib, shim, _ = build.all_conn()
        os.environ['LD_PRELOAD'], os.environ['TURTLS_LIB'] = shim, lib
        os.execv(sys.executable, [sys.executable] + sys.argv)
    return os.environ['TURTLS_LIB'], os.environ['LD_PRELOAD']

def corpus(prop, tier, seed):
    import scenarios as S
    S_ = []
    rounds = [(1, seed)] if tier == 'quick' else [(4, seed), (2, seed + 1), (2, seed + 2)]
    for scale, sd in rounds:
        for fam in S.REG.get('base', ()):
            g = S.Gen(sd * 7919 + 1, scale); fam(g)
            for s in g.out: S_.append((s, False))
        for k, fam in enumerate(S.REG.get(prop, ())):
            g = S.Gen(sd * 7919 + 2 + k + sum(map(ord, prop)) * 31, scale); fam(g)
            for s in g.out: S_.append((s, True))
    if prop == 'C01':          # no input of any kind may crash the client
        for p in sorted(S.REG):
            if p in ('base', 'C01', 'C17', 'C18'): continue
            g = S.Gen(seed * 7919 + sum(map(ord, p)), 1 if tier == 'quick' else 2)
            for fam in S.REG[p]: fam(g)
            for s in g.out: S_.append((s, False))
    return S_

def outs(events):
    """What each attempt produced: raw material for the comparison in OnEnd."""
    res, tx, live = [], '', False
    for e in events:
        if e['k'] == 'call' and e['f'] == 'connect' and not live: live, tx = True, ''
        elif e['k'] == 'w' and e['ok']: tx += e['b']
        elif e['k'] == 'ret' and e['f'] == 'connect' and not (e['rv'] < 0 and e['err'] in (3, 4)):
            res.append(dict(rv=e['rv'], err=e['err'], al=e['al'], app=e['app'], tx=tx)); live = False
        elif e['k'] == 'call' and e['f'] == 'close': live = False
    return res

def abi(lib):
    """The events of a C program that uses the library through the published header."""
    import subprocess
    exe = build.BUILD + '/abi-%d' % os.getpid()
    env = {k: v for k, v in os.environ.items() if k != 'LD_PRELOAD'}
    run = lambda *a, **k: subprocess.run(a, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=120, **k)
    r = run('gcc', '-xc', '-', '-o', exe, input='int main(void){return 0;}')
    if r.returncode: raise build.ToolError('gcc does not work: ' + r.stdout)
    try:
        d = os.path.dirname(lib)
        r = run('gcc', '-Werror=incompatible-pointer-types', '-Werror=implicit-function-declaration', '-I' + build.REPO + '/include', build.VERIF + '/harness/abi.c', '-o', exe, lib, '-Wl,-rpath,' + d)
        if r.returncode: return [dict(k='noabi'), dict(k='end', sig=0)], r.stdout
        r = run(exe)
        if r.returncode: return [dict(k='crash', sig=-r.returncode)], r.stdout
    finally:
        if os.path.exists(exe): os.unlink(exe)
    v, s = [], []
    for l in r.stdout.split('\n'):
        w = l.split(' ')
        if w[0] == 'v': v.append([w[1], int(w[2])])
        if w[0] == 's': s.append([int(w[1]), w[2]])
    return [dict(k='abi', v=v, s=s), dict(k='end', sig=0)], ''

def ungroup(items, results):
    """Every member of a group becomes an item of its own; alone: {its number: the numbers of the scenarios of the
    group executed alone, its own first}; these precede the group.  What was not executed is left out."""
    out, res, alone, at, groups = [], [], {}, {}, 0
    for (s, foc), (ev, err) in zip(items, results):
        if ev is None or isinstance(s, conndrv.Group) and any(id(x) not in at for x in s.members): continue
        if not isinstance(s, conndrv.Group):
            at[id(s)] = len(out)
            if s.focus and s.focus[0] == 'race': alone[len(out)] = [at[s.focus[1]]]
            out.append((s, foc)); res.append((ev, err)); continue
        groups += 1
        for m, x in enumerate(s.members):
            alone[len(out)] = [at[id(x)]] + [at[id(z)] for z in s.members]
            y = conndrv.Scenario((), '%s, connection %d: %s' % (s.desc, m, x.desc), x.acts, x.seed)
            out.append((y, foc)); res.append(([{k: v for k, v in e.items() if k != 'm'} for e in ev[m]], err))
    return out, [s for s, _ in out], res, alone, groups

def weight(ev): return sum(len(e.get('b', '')) for e in ev) // 2 + 300 * len(ev)

def judge(traces, verbose=False, module='TurtlsTrace'):
    import tlc
    # batches, so that no single TLC run holds too much
    batches, cur, w = [], [], 0
    for t in traces:
        k = weight(t['ev'])
        if cur and (w + k > 40_000_000 or len(cur) >= 4000): batches.append(cur); cur, w = [], 0
        cur.append(t); w += k
    if cur: batches.append(cur)
    res, st, tr = {}, 0, 0
    for b in batches:
        # heavy traces first: the search is as deep as the longest one
        r, (gen, dist), sec = tlc.validate(module, sorted(b, key=lambda t: -len(t['ev'])), verbose=verbose)
        res.update(r); st += dist; tr += gen
    return res, st, tr

def controls(ev):
    """Negative controls: falsified variants of a recorded execution; each has to be rejected."""
    import copy
    last = lambda k, **kw: max(i for i, e in enumerate(ev) if e['k'] == k and all(e.get(a) == b for a, b in kw.items()))
    first = lambda k: min(i for i, e in enumerate(ev) if e['k'] == k)
    def put(i, **kw):
        e = copy.deepcopy(ev); e[i].update(kw); return e
    def flip(i, at):
        b = bytearray.fromhex(ev[i]['b']); b[at] ^= 1; return put(i, b=b.hex())
    ret = max(i for i, e in enumerate(ev) if e['k'] == 'ret' and e['f'] == 'connect' and e['err'] == 0)
    al = max(i for i in range(ret) if ev[i]['k'] == 'w'); ch = first('w'); rd = max(i for i in range(ret) if ev[i]['k'] == 'r' and ev[i]['ok']); c = last('c')
    mem = lambda *lives, **kw: ev[:-1] + [dict(dict(k='mem', f='free', live=n, peak=n, bad=0), **kw) for n in lives] + ev[-1:]
    return dict(memory_held=mem(600000, f='connect'), memory_at_once=mem(0, peak=1 << 21), memory_left=mem(70000), memory_left_over=mem(0, 0, 16, 32, 48), memory_misused=mem(0, bad=1),
                raced=ev[:-1] + [dict(k='race', o=[dict(rv=-1), dict(rv=1)], base=dict(rv=-1))] + ev[-1:], disturbed=ev[:-1] + [dict(k='foreign', ok=1)] + ev[-1:], stale=ev[:-1] + [dict(k='stale', ok=1)] + ev[-1:], alert_changed=put(ret, al=50), success=put(ret, rv=1), want_read=put(ret, err=3), other_error=put(ret, err=2), not_closed=ev[:c] + ev[c + 1:], closed_twice=ev[:c] + ev[c:c + 1] + ev[c:],
                alert_dropped=ev[:al] + ev[al + 1:], alert_twice=ev[:al + 1] + ev[al:], alert_garbled=flip(al, 9), hello_random=flip(ch, 12), hello_share=flip(ch, -9),
                hello_first=ev[:ch] + ev[ch + 1:], record_changed=flip(rd, -1), name_invented=put(ret, app='6832'), crash=ev[:ret] + [dict(k='crash', sig=11)],
                truncated=ev[:-1], draw_changed=flip(first('rand'), 3))

def check(prop, rep, tier, seed):
    lib, shim = preload()
    items = corpus(prop, tier, seed)
    import modelcheck
    model = modelcheck.behaviours(prop, tier, seed)
    items += [(s, True) for s in model.scenarios]
    if prop == 'C17':
        for s, _ in items: s.mem = True
    races = [s for s, _ in items if isinstance(s, conndrv.Race)]
    items = [(s, f) for s, f in items if not isinstance(s, conndrv.Race)]
    scs = [s for s, _ in items]
    d = build.BUILD + '/run-%d' % os.getpid()
    t0 = time.time()
    try: results = conndrv.run_all(lib, shim, scs, d)
    finally:
        import shutil; shutil.rmtree(d, ignore_errors=True)
    if prop == 'C16':
        items.append((conndrv.Scenario((), 'a C program and the published header', []), True)); scs.append(items[-1][0]); results.append(abi(lib))
    raced = 0
    solo = {id(s): r for s, r in zip(scs, results)}
    for x in races:
        ms = [(m, solo[id(m)][0] and conndrv.once(solo[id(m)][0])) for m in x.members]
        ms = [(m, o) for m, o in ms if o and len(o[2]['tx']) <= 8000]
        n, got = conndrv.race(lib, shim, [([e for e in solo[id(m)][0] if e['k'] == 'cfg'][0], o) for m, o in ms], x.rounds)
        raced += n
        crash = isinstance(got, int)
        for i, (m, o) in enumerate(ms):
            s = conndrv.Scenario((), '%s, repeated in threads: %s' % (x.desc, m.desc), [], m.seed); s.focus = ('race', id(m))
            items.append((s, True)); scs.append(s)
            ev = [dict(k='crash', sig=got)] if crash else [dict(k='race', o=got[i], base=o[2]), dict(k='end', sig=0)]
            results.append((ev, ''))
    t1 = time.time()
    items, scs, results, alone, groups = ungroup(items, results)
    refs = {}
    traces = []
    for i, (s, (ev, err)) in enumerate(zip(scs, results)):
        if any(e['k'] == 'tool' for e in ev): raise build.ToolError('the driver failed on %s: %s' % (s.desc, err))
        base = []
        if s.focus and s.focus[0] == 'pair':
            if s.focus not in refs: refs[s.focus] = outs(ev)
            base = refs[s.focus]
        elif i in alone and s.focus and s.focus[0] == 'race': pass
        elif i in alone: base = outs(results[alone[i][0]][0])
        traces.append(dict(id=i, ev=ev, base=base, basis='C18' if i in alone else 'C05', expect=s.expect or []))
    false = {}
    try: false = {len(traces) + i: (n, e) for i, (n, e) in enumerate(sorted(controls(results[0][0]).items()))}
    except (ValueError, IndexError, KeyError): pass       # the library does not get so far; then there is something to report
    res, st, tr = judge(traces + [dict(id=i, ev=e, base=[], basis='', expect=[]) for i, (_, e) in false.items()], '--verbose' in sys.argv)
    missed = [n for i, (n, _) in false.items() if res[i] is None]
    if missed and res[0] is None: raise build.ToolError('negative controls are accepted: ' + ' '.join(missed))
    t2 = time.time()
    other = 0
    for i, (s, foc) in enumerate(items):
        v = res[i]
        if v is None: continue
        pos, text, props = v
        if i in alone:           # a member of a group: what goes wrong is the group's doing, unless it goes wrong alone, too
            if all(res[j] is None for j in alone[i]): foc, props = False, list(props) + ['C18']
            else: foc, props = False, []
        if prop in props or foc and prop != 'C17':
            ev, err = results[i]
            rep.violation(s.desc, dict(scenario=i, reason=text, properties=props, event=pos, stderr=err[-1500:], events=[{k: (x[:400] if isinstance(x, str) else x) for k, x in e.items()} for e in ev[max(0, pos - 40):pos + 2]]))
        else: other += 1
    kinds = {}
    distinct = set()
    samples = []
    for i, (ev, _) in enumerate(results):
        distinct.add(hash(tuple((e['k'], e.get('b'), e.get('amt'), e.get('f'), e.get('err'), e.get('al')) for e in ev)))
        for e in ev:
            if e['k'] == 'ret' and e['f'] == 'connect': kinds[(e['err'], e['al'] if e['err'] < 2 else 0)] = kinds.get((e['err'], e['al'] if e['err'] < 2 else 0), 0) + 1
    for i in random.Random(seed).sample(range(len(items)), min(3, len(items))):
        samples.append(dict(scenario=scs[i].desc, verdict='accepted' if res[i] is None else res[i][1][:200], events=[{k: (x[:120] if isinstance(x, str) else x) for k, x in e.items()} for e in results[i][0][:12]]))
    rep.cov = dict(states=st, transitions=tr, traces_validated_against_impl=len(traces), distinct_traces=len(distinct), focus_traces=sum(f for _, f in items),
                   outcomes={'error %d alert %d' % k: n for k, n in sorted(kinds.items())}, rejected_for_other_properties=other, negative_controls_rejected=len(false) - len(missed), interleaved_groups=groups, executions_in_racing_threads=raced,
                   seconds_executing=round(t1 - t0, 1), seconds_validating=round(t2 - t1, 1), samples=samples)
    rep.cov.update(model.evidence); rep.cov['states'] += model.states; rep.cov['transitions'] += model.transitions
    rep.assume = ['the callbacks, the random source and the C interface are the only ways in which the library meets its environment',
                  'TLC, and the Java overrides of the cryptographic operators (compared with their TLA+ definitions by MC_SelfTest)']
    return rep.finish()
