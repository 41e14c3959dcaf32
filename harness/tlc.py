"""Runs TLC on the specifications and reads its answers."""
import json, os, re, shutil, subprocess, sys, tempfile, time
import build
VERIF = build.VERIF

def tlc(module, cfg=None, env=None, heap='6g', workers=8, extra=(), timeout=840, simulate=None):
    """Returns (output, seconds).  Raises ToolError when TLC itself fails."""
    d = tempfile.mkdtemp(prefix='tlc', dir=build.BUILD)
    e = dict(os.environ); e.pop('LD_PRELOAD', None); e.update(env or {})
    cmd = ['java', '-Xmx' + heap, '-Xss256m', '-XX:+UseParallelGC',
           '-Dtlc2.overrides.TLCOverrides=tlc2.overrides.TLCOverrides:tlc2.overrides.TurtlsOverrides',
           '-cp', '%s/java:%s:%s' % (build.BUILD, build.TLA, build.CM), 'tlc2.TLC', '-metadir', d, '-workers', str(workers),
           '-noTE', '-lncheck', 'final'] + list(extra)
    if cfg: cmd += ['-config', cfg]
    t0 = time.time()
    try:
        p = subprocess.run(cmd + [module], env=e, cwd=VERIF + '/specs', stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    except subprocess.TimeoutExpired: raise build.ToolError('TLC on %s ran out of time' % module)
    finally: shutil.rmtree(d, ignore_errors=True)
    return p.returncode, p.stdout.decode('utf8', 'replace'), time.time() - t0

def stats(out):
    m = re.findall(r'(\d[\d,]*) states generated, (\d[\d,]*) distinct states found', out)
    return tuple(int(x.replace(',', '')) for x in m[-1]) if m else (0, 0)

def parse_props(s): return sorted(set(re.findall(r'"(C\d\d)"', s)))

def validate(module, traces, env=None, heap='10g', timeout=840, verbose=False):
    """traces: list of dicts with an id.  Returns {id: None | (pos, text, props)}, stats."""
    fd, path = tempfile.mkstemp(prefix='traces', suffix='.ndjson', dir=build.BUILD)
    with os.fdopen(fd, 'w') as f:
        for t in traces: f.write(json.dumps(t) + '\n')
    try: rc, out, sec = tlc(module, env=dict(env or {}, TRACES=path), heap=heap, timeout=timeout)
    finally: os.unlink(path)
    if verbose: print(out[-6000:])
    res = {}
    # PrintT output may span several lines; entries start with << at the beginning of a line
    for m in re.finditer(r'^<<\s*"(ACCEPT|REJECT)",\s*(\d+),\s*(\d+)(.*?)>>$(?=\n(?:<<|[A-Z(0-9]|\Z))', out, re.S | re.M):
        i = int(m.group(2))
        res[i] = None if m.group(1) == 'ACCEPT' else (int(m.group(3)), re.sub(r'\s+', ' ', m.group(4)).strip(' ,'), parse_props(m.group(4)))
    missing = [t['id'] for t in traces if t['id'] not in res]
    if missing or rc != 0:
        raise build.ToolError('TLC did not judge %d of %d traces (first: %s), exit %d:\n%s' % (len(missing), len(traces), missing[:3], rc, out[-5000:]))
    return res, stats(out), sec
