"""Drives the real libturtls.so through its C interface, one forked child per scenario, and
records every event that crosses the interface.  A crash or a hang of the child is an event."""
import ctypes, hashlib, json, os, random, signal, struct, sys, threading, time
import tlspeer

VP, SZ = ctypes.c_void_p, ctypes.c_size_t
WRITE = ctypes.CFUNCTYPE(ctypes.c_ssize_t, VP, SZ, VP)
READ = ctypes.CFUNCTYPE(ctypes.c_ssize_t, VP, SZ, VP)
CLOSE = ctypes.CFUNCTYPE(None, VP)
SHIM = ctypes.CFUNCTYPE(ctypes.c_long, VP, SZ)

class TurtlsIo(ctypes.Structure):
    _fields_ = [('write_fn', WRITE), ('read_fn', READ), ('close_fn', CLOSE), ('ctx', VP)]
class TurtlsExts(ctypes.Structure):
    _fields_ = [('server_name', VP), ('sig_algs', ctypes.c_uint16), ('sup_groups', ctypes.c_uint16),
                ('app_protos', VP), ('app_protos_len', SZ)]
class TurtlsConfigC(ctypes.Structure):
    _fields_ = [('sni', ctypes.c_char_p), ('sig', ctypes.c_uint16), ('grp', ctypes.c_uint16), ('alpn', ctypes.c_char_p), ('nalpn', SZ), ('suites', ctypes.c_uint8)]
class TurtlsConfig(ctypes.Structure):
    _fields_ = [('extensions', TurtlsExts), ('cipher_suites', ctypes.c_uint8)]

WANT_READ, WANT_WRITE = 3, 4
TIMEOUT = 20          # seconds of processor time a scenario may spend between callbacks before it counts as a hang
MAX_OUTPUT = 300_000       # bytes; a ClientHello has less than half of that
MAX_CONNECTS = 500         # calls without any progress

def load(path):
    lib = ctypes.CDLL(path)
    lib.turtls_new.argtypes = [TurtlsIo]; lib.turtls_new.restype = VP
    for f in ('turtls_free', 'turtls_close'):
        getattr(lib, f).argtypes = [VP]; getattr(lib, f).restype = None
    lib.turtls_connect.argtypes = [VP]; lib.turtls_connect.restype = ctypes.c_int
    lib.turtls_get_config.argtypes = [VP]; lib.turtls_get_config.restype = ctypes.POINTER(TurtlsConfig)
    for f in ('turtls_get_error', 'turtls_get_tls_error'):
        getattr(lib, f).argtypes = [VP]; getattr(lib, f).restype = ctypes.c_int
    lib.turtls_app_proto.argtypes = [VP]; lib.turtls_app_proto.restype = VP
    lib.turtls_stringify_alert.argtypes = [ctypes.c_int]; lib.turtls_stringify_alert.restype = ctypes.c_char_p
    return lib

class IO:
    """How reads and writes are cut up and interrupted.  Sizes: a positive number accepts or
    delivers at most that many bytes, 0 and negative numbers are failures."""
    def __init__(self, reads=None, writes=None, scribble=False):
        self.reads, self.writes, self.scribble = reads, writes, scribble
    def read_size(self, amt): return amt if self.reads is None else next(self.reads, amt)
    def write_size(self, amt): return amt if self.writes is None else next(self.writes, amt)
    def did_read(self, n): pass
    def did_write(self, n): pass

def sizes(rng, mode):
    """An endless supply of sizes."""
    big = 1 << 30
    while True:
        if mode == 'one': yield 1
        elif mode == 'onefail':
            yield rng.choice((0, -1)); yield 1
        elif mode == 'tiny': yield rng.randint(1, 4)
        elif mode == 'rand': yield rng.choice((1, 2, 3, 4, 5, 6, 16, 100, 4096, big))
        elif mode == 'flaky':
            while rng.random() < .4: yield rng.choice((0, -1, -5, -(1 << 40)))
            yield rng.choice((1, 2, 3, 5, 7, 50, 1000, big))
        elif mode == 'failfirst':
            yield 0; yield big
        else: yield big

class Scenario:
    __slots__ = ('id', 'focus', 'desc', 'acts', 'seed', 'expect', 'mem')
    def __init__(self, focus, desc, acts, seed=0, expect=None):
        self.id = None; self.mem = False; self.focus, self.desc, self.acts, self.seed, self.expect = focus, desc, acts, seed, expect

class Group:
    """Several scenarios, each on its own connection object, in one process and interleaved:
    calls: at calls; nested: also from within callbacks; baton: threads that switch at callbacks; free: threads."""
    def __init__(self, desc, members, mode, seed=0):
        self.id = None; self.focus, self.desc, self.members, self.mode, self.seed, self.expect = ('group',), desc, members, mode, seed, None

class Race:
    """Scenarios of one attempt and one call each, to be repeated in threads that share nothing but the process."""
    def __init__(self, desc, members, rounds): self.id = None; self.desc, self.members, self.rounds = desc, members, rounds

class Attempt:
    def __init__(self, plan=None, io=None, rng=(), sk=None):
        self.plan, self.io, self.rng, self.sk = plan, io or IO(), list(rng), sk

def default_sk(seed): return int.from_bytes(hashlib.sha256(b'sk%d' % (seed % 7)).digest(), 'big') % (tlspeer.N - 1) + 1

ORDER_LE = tlspeer.N.to_bytes(32, 'little')

INSIDE = threading.local()         # the runners whose calls this thread is executing, innermost last
def rand(buf, n): return INSIDE.stack[-1].on_rand(buf, n)
RAND = SHIM(rand)

class Runner:
    """Executes one scenario in this process (a forked child)."""
    hook = None                    # called in each callback
    app0 = left = None             # where the protocol name was first shown; what the object showed last
    def __init__(self, lib, shim, sc, emit):
        self.lib, self.sc, self.emit = lib, sc, emit
        self.rngctr = 0
        self.att = Attempt(); self.pending = None
        self.tx = b''; self.rx = None; self.failed_io = False
        self.live = False
        self.ctx = ctypes.create_string_buffer(64); self.ctxaddr = ctypes.addressof(self.ctx)
        self.cb = (WRITE(self.on_write), READ(self.on_read), CLOSE(self.on_close))
        shim.shim_set_callback.argtypes = [SHIM]; shim.shim_set_callback(RAND)
        self.keep = []
        self.calls = self.fails = self.progress = 0

    def spinning(self, ok):
        """Ends a call that keeps asking although nothing is going to change."""
        if self.calls % 4096 == 0: signal.setitimer(signal.ITIMER_VIRTUAL, TIMEOUT)
        self.calls += 1; self.progress += ok; self.fails = 0 if ok else self.fails + 1
        if self.fails > 200 or self.calls > 500_000: self.over()

    def over(self): self.emit(dict(k='hang', sig=0)); self.out.flush(); os._exit(0)

    def disturbed(self):
        """Whether what the caller sees of the object has changed since the last call on it returned."""
        return self.left and self.app0 and (ctypes.string_at(self.app0, 256), ctypes.string_at(self.cfg0, ctypes.sizeof(TurtlsConfig))) != self.left

    def inside(self, f):
        """f(connection), with the random draws in it attributed to this runner."""
        if not hasattr(INSIDE, 'stack'): INSIDE.stack = []
        INSIDE.stack.append(self)
        try: return f(self.conn)
        finally: INSIDE.stack.pop()

    # ---- callbacks
    def on_rand(self, buf, n):
        if self.hook: self.hook(self)
        mode = self.att.rng.pop(0) if self.att.rng else None
        self.spinning(mode != 'fail')
        if mode == 'fail':
            self.emit(dict(k='rand', n=n, b='', ok=0)); return -5
        self.rngctr += 1
        data = b''
        while len(data) < n:
            data += hashlib.sha256(b'%d/%d/%d' % (self.sc.seed, self.rngctr, len(data))).digest()
        data = data[:n]
        if mode == 'zero': data = b'\0' * n
        elif mode == 'order': data = (ORDER_LE * (n // 32 + 1))[:n]
        elif mode == 'order+1': data = ((tlspeer.N + 1).to_bytes(32, 'little') * (n // 32 + 1))[:n]
        elif mode == 'order-1': data = ((tlspeer.N - 1).to_bytes(32, 'little') * (n // 32 + 1))[:n]
        elif mode == 'ones': data = b'\xff' * n
        elif mode == 'one': data = (b'\1' + b'\0' * 31)[:n]
        elif mode == 'short' and n > 1: data = data[:max(1, n // 3)]
        elif isinstance(mode, bytes): data = (mode * (n // len(mode) + 1))[:n]
        ctypes.memmove(buf, data, len(data))
        self.emit(dict(k='rand', n=n, b=data.hex(), ok=1))
        return len(data)

    def on_write(self, buf, amt, ctx):
        if self.hook: self.hook(self)
        n = self.att.io.write_size(amt) if self.live_call else amt
        n = min(n, amt)
        ev = dict(k='w', amt=amt, b='', ok=1)
        if ctx != self.ctxaddr: ev['k'] = 'badctx'
        self.spinning(n > 0)
        if n <= 0:
            ev['ok'] = 0; self.emit(ev); self.failed_io = True; return n
        data = ctypes.string_at(buf, amt)[:n]
        self.tx += data; self.att.io.did_write(n)
        ev['b'] = data.hex(); self.emit(ev)
        if len(self.tx) > MAX_OUTPUT: self.over()
        return n

    def on_read(self, buf, amt, ctx):
        if self.hook: self.hook(self)
        if self.rx is None:
            peer = tlspeer.Peer(self.tx, self.att.sk or default_sk(self.sc.seed))
            self.rx = b''.join(self.att.plan(peer)) if self.att.plan else b''
        n = self.att.io.read_size(amt) if self.live_call else amt
        ev = dict(k='r', amt=amt, b='', ok=1)
        if ctx != self.ctxaddr: ev['k'] = 'badctx'
        n = min(n, amt, len(self.rx)) if n > 0 else n
        self.spinning(n > 0)
        if n <= 0:
            ev['ok'] = 0; self.emit(ev)
            if self.rx: self.failed_io = True
            return n
        data, self.rx = self.rx[:n], self.rx[n:]; self.att.io.did_read(n)
        if self.att.io.scribble: ctypes.memset(buf, 0xa5, amt)
        ctypes.memmove(buf, data, n)
        ev['b'] = data.hex(); self.emit(ev)
        return n

    def on_close(self, ctx):
        if self.hook: self.hook(self)
        self.emit(dict(k='c', ok=1) if ctx == self.ctxaddr else dict(k='badctx', ok=1))

    # ---- api
    def state(self, f, rv):
        lib, c = self.lib, self.conn
        p = lib.turtls_app_proto(c)
        app = ctypes.string_at(p, 256) if p else b''
        err, al = lib.turtls_get_error(c), lib.turtls_get_tls_error(c)
        nul = app.find(b'\0')
        # a pointer obtained earlier shows the same
        if self.app0 is None: self.app0 = p
        elif self.app0 and ctypes.string_at(self.app0, 256) != app: self.emit(dict(k='stale', ok=1))
        self.left = app, ctypes.string_at(self.cfg0, ctypes.sizeof(TurtlsConfig))
        self.emit(dict(k='ret', f=f, rv=rv, err=err, al=al, app=(app if nul < 0 else app[:nul]).hex(), nul=int(nul >= 0)))
        return err

    def connect(self):
        if not self.live:
            if self.pending is not None: self.att, self.pending = self.pending, None
            self.tx, self.rx = b'', None
            self.live = True
        self.failed_io = False; self.calls = self.fails = 0
        self.emit(dict(k='call', f='connect'))
        self.live_call = True
        rv = self.inside(self.lib.turtls_connect)
        err = self.state('connect', rv)
        if not (rv < 0 and err in (WANT_READ, WANT_WRITE)): self.live = False
        return rv, err

    def run(self):
        for _ in self.steps(): pass

    def steps(self):
        """The scenario, stopping between calls."""
        lib = self.lib
        self.new()
        for act in self.sc.acts:
            yield
            op = act[0]
            if op == 'cfg': self.cfg(act[1])
            elif op == 'attempt': self.pending = act[1]
            elif op == 'connect':
                for _ in range(act[1] if len(act) > 1 else 1): self.connect(); yield
            elif op == 'resume':
                if self.live: self.connect()
            elif op == 'finish':
                # call connect until it stops asking for IO that is still going to be possible
                idle = 0
                while idle < MAX_CONNECTS:
                    was = self.progress
                    rv, err = self.connect(); yield
                    if not (rv < 0 and err in (WANT_READ, WANT_WRITE)): break
                    if not self.failed_io: break
                    idle = 0 if self.progress > was else idle + 1
                else: self.emit(dict(k='hang', sig=0))
            elif op == 'close':
                self.emit(dict(k='call', f='close')); self.inside(lib.turtls_close)
                self.state('close', 0); self.live = False
            elif op == 'query':
                self.emit(dict(k='call', f='query')); self.state('query', 0)
            elif op == 'getcfg':
                self.emit(dict(k='call', f='getcfg'))
                a = ctypes.addressof(lib.turtls_get_config(self.conn)[0])
                same = a == ctypes.addressof(lib.turtls_get_config(self.conn)[0])
                self.emit(dict(k='ret', f='getcfg', rv=int(same), err=0, al=0, app='', nul=1))
            elif op == 'nulls':
                self.emit(dict(k='call', f='nulls'))
                lib.turtls_free(None); lib.turtls_close(None)
                r = lib.turtls_app_proto(None)
                self.emit(dict(k='ret', f='nulls', rv=int(r is None), err=0, al=0, app='', nul=1))
            elif op == 'again':
                self.free(); self.new()
        self.free()

    def new(self):
        lib = self.lib
        self.live_call = True
        io = TurtlsIo(self.cb[0], self.cb[1], self.cb[2], self.ctxaddr)
        self.emit(dict(k='call', f='new'))
        self.conn = lib.turtls_new(io)
        ctypes.memset(ctypes.addressof(io), 0xee, ctypes.sizeof(io))
        self.cfg0 = ctypes.addressof(lib.turtls_get_config(self.conn)[0]); cfg = TurtlsConfig.from_address(self.cfg0)
        self.app0 = self.left = None
        e = cfg.extensions
        self.emit(dict(k='ret', f='new', rv=int(bool(self.conn)), err=0, al=0, app='', nul=1,
                       dflt=[int(bool(e.server_name)), e.sig_algs, e.sup_groups, int(bool(e.app_protos)), e.app_protos_len, cfg.cipher_suites]))

    def free(self):
        self.emit(dict(k='call', f='free'))
        self.lib.turtls_free(self.conn); self.live = False
        self.emit(dict(k='ret', f='free', rv=0, err=0, al=0, app='', nul=1))

    def cfg(self, d):
        c = TurtlsConfig.from_address(self.cfg0); e = c.extensions
        def ptr(b, nul):
            # exactly sized allocation, so that reading past the end is visible to checkers
            buf = ctypes.create_string_buffer(b, len(b) + (1 if nul else 0)) if b or nul else ctypes.create_string_buffer(1)
            self.keep.append(buf); return ctypes.addressof(buf)
        if 'sni' in d: e.server_name = None if d['sni'] is None else ptr(d['sni'], True)
        if 'alpn' in d:
            if d['alpn'] is None: e.app_protos, e.app_protos_len = None, d.get('alpnlen', 0)
            else: e.app_protos, e.app_protos_len = ptr(d['alpn'], False), len(d['alpn'])
        if 'sig' in d: e.sig_algs = d['sig']
        if 'grp' in d: e.sup_groups = d['grp']
        if 'suites' in d: c.cipher_suites = d['suites']
        if self.left: self.left = self.left[0], ctypes.string_at(self.cfg0, ctypes.sizeof(TurtlsConfig))
        name = ctypes.string_at(e.server_name) if e.server_name else None
        alpn = ctypes.string_at(e.app_protos, e.app_protos_len) if e.app_protos else None
        self.emit(dict(k='cfg', hassni=int(name is not None), sni=(name or b'').hex(), hasalpn=int(alpn is not None),
                       alpn=(alpn or b'').hex(), sig=e.sig_algs, grp=e.sup_groups, suites=c.cipher_suites))

def metered(lib, shim, emit):
    """After each return, what the library has allocated: now, at most since the last return, and whether it did what it must not."""
    at = [[int(x, 16) for x in l.split()[0].split('-')] for l in open('/proc/self/maps') if l.rstrip().endswith(os.path.basename(lib._name))]
    shim.shim_meter.argtypes = [ctypes.c_void_p, ctypes.c_void_p]; shim.shim_meter.restype = None
    m = (ctypes.c_long * 3).in_dll(shim, 'shim_metered')
    shim.shim_meter(min(a for a, _ in at), max(b for _, b in at))
    def also(ev):
        emit(ev)
        if ev['k'] == 'ret':
            emit(dict(k='mem', f=ev['f'], live=m[0], peak=m[1], bad=m[2])); m[1] = m[0]
    return also

def child(lib, shim, sc, fd):
    out = os.fdopen(fd, 'w', buffering=1 << 20)
    def emit(ev):
        out.write(json.dumps(ev) + '\n')
        if ev['k'] in ('call', 'ret'): out.flush()
    signal.setitimer(signal.ITIMER_VIRTUAL, TIMEOUT); signal.alarm(600 if not isinstance(sc, Group) else 200)
    if isinstance(sc, Group): together(lib, shim, sc, out); out.flush(); return
    r = Runner(lib, shim, sc, metered(lib, shim, emit) if sc.mem else emit); r.out = out; r.run()
    emit(dict(k='end', sig=0))
    out.flush()

def together(lib, shim, group, out):
    R = random.Random(group.seed); rs = []; lock = threading.Lock()
    for m, sc in enumerate(group.members):
        def emit(ev, m=m):
            with lock:
                out.write(json.dumps(dict(ev, m=m)) + '\n')
                if ev['k'] in ('call', 'ret'): out.flush()
        r = Runner(lib, shim, sc, emit); r.out = out; r.gen = r.steps(); r.busy = r.done = False; rs.append(r)
    def step(r):
        r.busy = True
        if r.disturbed(): r.emit(dict(k='foreign', ok=1))
        try: next(r.gen)
        except StopIteration: r.done = True; r.emit(dict(k='end', sig=0))
        r.busy = False
    def idle(): return [r for r in rs if not r.busy and not r.done]
    if group.mode in ('calls', 'nested'):
        def hook(r):
            while idle() and R.random() < .3: step(R.choice(idle()))
        if group.mode == 'nested':
            for r in rs: r.hook = hook
        while idle(): step(R.choice(idle()))
        return
    turn = threading.Condition(); holder = [rs[0]]; failed = []
    def pass_on(r):
        with turn:
            left = [x for x in rs if not x.done]
            if left: holder[0] = R.choice(left)
            turn.notify_all()
            while not r.done and holder[0] is not r: turn.wait()
    def body(r):
        try:
            if group.mode == 'baton':
                with turn:
                    while holder[0] is not r: turn.wait()
                r.hook = pass_on
            while not r.done:
                step(r)
                if group.mode == 'baton': pass_on(r)
        except BaseException:
            import traceback; traceback.print_exc(); os._exit(77)
    if group.mode == 'free': sys.setswitchinterval(1e-5)
    ts = [threading.Thread(target=body, args=(r,)) for r in rs]
    for t in ts: t.start()
    for t in ts: t.join()

def run_one(lib, shim, sc, errfd):
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r); os.dup2(errfd, 2); os.dup2(errfd, 1)
            child(lib, shim, sc, w)
        except BaseException:
            import traceback; traceback.print_exc(); code = 77
        finally:
            os._exit(code)
    os.close(w)
    with os.fdopen(r, 'rb') as f: data = f.read()
    _, st = os.waitpid(pid, 0)
    evs = []
    for line in data.split(b'\n'):
        if line:
            try: evs.append(json.loads(line))
            except ValueError: pass
    def add(ev):
        if not isinstance(sc, Group): evs.append(ev); return
        over = {e['m'] for e in evs if e['k'] in ('end', 'hang')}
        evs.extend(dict(ev, m=m) for m in range(len(sc.members)) if m not in over)
    if os.WIFSIGNALED(st):
        sig = os.WTERMSIG(st)
        add(dict(k='hang' if sig in (signal.SIGALRM, signal.SIGVTALRM) else 'crash', sig=sig))
    elif os.WEXITSTATUS(st) != 0:
        # 77: the driver itself failed; anything else: the library ended the process
        add(dict(k='tool' if os.WEXITSTATUS(st) == 77 else 'crash', sig=-os.WEXITSTATUS(st)))
    elif isinstance(sc, Group) or not evs or evs[-1]['k'] not in ('end', 'hang'):
        add(dict(k='crash', sig=0))
    # of an endless trace, the beginning is enough
    cut = lambda t: t if len(t) < 20000 or t[-1]['k'] != 'hang' else t[:4000] + t[-1:]
    if isinstance(sc, Group): return [cut([e for e in evs if e['m'] == m]) for m in range(len(sc.members))]
    return cut(evs)

ENOUGH = 4            # hangs a worker sits through; the scenarios after that are not executed (None)

def run_all(libpath, shimpath, scenarios, outdir, workers=8):
    """Runs the scenarios; returns the list of event lists, in order."""
    os.makedirs(outdir, exist_ok=True)
    for i, sc in enumerate(scenarios): sc.id = i
    pids = []
    for w in range(workers):
        pid = os.fork()
        if pid == 0:
            try:
                lib, shim = load(libpath), ctypes.CDLL(shimpath)
                errfd = os.open('%s/stderr.%d' % (outdir, w), os.O_RDWR | os.O_CREAT | os.O_TRUNC)
                with open('%s/traces.%d' % (outdir, w), 'w') as out:
                    hangs = 0
                    for sc in scenarios[w::workers]:
                        if hangs >= ENOUGH: out.write(json.dumps([sc.id, '', None]) + '\n'); continue
                        p0 = os.lseek(errfd, 0, os.SEEK_END)
                        evs = run_one(lib, shim, sc, errfd)
                        p1 = os.lseek(errfd, 0, os.SEEK_END)
                        hangs += any(e['k'] == 'hang' for t in (evs if isinstance(sc, Group) else [evs]) for e in t[-1:])
                        msg = os.pread(errfd, min(p1 - p0, 2000), p0).decode('utf8', 'replace') if p1 > p0 else ''
                        out.write(json.dumps([sc.id, msg, evs]) + '\n')
                os._exit(0)
            except BaseException:
                import traceback; traceback.print_exc()
                os._exit(3)
        pids.append(pid)
    bad = 0
    for pid in pids:
        _, st = os.waitpid(pid, 0)
        bad |= st
    if bad: raise RuntimeError('a driver worker failed')
    res = [None] * len(scenarios)
    for w in range(workers):
        with open('%s/traces.%d' % (outdir, w)) as f:
            for line in f:
                i, msg, evs = json.loads(line)
                res[i] = (evs, msg)
        os.unlink('%s/traces.%d' % (outdir, w))
    return res

# ---- racing
class Job(ctypes.Structure):
    _fields_ = [('rnd', ctypes.c_char_p), ('rx', ctypes.c_char_p), ('nrnd', SZ), ('nrx', SZ), ('cfg', TurtlsConfigC)]
class Result(ctypes.Structure):
    _fields_ = [('count', ctypes.c_long), ('rv', ctypes.c_int), ('err', ctypes.c_int), ('al', ctypes.c_int), ('closes', ctypes.c_int),
                ('ntx', SZ), ('app', ctypes.c_char * 256), ('tx', ctypes.c_ubyte * 4096)]
API = ('new', 'free', 'close', 'connect', 'get_error', 'get_tls_error', 'app_proto', 'get_config')
THREADS, KINDS = 8, 4

def once(ev):
    """What the first call of connect did: its draws, its input and its outcome; None if it did not return."""
    a = next((i for i, e in enumerate(ev) if e['k'] == 'call' and e['f'] == 'connect'), None)
    b = next((i for i, e in enumerate(ev) if e['k'] == 'ret' and e['f'] == 'connect'), None)
    if b is None: return None
    cat = lambda k: ''.join(e['b'] for e in ev[a:b] if e['k'] == k and e['ok'])
    if any(e['k'] == 'rand' and not e['ok'] for e in ev[a:b]): return None
    r = ev[b]
    return cat('rand'), cat('r'), dict(rv=r['rv'], err=r['err'], al=r['al'], app=r['app'], tx=cat('w'), closes=sum(e['k'] == 'c' for e in ev[a:b]))

def race(libpath, shimpath, recorded, rounds, seconds=90):
    """recorded: for every member its configuration event and once(); returns the distinct outcomes of each, or the signal of a crash."""
    r, w = os.pipe(); pid = os.fork()
    if pid == 0:
        code = 77
        try:
            os.close(r)
            lib, shim = load(libpath), ctypes.CDLL(shimpath)
            shim.shim_set_callback.argtypes = [VP]; shim.shim_set_callback(None)
            api = (VP * len(API))(*[ctypes.cast(getattr(lib, 'turtls_' + f), VP) for f in API])
            jobs = (Job * len(recorded))()
            keep = []
            for j, (c, (rnd, rx, _)) in zip(jobs, recorded):
                rnd, rx, sni, alpn = (bytes.fromhex(x) for x in (rnd, rx, c['sni'], c['alpn'])); keep += [rnd, rx, sni, alpn]
                j.rnd, j.nrnd, j.rx, j.nrx = rnd, len(rnd), rx, len(rx)
                j.cfg = TurtlsConfigC(sni if c['hassni'] else None, c['sig'], c['grp'], alpn if c['hasalpn'] else None, len(alpn), c['suites'])
            res = (Result * (THREADS * len(recorded) * KINDS))()
            shim.shim_race.argtypes = [VP, VP, ctypes.c_long, ctypes.c_long, ctypes.c_long, ctypes.c_long, VP]
            signal.alarm(3 * seconds)
            shim.shim_race(api, jobs, len(recorded), THREADS, rounds, seconds, res)
            out = [[] for _ in recorded]; n = 0
            for i, x in enumerate(res):
                if not x.count: continue
                n += x.count
                o = dict(rv=x.rv, err=x.err, al=x.al, app=x.app.hex(), tx=bytes(x.tx[:min(x.ntx, 4096)]).hex(), closes=x.closes)
                m = out[i // KINDS % len(recorded)]
                if o not in m: m.append(o)
            with os.fdopen(w, 'w') as f: f.write(json.dumps([n, out]))
            code = 0
        except BaseException:
            import traceback; traceback.print_exc()
        finally: os._exit(code)
    os.close(w)
    with os.fdopen(r) as f: data = f.read()
    _, st = os.waitpid(pid, 0)
    if os.WIFSIGNALED(st): return 0, os.WTERMSIG(st)
    if os.WEXITSTATUS(st) == 77: raise RuntimeError('the race failed')
    return json.loads(data) if data else (0, -os.WEXITSTATUS(st))
