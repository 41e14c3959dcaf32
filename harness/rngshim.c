/* LD_PRELOAD shim: lets the driver supply, record and fail the random bytes libturtls draws.
 * Both getrandom(2) entry points are interposed; everything else is forwarded unchanged.
 * Inactive until a callback is installed.
 * It also meters, once asked to, the memory that libturtls allocates: what is requested by code between
 * two addresses is counted, surrounded by patterns and poisoned when released. */
#define _GNU_SOURCE
#include <errno.h>
#include <stdarg.h>
#include <stddef.h>
#include <stdint.h>
#include <string.h>
#include <sys/syscall.h>
#include <sys/types.h>

typedef long (*shim_cb)(void *buf, size_t len);
static shim_cb callback;
void shim_set_callback(shim_cb cb) { callback = cb; }

struct run;
static __thread struct run *current;
static long race_draw(void *buf, size_t len);

static long raw(long n, long a, long b, long c, long d, long e, long f) {
    long ret;
    register long r10 __asm__("r10") = d;
    register long r8 __asm__("r8") = e;
    register long r9 __asm__("r9") = f;
    __asm__ volatile("syscall" : "=a"(ret) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9)
                     : "rcx", "r11", "memory");
    if (ret < 0 && ret > -4096) { errno = -ret; return -1; }
    return ret;
}

static long draw(void *buf, size_t len, unsigned flags) {
    /* std's hash map keys ask with GRND_INSECURE (4); they are not the library's randomness. */
    if (current && len && !(flags & 4)) {
        long r = race_draw(buf, len);
        if (r < 0) { errno = EIO; return -1; }
        return r;
    }
    if (!callback || len == 0 || (flags & 4)) return raw(SYS_getrandom, (long)buf, (long)len, flags, 0, 0, 0);
    long r = callback(buf, len);
    if (r < 0) { errno = (int)-r; return -1; }
    return r;
}

ssize_t getrandom(void *buf, size_t len, unsigned flags) { return draw(buf, len, flags); }

long syscall(long n, ...) {
    va_list ap;
    va_start(ap, n);
    long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long);
    long d = va_arg(ap, long), e = va_arg(ap, long), f = va_arg(ap, long);
    va_end(ap);
    if (n == SYS_getrandom) return draw((void *)a, (size_t)b, (unsigned)c);
    return raw(n, a, b, c, d, e, f);
}

/* ---- metering */
void *__libc_malloc(size_t), *__libc_calloc(size_t, size_t), *__libc_realloc(void *, size_t), *__libc_memalign(size_t, size_t);
void __libc_free(void *);

enum { SLOTS = 1 << 16, GUARD = 64 };
static struct { unsigned char *p; size_t n; } slot[SLOTS];
static uintptr_t lo, hi;
static char locked;
long shim_metered[3];              /* bytes held, most bytes held, number of misdeeds */

void shim_meter(void *from, void *to) { hi = (uintptr_t)to; lo = (uintptr_t)from; }
static void lock(void) { while (__atomic_test_and_set(&locked, __ATOMIC_ACQUIRE)); }
static void unlock(void) { __atomic_clear(&locked, __ATOMIC_RELEASE); }
static size_t home(void *p) { return ((uintptr_t)p >> 4) * 2654435761u % SLOTS; }
static size_t find(void *p) {      /* its slot, or the empty one where it belongs */
    size_t i = home(p);
    while (slot[i].p && slot[i].p != p) i = (i + 1) % SLOTS;
    return i;
}
static void *enter(unsigned char *p, size_t n, int fill) {
    if (!p) return p;
    if (fill >= 0) memset(p, fill, n);
    memset(p + n, 0xc7, GUARD);
    lock();
    size_t i = find(p);
    slot[i].p = p; slot[i].n = n;
    shim_metered[0] += n;
    if (shim_metered[0] > shim_metered[1]) shim_metered[1] = shim_metered[0];
    unlock();
    return p;
}
static int leave(unsigned char *p, size_t *n) {
    lock();
    size_t i = find(p), j, k;
    int known = slot[i].p != 0;
    if (known) {
        *n = slot[i].n;
        shim_metered[0] -= *n;
        for (j = 0; j < GUARD; j++) if (p[*n + j] != 0xc7) { shim_metered[2]++; break; }
        for (j = i;;) {
            slot[i].p = 0;
            do { j = (j + 1) % SLOTS; if (!slot[j].p) goto out; k = home(slot[j].p); }
            while (i <= j ? i < k && k <= j : i < k || k <= j);
            slot[i] = slot[j]; i = j;
        }
    }
out:
    unlock();
    return known;
}
#define INSIDE (lo && (uintptr_t)__builtin_return_address(0) - lo < hi - lo)
void *malloc(size_t n) { return INSIDE ? enter(__libc_malloc(n + GUARD), n, 0xb3) : __libc_malloc(n); }
void *calloc(size_t a, size_t b) {
    size_t n;
    if (!INSIDE || __builtin_mul_overflow(a, b, &n)) return __libc_calloc(a, b);
    return enter(__libc_calloc(1, n + GUARD), n, -1);
}
static int align(void **q, size_t a, size_t n, int inside) {
    *q = inside ? enter(__libc_memalign(a, n + GUARD), n, 0xb3) : __libc_memalign(a, n);
    return *q ? 0 : ENOMEM;
}
int posix_memalign(void **q, size_t a, size_t n) { return align(q, a, n, INSIDE); }
void *aligned_alloc(size_t a, size_t n) { void *q; align(&q, a, n, INSIDE); return q; }
void free(void *p) {
    size_t n;
    if (p && lo) {
        if (leave(p, &n)) memset(p, 0xd9, n);
        else if (INSIDE) { shim_metered[2]++; return; }
    }
    __libc_free(p);
}
void *realloc(void *p, size_t n) {
    size_t m;
    if (!lo || !(p ? leave(p, &m) : INSIDE)) return __libc_realloc(p, n);
    unsigned char *q = enter(__libc_malloc(n + GUARD), n, 0xb3);
    if (!q) return q;
    if (p) { memcpy(q, p, m < n ? m : n); memset(p, 0xd9, m); __libc_free(p); }
    return q;
}

/* ---- racing: recorded single attempts executed over and over in threads, without an interpreter in between */
#include <pthread.h>
#include <stdlib.h>
#include <time.h>

struct io { ssize_t (*w)(const void *, size_t, void *), (*r)(void *, size_t, void *); void (*c)(void *); void *ctx; };
struct config { const char *sni; uint16_t sig, grp; const char *alpn; size_t nalpn; uint8_t suites; };
struct job { const unsigned char *rnd, *rx; size_t nrnd, nrx; struct config cfg; };
enum { KINDS = 4, SENT = 4096 };
struct result { long count; int rv, err, al, closes; size_t ntx; char app[256]; unsigned char tx[SENT]; };
struct api { void *(*create)(struct io); void (*release)(void *), (*close)(void *); int (*connect)(void *), (*error)(void *), (*alert)(void *);
             const char *(*app)(void *); struct config *(*config)(void *); };
struct run { const struct job *j; size_t prnd, prx; struct result r; };

static long race_draw(void *buf, size_t n) {
    struct run *u = current;
    if (u->prnd + n > u->j->nrnd) return -EIO;
    memcpy(buf, u->j->rnd + u->prnd, n); u->prnd += n;
    return n;
}
static ssize_t race_write(const void *b, size_t n, void *ctx) {
    struct run *u = ctx;
    if (u->r.ntx + n <= SENT) memcpy(u->r.tx + u->r.ntx, b, n);
    u->r.ntx += n;
    return n;
}
static ssize_t race_read(void *b, size_t n, void *ctx) {
    struct run *u = ctx;
    size_t left = u->j->nrx - u->prx;
    if (n > left) n = left;
    memcpy(b, u->j->rx + u->prx, n); u->prx += n;
    return n;
}
static void race_close(void *ctx) { ((struct run *)ctx)->r.closes++; }

static const struct api *api;
static const struct job *jobs;
static long njobs, nthreads, rounds;
static struct result *results;     /* threads x jobs x KINDS */
static time_t until;
static void *racer(void *arg) {
    long t = (long)arg;
    for (long k = 0; k < rounds; k++) for (long i = 0; i < njobs; i++) {
        if (time(0) > until) return 0;
        long n = (t * 5 + i * (t % 2 ? 1 : njobs - 1) + k) % njobs;
        struct run u;
        memset(&u, 0, sizeof u);
        u.j = jobs + n; current = &u;
        void *c = api->create((struct io){race_write, race_read, race_close, &u});
        struct config *cfg = api->config(c);
        cfg->sni = u.j->cfg.sni; cfg->sig = u.j->cfg.sig; cfg->grp = u.j->cfg.grp; cfg->alpn = u.j->cfg.alpn; cfg->nalpn = u.j->cfg.nalpn; cfg->suites = u.j->cfg.suites;
        u.r.rv = api->connect(c); u.r.err = api->error(c); u.r.al = api->alert(c);
        strncpy(u.r.app, api->app(c), 255);
        struct result r = u.r;
        api->close(c); api->release(c);
        current = 0;
        struct result *s = results + (t * njobs + n) * KINDS;
        for (int q = 0; q < KINDS; q++, s++) {
            if (!s->count) *s = r;
            r.count = s->count;
            if (!memcmp(s, &r, sizeof r)) { s->count++; break; }
        }
    }
    return 0;
}
void shim_race(const struct api *a, const struct job *j, long nj, long nt, long nr, long seconds, struct result *res) {
    pthread_t th[64];
    api = a; jobs = j; njobs = nj; nthreads = nt; rounds = nr; results = res; until = time(0) + seconds;
    for (long t = 0; t < nt; t++) pthread_create(th + t, 0, racer, (void *)t);
    for (long t = 0; t < nt; t++) pthread_join(th[t], 0);
}
