/* Native runtime for replaying a counterexample of lsx: the harness compiled from the same IR runs on the
   CPU, symbolic inputs take the recorded values, threads follow the recorded schedule.
   Exit status: 10 reproduced, 11 ran to the end without a violation, 12 diverged from the recording. */
#define _GNU_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <pthread.h>
#include <signal.h>
#include <stdarg.h>
#include <stdbool.h>
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <unistd.h>

void ENTRY(void);

static uint64_t *vals;
static size_t nvals, ival;
static unsigned char *sched;
static size_t nsched, isched;
static uint32_t params[16];
static int nparams;

static void say(const char *k, const char *s, size_t n) {
    char b[512];
    int m = snprintf(b, sizeof b, "%s %.*s\n", k, (int)n, s);
    if (write(1, b, m)) {}
}
static void done(int rc, const char *k, const char *s) {
    say(k, s, strlen(s));
    _exit(rc);
}
static uint64_t next_val(void) {
    if (ival >= nvals) done(12, "DIVERGED", "no more input values");
    return vals[ival++];
}
uint32_t lsx_u32(void) { return (uint32_t)next_val(); }
uint8_t lsx_u8(void) { return (uint8_t)next_val(); }
bool lsx_bool(void) { return next_val() & 1; }
uint32_t lsx_range(uint32_t lo, uint32_t hi) {
    uint64_t v = next_val();
    if (v < lo || v > hi) done(12, "DIVERGED", "value outside its range");
    return (uint32_t)v;
}
void lsx_assume(bool c) {
    if (!c) done(12, "DIVERGED", "assumption false");
}
void lsx_fail(const char *p, size_t n) {
    say("REPRODUCED assert", p, n);
    _exit(10);
}
void lsx_cover(const char *p, size_t n) { (void)p; (void)n; }
uint32_t lsx_param(uint32_t i) { return i < (uint32_t)nparams ? params[i] : 0; }
uint32_t lsx_concrete(uint32_t v) { return v; }

/* ---- allocator: every allocation on its own pages, ending at an unmapped page; freed memory is never
   reused and faults on access */
typedef struct { void *p; size_t n, len; char *base; int freed; } A;
static A *al;
static size_t nal, cal, nlive;
#define PG 4096ul
static A *find(void *p) {
    for (size_t i = nal; i-- > 0;)
        if (al[i].p == p) return &al[i];
    return 0;
}
static void *get(size_t n, size_t align) {
    if (!al) {
        cal = 1 << 20;
        al = mmap(0, cal * sizeof(A), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    }
    if (align < 1) align = 1;
    size_t body = (n + PG - 1) / PG * PG;
    if (!body) body = PG;
    size_t len = body + PG;
    /* addresses grow, as they do in the symbolic execution: code that orders objects by address behaves alike */
    static char *bump, *top;
    if (!bump) {
        bump = mmap(0, 1ul << 36, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        top = bump + (1ul << 36);
        if (bump == MAP_FAILED) done(12, "DIVERGED", "out of memory");
    }
    char *b = bump;
    if (b + len > top || nal == cal || mprotect(b, body, PROT_READ | PROT_WRITE)) done(12, "DIVERGED", "out of memory");
    bump += len;
    memset(b, 0xA5, body);
    mprotect(b + body, PG, PROT_NONE);
    char *p = b + body - n;
    p = (char *)((uintptr_t)p & ~(uintptr_t)(align - 1));
    al[nal++] = (A){p, n, len, b, 0};
    nlive++;
    return p;
}
void *lsxrt_malloc(size_t n) { return get(n, n >= 16 ? 16 : 8); }
void *lsxrt_calloc(size_t a, size_t b) {
    void *p = get(a * b, 16);
    memset(p, 0, a * b);
    return p;
}
void lsxrt_free(void *p) {
    if (!p) return;
    A *a = find(p);
    if (!a || a->freed) done(10, "REPRODUCED", "double or invalid free");
    a->freed = 1;
    mprotect(a->base, a->len, PROT_NONE);
    nlive--;
}
void *lsxrt_realloc(void *p, size_t n) {
    if (!p) return lsxrt_malloc(n);
    A *a = find(p);
    if (!a || a->freed) done(10, "REPRODUCED", "realloc of a freed block");
    size_t old = a->n;
    void *q = get(n, 16);
    memcpy(q, p, old < n ? old : n);
    lsxrt_free(p);
    return q;
}
int lsxrt_posix_memalign(void **o, size_t al_, size_t n) {
    *o = get(n, al_);
    return 0;
}
void *lsxrt_aligned_alloc(size_t al_, size_t n) { return get(n, al_); }
size_t lsx_live(void) { return nlive; }

/* ---- threads */
#define MAXT 8
enum { RUN, JOIN, FUTEX, DONE };
static pthread_mutex_t mu = PTHREAD_MUTEX_INITIALIZER;
static pthread_cond_t cv[MAXT];
static struct { int ts; uintptr_t addr; void (*f)(size_t); size_t arg; } th[MAXT];
static int nth = 1, token, multi;
static __thread int me;

/* vector clocks, for the confirmation of data races only */
static uint32_t vclk[MAXT][MAXT];

static int others_done(int t) {
    for (int i = 0; i < nth; i++)
        if (i != t && th[i].ts != DONE) return 0;
    return 1;
}
static void event(int kind) {
    if (!multi) return;
    int t;
    if (isched < nsched) {
        t = sched[isched++];
        if (t == 255) done(10, "REPRODUCED", "deadlock: all threads are blocked");
        if (t >= nth || th[t].ts == DONE || th[t].ts == FUTEX || (th[t].ts == JOIN && !others_done(t)))
            done(12, "DIVERGED", "schedule names a thread that cannot run");
    } else {
        /* beyond the recording: stay, or take any runnable thread */
        t = me;
        if (kind == 2) {
            for (t = 0; t < nth; t++)
                if (th[t].ts == RUN || (th[t].ts == JOIN && others_done(t))) break;
            if (t == nth) done(10, "REPRODUCED", "deadlock: all threads are blocked");
        }
    }
    if (th[t].ts == JOIN) {
        th[t].ts = RUN;
        for (int o = 0; o < nth; o++)
            for (int i = 0; i < MAXT; i++)
                if (vclk[o][i] > vclk[t][i]) vclk[t][i] = vclk[o][i];
    }
    if (t == me) return;
    pthread_mutex_lock(&mu);
    token = t;
    pthread_cond_signal(&cv[t]);
    if (th[me].ts != DONE)
        while (token != me) pthread_cond_wait(&cv[me], &mu);
    pthread_mutex_unlock(&mu);
}
static void *body(void *p) {
    me = (int)(intptr_t)p;
    pthread_mutex_lock(&mu);
    while (token != me) pthread_cond_wait(&cv[me], &mu);
    pthread_mutex_unlock(&mu);
    th[me].f(th[me].arg);
    th[me].ts = DONE;
    event(2);
    return 0;
}
uint32_t lsx_spawn(void (*f)(size_t), size_t arg) {
    if (nth >= MAXT) done(12, "DIVERGED", "too many threads");
    int t = nth;
    th[t].f = f;
    th[t].arg = arg;
    th[t].ts = RUN;
    memcpy(vclk[t], vclk[me], sizeof vclk[t]);
    vclk[t][t]++;
    vclk[me][me]++;
    nth++;
    multi = 1;
    pthread_t h;
    if (pthread_create(&h, 0, body, (void *)(intptr_t)t)) done(12, "DIVERGED", "pthread_create");
    return t;
}
void lsx_join(void) {
    if (!multi) return;
    th[me].ts = JOIN;
    event(2);
}
void lsx_yield(void) { event(1); }
uint32_t lsx_tid(void) { return me; }
void lsx_trace(uint64_t x) { fprintf(stderr, "trace[%d] %#lx\n", me, x); }
void lsxrt_atomic(void) { event(0); }
void lsxrt_pause(void) { event(1); }
int lsxrt_sched_yield(void) {
    event(1);
    return 0;
}

long lsxrt_syscall(long nr, ...) {
    va_list ap;
    va_start(ap, nr);
    long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long);
    va_end(ap);
    if (nr != 202) done(12, "DIVERGED", "unexpected syscall");
    uint32_t *addr = (uint32_t *)a;
    int op = (int)b & 0x7f;
    uint32_t val = (uint32_t)c;
    event(0);
    if (op == 0 || op == 9) {
        if (*(volatile uint32_t *)addr != val) {
            errno = EAGAIN;
            return -1;
        }
        if (!multi) done(10, "REPRODUCED", "deadlock: futex wait with a single thread");
        th[me].ts = FUTEX;
        th[me].addr = (uintptr_t)addr;
        event(2);
        return 0;
    }
    if (op == 1 || op == 10) {
        uint32_t n = 0;
        for (int i = 0; i < nth && n < val; i++)
            if (th[i].ts == FUTEX && th[i].addr == (uintptr_t)addr) {
                th[i].ts = RUN;
                n++;
            }
        return n;
    }
    done(12, "DIVERGED", "unexpected futex operation");
    return -1;
}

/* ---- data races: plain accesses and synchronisation are reported by instrumentation (only linked in for
   counterexamples of that kind) */
typedef struct { uintptr_t a; uint32_t wt, wc, rc[MAXT], ac[MAXT]; } Cell;
static Cell *cells;
#define NC (1u << 20)
static Cell *cell(uintptr_t a) {
    if (!cells) cells = mmap(0, NC * sizeof(Cell), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    uint32_t h = (uint32_t)((a * 0x9E3779B97F4A7C15ull) >> 44) & (NC - 1);
    while (cells[h].a && cells[h].a != a) h = (h + 1) & (NC - 1);
    if (!cells[h].a) {
        cells[h].a = a;
        cells[h].wt = 255;
    }
    return &cells[h];
}
static void access_(uintptr_t a, size_t n, int w, int atomic) {
    if (!multi) return;
    char *probe = (char *)&probe;
    (void)probe;
    for (size_t i = 0; i < n; i++) {
        Cell *c = cell(a + i);
        int bad = 0;
        if (!atomic) {
            if (c->wt != 255 && (int)c->wt != me && vclk[me][c->wt] < c->wc) bad = 1;
            for (int t = 0; t < nth; t++) {
                if (t == me) continue;
                if (vclk[me][t] < c->ac[t]) bad = 1;
                if (w && vclk[me][t] < c->rc[t]) bad = 1;
            }
            if (w) {
                c->wt = me;
                c->wc = vclk[me][me];
            } else
                c->rc[me] = vclk[me][me];
        } else {
            if (c->wt != 255 && (int)c->wt != me && vclk[me][c->wt] < c->wc) bad = 1;
            if (w)
                for (int t = 0; t < nth; t++)
                    if (t != me && vclk[me][t] < c->rc[t]) bad = 1;
            c->ac[me] = vclk[me][me];
        }
        if (bad) done(10, "REPRODUCED", "data race: unsynchronised accesses of two threads");
    }
}
void lsxrt_rd(void *p, size_t n) { access_((uintptr_t)p, n, 0, 0); }
void lsxrt_wr(void *p, size_t n) { access_((uintptr_t)p, n, 1, 0); }
/* o: 1 acquire, 2 release; kind: 0 load 1 store 2 rmw 3 fence */
typedef struct { uintptr_t a; uint32_t v[MAXT]; } Sy;
static Sy sy[65536];
static uint32_t relf[MAXT][MAXT], acqp[MAXT][MAXT];
static Sy *syn(uintptr_t a) {
    uint32_t h = (uint32_t)((a * 0x9E3779B97F4A7C15ull) >> 48) & 65535;
    while (sy[h].a && sy[h].a != a) h = (h + 1) & 65535;
    sy[h].a = a;
    return &sy[h];
}
void lsxrt_sync(void *p, size_t n, int kind, int o) {
    if (!multi) return;
    if (kind == 3) {
        if (o & 1)
            for (int i = 0; i < MAXT; i++)
                if (acqp[me][i] > vclk[me][i]) vclk[me][i] = acqp[me][i];
        if (o & 2) {
            memcpy(relf[me], vclk[me], sizeof relf[me]);
            vclk[me][me]++;
        }
        return;
    }
    access_((uintptr_t)p, n, kind != 0, 1);
    Sy *s = syn((uintptr_t)p);
    if (kind != 1) {
        for (int i = 0; i < MAXT; i++) {
            if ((o & 1) && s->v[i] > vclk[me][i]) vclk[me][i] = s->v[i];
            if (s->v[i] > acqp[me][i]) acqp[me][i] = s->v[i];
        }
    }
    if (kind != 0) {
        for (int i = 0; i < MAXT; i++) {
            uint32_t x = (o & 2) ? vclk[me][i] : relf[me][i];
            if (kind == 1) s->v[i] = x;
            else if (x > s->v[i]) s->v[i] = x;
        }
        if (o & 2) vclk[me][me]++;
    }
}

static void on_sig(int s) {
    done(10, "REPRODUCED", s == SIGABRT ? "panic (abort)" : s == SIGALRM ? "does not terminate" : "invalid memory access or instruction");
}
static size_t read_list(const char *f, uint64_t **o) {
    FILE *h = fopen(f, "r");
    size_t n = 0, c = 16;
    *o = malloc(c * 8);
    if (!h) return 0;
    unsigned long x;
    while (fscanf(h, "%lu", &x) == 1) {
        if (n == c) *o = realloc(*o, (c *= 2) * 8);
        (*o)[n++] = x;
    }
    fclose(h);
    return n;
}
int main(int argc, char **argv) {
    /* argv: values file, schedule file, params... */
    if (argc < 3) return 2;
    nvals = read_list(argv[1], &vals);
    uint64_t *s;
    nsched = read_list(argv[2], &s);
    sched = malloc(nsched + 1);
    for (size_t i = 0; i < nsched; i++) sched[i] = (unsigned char)s[i];
    for (int i = 3; i < argc && nparams < 16; i++) params[nparams++] = strtoul(argv[i], 0, 10);
    for (int i = 0; i < MAXT; i++) {
        pthread_cond_init(&cv[i], 0);
        for (int k = 0; k < MAXT; k++) vclk[i][k] = 1;
    }
    stack_t ss = {.ss_sp = malloc(1 << 16), .ss_size = 1 << 16};
    sigaltstack(&ss, 0);
    struct sigaction sa = {.sa_handler = on_sig, .sa_flags = SA_ONSTACK};
    int sg[] = {SIGABRT, SIGSEGV, SIGBUS, SIGILL, SIGFPE, SIGTRAP, SIGALRM};
    for (size_t i = 0; i < sizeof sg / sizeof *sg; i++) sigaction(sg[i], &sa, 0);
    alarm(20);
    ENTRY();
    done(11, "NOT-REPRODUCED", "the harness returned normally");
    return 11;
}
