/* Runs a recorded schedule on the compiled program: the harness functions' environment, and a baton
 * that decides at every atomic operation which thread goes on (see DESIGN.md, "Schedules").
 * VP_SCHED: the decisions; VP_REUSE=1: the allocator that hands freed blocks out again, last freed first. */
#define _GNU_SOURCE
#include <errno.h>
#include <pthread.h>
#include <stdarg.h>
#include <stdbool.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <unistd.h>

struct entry { const char *name; void (*f)(void); };
extern const struct entry vp_entries[];

enum { RUN, FUTEX, JOIN, DONE };
#define MAXT 16
static struct { int st; uint64_t addr; int timeout; int target; int wake; } T[MAXT];
static int nthreads = 1, cur = 0;
static __thread int me = 0;
static pthread_mutex_t M = PTHREAD_MUTEX_INITIALIZER;
static pthread_cond_t CV = PTHREAD_COND_INITIALIZER;
static int *sched, nsched, pos;
static char note[4096];
static int argc_;
static char **argv_;
static uint64_t *in;
static int nin, inpos;

static void finish(int code) { fflush(stdout); _exit(code); }
static int live(void) {
    int n = 0;
    for (int i = 0; i < nthreads; i++) n += T[i].st != DONE;
    return n;
}
static void diverged(const char *w) { printf("RESULT diverged: %s at decision %d of %d\n", w, pos, nsched); finish(5); }
/* the baton goes to t; returns when it comes back (never, for a finished thread) */
static void hand(int t) {
    if (t == me) return;
    pthread_mutex_lock(&M);
    cur = t;
    pthread_cond_broadcast(&CV);
    if (T[me].st == DONE) { pthread_mutex_unlock(&M); return; }
    while (cur != me) pthread_cond_wait(&CV, &M);
    pthread_mutex_unlock(&M);
}
static int logging;
static int next_decision(void) {
    if (logging) fprintf(stderr, "%d: thread %d -> %d  states %d %d %d %d\n", pos, me, pos < nsched ? sched[pos] : -1, T[0].st, T[1].st, T[2].st, T[3].st);
    if (pos < nsched) {
        int t = sched[pos++];
        if (t >= nthreads) diverged("no such thread");
        if (T[t].st == FUTEX && T[t].timeout) { T[t].st = RUN; T[t].wake = 1; }
        if (T[t].st != RUN) diverged("thread cannot run");
        return t;
    }
    return -1;
}
static int any_runnable(void) {
    if (T[me].st == RUN) return me;
    for (int i = 0; i < nthreads; i++) if (T[i].st == RUN) return i;
    for (int i = 0; i < nthreads; i++) if (T[i].st == FUTEX && T[i].timeout) { T[i].st = RUN; T[i].wake = 1; return i; }
    printf("RESULT violated: deadlock\n");
    finish(6);
    return 0;
}
/* this thread cannot go on */
static void stopped(void) {
    int t = live() > 1 ? next_decision() : -1;
    hand(t < 0 ? any_runnable() : t);
}
void vp_sched_point(void) {
    if (nthreads == 1 || live() <= 1) return;
    int t = next_decision();
    if (t >= 0) hand(t);
}
int vp_sched_yield(void) {
    if (live() > 1) {
        int t = next_decision();
        if (t >= 0) hand(t);
        else {
            for (int i = 0; i < nthreads; i++) if (i != me && T[i].st == RUN) { hand(i); break; }
        }
    }
    return 0;
}
struct start { void (*f)(unsigned char *); unsigned char *arg; int id; };
static void *run(void *p) {
    struct start s = *(struct start *)p;
    me = s.id;
    pthread_mutex_lock(&M);
    while (cur != me) pthread_cond_wait(&CV, &M);
    pthread_mutex_unlock(&M);
    s.f(s.arg);
    T[me].st = DONE;
    for (int i = 0; i < nthreads; i++) if (T[i].st == JOIN && T[i].target == me) T[i].st = RUN;
    stopped();
    return 0;
}
uint64_t vp_spawn(void (*f)(unsigned char *), unsigned char *arg) {
    static struct start S[MAXT];
    pthread_t t;
    int id = nthreads;
    if (id >= MAXT) diverged("too many threads");
    S[id] = (struct start){f, arg, id};
    T[id].st = RUN;
    nthreads++;
    if (pthread_create(&t, 0, run, &S[id])) diverged("cannot start a thread");
    return id;
}
void vp_join(uint64_t t) {
    while (T[t].st != DONE) {
        T[me].st = JOIN;
        T[me].target = (int)t;
        stopped();
    }
}
long vp_syscall(long n, ...) {
    va_list ap;
    long a[6];
    va_start(ap, n);
    for (int i = 0; i < 6; i++) a[i] = va_arg(ap, long);
    va_end(ap);
    if (n != 202) return syscall(n, a[0], a[1], a[2], a[3], a[4], a[5]);
    int op = a[1] & 0x7f;
    if (op == 0 || op == 9) {
        if (*(volatile uint32_t *)a[0] != (uint32_t)a[2]) { errno = EAGAIN; return -1; }
        T[me].st = FUTEX;
        T[me].addr = (uint64_t)a[0];
        T[me].timeout = a[3] != 0;
        T[me].wake = -1;
        stopped();
        if (T[me].wake == 1) { errno = ETIMEDOUT; return -1; }
        return 0;
    }
    if (op == 1 || op == 10) {
        long k = 0;
        for (int i = 0; i < nthreads && k < a[2]; i++)
            if (T[i].st == FUTEX && T[i].addr == (uint64_t)a[0]) { T[i].st = RUN; T[i].wake = 0; k++; }
        return k;
    }
    diverged("futex operation");
    return -1;
}
int vp_cxa_thread_atexit(void *f, void *p, void *d) { (void)f; (void)p; (void)d; return 0; }

/* ---- allocator */
#define CLASSES 4096
static int reuse;
struct blk { uint64_t size; struct blk *next; };
static struct blk *bins[MAXT][CLASSES];
static char *arena, *arena_end;
static uint64_t cls(uint64_t n) { return (n + 23) / 16; }
static void *fresh(uint64_t n, uint64_t align) {
    uint64_t room = (cls(n) + 2) * 16;
    if (align < 16) align = 16;
    if (!arena || arena + room + align > arena_end) {
        uint64_t z = room + align > (64 << 20) ? room + align : (64 << 20);
        arena = mmap(0, z, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
        arena_end = arena + z;
    }
    char *p = (char *)(((uintptr_t)arena + 16 + align - 1) & ~(uintptr_t)(align - 1));
    arena = p + room - 16;
    return p;
}
static void *get(uint64_t n, uint64_t align) {
    uint64_t c = cls(n);
    char *p;
    if (c < CLASSES && bins[me][c]) {
        struct blk *b = bins[me][c];
        bins[me][c] = b->next;
        p = (char *)b + 16;
    } else
        p = fresh(n, align);
    ((struct blk *)(p - 16))->size = n;
    memset(p, 0, n);
    return p;
}
void *vp_malloc(size_t n) { return reuse ? get(n, 16) : malloc(n); }
void *vp_calloc(size_t n, size_t m) { return reuse ? get(n * m, 16) : calloc(n, m); }
void vp_free(void *p) {
    if (!reuse) { free(p); return; }
    if (!p) return;
    struct blk *b = (struct blk *)((char *)p - 16);
    uint64_t c = cls(b->size);
    if (c < CLASSES) { b->next = bins[me][c]; bins[me][c] = b; }
}
void *vp_realloc(void *p, size_t n) {
    if (!reuse) return realloc(p, n);
    void *q = get(n, 16);
    if (p) {
        uint64_t o = ((struct blk *)((char *)p - 16))->size;
        memcpy(q, p, o < n ? o : n);
        vp_free(p);
    }
    return q;
}
int vp_posix_memalign(void **out, size_t align, size_t n) {
    if (!reuse) return posix_memalign(out, align, n);
    *out = get(n, align);
    return 0;
}
void *vp_aligned_alloc(size_t align, size_t n) { return reuse ? get(n, align) : aligned_alloc(align, n); }

/* ---- harness interface */
static uint64_t next(void) { uint64_t v = inpos < nin ? in[inpos] : 0; inpos++; return v; }
uint64_t vp_sym(uint32_t w, const char *p, size_t n) {
    uint64_t v = next();
    if (w < 64) v &= (1ull << w) - 1;
    printf("input %.*s = %lu (%#lx)\n", (int)n, p, v, v);
    return v;
}
uint64_t vp_choose(uint64_t k, const char *p, size_t n) {
    uint64_t v = next();
    printf("choice %.*s = %lu\n", (int)n, p, v);
    if (v >= k) { printf("RESULT assumption-failed\n"); finish(3); }
    return v;
}
uint64_t vp_below(uint64_t k, const char *p, size_t n) { return vp_choose(k, p, n); }
uint64_t vp_param(uint64_t d, const char *p, size_t n) {
    for (int i = 3; i < argc_; i++)
        if (!strncmp(argv_[i], p, n) && argv_[i][n] == '=') return strtoull(argv_[i] + n + 1, 0, 10);
    return d;
}
void vp_assume(bool c) { if (!c) { printf("RESULT assumption-failed\n"); finish(3); } }
void vp_assert(bool c, const char *p, size_t n) { if (!c) { printf("RESULT violated: %.*s %s\n", (int)n, p, note); finish(1); } }
void vp_cover(const char *p, size_t n) { (void)p; (void)n; }
void vp_note(const char *p, size_t n) { snprintf(note, sizeof note, "%.*s", (int)n, p); printf("note %s\n", note); }
void vp_trace(uint64_t v, const char *p, size_t n) { printf("trace %.*s %lu\n", (int)n, p, v); }
void vp_print(const char *p, size_t n) { printf("print %.*s\n", (int)n, p); }
uint64_t vp_concretize(uint64_t v) { return v; }
uint64_t vp_is_symbolic(uint64_t v) { (void)v; return 0; }
uint64_t vp_is_native(void) { return 1; }
uint64_t vp_heap_live(void) { return 0; }

int main(int argc, char **argv) {
    argc_ = argc;
    argv_ = argv;
    logging = getenv("VP_LOG") != 0;
    reuse = getenv("VP_REUSE") && *getenv("VP_REUSE") == '1';
    in = calloc(100000, 8);
    sched = calloc(1000000, sizeof(int));
    if (argc > 2) for (char *s = strtok(strdup(argv[2]), ","); s; s = strtok(0, ",")) in[nin++] = strtoull(s, 0, 10);
    if (getenv("VP_SCHED")) for (char *s = strtok(strdup(getenv("VP_SCHED")), ","); s; s = strtok(0, ",")) sched[nsched++] = atoi(s);
    for (const struct entry *e = vp_entries; e->name; e++)
        if (!strcmp(e->name, argv[1])) {
            e->f();
            if (pos != nsched) diverged("schedule not used up");
            printf("RESULT completed\n");
            finish(0);
        }
    printf("no such entry\n");
    return 4;
}
