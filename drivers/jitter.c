// LD_PRELOAD library: perturbs the schedule of an unmodified program and records what happened.
// Every thread gets its own seeded random stream; at allocations, frees, futex calls and yields it may sleep,
// spin or yield. Environment:
//   JITTER_SEED   random seed
//   JITTER_RATE   one delay per this many points (per thread; a random multiplier makes some threads slow)
//   JITTER_MAX_US longest sleep
//   JITTER_VICTIM if set: only threads whose ordinal (order of first event) modulo 8 is in this bit mask are delayed
//   JITTER_STALL thread:point:microseconds: this thread sleeps once, at its point of this number
//   JITTER_OUT    file for the record, appended: points delays futex_waits futex_wakes threads order_hash stalls
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <linux/futex.h>
#include <pthread.h>
#include <sched.h>
#include <stdarg.h>
#include <stdatomic.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>
#include <fcntl.h>

extern void *__libc_malloc(size_t);
extern void __libc_free(void *);
extern void *__libc_realloc(void *, size_t);
extern void *__libc_calloc(size_t, size_t);

static atomic_int on, nthreads;
static uint64_t seed, rate = 0, max_us = 200, victims = 0;
static uint64_t stall_ord, stall_at, stall_us;
static atomic_ullong stalled;
static atomic_ullong points, delays, waits, wakes, order;
static __thread uint64_t st __attribute__((tls_model("initial-exec")));
static __thread int ord __attribute__((tls_model("initial-exec")));
static __thread int inside __attribute__((tls_model("initial-exec")));
static __thread uint64_t mult __attribute__((tls_model("initial-exec")));

static __thread uint64_t count __attribute__((tls_model("initial-exec")));

static uint64_t rnd(void) {
    st += 0x9E3779B97F4A7C15ull;
    uint64_t z = st;
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
}
static void join(void) {
    if (ord) return;
    ord = atomic_fetch_add(&nthreads, 1) + 1;
    st = seed * 0xD1B54A32D192ED03ull + (uint64_t)ord * 0x2545F4914F6CDD1Dull;
    rnd();
    static const uint64_t m[] = {1, 1, 1, 4, 16, 200};
    mult = m[rnd() % 6];
}
static void point(int heavy) {
    if (!atomic_load_explicit(&on, memory_order_relaxed) || inside || !(rate || stall_ord)) return;
    inside = 1;
    int e = errno;
    join();
    atomic_fetch_add_explicit(&points, 1, memory_order_relaxed);
    if (stall_ord == (uint64_t)ord && ++count == stall_at) {
        atomic_fetch_add(&stalled, 1);
        struct timespec t = {stall_us / 1000000, (stall_us % 1000000) * 1000};
        nanosleep(&t, 0);
    }
    if (rate && (!victims || (victims >> (ord & 7) & 1))) {
        uint64_t every = heavy ? rate * mult / 8 + 1 : rate * mult;
        if (rnd() % every == 0) {
            atomic_fetch_add_explicit(&delays, 1, memory_order_relaxed);
            uint64_t k = rnd() % 4;
            if (k == 0) sched_yield();
            else if (k == 1) for (volatile int i = 0; i < (int)(rnd() % 5000); i++) ;
            else {
                uint64_t us = rnd() % (max_us + 1);
                struct timespec t = {us / 1000000, (us % 1000000) * 1000};
                nanosleep(&t, 0);
            }
        }
    }
    errno = e;
    inside = 0;
}
#ifndef SYSCALL_ONLY // a sanitizer has its own allocator
void *malloc(size_t n) { point(0); return __libc_malloc(n); }
void free(void *p) { if (p) point(0); __libc_free(p); }
void *realloc(void *p, size_t n) { point(0); return __libc_realloc(p, n); }
void *calloc(size_t a, size_t b) { return __libc_calloc(a, b); }
#endif

static void note(int what) {
    join();
    // order-sensitive hash of (thread, operation) events
    unsigned long long o = atomic_load(&order), n;
    do n = (o ^ (unsigned)(ord * 4 + what)) * 0x100000001b3ull + 0x9E37; while (!atomic_compare_exchange_weak(&order, &o, n));
}
long syscall(long nr, ...) {
    static long (*real)(long, ...);
    if (!real) real = (long (*)(long, ...))dlsym(RTLD_NEXT, "syscall");
    va_list ap;
    va_start(ap, nr);
    long a[6];
    for (int i = 0; i < 6; i++) a[i] = va_arg(ap, long);
    va_end(ap);
    if (nr == SYS_futex && atomic_load(&on)) {
        int op = (int)a[1] & FUTEX_CMD_MASK;
        int wake = op == FUTEX_WAKE;
        atomic_fetch_add(wake ? &wakes : &waits, 1);
        point(1);
        note(wake);
    }
    long r = real(nr, a[0], a[1], a[2], a[3], a[4], a[5]);
    if (nr == SYS_futex) point(1);
    return r;
}
int sched_yield(void) {
    static int (*real)(void);
    if (!real) real = (int (*)(void))dlsym(RTLD_NEXT, "sched_yield");
    return real();
}
static void report(void) {
    atomic_store(&on, 0);
    const char *o = getenv("JITTER_OUT");
    if (!o) return;
    char b[256];
    int n = snprintf(b, sizeof b, "%llu %llu %llu %llu %d %llx %llu\n", points, delays, waits, wakes, nthreads, order, stalled);
    int fd = open(o, O_WRONLY | O_CREAT | O_APPEND, 0644);
    if (fd >= 0) {
        if (write(fd, b, n) < 0) {}
        close(fd);
    }
}
__attribute__((constructor)) static void init(void) {
    const char *s;
    if ((s = getenv("JITTER_SEED"))) seed = strtoull(s, 0, 10);
    if ((s = getenv("JITTER_RATE"))) rate = strtoull(s, 0, 10);
    if ((s = getenv("JITTER_MAX_US"))) max_us = strtoull(s, 0, 10);
    if ((s = getenv("JITTER_VICTIM"))) victims = strtoull(s, 0, 10);
    if ((s = getenv("JITTER_STALL"))) sscanf(s, "%lu:%lu:%lu", &stall_ord, &stall_at, &stall_us);
    atexit(report);
    atomic_store(&on, 1);
}
