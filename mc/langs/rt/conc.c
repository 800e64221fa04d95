/* Controlled scheduler: two threads, one of which runs at a time; they may be switched at the memory accesses that the
   compiler instruments (-fsanitize=thread / -sanitizer-coverage-trace-loads), whose runtime this file stands in for. */
#define _GNU_SOURCE
#include "rt.h"
#include <pthread.h>
#include <sched.h>
#include <stdatomic.h>
#include <time.h>
#include <unistd.h>
typedef struct { const char* cmd; char* res; long n, stop; int done; char *lo, *hi; pthread_t t; } W;
static W ws[2];
static atomic_int turn = 2, freerun, quit;
static atomic_long progress;
static const long* sw; static int nsw, ksw;
static __thread W* me; static __thread int armed;
static double now(void) { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return (double)t.tv_sec + 1e-9 * (double)t.tv_nsec; }
static int my_turn(int id) { return atomic_load(&turn) == id || (id != 2 && atomic_load(&freerun)); }
static void wait_turn(int id) {
    for (int i = 0; i < 3000; i++) { if (my_turn(id)) return; __builtin_ia32_pause(); }
    double t0 = now(); long last = atomic_load(&progress);
    for (long i = 1; !my_turn(id); i++) {
        sched_yield();
        if (id == 2 && (i & 255) == 0) {
            long p = atomic_load(&progress); double t = now();
            if (p != last) { last = p; t0 = t; }
            else if (t - t0 > 0.5) atomic_store(&freerun, 1);      /* one waits for something the other one holds */
            if (atomic_load(&freerun) && ws[0].done && ws[1].done) return;
            if (i > 200000) usleep(100);
        } else if (i > 200000) usleep(100);
    }
}
static void hand(int to) { atomic_fetch_add(&progress, 1); atomic_store(&turn, to); }
void rt_pt(void) {
    W* w = me;
    if (!w || !armed || atomic_load(&freerun)) return;
    if (w->n == w->stop) {
        W* o = &ws[w == ws];
        w->stop = -1;
        if (!o->done) {
            ksw++; o->stop = ksw < nsw ? sw[ksw] : -1;
            hand((int)(o - ws)); wait_turn((int)(w - ws));
        }
    }
    w->n++;
}
static inline void at(const void* a) {
    W* w = me;
    if (w && !((char*)a >= w->lo && (char*)a < w->hi)) rt_pt();
}
static void* work(void* v) {
    int id = (int)(intptr_t)v;
    pthread_attr_t a; void* lo; size_t n; pthread_getattr_np(pthread_self(), &a); pthread_attr_getstack(&a, &lo, &n); pthread_attr_destroy(&a);
    ws[id].lo = (char*)lo; ws[id].hi = (char*)lo + n; me = &ws[id];
    for (;;) {
        for (;;) { wait_turn(id); if (atomic_load(&quit)) return NULL; if (!ws[id].done) break; sched_yield(); if (atomic_load(&freerun)) usleep(100); }
        armed = 1; char* r = rt_exec(ws[id].cmd); armed = 0;
        free(ws[id].res); ws[id].res = strdup(r);
        ws[id].done = 1;
        if (!ws[!id].done) ws[!id].stop = -1;
        if (!atomic_load(&freerun)) hand(ws[!id].done ? 2 : !id);
        else { atomic_fetch_add(&progress, 1); while (atomic_load(&freerun)) usleep(100); }
    }
}
static int schedule(char* cmds[2], const long* s, int n) {
    for (int i = 0; i < 2; i++) { ws[i].cmd = cmds[i]; ws[i].n = 0; ws[i].done = 0; ws[i].stop = -1; }
    sw = s; nsw = n; ksw = 0; ws[0].stop = n ? s[0] : -1;
    hand(0); wait_turn(2);
    int fine = !atomic_load(&freerun);
    atomic_store(&turn, 2); atomic_store(&freerun, 0);
    return fine;
}
static char* solo[2]; static long cnt[2], scheds, dissolved; static long cur_s[8]; static int bad, bound; static double deadline;
static void rec(char* cmds[2], int len) {
    int who = len % 2;
    for (long i = len >= 2 ? cur_s[len - 2] + 1 : 0; i < cnt[who] && !bad && dissolved < 8 && now() < deadline; i++) {
        cur_s[len] = i;
        if (!schedule(cmds, cur_s, len + 1)) dissolved++;
        scheds++;
        if (strcmp(ws[0].res, solo[0]) || strcmp(ws[1].res, solo[1])) {
            bad = 1; printf("differs");
            for (int k = 0; k <= len; k++) printf(" %ld", cur_s[k]);
            printf(" || %s || %s\n", ws[0].res, ws[1].res);
            return;
        }
        if (len + 1 < bound) rec(cmds, len + 1);
    }
}
int main(void) {
    char* line = NULL; size_t cap = 0;
    for (int i = 0; i < 2; i++) pthread_create(&ws[i].t, NULL, work, (void*)(intptr_t)i);
    for (int i = 0; i < 2; i++) ws[i].done = 1;
    while (getline(&line, &cap, stdin) > 0) {
        size_t l = strlen(line); while (l && line[l-1] == '\n') line[--l] = 0;
        if (line[0] != 'X') { puts("?"); continue; }
        char* q; bound = (int)strtol(line + 2, &q, 10); long only = strtol(q, &q, 10);
        char* m = strstr(q, " || "); *m = 0; char* cmds[2] = { q + 1, m + 4 };
        if (bound < 0) {
            int ok = schedule(cmds, &only, 1);
            printf("ok %ld %d || %s || %s\n", ws[0].n, ok, ws[0].res, ws[1].res);
        } else {
            deadline = now() + 0.001 * (double)only;
            schedule(cmds, NULL, 0); scheds = 1; dissolved = 0; bad = 0;
            for (int i = 0; i < 2; i++) { free(solo[i]); solo[i] = strdup(ws[i].res); cnt[i] = ws[i].n; }
            rec(cmds, 0);
            if (!bad) printf("ok %ld %ld %ld %ld %d || %s || %s\n", cnt[0], cnt[1], scheds, dissolved, dissolved < 8 && now() < deadline, solo[0], solo[1]);
        }
        fflush(stdout);
    }
    atomic_store(&quit, 1); atomic_store(&freerun, 1);
    _exit(0);
}
#define A1(name) void name(void* a); void name(void* a) { at(a); }
#define SZ(pre) A1(pre##1) A1(pre##2) A1(pre##4) A1(pre##8) A1(pre##16)
SZ(__tsan_read) SZ(__tsan_write) SZ(__tsan_unaligned_read) SZ(__tsan_unaligned_write) SZ(__tsan_read_write) SZ(__tsan_unaligned_read_write)
SZ(__tsan_volatile_read) SZ(__tsan_volatile_write) SZ(__tsan_unaligned_volatile_read) SZ(__tsan_unaligned_volatile_write)
SZ(__sanitizer_cov_load) SZ(__sanitizer_cov_store)
A1(__tsan_vptr_read)

void __tsan_init(void); void __tsan_init(void) {}
void __tsan_func_entry(void* p); void __tsan_func_entry(void* p) { (void)p; }
void __tsan_func_exit(void); void __tsan_func_exit(void) {}
void __tsan_vptr_update(void** p, void* v); void __tsan_vptr_update(void** p, void* v) { (void)v; at(p); }
void __tsan_read_range(void* p, size_t n); void __tsan_read_range(void* p, size_t n) { (void)n; at(p); }
void __tsan_write_range(void* p, size_t n); void __tsan_write_range(void* p, size_t n) { (void)n; at(p); }
void* __tsan_memcpy(void* d, const void* s, size_t n); void* __tsan_memcpy(void* d, const void* s, size_t n) { at(s); at(d); return memcpy(d, s, n); }
void* __tsan_memmove(void* d, const void* s, size_t n); void* __tsan_memmove(void* d, const void* s, size_t n) { at(s); at(d); return memmove(d, s, n); }
void* __tsan_memset(void* d, int c, size_t n); void* __tsan_memset(void* d, int c, size_t n) { at(d); return memset(d, c, n); }
#define AT(b, T) \
 T __tsan_atomic##b##_load(const volatile T* a, int m); T __tsan_atomic##b##_load(const volatile T* a, int m) { (void)m; at((void*)a); return __atomic_load_n(a, __ATOMIC_SEQ_CST); } \
 void __tsan_atomic##b##_store(volatile T* a, T v, int m); void __tsan_atomic##b##_store(volatile T* a, T v, int m) { (void)m; at((void*)a); __atomic_store_n(a, v, __ATOMIC_SEQ_CST); } \
 T __tsan_atomic##b##_exchange(volatile T* a, T v, int m); T __tsan_atomic##b##_exchange(volatile T* a, T v, int m) { (void)m; at((void*)a); return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); } \
 T __tsan_atomic##b##_fetch_add(volatile T* a, T v, int m); T __tsan_atomic##b##_fetch_add(volatile T* a, T v, int m) { (void)m; at((void*)a); return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); } \
 T __tsan_atomic##b##_fetch_sub(volatile T* a, T v, int m); T __tsan_atomic##b##_fetch_sub(volatile T* a, T v, int m) { (void)m; at((void*)a); return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); } \
 T __tsan_atomic##b##_fetch_and(volatile T* a, T v, int m); T __tsan_atomic##b##_fetch_and(volatile T* a, T v, int m) { (void)m; at((void*)a); return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); } \
 T __tsan_atomic##b##_fetch_or(volatile T* a, T v, int m); T __tsan_atomic##b##_fetch_or(volatile T* a, T v, int m) { (void)m; at((void*)a); return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); } \
 T __tsan_atomic##b##_fetch_xor(volatile T* a, T v, int m); T __tsan_atomic##b##_fetch_xor(volatile T* a, T v, int m) { (void)m; at((void*)a); return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); } \
 int __tsan_atomic##b##_compare_exchange_strong(volatile T* a, T* c, T v, int m, int f); int __tsan_atomic##b##_compare_exchange_strong(volatile T* a, T* c, T v, int m, int f) { (void)m; (void)f; at((void*)a); return __atomic_compare_exchange_n(a, c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
 int __tsan_atomic##b##_compare_exchange_weak(volatile T* a, T* c, T v, int m, int f); int __tsan_atomic##b##_compare_exchange_weak(volatile T* a, T* c, T v, int m, int f) { (void)m; (void)f; at((void*)a); return __atomic_compare_exchange_n(a, c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
 T __tsan_atomic##b##_compare_exchange_val(volatile T* a, T c, T v, int m, int f); T __tsan_atomic##b##_compare_exchange_val(volatile T* a, T c, T v, int m, int f) { (void)m; (void)f; at((void*)a); __atomic_compare_exchange_n(a, &c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return c; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int m); void __tsan_atomic_thread_fence(int m) { (void)m; __atomic_thread_fence(__ATOMIC_SEQ_CST); }
void __tsan_atomic_signal_fence(int m); void __tsan_atomic_signal_fence(int m) { (void)m; }
