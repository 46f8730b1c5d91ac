// OpenMP runtime for race detection: every parallel region runs on fresh threads, so that the only orderings the detector sees are
// those OpenMP promises (fork, join, barrier, critical). Loop chunks and singles are handed out with relaxed atomics and random delays.
#include <pthread.h>
#include <unistd.h>
#include <cstdint>
#include <vector>
#include <cstdlib>
extern "C" {
int shim_omp_threads = 4, shim_omp_delay = 0; long shim_omp_regions = 0, shim_omp_shared = 0; // shared: regions in which more than one thread got work
typedef void (*GompFn)(void*);
struct Team { int n = 1; GompFn fn = nullptr; void* data = nullptr; pthread_barrier_t bar; enum { WS = 4096 }; unsigned long long next[WS]; int got[64]; };
struct Slot { Team* team = nullptr; int id = 0; int ws = 0; unsigned long long end = 0, chunk = 1, incr = 1; bool up = true; int cur = 0; unsigned seed = 1; };
static thread_local Slot me;
static pthread_mutex_t crit = PTHREAD_MUTEX_INITIALIZER;
static void dally() { if (shim_omp_delay > 0) { me.seed = me.seed * 1103515245u + 12345u; unsigned k = (me.seed >> 16) % 4; if (k == 0) usleep((me.seed >> 8) % shim_omp_delay); } }
struct Start { Team* t; int id; unsigned seed; };
static void* body(void* p) { Start* s = (Start*)p; me = Slot(); me.team = s->t; me.id = s->id; me.seed = s->seed; dally(); s->t->fn(s->t->data); dally(); return nullptr; }
void GOMP_parallel(GompFn fn, void* data, unsigned num, unsigned)
{
   const Slot saved = me; Team t; t.n = num ? (int)num : shim_omp_threads; if (saved.team) { t.n = 1; } if (t.n > 64) { t.n = 64; } t.fn = fn; t.data = data; for (int k = 0; k < Team::WS; k++) { t.next[k] = ~0ull; } for (int k = 0; k < 64; k++) { t.got[k] = 0; }
   pthread_barrier_init(&t.bar, nullptr, t.n); std::vector<pthread_t> th(t.n); std::vector<Start> st(t.n); static unsigned salt = 1; for (int k = 0; k < t.n; k++) { st[k] = { &t, k, (salt += 2654435761u) }; }
   for (int k = 1; k < t.n; k++) { if (pthread_create(&th[k], nullptr, body, &st[k])) { abort(); } }
   body(&st[0]); for (int k = 1; k < t.n; k++) { pthread_join(th[k], nullptr); } pthread_barrier_destroy(&t.bar); int w = 0; for (int k = 0; k < t.n; k++) { w += t.got[k] > 0; } shim_omp_regions++; shim_omp_shared += w > 1; me = saved;
}
int omp_get_thread_num() { return me.team ? me.id : 0; }
int omp_get_num_threads() { return me.team ? me.team->n : 1; }
int omp_get_max_threads() { return shim_omp_threads; }
int omp_get_num_procs() { return shim_omp_threads; }
void omp_set_num_threads(int n) { shim_omp_threads = n; }
int omp_in_parallel() { return me.team && me.team->n > 1; }
void GOMP_barrier() { if (me.team) { pthread_barrier_wait(&me.team->bar); } }
void GOMP_critical_start() { pthread_mutex_lock(&crit); }
void GOMP_critical_end() { pthread_mutex_unlock(&crit); }
void GOMP_critical_name_start(void**) { pthread_mutex_lock(&crit); }
void GOMP_critical_name_end(void**) { pthread_mutex_unlock(&crit); }
void GOMP_atomic_start() { pthread_mutex_lock(&crit); }
void GOMP_atomic_end() { pthread_mutex_unlock(&crit); }
bool GOMP_single_start() { if (!me.team) { return true; } unsigned long long e = ~0ull; dally(); return __atomic_compare_exchange_n(&me.team->next[me.ws++ % Team::WS], &e, 1ull, false, __ATOMIC_RELAXED, __ATOMIC_RELAXED); }
static bool take(unsigned long long* a, unsigned long long* b)
{
   dally(); if (!me.team) { return false; } const unsigned long long lo = __atomic_fetch_add(&me.team->next[me.cur], me.chunk * me.incr, __ATOMIC_RELAXED); if (lo >= me.end) { return false; } *a = lo; const unsigned long long hi = lo + me.chunk * me.incr; *b = hi < me.end ? hi : me.end; me.team->got[me.id]++; return true;
}
static bool begin(unsigned long long s, unsigned long long e, unsigned long long incr, unsigned long long chunk, unsigned long long* a, unsigned long long* b)
{
   me.cur = me.ws++ % Team::WS; me.end = e; me.incr = incr ? incr : 1; me.chunk = chunk ? chunk : 1; unsigned long long v = ~0ull; __atomic_compare_exchange_n(&me.team->next[me.cur], &v, s, false, __ATOMIC_RELAXED, __ATOMIC_RELAXED); return take(a, b);
}
#define ULL(kind) bool GOMP_loop_ull_##kind##_start(bool up, unsigned long long s, unsigned long long e, unsigned long long i, unsigned long long c, unsigned long long* a, unsigned long long* b) { if (!up) abort(); return begin(s, e, i, c, a, b); } \
   bool GOMP_loop_ull_##kind##_next(unsigned long long* a, unsigned long long* b) { return take(a, b); }
#define LNG(kind) bool GOMP_loop_##kind##_start(long s, long e, long i, long c, long* a, long* b) { if (i < 0 || s < 0) abort(); if (e < s) { e = s; } return begin(s, e, i, c, (unsigned long long*)a, (unsigned long long*)b); } \
   bool GOMP_loop_##kind##_next(long* a, long* b) { return take((unsigned long long*)a, (unsigned long long*)b); }
ULL(nonmonotonic_dynamic) ULL(dynamic) ULL(nonmonotonic_guided) ULL(guided) ULL(static)
LNG(nonmonotonic_dynamic) LNG(dynamic) LNG(nonmonotonic_guided) LNG(guided) LNG(static)
// Combined region and loop: the region's threads find the loop already begun.
struct Comb { GompFn fn; void* data; long s, e, i, c; };
static void comb(void* p) { Comb* c = (Comb*)p; me.cur = me.ws++ % Team::WS; me.end = c->e < c->s ? c->s : c->e; me.incr = c->i; me.chunk = c->c ? c->c : 1; unsigned long long v = ~0ull; __atomic_compare_exchange_n(&me.team->next[me.cur], &v, (unsigned long long)c->s, false, __ATOMIC_RELAXED, __ATOMIC_RELAXED); c->fn(c->data); }
#define PAR(kind) void GOMP_parallel_loop_##kind(GompFn fn, void* data, unsigned n, long s, long e, long i, long ch, unsigned fl) { if (i < 0 || s < 0) abort(); Comb c{ fn, data, s, e, i, ch }; GOMP_parallel(comb, &c, n, fl); }
PAR(nonmonotonic_dynamic) PAR(dynamic) PAR(nonmonotonic_guided) PAR(guided) PAR(static)
void GOMP_loop_end() { GOMP_barrier(); }
void GOMP_loop_end_nowait() {}
}
