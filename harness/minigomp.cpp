// A small OpenMP runtime (GOMP interface) on pthreads, linked into the ThreadSanitizer build instead of libgomp, whose
// barriers TSan cannot see. Nested regions run on one thread.
#include <pthread.h>
#include <cstdlib>
#include <cstring>
#include <map>
#include <string>
#include <thread>
#include <unistd.h>
struct Work { long next, end, incr, chunk; bool init; int gone; };
struct Team { int n; pthread_barrier_t bar; pthread_mutex_t mu; int singles; std::map<long, Work> loops; void (*fn)(void*); void* data; };
static thread_local Team* team = 0; static thread_local int tid = 0; static thread_local int mySingles = 0; static thread_local long myLoop = 0; static thread_local Work* cur = 0; static thread_local int level = 0;
static int wanted = 0; static pthread_mutex_t crit = PTHREAD_MUTEX_INITIALIZER;
static int defThreads() { if (wanted > 0) return wanted; const char* e = getenv("OMP_NUM_THREADS"); int v = e ? atoi(e) : 0; return v > 0 ? v : 4; }
struct Arg { Team* t; int id; };
static void enter(Team* t, int id) { team = t; tid = id; mySingles = 0; myLoop = 0; cur = 0; level = 1; t->fn(t->data); team = 0; tid = 0; level = 0; }
static void* run(void* p) { Arg* a = (Arg*)p; enter(a->t, a->id); return 0; }
extern "C" {
void omp_set_num_threads(int n) { wanted = n; }
int omp_get_max_threads() { return defThreads(); }
int omp_get_num_threads() { return team ? team->n : 1; }
int omp_get_thread_num() { return team ? tid : 0; }
int omp_in_parallel() { return team && team->n > 1; }
int omp_get_level() { return level; }
int omp_get_num_procs() { return (int)std::thread::hardware_concurrency(); }
int omp_get_thread_limit() { return 1024; }
int omp_get_dynamic() { return 0; }
int omp_get_nested() { return 0; }
void omp_set_dynamic(int) {}
void omp_set_nested(int) {}
double omp_get_wtime() { return 0; }
void GOMP_parallel(void (*fn)(void*), void* data, unsigned n, unsigned) {
    if (team) { Team* t = team; int i = tid, s = mySingles; long l = myLoop; Work* c = cur; Team one; one.n = 1; one.singles = 0; one.fn = fn; one.data = data; pthread_barrier_init(&one.bar, 0, 1); pthread_mutex_init(&one.mu, 0); team = &one; tid = 0; mySingles = 0; myLoop = 0; cur = 0; level++; fn(data); level--; team = t; tid = i; mySingles = s; myLoop = l; cur = c; return; }
    Team t; t.n = n ? n : defThreads(); t.singles = 0; t.fn = fn; t.data = data; pthread_barrier_init(&t.bar, 0, t.n); pthread_mutex_init(&t.mu, 0);
    pthread_t* th = new pthread_t[t.n]; Arg* a = new Arg[t.n];
    for (int i = 1; i < t.n; i++) { a[i] = Arg{&t, i}; pthread_create(&th[i], 0, run, &a[i]); }
    enter(&t, 0);
    for (int i = 1; i < t.n; i++) pthread_join(th[i], 0);
    delete[] th; delete[] a; pthread_barrier_destroy(&t.bar); pthread_mutex_destroy(&t.mu);
}
void GOMP_barrier() { if (team && team->n > 1) pthread_barrier_wait(&team->bar); }
bool GOMP_single_start() { if (!team) return true; int me = mySingles++; pthread_mutex_lock(&team->mu); bool r = team->singles == me; if (r) team->singles++; pthread_mutex_unlock(&team->mu); return r; }
void GOMP_critical_start() { pthread_mutex_lock(&crit); }
void GOMP_critical_end() { pthread_mutex_unlock(&crit); }
static pthread_mutex_t namedMu = PTHREAD_MUTEX_INITIALIZER; static std::map<void**, pthread_mutex_t>* named;
static pthread_mutex_t* byName(void** p) { pthread_mutex_lock(&namedMu); if (!named) named = new std::map<void**, pthread_mutex_t>; auto it = named->find(p); if (it == named->end()) { it = named->emplace(p, pthread_mutex_t()).first; pthread_mutex_init(&it->second, 0); } pthread_mutex_t* m = &it->second; pthread_mutex_unlock(&namedMu); return m; }
void GOMP_critical_name_start(void** p) { pthread_mutex_lock(byName(p)); }
void GOMP_critical_name_end(void** p) { pthread_mutex_unlock(byName(p)); }
void GOMP_atomic_start() { pthread_mutex_lock(&crit); }
void GOMP_atomic_end() { pthread_mutex_unlock(&crit); }
static bool take(long* s, long* e) { Work* w = cur; Team* t = team; bool ok = false; if (t) pthread_mutex_lock(&t->mu); bool up = w->incr > 0; if (up ? w->next < w->end : w->next > w->end) { long st = w->chunk * w->incr; *s = w->next; *e = w->next + st; if (up ? *e > w->end : *e < w->end) *e = w->end; w->next = *e; ok = true; } if (t) pthread_mutex_unlock(&t->mu); return ok; }
static Work* work(long s, long e, long i, long c) { static thread_local Work solo; if (!team) { solo = Work{s, e, i, c > 0 ? c : 1, true, 0}; return &solo; } long id = myLoop++; pthread_mutex_lock(&team->mu); Work& w = team->loops[id]; if (!w.init) w = Work{s, e, i, c > 0 ? c : 1, true, 0}; pthread_mutex_unlock(&team->mu); return &w; }
#define LOOP(N) bool GOMP_loop_##N##_start(long s, long e, long i, long c, long* is, long* ie) { cur = work(s, e, i, c); return take(is, ie); } bool GOMP_loop_##N##_next(long* is, long* ie) { return take(is, ie); } \
    void GOMP_parallel_loop_##N(void (*fn)(void*), void* data, unsigned n, long s, long e, long i, long c, unsigned f) { struct P { void (*fn)(void*); void* d; long s, e, i, c; } p{fn, data, s, e, i, c}; GOMP_parallel([](void* q) { P* p = (P*)q; cur = work(p->s, p->e, p->i, p->c); p->fn(p->d); }, &p, n, f); }
LOOP(dynamic) LOOP(guided) LOOP(nonmonotonic_dynamic) LOOP(nonmonotonic_guided)
bool GOMP_loop_runtime_start(long s, long e, long i, long* is, long* ie) { cur = work(s, e, i, 1); return take(is, ie); }
bool GOMP_loop_runtime_next(long* is, long* ie) { return take(is, ie); }
void GOMP_loop_end() { cur = 0; GOMP_barrier(); }
void GOMP_loop_end_nowait() { cur = 0; }
void GOMP_taskwait() {}
}
