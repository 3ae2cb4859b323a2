// Native replay of counterexamples: a small command interpreter over the same entry points the symbolic executor drives.
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <sstream>
#include <iostream>
#include <cerrno>
#include <omp.h>
#include <malloc.h>
#include <thread>
#include <mutex>
#include <new>
#include "otfft.h"
struct Handle;
extern "C" {
int h_create(Handle*, int, int, int); void h_init(void*); int h_size(); int h_setup(Handle*, int); int h_destroy(Handle*);
void h_complex(Handle*, int, OTFFT::complex_t*); void h_real_f(Handle*, int, const double*, OTFFT::complex_t*);
void h_real_i(Handle*, int, OTFFT::complex_t*, double*); void h_dct(Handle*, int, double*);
#define C(n) void n(const double*, const double*, double*);
#include "cplx_list.h"
#undef C
}
typedef void (*CF)(const double*, const double*, double*);

// ---- allocation interposition: fill pattern, injected failures, accounting (off in sanitizer builds)
static volatile int g_fill = -1; static volatile long g_fail = -1; static volatile long g_live = 0, g_count = 0; static volatile bool g_on = false; static volatile int g_minalign = 0;
// minalign mode: results are aligned to exactly what was asked for (an odd multiple of it) and never released
static void* minimal(void* raw, size_t a) { char* p = (char*)(((size_t)raw + 4 * a) / (2 * a) * (2 * a)); return p + a; }
#ifndef NO_INTERPOSE
extern "C" {
void* __libc_malloc(size_t); void* __libc_memalign(size_t, size_t); void __libc_free(void*); void* __libc_calloc(size_t, size_t); void* __libc_realloc(void*, size_t);
static bool deny() { if (!g_on) return false; long c = __sync_fetch_and_add(&g_count, 1); return g_fail >= 0 && c == g_fail; }
static void* got(void* p, size_t n) { if (p && g_on) { __sync_fetch_and_add(&g_live, 1); if (g_fill >= 0) memset(p, g_fill, n); } return p; }
void* malloc(size_t n) { if (deny()) { errno = ENOMEM; return 0; } if (g_on && g_minalign) return minimal(__libc_malloc(n + 128), 16); return got(__libc_malloc(n), n); }
void* memalign(size_t a, size_t n) { if (deny()) { errno = ENOMEM; return 0; } if (g_on && g_minalign) return minimal(__libc_malloc(n + 8 * a), a); return got(__libc_memalign(a, n), n); }
void* aligned_alloc(size_t a, size_t n) { return memalign(a, n); }
int posix_memalign(void** p, size_t a, size_t n) { if (deny()) return ENOMEM; if (g_on && g_minalign) { *p = minimal(__libc_malloc(n + 8 * a), a); return 0; } void* q = __libc_memalign(a, n); if (!q) return ENOMEM; *p = got(q, n); return 0; }
void* calloc(size_t a, size_t b) { if (deny()) { errno = ENOMEM; return 0; } void* p = __libc_calloc(a, b); if (p && g_on) __sync_fetch_and_add(&g_live, 1); return p; }
void* realloc(void* o, size_t n) { if (deny()) { errno = ENOMEM; return 0; } return __libc_realloc(o, n); }
void free(void* p) { if (p && g_on) __sync_fetch_and_sub(&g_live, 1); if (g_minalign) return; __libc_free(p); }
}
#endif
#ifdef WRAP_ALLOC // sanitizer build with injected failures: linked with -Wl,--wrap
extern "C" {
int __real_posix_memalign(void**, size_t, size_t); void* __real_malloc(size_t); void* __real_aligned_alloc(size_t, size_t); void* __real__Znwm(size_t); void* __real__Znam(size_t);
void* __real__ZnwmRKSt9nothrow_t(size_t, const std::nothrow_t&); void* __real__ZnamRKSt9nothrow_t(size_t, const std::nothrow_t&); void* __real_calloc(size_t, size_t);
static bool deny() { if (!g_on) return false; long c = __sync_fetch_and_add(&g_count, 1); return g_fail >= 0 && c == g_fail; }
void __real_free(void*); void __real__ZdlPv(void*); void __real__ZdaPv(void*); void __real__ZdlPvm(void*, size_t); void __real__ZdaPvm(void*, size_t);
void __wrap_free(void* p) { if (!(g_on && g_minalign)) __real_free(p); }
void __wrap__ZdlPv(void* p) { if (!(g_on && g_minalign)) __real__ZdlPv(p); }
void __wrap__ZdaPv(void* p) { if (!(g_on && g_minalign)) __real__ZdaPv(p); }
void __wrap__ZdlPvm(void* p, size_t n) { if (!(g_on && g_minalign)) __real__ZdlPvm(p, n); }
void __wrap__ZdaPvm(void* p, size_t n) { if (!(g_on && g_minalign)) __real__ZdaPvm(p, n); }
int __wrap_posix_memalign(void** p, size_t a, size_t n) { if (g_on && g_minalign) { *p = minimal(__real_malloc(n + 8 * a), a); return 0; } return deny() ? ENOMEM : __real_posix_memalign(p, a, n); }
void* __wrap_malloc(size_t n) { if (g_on && g_minalign) return minimal(__real_malloc(n + 128), 16); return deny() ? 0 : __real_malloc(n); }
void* __wrap_calloc(size_t a, size_t n) { return deny() ? 0 : __real_calloc(a, n); }
void* __wrap_aligned_alloc(size_t a, size_t n) { return deny() ? 0 : __real_aligned_alloc(a, n); }
void* __wrap__Znwm(size_t n) { if (g_on && g_minalign) return minimal(__real_malloc(n + 128), 16); if (deny()) throw std::bad_alloc(); return __real__Znwm(n); }
void* __wrap__Znam(size_t n) { if (g_on && g_minalign) return minimal(__real_malloc(n + 128), 16); if (deny()) throw std::bad_alloc(); return __real__Znam(n); }
void* __wrap__ZnwmRKSt9nothrow_t(size_t n, const std::nothrow_t& t) { return deny() ? 0 : __real__ZnwmRKSt9nothrow_t(n, t); }
void* __wrap__ZnamRKSt9nothrow_t(size_t n, const std::nothrow_t& t) { return deny() ? 0 : __real__ZnamRKSt9nothrow_t(n, t); }
}
#endif
#if defined(NO_INTERPOSE) && !defined(WRAP_ALLOC)
struct Scope { Scope() {} ~Scope() {} };
#else
struct Scope { Scope() { g_on = true; } ~Scope() { g_on = false; } };
#endif

struct Buf { double* p; char* raw; size_t n; };
int main(int argc, char** argv)
{
    struct Slot { Handle* h = 0; bool made = false; };
    // slots and buffers are created before threads start; inside threads commands neither print nor lock (that would order the threads)
    std::map<std::string, Slot> H; std::map<std::string, Buf> B; std::map<std::string, CF> F; static thread_local bool quiet = false;
#define C(n) F[#n] = n;
#include "cplx_list.h"
#undef C
    std::ios::sync_with_stdio(false);
    std::string line; std::vector<std::vector<std::string>> par; bool queueing = false;
    auto run = [&](const std::string& line) -> int {
        std::istringstream is(line); std::string c; is >> c; if (c.empty() || c[0] == '#') return 0;
        if (c == "fill") { int v; is >> v; g_fill = v; }
        else if (c == "minalign") { int v; is >> v; g_minalign = v; }
        else if (c == "fail") { long v; is >> v; g_fail = v; g_count = 0; }
        else if (c == "threads") { int v; is >> v; omp_set_num_threads(v); }
        else if (c == "new") { std::string h; is >> h; void* m = 0; if (posix_memalign(&m, 16, 64 + h_size() / 16 * 16)) m = 0; h_init(m); H[h] = Slot(); H[h].h = (Handle*)m; }
        else if (c == "create") { std::string h; int k, n, o; is >> h >> k >> n >> o; int r; Slot& q = H.at(h); { Scope s; r = h_create(q.h, k, n, o); } if (r == 0) q.made = true; if (!quiet) printf("rc %d\n", r); }
        else if (c == "setup") { std::string h; int n; is >> h >> n; int r; Slot& q = H.at(h); { Scope s; r = h_setup(q.h, n); } if (!quiet) printf("rc %d\n", r); }
        else if (c == "destroy") { std::string h; is >> h; int r; Slot& q = H.at(h); { Scope s; r = h_destroy(q.h); } if (!quiet) printf("rc %d\n", r); }
        else if (c == "live") printf("live %ld\n", (long)g_live);
        else if (c == "allocbytes") printf("bytes %zu\n", (size_t)mallinfo2().uordblks + (size_t)mallinfo2().hblkhd);
        else if (c == "allocs") printf("allocs %ld\n", (long)g_count);
        else if (c == "buf") { // buf name ndoubles [offset-in-doubles from a 64-byte boundary] [fill byte]
            std::string b; size_t n; int off = 1, fill = 0; is >> b >> n; is >> off; is >> fill; Buf u; u.n = n;
            // the array ends exactly at the end of the allocation so that sanitizers see overruns
            { void* q = 0; if (posix_memalign(&q, 64, (n + off) * 8 ? (n + off) * 8 : 8)) q = 0; u.raw = (char*)q; } u.p = (double*)u.raw + off; memset((void*)u.p, fill, n * 8); B[b] = u; }
        else if (c == "set") { std::string b; size_t i; is >> b >> i; std::string v; while (is >> v) B[b].p[i++] = strtod(v.c_str(), 0); }
        else if (c == "copy") { std::string d, s; is >> d >> s; memcpy(B[d].p, B[s].p, 8 * std::min(B[d].n, B[s].n)); }
        else if (c == "t") { std::string h, x, y; int m, kind; is >> h >> kind >> m >> x; Slot& sl = H.at(h); Handle* q = sl.h; if (!sl.made) { printf("nohandle\n"); return 4; } double* X = B.at(x).p; Scope s;
            if (kind == 1) { is >> y; double* Y = B.at(y).p; if (m < 4) h_real_f(q, m, X, (OTFFT::complex_t*)Y); else h_real_i(q, m, (OTFFT::complex_t*)X, Y); }
            else if (kind == 2) h_dct(q, m, X); else h_complex(q, m, (OTFFT::complex_t*)X); }
        else if (c == "print") { std::string b; long i0 = 0, n = -1; is >> b; is >> i0 >> n; Buf& u = B[b]; if (n < 0) n = u.n; printf("v"); for (long i = i0; i < i0 + n && i < (long)u.n; i++) printf(" %a", u.p[i]); printf("\n"); }
        else if (c == "hash") { std::string b; is >> b; unsigned long long h = 1469598103934665603ull; unsigned char* p = (unsigned char*)B[b].p; for (size_t i = 0; i < B[b].n * 8; i++) { h ^= p[i]; h *= 1099511628211ull; } printf("hash %llx\n", h); }
        else if (c == "cplx") { std::string f; is >> f; double v[4], o[3] = {0, 0, 0}; for (int i = 0; i < 4; i++) { std::string s; is >> s; v[i] = strtod(s.c_str(), 0); } if (!F.count(f)) { printf("nofunc\n"); return 0; } F[f](v, v + 2, o); printf("v %a %a %a\n", o[0], o[1], o[2]); }
        else { printf("bad command %s\n", c.c_str()); return 3; }
        if (!quiet) fflush(stdout);
        return 0;
    };
    while (std::getline(std::cin, line)) {
        // thread: starts a new queue of commands; join: runs all queues at the same time
        if (line == "thread") { par.emplace_back(); queueing = true; continue; }
        if (line == "join") { queueing = false; std::vector<std::thread> th; for (auto& q : par) th.emplace_back([&run, &q] { quiet = true; for (auto& l : q) run(l); }); for (auto& t : th) t.join(); par.clear(); continue; }
        if (queueing) { par.back().push_back(line); continue; }
        int rc = run(line); if (rc) return rc;
    }
    return 0;
}
