// Runs one object's life at a (possibly huge) length with every large array backed by a few shared pages and fenced by unmapped space:
// indices are real, contents are not. Ends with a signal on an access outside an array; the sanitizer reports integer overflow.
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include <cerrno>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdint>
#include <new>
#include <sys/mman.h>
#include <unistd.h>
extern "C" void* __libc_malloc(size_t); extern "C" void* __libc_memalign(size_t, size_t); extern "C" void __libc_free(void*);
struct Handle; extern "C" { int h_size(); void h_init(void*); int h_create(void*, int, int, int); void h_complex(void*, int, void*); void h_real_f(void*, int, const double*, void*); void h_real_i(void*, int, void*, double*); void h_dct(void*, int, double*); }
static const size_t CH = 64u << 20, FENCE = (size_t)4 << 30; static int fd = -1; static bool on = false; static uintptr_t mine[4096]; static int nmine = 0;
static void* big(size_t n, size_t a) {
    if (fd < 0) { fd = memfd_create("pages", 0); if (fd < 0 || ftruncate(fd, CH)) _exit(77); }
    size_t len = (n + 4095) / 4096 * 4096; char* p = (char*)mmap(0, len + 2 * FENCE, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (p == MAP_FAILED) return 0;
    for (size_t o = 0; o < len; o += CH) { size_t c = len - o < CH ? len - o : CH; if (mmap(p + FENCE + o, c, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED, fd, 0) == MAP_FAILED) return 0; }
    uintptr_t q = (uintptr_t)p + FENCE + len - n; q -= q % (a ? a : 16); if (nmine < 4096) mine[nmine++] = q; return (void*)q; }
static void* get(size_t n, size_t a) { return on && n >= 4096 ? big(n, a < 16 ? 16 : a) : __libc_memalign(a < 16 ? 16 : a, n ? n : 1); }
extern "C" { int posix_memalign(void** p, size_t a, size_t n) { *p = get(n, a); return *p ? 0 : ENOMEM; } void* aligned_alloc(size_t a, size_t n) { return get(n, a); } void* malloc(size_t n) { return on ? get(n, 16) : __libc_malloc(n); }
void free(void* p) { for (int i = 0; i < nmine; i++) if (mine[i] == (uintptr_t)p) return; __libc_free(p); } }
void* operator new(size_t n) { void* p = get(n, 16); if (!p) throw std::bad_alloc(); return p; } void* operator new[](size_t n) { return operator new(n); } void operator delete(void*) noexcept {} void operator delete[](void*) noexcept {} void operator delete(void*, size_t) noexcept {} void operator delete[](void*, size_t) noexcept {}
int main(int c, char** v) { if (c < 4) return 2; int k = atoi(v[1]), o = atoi(v[2]), n = atoi(v[3]); on = true; setvbuf(stdout, 0, _IONBF, 0); void* h = __libc_memalign(64, 4096); h_init(h); int s = h_create(h, k, n, o); printf("create %d\n", s); if (s) return s == 1 ? 76 : 3;
    size_t N = (size_t)n; for (int i = 4; i < c; i++) { int m = atoi(v[i]); void* x = get(N * 16, 16); double* y = (double*)get(N * 8, 16); if (!x || !y) return 76; if (k == 0 || k == 3) h_complex(h, m, x); else if (k == 2) h_dct(h, m, y); else m < 4 ? h_real_f(h, m, y, x) : h_real_i(h, m, x, y); printf("t %d\n", m); } puts("end"); fflush(stdout); _exit(0); }
