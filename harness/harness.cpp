// Entry points the symbolic executor (and the native replay) drive: the public API only.
#include "otfft.h"
#include "otfft_complex.h"
#include <new>
#include <stdexcept>
#include <exception>
using namespace OTFFT;

enum { K_COMPLEX = 0, K_REAL = 1, K_DCT = 2, K_BLUE = 3 };
enum { R_OK = 0, R_BAD_ALLOC = 1, R_DOMAIN = 2, R_STD = 3, R_OTHER = 4 };

struct Handle { int kind; ComplexFFTPtr c; RealFFTPtr r; RealDCTPtr d; };

#define NI __attribute__((noinline))
extern "C" {

NI int h_create(Handle* h, int kind, int n, int opt)
{
    h->kind = kind;
    try {
#if defined(OTFFT_WITH_SSE2) && defined(OTFFT_WITH_AVX) && defined(OTFFT_WITH_AVX2)
        const OptimizationType t = static_cast<OptimizationType>(opt);
#else   // the enumerators' values depend on the configuration
        OptimizationType t = OptimizationType::OPTIMIZED_FFT_AUTO;
        bool known = opt == 0;
#ifdef OTFFT_WITH_SSE2
        if (opt == 1) { t = OptimizationType::OPTIMIZED_FFT_SSE2; known = true; }
#endif
#ifdef OTFFT_WITH_AVX
        if (opt == 2) { t = OptimizationType::OPTIMIZED_FFT_AVX; known = true; }
#endif
#ifdef OTFFT_WITH_AVX2
        if (opt == 3) { t = OptimizationType::OPTIMIZED_FFT_AVX2; known = true; }
#endif
        if (!known) return R_OTHER;
#endif
        switch (kind) {
        case K_COMPLEX: h->c = Factory::createComplexFFT(n, t); break;
        case K_REAL:    h->r = Factory::createRealFFT(n, t); break;
        case K_DCT:     h->d = Factory::createDCT(n, t); break;
        default:        h->c = Factory::createBluesteinFFT(n, t); break;
        }
    }
    catch (const std::bad_alloc&) { return R_BAD_ALLOC; }
    catch (const std::domain_error&) { return R_DOMAIN; }
    catch (const std::exception&) { return R_STD; }
    catch (...) { return R_OTHER; }
    return R_OK;
}

// The Handle lives in caller-provided storage; h_init constructs it empty.
NI void h_init(void* mem) { new (mem) Handle(); }
NI int h_size() { return (int)sizeof(Handle); }

NI int h_setup(Handle* h, int n)
{
    try {
        switch (h->kind) {
        case K_REAL: h->r->setup(n); break;
        case K_DCT:  h->d->setup(n); break;
        default:     h->c->setup(n); break;
        }
    }
    catch (const std::bad_alloc&) { return R_BAD_ALLOC; }
    catch (const std::domain_error&) { return R_DOMAIN; }
    catch (const std::exception&) { return R_STD; }
    catch (...) { return R_OTHER; }
    return R_OK;
}

NI int h_destroy(Handle* h)
{
    try { h->c.reset(); h->r.reset(); h->d.reset(); }
    catch (...) { return R_OTHER; }
    return R_OK;
}

// methods: 0 fwd 1 fwd0 2 fwdu 3 fwdn 4 inv 5 inv0 6 invu 7 invn
NI void h_complex(Handle* h, int m, complex_t* x)
{
    switch (m) {
    case 0: h->c->fwd(x); break;  case 1: h->c->fwd0(x); break;
    case 2: h->c->fwdu(x); break; case 3: h->c->fwdn(x); break;
    case 4: h->c->inv(x); break;  case 5: h->c->inv0(x); break;
    case 6: h->c->invu(x); break; default: h->c->invn(x); break;
    }
}
NI void h_real_f(Handle* h, int m, const double* x, complex_t* y)
{
    switch (m) {
    case 0: h->r->fwd(x, y); break;  case 1: h->r->fwd0(x, y); break;
    case 2: h->r->fwdu(x, y); break; default: h->r->fwdn(x, y); break;
    }
}
NI void h_real_i(Handle* h, int m, complex_t* x, double* y)
{
    switch (m) {
    case 4: h->r->inv(x, y); break;  case 5: h->r->inv0(x, y); break;
    case 6: h->r->invu(x, y); break; default: h->r->invn(x, y); break;
    }
}
NI void h_dct(Handle* h, int m, double* x)
{
    switch (m) {
    case 0: h->d->fwd(x); break;  case 1: h->d->fwd0(x); break; case 3: h->d->fwdn(x); break;
    case 4: h->d->inv(x); break;  case 5: h->d->inv0(x); break; default: h->d->invn(x); break;
    }
}
} // extern "C"
