// complex_t operators and functions, one C entry each; out receives (re, im) or one real in out[0].
#include "otfft_complex.h"
using namespace OTFFT;
#define NI __attribute__((noinline))
#define IN2 const double* a, const double* b, double* out
#define A complex_t(a[0], a[1])
#define B complex_t(b[0], b[1])
static inline void put(double* out, const complex_t& z) { out[0] = z.Re; out[1] = z.Im; }
extern "C" {
NI void c_default(IN2) { complex_t z; put(out, z); }
NI void c_real(IN2) { complex_t z(a[0]); put(out, z); }
NI void c_pair(IN2) { complex_t z(a[0], a[1]); put(out, z); }
NI void c_copy(IN2) { complex_t y(a[0], a[1]); complex_t z(y); put(out, z); }
NI void c_assign(IN2) { complex_t y(a[0], a[1]); complex_t z; z = y; put(out, z); }
NI void c_fromstd(IN2) { std::complex<double> s(a[0], a[1]); complex_t z(s); put(out, z); }
NI void c_tostd(IN2) { complex_t z(a[0], a[1]); std::complex<double> s = z; out[0] = s.real(); out[1] = s.imag(); }
NI void c_re(IN2) { out[0] = Re(A); out[1] = 0; }
NI void c_im(IN2) { out[0] = Im(A); out[1] = 0; }
NI void c_add(IN2) { put(out, A + B); }
NI void c_sub(IN2) { put(out, A - B); }
NI void c_mul(IN2) { put(out, A * B); }
NI void c_div(IN2) { put(out, A / B); }
NI void c_smul(IN2) { put(out, b[0] * A); }
NI void c_mulr(IN2) { put(out, A * complex_t(b[0])); }
NI void c_divr(IN2) { put(out, A / b[0]); }
NI void c_addeq(IN2) { complex_t z = A; z += B; put(out, z); }
NI void c_subeq(IN2) { complex_t z = A; z -= B; put(out, z); }
NI void c_muleq(IN2) { complex_t z = A; z *= B; put(out, z); }
NI void c_mulreq(IN2) { complex_t z = A; z *= b[0]; put(out, z); }
NI void c_divreq(IN2) { complex_t z = A; z /= b[0]; put(out, z); }
// compound assignments must return the assigned object
NI void c_addeq_ret(IN2) { complex_t z = A; complex_t* p = &(z += B); put(out, *p); out[2] = (p == &z); }
NI void c_subeq_ret(IN2) { complex_t z = A; complex_t* p = &(z -= B); put(out, *p); out[2] = (p == &z); }
NI void c_muleq_ret(IN2) { complex_t z = A; complex_t* p = &(z *= B); put(out, *p); out[2] = (p == &z); }
NI void c_mulreq_ret(IN2) { complex_t z = A; complex_t* p = &(z *= b[0]); put(out, *p); out[2] = (p == &z); }
NI void c_divreq_ret(IN2) { complex_t z = A; complex_t* p = &(z /= b[0]); put(out, *p); out[2] = (p == &z); }
// aliased operands
NI void c_addeq_self(IN2) { complex_t z = A; z += z; put(out, z); }
NI void c_subeq_self(IN2) { complex_t z = A; z -= z; put(out, z); }
NI void c_muleq_self(IN2) { complex_t z = A; z *= z; put(out, z); }
NI void c_mul_self(IN2) { complex_t z = A; z = z * z; put(out, z); }
NI void c_div_self(IN2) { complex_t z = A; complex_t w = B; z = z / w; put(out, z); }
NI void c_mulreq_re(IN2) { complex_t z = A; z *= z.Re; put(out, z); }
NI void c_mulreq_im(IN2) { complex_t z = A; z *= z.Im; put(out, z); }
NI void c_divreq_re(IN2) { complex_t z = A; z /= z.Re; put(out, z); }
NI void c_divreq_im(IN2) { complex_t z = A; z /= z.Im; put(out, z); }
NI void c_div_aself(IN2) { complex_t z = A; z = complex_t(b[0], b[1]) / z; put(out, z); }
NI void c_conj(IN2) { put(out, conj(A)); }
NI void c_neg(IN2) { put(out, neg(A)); }
NI void c_jx(IN2) { put(out, jx(A)); }
NI void c_mjx(IN2) { put(out, mjx(A)); }
NI void c_norm(IN2) { out[0] = norm(A); out[1] = 0; }
NI void c_abs(IN2) { out[0] = OTFFT::abs(A); out[1] = 0; }
NI void c_arg(IN2) { out[0] = OTFFT::arg(A); out[1] = 0; }
NI void c_polar(IN2) { put(out, OTFFT::polar(a[0], a[1])); }
NI void c_expj(IN2) { put(out, expj(a[0])); }
}
