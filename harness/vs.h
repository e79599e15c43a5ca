// Harness interface.  The same harness source is executed symbolically (vs_* are
// intrinsics of the interpreter) and natively (vs_native.cpp) to replay counterexamples.
#ifndef VS_H
#define VS_H
#include "Iir.h"
#include <cmath>
#include <complex>
#include <limits>
#include <new>
#include <stdexcept>
extern "C" {
// inputs
double vs_real(const char* name, double lo, double hi, int strict); // strict: bit0 lower, bit1 upper bound excluded
double vs_freq(const char* name, int div, double lo, double hi);    // normalised frequency in (lo,hi); tan(pi f/div) rational
double vs_db(const char* name, int den, double lo, double hi);      // den*log10(E), E the generator
int vs_int(const char* name, int lo, int hi);                       // symbolic 32-bit integer
int vs_choice(const char* name, int n);                             // 0..n-1, every value explored
int vs_p(const char* name);                                         // concrete case parameter
double vs_pd(const char* name);
// specification
void vs_assume(int cond);
void vs_check(const char* label, int cond);
void vs_eq(const char* label, double a, double b, double tol);      // |a-b| <= tol (tol 0: identical)
void vs_eqr(const char* label, double a, double b, double scale);    // identical (replay: up to 1e-9*scale)
void vs_le(const char* label, double a, double b);                  // a <= b
void vs_lt(const char* label, double a, double b);                  // a < b
void vs_reach(const char* label);                                   // reachability witness
void vs_poison(void* p, unsigned long n);                           // fill with uninitialised bytes
long vs_globals(void);                                              // changes whenever static (not thread-local) data changes
long vs_heap_mark(void);                                            // number of live+dead heap allocations so far
void vs_obj(const void* p, unsigned long n, const char* label);
}
#ifdef VS_SYM
#define VS_SCALE(e) 0.0
#else
#define VS_SCALE(e) (e)
#endif
#define VS_INF std::numeric_limits<double>::infinity()
#define VS_NAN std::numeric_limits<double>::quiet_NaN()
// 0: returned, 1: std::invalid_argument, 2: something else thrown
#define VS_TRY(stmt) ([&]() -> int { try { stmt; return 0; } catch (const std::invalid_argument&) { return 1; } catch (...) { return 2; } }())
#define CASE(name) extern "C" void name()
typedef std::complex<double> cplx;
static inline double any_real(const char* n) { return vs_real(n, -VS_INF, VS_INF, 0); }
// real part first, whatever order the compiler evaluates arguments in
static inline cplx any_cplx(const char* n) { double re = any_real(n); double im = any_real(n); return cplx(re, im); }
static inline double pos_real(const char* n) { return vs_real(n, 0.0, VS_INF, 1); }
static inline double sq(double x) { return x * x; }
static inline double ab(double x) { return std::fabs(x); }
static inline double mag2(const cplx& z) { return z.real() * z.real() + z.imag() * z.imag(); }
#endif
