// uniform access to every filter class
#ifndef FILTERS_H
#define FILTERS_H
#include "vs.h"
#include <utility>
#include <vector>
// kinds: f frequency, w band width, r ripple/rejection, g gain, q Q or bandwidth, s slope
#define ORDERED(X) \
 X(bw_lp, Iir::Butterworth::LowPass, "f") X(bw_hp, Iir::Butterworth::HighPass, "f") X(bw_bp, Iir::Butterworth::BandPass, "fw") \
 X(bw_bs, Iir::Butterworth::BandStop, "fw") X(bw_ls, Iir::Butterworth::LowShelf, "fg") X(bw_hs, Iir::Butterworth::HighShelf, "fg") \
 X(bw_sh, Iir::Butterworth::BandShelf, "fwg") \
 X(c1_lp, Iir::ChebyshevI::LowPass, "fr") X(c1_hp, Iir::ChebyshevI::HighPass, "fr") X(c1_bp, Iir::ChebyshevI::BandPass, "fwr") \
 X(c1_bs, Iir::ChebyshevI::BandStop, "fwr") X(c1_ls, Iir::ChebyshevI::LowShelf, "fgr") X(c1_hs, Iir::ChebyshevI::HighShelf, "fgr") \
 X(c1_sh, Iir::ChebyshevI::BandShelf, "fwgr") \
 X(c2_lp, Iir::ChebyshevII::LowPass, "fr") X(c2_hp, Iir::ChebyshevII::HighPass, "fr") X(c2_bp, Iir::ChebyshevII::BandPass, "fwr") \
 X(c2_bs, Iir::ChebyshevII::BandStop, "fwr") X(c2_ls, Iir::ChebyshevII::LowShelf, "fgr") X(c2_hs, Iir::ChebyshevII::HighShelf, "fgr") \
 X(c2_sh, Iir::ChebyshevII::BandShelf, "fwgr")
#define RBJS(X) \
 X(rbj_lp, Iir::RBJ::LowPass, "fq") X(rbj_hp, Iir::RBJ::HighPass, "fq") X(rbj_bp1, Iir::RBJ::BandPass1, "fq") \
 X(rbj_bp2, Iir::RBJ::BandPass2, "fq") X(rbj_bs, Iir::RBJ::BandStop, "fq") X(rbj_notch, Iir::RBJ::IIRNotch, "fq") \
 X(rbj_ls, Iir::RBJ::LowShelf, "fgs") X(rbj_hs, Iir::RBJ::HighShelf, "fgs") X(rbj_sh, Iir::RBJ::BandShelf, "fgq") \
 X(rbj_ap, Iir::RBJ::AllPass, "fq")
template <class F, std::size_t... I> static inline void cN(F& f, const double* a, std::index_sequence<I...>) { f.setupN(a[I]...); }
template <class F, std::size_t... I> static inline void cNo(F& f, int o, const double* a, std::index_sequence<I...>) { f.setupN(o, a[I]...); }
template <class F, std::size_t... I> static inline void cS(F& f, double fs, const double* a, std::index_sequence<I...>) { f.setup(fs, a[I]...); }
template <class F, std::size_t... I> static inline void cSo(F& f, int o, double fs, const double* a, std::index_sequence<I...>) { f.setup(o, fs, a[I]...); }
#define D_ORD(NAME, CLS, K) struct NAME { static constexpr int n = sizeof(K) - 1; static const char* kinds() { return K; } \
    static constexpr bool ordered = true; static constexpr bool band = K[1] == 'w'; \
    template <int N> using F = CLS<N>; template <int N, class S> using FS = CLS<N, S>; \
    template <class T> static void setN(T& f, const double* a) { cN(f, a, std::make_index_sequence<n>()); } \
    template <class T> static void setN(T& f, int o, const double* a) { cNo(f, o, a, std::make_index_sequence<n>()); } \
    template <class T> static void set(T& f, double fs, const double* a) { cS(f, fs, a, std::make_index_sequence<n>()); } \
    template <class T> static void set(T& f, int o, double fs, const double* a) { cSo(f, o, fs, a, std::make_index_sequence<n>()); } };
#define D_RBJ(NAME, CLS, K) struct NAME { static constexpr int n = sizeof(K) - 1; static const char* kinds() { return K; } \
    static constexpr bool ordered = false; static constexpr bool band = false; \
    template <int N> using F = CLS; \
    template <class T> static void setN(T& f, const double* a) { cN(f, a, std::make_index_sequence<n>()); } \
    template <class T> static void setN(T& f, int o, const double* a) { cN(f, a, std::make_index_sequence<n>()); } \
    template <class T> static void set(T& f, double fs, const double* a) { cS(f, fs, a, std::make_index_sequence<n>()); } };
ORDERED(D_ORD)
RBJS(D_RBJ)
enum {
#define E_(NAME, CLS, K) ID_##NAME,
ORDERED(E_) RBJS(E_)
};
// runs FN<class>() for the class number in parameter "cls"
#define C_(NAME, CLS, K) case ID_##NAME: BODY(NAME) break;
#define FOR_ORDERED switch (vs_p("cls")) { ORDERED(C_) }
#define FOR_RBJ switch (vs_p("cls")) { RBJS(C_) }
#define FOR_ALL switch (vs_p("cls")) { ORDERED(C_) RBJS(C_) }
// fills the arguments of a setup with arbitrary admissible values
static inline const char* arg_name(char k, int tag) {
    switch (k) {
    case 'f': return tag ? "f2" : "f";
    case 'w': return tag ? "w2" : "w";
    case 'r': return tag ? "r2" : "r";
    case 'g': return tag ? "g2" : "g";
    case 'q': return tag ? "q2" : "q";
    }
    return tag ? "s2" : "s";
}
template <class D> static inline void any_args(double* a, int tag = 0) {
    const char* k = D::kinds();
    for (int i = 0; k[i]; i++) {
        const char* n = arg_name(k[i], tag);
        switch (k[i]) {
        case 'f': a[i] = vs_real(n, 0, 0.5, 3); break;
        case 'w': a[i] = vs_real(n, 0, 1, 3); break;
        case 'r': a[i] = vs_real(n, 0, 100, 3); break;
        case 'g': a[i] = vs_real(n, -100, 100, 3); break;
        case 'q': a[i] = vs_real(n, 0, 1000, 3); break;
        case 's': a[i] = vs_real(n, 0, 1, 1); break;
        }
    }
}
// any doubles at all: NaN, infinities, negative values
template <class D> static inline void wild_args(double* a, int tag = 0) {
    const char* k = D::kinds();
    for (int i = 0; k[i]; i++) a[i] = vs_real(arg_name(k[i], tag), -VS_INF, VS_INF, 0);
}
// concrete, sane arguments (variant v)
template <class D> static inline void some_args(double* a, int v = 0) {
    const char* k = D::kinds();
    for (int i = 0; k[i]; i++) {
        // two ordinary sets and two far out ones
        static const double f[] = {0.125, 0.3125, 0.001, 0.49}, w[] = {0.09375, 0.0625, 0.0015, 0.01}, r[] = {1, 2, 130, 0.01},
            g[] = {6, -8, 200, -0.1}, q[] = {0.75, 2, 25, 0.05}, s[] = {1, 0.5, 0.1, 1};
        switch (k[i]) {
        case 'f': a[i] = f[v]; break;
        case 'w': a[i] = w[v]; break;
        case 'r': a[i] = r[v]; break;
        case 'g': a[i] = g[v]; break;
        case 'q': a[i] = q[v]; break;
        case 's': a[i] = s[v]; break;
        }
    }
}
// access to the sections in use
template <class F> static inline auto sec(F& f, int i) -> decltype(f[i])& { return f[i]; }
static inline Iir::Biquad& sec(Iir::Biquad& f, int) { return f; }
template <class F> static inline auto nsec(F& f) -> decltype(f.getNumStages()) { return f.getNumStages(); }
static inline int nsec(Iir::Biquad&) { return 1; }
static inline void eq_biquad(const char* l, const Iir::Biquad& p, const Iir::Biquad& q, double tol = 0) {
    vs_eq(l, p.m_a0, q.m_a0, tol); vs_eq(l, p.m_a1, q.m_a1, tol); vs_eq(l, p.m_a2, q.m_a2, tol);
    vs_eq(l, p.m_b0, q.m_b0, tol); vs_eq(l, p.m_b1, q.m_b1, tol); vs_eq(l, p.m_b2, q.m_b2, tol);
}
template <class F, class G> static inline void eq_filter(const char* l, F& p, G& q, double tol = 0) {
    int n = nsec(p);
    vs_check(l, n == nsec(q));
    if (n == nsec(q)) for (int i = 0; i < n; i++) eq_biquad(l, sec(p, i), sec(q, i), tol);
}
#endif
