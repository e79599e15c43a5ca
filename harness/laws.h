// magnitude laws of the designed filters
#ifndef LAWS_H
#define LAWS_H
#include "filters.h"
#ifndef VS_N
#define VS_N 8
#endif
static inline double ipow(double x, int n) { double p = 1; for (int i = 0; i < n; i++) p *= x; return p; }
// Chebyshev polynomial of the first kind
static inline double cheb(int n, double x) {
    double a = 1, b = x;
    if (n == 0) return 1;
    for (int i = 1; i < n; i++) { double c = 2 * x * b - a; a = b; b = c; }
    return b;
}
// squared normalised low-pass frequency w^2 = num/den as two factors (no division by zero at the ends)
struct Freq2 { double n, d; };
static inline double tan2(double f) { double t = std::tan(M_PI * f); return t * t; }
static inline Freq2 w_low(double f, double fc) { return {tan2(f), tan2(fc)}; }
static inline Freq2 w_high(double f, double fc) { return {tan2(fc), tan2(f)}; }
// band: W = (alpha - cos 2 pi f)/(sin 2 pi f tan(pi fw)), alpha = cos(2 pi fc)/cos(pi fw)
static inline Freq2 w_band(double f, double fc, double fw) {
    double c = std::cos(2 * M_PI * f), s = std::sin(2 * M_PI * f);
    double u = std::cos(2 * M_PI * fc) - c * std::cos(M_PI * fw), v = s * std::sin(M_PI * fw);
    return {u * u, v * v};
}
static inline Freq2 inv(const Freq2& q) { return {q.d, q.n}; }
// v^n T_n(u/v)
static inline double chebh(int n, double u, double v) {
    double a = 1, b = u;
    if (n == 0) return 1;
    for (int i = 1; i < n; i++) { double c = 2 * u * b - v * v * a; a = b; b = c; }
    return b;
}
// normalised frequency w = u/v of the four responses (kind 0 low, 1 high, 2 band pass, 3 band stop)
struct W { double u, v; };
static inline W wnorm(int kind, double f, double fc, double fw) {
    switch (kind) {
    case 0: return {std::tan(M_PI * f), std::tan(M_PI * fc)};
    case 1: return {std::tan(M_PI * fc), std::tan(M_PI * f)};
    }
    double c = std::cos(2 * M_PI * f), s = std::sin(2 * M_PI * f);
    double u = std::cos(2 * M_PI * fc) - c * std::cos(M_PI * fw), v = s * std::sin(M_PI * fw);
    if (kind == 3) return {v, u};
    return {u, v};
}
// Chebyshev I and II laws; exact: no tolerance (all parameters symbolic)
template <class F> static void cheb_law(const char* l, F& g, int type, int kind, int n, double f, double fc, double fw, double e2, double tol) {
    W w = wnorm(kind, f, fc, fw);
    double num, oth;
    if (type == 1) {
        double t = chebh(n, w.u, w.v);
        num = ipow(w.v * w.v, n); oth = e2 * t * t;
    } else {
        double t = chebh(n, w.v, w.u);
        num = e2 * t * t; oth = ipow(w.u * w.u, n);
    }
    // num + oth > 0 for every admissible frequency: both vanish together nowhere
    vs_assume(num + oth > 0);
    double h = std::norm(g.response(f));
    if (tol == 0) vs_eqr(l, h * (num + oth), num, VS_SCALE(num + oth));
    else vs_eq(l, h - num / (num + oth), 0.0, tol);
}
// parameters: n order; sym bit 0 fc, 1 fw, 2 ripple/rejection symbolic, otherwise values fc, fw, r
template <class F, int TYPE, int KIND> static void cheb_case() {
    int n = vs_p("n"), sym = vs_p("sym");
    double fc = sym & 1 ? vs_freq("fc", 1, 0, 0.5) : vs_pd("fc");
    double fw = KIND < 2 ? 0.0 : sym & 2 ? vs_freq("fw", 2, vs_pd("wlo"), vs_pd("whi")) : vs_pd("fw");
    // every ripple: eps = 1/sinh(n ln rho), so 1 + eps^2 = ((rho^2n + 1)/(rho^2n - 1))^2
    double r;
    if (sym & 4) {
        double rho = vs_real("rho", vs_pd("rlo"), vs_pd("rhi"), 0), e = ipow(rho, 2 * n), q = (e + 1) / (e - 1);
        // the rejection s of type II has 10^(s/10) = 1 + 1/e2 with e2 = eps^2
        if (TYPE == 2) q = (e + 1) / (2 * ipow(rho, n));
        r = 20 * std::log10(q);
    } else r = vs_pd("r");
    double tol = sym ? 0 : vs_pd("tol");
    if (KIND >= 2 && (sym & 3)) {
        vs_assume(fc - fw / 2 > 0.0001);
        vs_assume(fc + fw / 2 < 0.4999);
    }
    F g;
    if constexpr (KIND < 2) g.setupN(n, fc, r); else g.setupN(n, fc, fw, r);
    double e2 = TYPE == 1 ? std::pow(10.0, r / 10) - 1 : 1 / (std::pow(10.0, r / 10) - 1);
    double f = vs_freq("f", 1, 0, 0.5);
    cheb_law("law", g, TYPE, KIND, n, f, fc, fw, e2, tol);
    // gain at the ends of the frequency range
    double even = TYPE == 1 ? 1 / (1 + e2) : e2 / (1 + e2);
    bool ev = n % 2 == 0;
    double far = TYPE == 1 ? 0.0 : (ev ? even : 0.0), pass = TYPE == 1 ? (ev ? even : 1.0) : 1.0;
    double h0 = std::norm(g.response(0)), h5 = std::norm(g.response(0.5));
    double x0 = KIND == 0 ? pass : KIND == 3 ? pass : far, x5 = KIND == 1 ? pass : KIND == 3 ? pass : far;
    if (tol == 0) { vs_eqr("at_dc", h0, x0, 1.0); vs_eqr("at_nyquist", h5, x5, 1.0); }
    else { vs_eq("at_dc", h0, x0, tol); vs_eq("at_nyquist", h5, x5, tol); }
    // gain at the cutoff or band edges
    double edge = TYPE == 1 ? 1 / (1 + e2) : e2 / (1 + e2);
    if (!(sym & 3)) {
        if (KIND < 2) vs_eq("edge", std::norm(g.response(fc)), edge, tol ? tol : 1e-9);
        else {
            vs_eq("edge_low", std::norm(g.response(fc - fw / 2)), edge, tol ? tol : 1e-9);
            vs_eq("edge_high", std::norm(g.response(fc + fw / 2)), edge, tol ? tol : 1e-9);
        }
    } else if (KIND < 2) vs_eqr("edge", std::norm(g.response(fc)), edge, 1.0);
    vs_reach("end");
}
#define CHEB_CASES(NS, TYPE) \
    CASE(lp) { cheb_case<NS::LowPass<VS_N>, TYPE, 0>(); } CASE(hp) { cheb_case<NS::HighPass<VS_N>, TYPE, 1>(); } \
    CASE(bp) { cheb_case<NS::BandPass<VS_N>, TYPE, 2>(); } CASE(bs) { cheb_case<NS::BandStop<VS_N>, TYPE, 3>(); }
#endif
