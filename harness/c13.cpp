// C13: shelving filters
#include "laws.h"
#ifndef VS_N
#define VS_N 8
#endif
using namespace Iir;
// kind 0 low shelf, 1 high shelf, 2 band shelf
template <class F, int KIND, bool CHEB> static void setup(F& g, int n, double fc, double fw, double gain, double r) {
    if constexpr (KIND == 2) { if constexpr (CHEB) g.setupN(n, fc, fw, gain, r); else g.setupN(n, fc, fw, gain); }
    else { if constexpr (CHEB) g.setupN(n, fc, gain, r); else g.setupN(n, fc, gain); }
}
static double TOL = 1e-9;
static void eq(const char* l, double a, double b, bool exact) { if (exact) vs_eqr(l, a, b, 1.0); else vs_eq(l, a / b, 1.0, TOL); }
// h within [x, y] (in either order), relative slack
static void within(const char* l, double h, double x, double y) {
    double lo = x < y ? x : y, hi = x < y ? y : x;
    vs_le(l, lo * (1 - TOL), h);
    vs_le(l, h, hi * (1 + TOL));
}
template <class F, int KIND, bool CHEB> static void shelf() {
    int n = vs_p("n"), sym = vs_p("sym");
    double fc = sym & 1 ? vs_freq("fc", 1, 0, 0.5) : vs_pd("fc");
    double fw = KIND < 2 ? 0.0 : sym & 2 ? vs_freq("fw", 2, vs_pd("wlo"), vs_pd("whi")) : vs_pd("fw");
    double r = CHEB ? vs_pd("r") : 0.0, gain;
    if ((sym & 4) && CHEB) {
        // every gain and ripple: G = sinh(n ln U)/sinh(n ln V), Gb = cosh(n ln U)/cosh(n ln V) are the gain of the cut and that of its ripple
        double V = vs_real("V", 1.01, 8, 0), U = vs_real("U", 1.001, 16, 0);
        if (vs_p("boost")) vs_assume(U < V); else vs_assume(V < U);
        double u = ipow(U, n), v = ipow(V, n), G = (u - 1 / u) / (v - 1 / v), Gb = (u + 1 / u) / (v + 1 / v);
        gain = -20 * std::log10(G);
        r = 20 * std::log10(vs_p("boost") ? Gb / G : G / Gb);
    } else if (sym & 4) {
        // every gain: G = rho^2n
        double rho = vs_real("rho", 0.125, 8, 0);
        gain = 20 * std::log10(ipow(rho, 2 * n));
    } else gain = vs_pd("g");
    if (KIND == 2 && (sym & 3)) { vs_assume(fc - fw / 2 > 0.0001); vs_assume(fc + fw / 2 < 0.4999); }
    F g;
    setup<F, KIND, CHEB>(g, n, fc, fw, gain, r);
    double G = std::pow(10.0, gain / 20), G2 = G * G;
    bool ex = sym & 7;
    // reference end(s): 0 dB
    cplx a = g.response(0), b = g.response(0.5);
    if (KIND != 0) eq("ref_dc", std::norm(a), 1.0, ex);
    if (KIND != 1) eq("ref_nyquist", std::norm(b), 1.0, ex);
    if (!CHEB) {
        if (KIND == 0) eq("boost_dc", std::norm(a), G2, ex);
        if (KIND == 1) eq("boost_nyquist", std::norm(b), G2, ex);
        if (KIND == 2) {
            double lo = fc - fw / 2, hi = fc + fw / 2;
            if (!(sym & 3)) {
                double ce = std::atan(std::sqrt(std::tan(M_PI * lo) * std::tan(M_PI * hi))) / M_PI;
                eq("boost_centre", std::norm(g.response(ce)), G2, ex);
            }
            eq("edge_low", std::norm(g.response(lo)), G, ex);
            eq("edge_high", std::norm(g.response(hi)), G, ex);
        } else eq("edge", std::norm(g.response(fc)), G, ex);
    }
    if (vs_p("range")) {
        // nowhere outside 0 dB .. gain
        double f = vs_freq("f", 1, 0, 0.5);
        double h = std::norm(g.response(f));
        within("range", h, 1.0, G2);
    }
    if (CHEB && (sym & 5) == 5) {
        // the ends of the boosted band: gain or gain - ripple (equiripple of order n)
        double B2 = std::pow(10.0, (vs_p("boost") ? gain - r : gain + r) / 10);
        vs_eqr("ripple_end", std::norm(KIND == 1 ? b : a), n & 1 ? G2 : B2, 1e3);
        vs_eqr("ripple_end", std::norm(g.response(fc)), B2, 1e3);
    }
    if (CHEB && !(sym & 3)) {
        // boosted band between gain - ripple and gain
        double lo = KIND == 0 ? 0.0 : KIND == 1 ? fc : fc - fw / 2, hi = KIND == 0 ? fc : KIND == 1 ? 0.5 : fc + fw / 2;
        double B2 = std::pow(10.0, (gain > 0 ? gain - r : gain + r) / 10);
        double f = vs_freq("fb", 1, lo, hi);
        within("ripple", std::norm(g.response(f)), B2, G2);
        within("ripple_end", std::norm(g.response(KIND == 0 ? 0.0 : KIND == 1 ? 0.5 : lo)), B2, G2);
        within("ripple_end", std::norm(g.response(KIND == 0 ? hi : KIND == 1 ? lo : hi)), B2, G2);
    }
    vs_reach("end");
}
#define SH(P, NS, CH) \
    CASE(P##_ls) { shelf<NS::LowShelf<VS_N>, 0, CH>(); } CASE(P##_hs) { shelf<NS::HighShelf<VS_N>, 1, CH>(); } CASE(P##_sh) { shelf<NS::BandShelf<VS_N>, 2, CH>(); }
SH(bw, Butterworth, false)
SH(c1, ChebyshevI, true)
SH(c2, ChebyshevII, true)
