// C10: Butterworth band-pass and band-stop
#include "laws.h"
#ifndef VS_N
#define VS_N 8
#endif
using namespace Iir;
template <class F> static void law(F& g, bool stop, int n, double f, double fc, double fw, double tol) {
    Freq2 w = w_band(f, fc, fw);
    if (stop) w = inv(w);
    double a = ipow(w.n, n), b = ipow(w.d, n), h = std::norm(g.response(f));
    vs_eq("law", h - b / (a + b), 0.0, tol);
    // relative in the stop band of the band-pass
    if (!stop) vs_eq("law_rel", h * (a + b) / b, 1.0, tol);
}
template <class F> static void ends(F& g, bool stop, double fc, double fw, double tol) {
    double lo = fc - fw / 2, hi = fc + fw / 2;
    // centre of the warped band: cos(2 pi f) = cos(2 pi fc)/cos(pi fw)
    double ce = std::atan(std::sqrt(std::tan(M_PI * lo) * std::tan(M_PI * hi))) / M_PI;
    vs_eq("edge_low", 2 * std::norm(g.response(lo)), 1.0, tol);
    vs_eq("edge_high", 2 * std::norm(g.response(hi)), 1.0, tol);
    vs_eq("at_dc", std::norm(g.response(0)), stop ? 1.0 : 0.0, tol);
    vs_eq("at_nyquist", std::norm(g.response(0.5)), stop ? 1.0 : 0.0, tol);
    vs_eq("centre", std::norm(g.response(ce)), stop ? 0.0 : 1.0, tol);
}
// numeric band, every frequency
template <class F> static void grid(bool stop) {
    int n = vs_p("n");
    double fc = vs_pd("fc"), fw = vs_pd("fw");
    F g; g.setupN(n, fc, fw);
    double f = vs_freq("f", 1, 0, 0.5);
    law(g, stop, n, f, fc, fw, vs_pd("tol"));
    ends(g, stop, fc, fw, vs_pd("tol"));
    vs_reach("end");
}
CASE(bp_grid) { grid<Butterworth::BandPass<VS_N>>(false); }
CASE(bs_grid) { grid<Butterworth::BandStop<VS_N>>(true); }
// centre and width symbolic
template <class F> static void bands(bool stop) {
    int n = vs_p("n");
    double fc = vs_freq("fc", 1, 0, 0.5), fw = vs_freq("fw", 2, vs_pd("wlo"), vs_pd("whi"));
    vs_assume(fc - fw / 2 > 0.0001);
    vs_assume(fc + fw / 2 < 0.4999);
    F g; g.setupN(n, fc, fw);
    vs_eq("at_dc", std::norm(g.response(0)), stop ? 1.0 : 0.0, 0);
    vs_eq("at_nyquist", std::norm(g.response(0.5)), stop ? 1.0 : 0.0, 0);
    double f = vs_freq("f", 1, 0, 0.5);
    Freq2 w = w_band(f, fc, fw);
    if (stop) w = inv(w);
    double a = ipow(w.n, n), b = ipow(w.d, n);
    vs_assume(a + b > 0); // holds for every admissible f: b = 0 only at the ends
    vs_eqr("law", std::norm(g.response(f)) * (a + b), b, VS_SCALE(a));
    vs_reach("end");
}
CASE(bp_all) { bands<Butterworth::BandPass<VS_N>>(false); }
CASE(bs_all) { bands<Butterworth::BandStop<VS_N>>(true); }
