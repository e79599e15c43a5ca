// Butterworth low-/high-pass: |H(f)|^2 = 1/(1+(tan(pi f)/tan(pi fc))^(+-2n))
#include "vs.h"
template <int N> void law(bool high, int order) {
    double fc = vs_freq("fc", 1, 0, 0.5);
    double f = vs_freq("f", 1, 0, 0.5);
    cplx H, H0, H5, Hc;
    if (high) {
        Iir::Butterworth::HighPass<N> g; g.setupN(order, fc);
        H = g.response(f); H0 = g.response(0); H5 = g.response(0.5); Hc = g.response(fc);
    } else {
        Iir::Butterworth::LowPass<N> g; g.setupN(order, fc);
        H = g.response(f); H0 = g.response(0); H5 = g.response(0.5); Hc = g.response(fc);
    }
    double w = high ? std::tan(M_PI * fc) / std::tan(M_PI * f) : std::tan(M_PI * f) / std::tan(M_PI * fc);
    double p = 1; for (int i = 0; i < 2 * order; i++) p *= w;
    vs_eq("law", std::norm(H) * (1 + p), 1.0, 1e-9);
    vs_eq("half_power", 2 * std::norm(Hc), 1.0, 1e-9);
    vs_eq("pass_end_re", high ? H5.real() : H0.real(), 1.0, 1e-9);
    vs_eq("pass_end_im", high ? H5.imag() : H0.imag(), 0.0, 1e-9);
    vs_eq("stop_end", std::norm(high ? H0 : H5), 0.0, 1e-12);
    vs_reach("end");
}
CASE(lp) { vs_p("n") > 8 ? law<16>(false, vs_p("n")) : law<8>(false, vs_p("n")); }
CASE(hp) { vs_p("n") > 8 ? law<16>(true, vs_p("n")) : law<8>(true, vs_p("n")); }
