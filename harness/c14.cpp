// C14: RBJ pass, stop, notch and all-pass filters; every centre frequency and Q
#include "vs.h"
using namespace Iir;
static double f0, q;
static void args() { f0 = vs_freq("f0", 1, 0, 0.5); q = vs_real("q", 0.001, 10000, 0); }
static void one(const char* l, const cplx& h, double re, double im) { vs_eqr(l, h.real(), re, 1.0); vs_eqr(l, h.imag(), im, 1.0); }
static void zero(const char* l, const cplx& h) { one(l, h, 0, 0); }
// the whole response: cookbook prototype in s = j x, x = tan(pi f) / tan(pi f0): H (1 - x^2 + j x / Q) = n0 + n2 x^2 + j n1 x
template <class F> static void prototype(const F& g, double n0, double n1, double n2) {
    double f = vs_freq("fp", 1, 0, 0.5);
    double x = std::tan(M_PI * f) / std::tan(M_PI * f0);
    double re = 1 - x * x, im = x / q;
    cplx h = g.response(f);
    double s = 1 + x * x + im;
    vs_eqr("prototype", h.real() * re - h.imag() * im, n0 + n2 * x * x, VS_SCALE(s * (1 + ab(n1))));
    vs_eqr("prototype", h.real() * im + h.imag() * re, n1 * x, VS_SCALE(s * (1 + ab(n1))));
}
CASE(lowpass) {
    args(); RBJ::LowPass g; g.setupN(f0, q);
    one("dc", g.response(0), 1, 0); zero("nyquist", g.response(0.5));
    vs_eqr("double_zero", g.getB1(), 2 * g.getB0(), 0); vs_eqr("double_zero", g.getB2(), g.getB0(), 0);
    vs_eqr("cutoff", std::norm(g.response(f0)) / (q * q), 1.0, 1.0);
    prototype(g, 1, 0, 0);
    vs_reach("end");
}
CASE(highpass) {
    args(); RBJ::HighPass g; g.setupN(f0, q);
    one("nyquist", g.response(0.5), 1, 0); zero("dc", g.response(0));
    vs_eqr("double_zero", g.getB1(), -2 * g.getB0(), 0); vs_eqr("double_zero", g.getB2(), g.getB0(), 0);
    vs_eqr("cutoff", std::norm(g.response(f0)) / (q * q), 1.0, 1.0);
    prototype(g, 0, 0, -1);
    vs_reach("end");
}
template <class F> static void bandpass(bool skirt) {
    args(); F g; g.setupN(f0, q);
    double p = skirt ? q * q : 1.0;
    zero("dc", g.response(0)); zero("nyquist", g.response(0.5));
    vs_eqr("peak", std::norm(g.response(f0)) / p, 1.0, 1.0);
    double f = vs_freq("f", 1, 0, 0.5);
    vs_le("peak_max", std::norm(g.response(f)), p * (1 + 1e-9));
    prototype(g, 0, skirt ? 1 : 1 / q, 0);
    vs_reach("end");
}
CASE(bandpass1) { bandpass<RBJ::BandPass1>(true); }
CASE(bandpass2) { bandpass<RBJ::BandPass2>(false); }
template <class F> static void zeros(F& g) {
    zero("centre", g.response(f0));
    // both zeros on the unit circle
    vs_eqr("unit_circle", g.getB2(), g.getB0(), 0);
    vs_lt("unit_circle", g.getB1() * g.getB1(), 4 * g.getB0() * g.getB0());
}
CASE(bandstop) {
    args(); RBJ::BandStop g; g.setupN(f0, q);
    zeros(g);
    vs_eqr("dc", std::norm(g.response(0)), 1, 0); vs_eqr("nyquist", std::norm(g.response(0.5)), 1, 0);
    prototype(g, 1, 0, -1);
    vs_reach("end");
}
CASE(notch) {
    args(); RBJ::IIRNotch g; g.setupN(f0, q);
    zeros(g);
    double r = std::exp(-(M_PI * f0) / q);
    vs_eqr("pole_radius", g.getA2(), r * r * g.getA0(), 0);
    vs_lt("pole_pair", g.getA1() * g.getA1(), 4 * g.getA2() * g.getA0());
    vs_reach("end");
}
CASE(notch_default) {
    f0 = vs_freq("f0", 1, 0, 0.5); RBJ::IIRNotch g; g.setupN(f0);
    zeros(g);
    vs_reach("end");
}
CASE(allpass) {
    args(); RBJ::AllPass g; g.setupN(f0, q);
    double f = vs_freq("f", 1, 0, 0.5);
    vs_eqr("gain", std::norm(g.response(f)), 1, 1);
    vs_eqr("gain_ends", std::norm(g.response(0)), 1, 1); vs_eqr("gain_ends", std::norm(g.response(0.5)), 1, 1);
    one("phase", g.response(f0), -1, 0);
    prototype(g, 1, -1 / q, -1);
    vs_reach("end");
}
