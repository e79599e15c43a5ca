// C15: RBJ shelves
#include "vs.h"
using namespace Iir;
static double f0, gain, s, fp;
static void args(bool bw) {
    f0 = vs_freq("f0", 1, 0, 0.5);
    gain = vs_db("g", vs_p("den"), -60, 60);
    s = bw ? vs_real("s", 0.05, 8, 0) : vs_real("s", 0.05, 1, 0);
}
static double lin(double db) { return std::pow(10.0, db / 20); }
static void one(const char* l, const cplx& h, double re) { vs_eqr(l, h.real(), re, 1.0); vs_eqr(l, h.imag(), 0, 1.0); }
template <class F> static void inverse(F& a, F& b, const char* l) {
    // H_g H_-g = 1 as rational functions
    double n[5] = {a.m_b0 * b.m_b0, a.m_b0 * b.m_b1 + a.m_b1 * b.m_b0, a.m_b0 * b.m_b2 + a.m_b1 * b.m_b1 + a.m_b2 * b.m_b0, a.m_b1 * b.m_b2 + a.m_b2 * b.m_b1, a.m_b2 * b.m_b2};
    double d[5] = {1, a.m_a1 + b.m_a1, a.m_a2 + a.m_a1 * b.m_a1 + b.m_a2, a.m_a1 * b.m_a2 + a.m_a2 * b.m_a1, a.m_a2 * b.m_a2};
    for (int i = 0; i < 5; i++) vs_eqr(l, n[i], d[i], 1.0);
}
// the whole response: cookbook prototype in s = j x, x = tan(pi f) / tan(pi f0)
// low shelf H = A (s^2 + sqrt(A) k s + A) / (A s^2 + sqrt(A) k s + 1), high shelf: s -> 1/s, k = sqrt((A + 1/A)(1/S - 1) + 2)
static double x_of() { double f = vs_freq("fp", 1, 0, 0.5); fp = f; return std::tan(M_PI * f) / std::tan(M_PI * f0); }
static void ratio(const cplx& h, double nr, double ni, double dr, double di) {
    double s = (ab(nr) + ab(ni) + ab(dr) + ab(di)) * (1 + lin(ab(gain)));
    vs_eqr("prototype", h.real() * dr - h.imag() * di, nr, VS_SCALE(s));
    vs_eqr("prototype", h.real() * di + h.imag() * dr, ni, VS_SCALE(s));
}
template <class F> static void edge_shelf(bool low, bool dflt) {
    args(false);
    F g; if (dflt) g.setupN(f0, gain); else g.setupN(f0, gain, s);
    double G = lin(gain);
    one("boost", g.response(low ? 0 : 0.5), G);
    one("flat", g.response(low ? 0.5 : 0), 1);
    vs_eqr("cutoff", std::norm(g.response(f0)), G, 1.0);
    double A = std::pow(10.0, gain / 40), x = x_of(), m = std::sqrt(A) * (dflt ? std::sqrt(2.0) : std::sqrt((A + 1 / A) * (1 / s - 1) + 2));
    if (low) ratio(g.response(fp), A * (A - x * x), A * m * x, 1 - A * x * x, m * x);
    else ratio(g.response(fp), A * (1 - A * x * x), A * m * x, A - x * x, m * x);
    F h; if (dflt) h.setupN(f0, -gain); else h.setupN(f0, -gain, s);
    inverse(g, h, "inverse");
    vs_reach("end");
}
CASE(lowshelf) { edge_shelf<RBJ::LowShelf>(true, false); }
CASE(highshelf) { edge_shelf<RBJ::HighShelf>(false, false); }
CASE(lowshelf_default) { edge_shelf<RBJ::LowShelf>(true, true); }
CASE(highshelf_default) { edge_shelf<RBJ::HighShelf>(false, true); }
CASE(bandshelf) {
    args(true);
    RBJ::BandShelf g; g.setupN(f0, gain, s);
    one("dc", g.response(0), 1);
    one("nyquist", g.response(0.5), 1);
    vs_eqr("centre", std::norm(g.response(f0)), sq(lin(gain)), 1.0);
    // (s^2 + 2 A al s / sin w0 + 1) / (s^2 + 2 al s / (A sin w0) + 1), al = sin w0 sinh(ln 2 / 2 bw w0 / sin w0)
    double A = std::pow(10.0, gain / 40), x = x_of(), w0 = 2 * doublePi * f0, m = 2 * std::sinh(doubleLn2 / 2 * s * w0 / std::sin(w0));
    ratio(g.response(fp), 1 - x * x, A * m * x, 1 - x * x, m * x / A);
    RBJ::BandShelf h; h.setupN(f0, -gain, s);
    inverse(g, h, "inverse");
    vs_reach("end");
}
