// C07: reported poles and zeros are the roots of denominator and numerator
#include "filters.h"
using namespace Iir;
static double TOL = 0;
static void eqt(const char* l, double a, double b, double scale) {
    if (TOL == 0) vs_eqr(l, a, b, VS_SCALE(scale)); else vs_eq(l, a, b, TOL);
}
// the pair holds exactly the roots of a0 z^2 + a1 z + a2 (single: a0 z + a1)
static void roots(const char* l, const ComplexPair& p, double a0, double a1, double a2, bool single) {
    if (single) {
        eqt(l, p.first.imag(), 0, 0);
        eqt(l, p.first.real() * a0, -a1, 0);
        eqt(l, a2, 0, 0);
        return;
    }
    cplx s(p.first.real() + p.second.real(), p.first.imag() + p.second.imag());
    cplx m(p.first.real() * p.second.real() - p.first.imag() * p.second.imag(), p.first.real() * p.second.imag() + p.first.imag() * p.second.real());
    eqt(l, s.real() * a0, -a1, 1); eqt(l, s.imag() * a0, 0, 1);
    eqt(l, m.real() * a0, a2, 1); eqt(l, m.imag() * a0, 0, 1);
}
static void section(const PoleZeroPair& p, const Biquad& b) {
    bool single = p.isSinglePole();
    roots("poles", p.poles, b.getA0(), b.getA1(), b.getA2(), single);
    roots("zeros", p.zeros, b.getB0(), b.getB1(), b.getB2(), single);
}
static void same_tf(const char* l, const Biquad& p, const Biquad& q) {
    eqt(l, p.getA1() / p.getA0(), q.getA1() / q.getA0(), 1); eqt(l, p.getA2() / p.getA0(), q.getA2() / q.getA0(), 1);
    eqt(l, p.getB0() / p.getA0(), q.getB0() / q.getA0(), 1); eqt(l, p.getB1() / p.getA0(), q.getB1() / q.getA0(), 1);
    eqt(l, p.getB2() / p.getA0(), q.getB2() / q.getA0(), 1);
}
static void rebuilt(const Biquad& b) {
    Biquad t; t.setPoleZeroForm(BiquadPoleState(b));
    same_tf("rebuild", t, b);
    // used objects behave the same
    Biquad u; u.setCoefficients(2, 1, 0.5, 3, -1, 0.25);
    u.setPoleZeroForm(BiquadPoleState(b));
    same_tf("rebuild", u, b);
}
static void one(const Biquad& b) {
    std::vector<PoleZeroPair> pz = b.getPoleZeros();
    vs_check("count", pz.size() == 1);
    section(pz[0], b);
    BiquadPoleState s(b);
    roots("state_poles", s.poles, b.getA0(), b.getA1(), b.getA2(), s.isSinglePole());
    roots("state_zeros", s.zeros, b.getB0(), b.getB1(), b.getB2(), s.isSinglePole());
    eqt("gain", s.gain * b.getA0(), b.getB0(), 1);
    rebuilt(b);
}
CASE(general) {
    double a0 = any_real("a0"), a1 = any_real("a1"), a2 = any_real("a2"), b0 = any_real("b0"), b1 = any_real("b1"), b2 = any_real("b2");
    vs_assume(a0 != 0); vs_assume(b0 != 0);
    Biquad b; b.setCoefficients(a0, a1, a2, b0, b1, b2);
    one(b);
    vs_reach("end");
}
// special shapes: bit 0 a2=0, bit 1 b2=0, bit 2 a1=0, bit 3 b1=0
CASE(shapes) {
    int m = vs_p("m");
    double a0 = any_real("a0"), a1 = m & 4 ? 0.0 : any_real("a1"), a2 = m & 1 ? 0.0 : any_real("a2"), b0 = any_real("b0"), b1 = m & 8 ? 0.0 : any_real("b1"), b2 = m & 2 ? 0.0 : any_real("b2");
    vs_assume(a0 != 0); vs_assume(b0 != 0);
    Biquad b; b.setCoefficients(a0, a1, a2, b0, b1, b2);
    one(b);
    vs_reach("end");
}
template <class F> static void chain(F& f) {
    std::vector<PoleZeroPair> p = f.getPoleZeros(), q = f.Cascade::getPoleZeros();
    int n = f.getNumStages();
    vs_check("count", (int)p.size() == n && (int)q.size() == n);
    for (int i = 0; i < n; i++) {
        section(p[i], f[i]);
        section(q[i], f[i]);
    }
}
#ifndef VS_N
#define VS_N 6
#endif
template <class D> static void designed() {
    typename D::template F<VS_N> f;
    double a[4]; some_args<D>(a, vs_p("v"));
    TOL = 1e-9;
    int n = vs_p("n");
    D::setN(f, n, a);
    chain(f);
    for (int i = 0; i < f.getNumStages(); i++) rebuilt(f[i]);
    // again after another setup of the same object
    some_args<D>(a, vs_p("v") ^ 1);
    D::setN(f, n == 3 ? VS_N : 3, a);
    chain(f);
    vs_reach("end");
}
#define BODY(NAME) designed<NAME>();
CASE(ordered) { FOR_ORDERED }
#undef BODY
// cutoff symbolic
template <class D> static void symbolic() {
    typename D::template F<6> f;
    double a[4]; some_args<D>(a, vs_p("v"));
    TOL = 0;
    a[0] = vs_freq("fc", 1, 0, 0.5);
    D::setN(f, vs_p("n"), a);
    std::vector<PoleZeroPair> p = f.getPoleZeros();
    int n = f.getNumStages();
    vs_check("count", (int)p.size() == n);
    TOL = 1e-9;
    for (int i = 0; i < n; i++) section(p[i], f[i]);
    vs_reach("end");
}
#define BODY(NAME) symbolic<NAME>();
CASE(ordered_fc) { FOR_ORDERED }
#undef BODY
template <class D> static void rbj() {
    typename D::template F<1> f;
    double a[4]; some_args<D>(a, vs_p("v"));
    TOL = 1e-9;
    D::setN(f, a);
    one(f);
    vs_reach("end");
}
#define BODY(NAME) rbj<NAME>();
CASE(cookbook) { FOR_RBJ }
CASE(one_pole) {
    Custom::OnePole f; double s = any_real("scale");
    vs_assume(s != 0);
    f.setup(s, any_real("pole"), any_real("zero"));
    one(f);
    vs_reach("end");
}
CASE(two_pole) {
    Custom::TwoPole f; double s = any_real("scale");
    vs_assume(s != 0);
    TOL = 1e-9;
    f.setup(s, pos_real("pr"), vs_pd("pt"), pos_real("zr"), vs_pd("zt"));
    TOL = 0;
    one(f);
    vs_reach("end");
}
