// C06: the reported response is the transfer function of the current coefficients
#include "filters.h"
using namespace Iir;
struct TF { cplx n = 1.0, d = 1.0; };
static void times(TF& t, const Biquad& b, double c1, double s1) { // z^-1 = c1 - i s1
    cplx z1(c1, -s1), z2(c1 * c1 - s1 * s1, -2 * c1 * s1);
    cplx n(b.getB0() + b.getB1() * z1.real() + b.getB2() * z2.real(), b.getB1() * z1.imag() + b.getB2() * z2.imag());
    cplx d(b.getA0() + b.getA1() * z1.real() + b.getA2() * z2.real(), b.getA1() * z1.imag() + b.getA2() * z2.imag());
    t.n = cplx(t.n.real() * n.real() - t.n.imag() * n.imag(), t.n.real() * n.imag() + t.n.imag() * n.real());
    t.d = cplx(t.d.real() * d.real() - t.d.imag() * d.imag(), t.d.real() * d.imag() + t.d.imag() * d.real());
}
static void same(const cplx& H, const TF& t) {
    double re = H.real() * t.d.real() - H.imag() * t.d.imag(), im = H.real() * t.d.imag() + H.imag() * t.d.real();
    double sc = VS_SCALE(ab(re) + ab(im) + ab(t.n.real()) + ab(t.n.imag()));
    vs_eqr("response_re", re, t.n.real(), sc);
    vs_eqr("response_im", im, t.n.imag(), sc);
}
static double freq(double& c, double& s) {
    double f;
    switch (vs_p("at")) {
    case 0: f = 0; c = 1; s = 0; return f;
    case 1: f = 0.5; c = -1; s = 0; return f;
    case 2: f = 0.25; c = 0; s = 1; return f;
    }
    f = vs_freq("f", 1, 0, 0.5);
    c = std::cos(2 * M_PI * f); s = std::sin(2 * M_PI * f);
    return f;
}
static void any_coefs(Biquad& b) {
    double a0 = any_real("a0"), a1 = any_real("a1"), a2 = any_real("a2"), b0 = any_real("b0"), b1 = any_real("b1"), b2 = any_real("b2");
    vs_assume(a0 != 0);
    b.setCoefficients(a0, a1, a2, b0, b1, b2);
}
CASE(section) {
    Biquad b; any_coefs(b);
    double c, s, f = freq(c, s);
    TF t; times(t, b, c, s);
    vs_assume(mag2(t.d) > 0); // no pole exactly at this frequency
    same(b.response(f), t);
    vs_reach("end");
}
// the coefficients are those which filter: response from the impulse response of the running section
CASE(impulse) {
    Biquad b; any_coefs(b);
    double c, s, f = freq(c, s);
    cplx H = b.response(f);
    DirectFormII st;
    double h[5]; for (int i = 0; i < 5; i++) h[i] = b.filter(i ? 0.0 : 1.0, st);
    // a1, a2 (normalised) from h[3], h[4] where the determinant allows it
    double det = h[2] * h[2] - h[3] * h[1];
    vs_assume(det != 0);
    double a1 = (h[4] * h[1] - h[3] * h[2]) / det, a2 = (h[3] * h[3] - h[4] * h[2]) / det;
    double b0 = h[0], b1 = h[1] + a1 * h[0], b2 = h[2] + a1 * h[1] + a2 * h[0];
    cplx z1(c, -s), z2(c * c - s * s, -2 * c * s);
    TF t;
    t.n = cplx(b0 + b1 * z1.real() + b2 * z2.real(), b1 * z1.imag() + b2 * z2.imag());
    t.d = cplx(1 + a1 * z1.real() + a2 * z2.real(), a1 * z1.imag() + a2 * z2.imag());
    vs_assume(mag2(t.d) > 0);
    same(H, t);
    vs_reach("end");
}
// a chain: raw cascade of symbolic sections
struct Chain : CascadeStages<3, DirectFormII>, PoleFilterBase2 {
    Chain(int n) {
        setCascadeStorage(getCascadeStorage());
        LayoutBase l(2 * n, pairs);
        for (int i = 0; i < n; i++) l.addPoleZeroConjugatePairs(cplx(0.25, 0.25), cplx(0.5, 0.5));
        l.setNormal(0, 1);
        Cascade::setLayout(l);
    }
    Biquad& b(int i) { return getCascadeStorage().stageArray[i]; }
    PoleZeroPair pairs[3];
};
CASE(chain) {
    int n = vs_p("n"), p = vs_p("p");
    Chain h(n);
    vs_check("sections", h.getNumStages() == n);
    TF t;
    double c, s, f = freq(c, s);
    for (int i = 0; i < n; i++) {
        if (i == p) h.b(i).setCoefficients(2, -0.5, 0.75, 0.5, 1, -2);
        else h.b(i).setCoefficients(i ? 1 : 2, any_real("a1"), any_real("a2"), any_real("b0"), any_real("b1"), any_real("b2"));
        TF u; times(u, h.b(i), c, s);
        vs_assume(mag2(u.d) > 0);
        times(t, h.b(i), c, s);
    }
    same(h.response(f), t);
    vs_reach("end");
}
template <class F> static void designed(F& g) {
    double c, s, f = freq(c, s);
    TF t;
    int n = nsec(g);
    for (int i = 0; i < n; i++) times(t, sec(g, i), c, s);
    same(g.response(f), t);
    vs_reach("end");
}
#ifndef VS_N
#define VS_N 5
#endif
#define BODY(NAME) { NAME::F<VS_N> g; double a[4]; some_args<NAME>(a, vs_p("v")); NAME::setN(g, vs_p("n"), a); designed(g); }
CASE(ordered) { FOR_ORDERED }
#undef BODY
#define BODY(NAME) { NAME::F<5> g; double a[4]; some_args<NAME>(a, vs_p("v")); NAME::setN(g, a); designed(g); }
CASE(rbj) { FOR_RBJ }
#undef BODY
// a cascade refuses frequencies outside 0..0.5; nothing changes in the filter
template <class D> static void range() {
    typename D::template F<4> g, r;
    double a[4]; some_args<D>(a);
    D::setN(g, a); D::setN(r, a);
    for (int i = 0; i < 2; i++) { double x = any_real("x"); (void)g.filter(x); (void)r.filter(x); }
    double f = any_real("f");
    int t = VS_TRY((void)g.response(f));
    vs_check("range", t == (f < 0 || f > 0.5 ? 1 : 0));
    int t2 = VS_TRY((void)g.response(f)); // every time
    vs_check("range", t2 == t);
    eq_filter("unchanged", g, r);
    for (int i = 0; i < 3; i++) { double x = any_real("y"); vs_eq("state_unchanged", g.filter(x), r.filter(x), 0); }
    vs_reach("end");
}
#define BODY(NAME) range<NAME>();
CASE(ranges) { FOR_ORDERED }
#undef BODY
template <class D> static void noeffect() {
    typename D::template F<4> g, r;
    double a[4]; some_args<D>(a);
    D::setN(g, a); D::setN(r, a);
    for (int i = 0; i < 2; i++) { double x = any_real("x"); (void)g.filter(x); (void)r.filter(x); }
    double f = vs_real("f", 0, 0.5, 0);
    (void)g.response(f);
    eq_filter("unchanged", g, r);
    for (int i = 0; i < 3; i++) { double x = any_real("y"); vs_eq("state_unchanged", g.filter(x), r.filter(x), 0); }
    vs_reach("end");
}
#define BODY(NAME) noeffect<NAME>();
CASE(rbj_noeffect) { FOR_RBJ }
#undef BODY
// what was asked or done before has no influence: frequencies (also nearly equal ones), setups, samples
template <class D> static void history() {
    typename D::template F<4> g, r;
    double a[4], b[4]; some_args<D>(a, 0); some_args<D>(b, 1);
    D::setN(r, b);
    double f[8] = {0.2, 0.2 + 1e-15, 0.2 + 1e-10, 0.3, 0, 0.5, 0.2, 0.2000001};
    double u = vs_real("u", 0, 0.5, 0), v = vs_real("v", 0, 0.5, 0);
    cplx fresh[10];
    for (int i = 7; i >= 0; i--) { (void)r.response(i & 1 ? 0.01 : 0.4); fresh[i] = r.response(f[i]); }
    (void)r.response(0.1); fresh[8] = r.response(u);
    (void)r.response(0.1); fresh[9] = r.response(v);
    D::setN(g, a);
    (void)g.response(u); (void)g.response(0.2); (void)g.getPoleZeros();
    for (int i = 0; i < 3; i++) (void)g.filter(any_real("x"));
    D::setN(g, b);
    for (int i = 0; i < 10; i++) {
        cplx h = g.response(i < 8 ? f[i] : i < 9 ? u : v);
        vs_eq("history", h.real(), fresh[i].real(), 0); vs_eq("history", h.imag(), fresh[i].imag(), 0);
    }
    vs_reach("end");
}
#define BODY(NAME) history<NAME>();
CASE(past) { FOR_ORDERED }
CASE(rbj_past) { FOR_RBJ }
