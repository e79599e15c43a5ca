// C20: no setup leaves NaN coefficients behind
#include "filters.h"
using namespace Iir;
#ifndef VS_N
#define VS_N 3
#endif
static void clean(const Biquad& b) {
    vs_check("nan_a0", b.getA0() == b.getA0()); vs_check("nan_a1", b.getA1() == b.getA1()); vs_check("nan_a2", b.getA2() == b.getA2());
    vs_check("nan_b0", b.getB0() == b.getB0()); vs_check("nan_b1", b.getB1() == b.getB1()); vs_check("nan_b2", b.getB2() == b.getB2());
    vs_check("nan_m", b.m_a1 == b.m_a1 && b.m_a2 == b.m_a2 && b.m_b0 == b.m_b0 && b.m_b1 == b.m_b1 && b.m_b2 == b.m_b2);
}
static void done(int r, const Biquad& b) {
    vs_check("exception", r == 0 || r == 1);
    clean(b);
    vs_reach(r ? "rejected" : "end");
}
CASE(coefficients) {
    Biquad b;
    int r = VS_TRY(b.setCoefficients(any_real("a0"), any_real("a1"), any_real("a2"), any_real("b0"), any_real("b1"), any_real("b2")));
    done(r, b);
}
CASE(scale) {
    Biquad b;
    if (VS_TRY(b.setCoefficients(any_real("a0"), any_real("a1"), any_real("a2"), any_real("b0"), any_real("b1"), any_real("b2")))) return;
    done(VS_TRY(b.applyScale(any_real("s"))), b);
}
CASE(one_pole) {
    Biquad b;
    done(VS_TRY(b.setOnePole(any_cplx("p"), any_cplx("z"))), b);
}
CASE(two_pole) {
    Biquad b;
    complex_t p1(any_cplx("p")), z1(any_cplx("z")), p2, z2;
    // second pole and zero: the conjugate, or anything
    p2 = vs_choice("pc", 2) ? std::conj(p1) : any_cplx("p");
    z2 = vs_choice("zc", 2) ? std::conj(z1) : any_cplx("z");
    done(VS_TRY(b.setTwoPole(p1, z1, p2, z2)), b);
}
CASE(pole_zero_form) {
    Biquad b, s;
    if (VS_TRY(s.setCoefficients(any_real("a0"), any_real("a1"), any_real("a2"), any_real("b0"), any_real("b1"), any_real("b2")))) return;
    int r = VS_TRY(b.setPoleZeroForm(BiquadPoleState(s)));
    done(r, b);
}
CASE(custom_one) {
    Custom::OnePole f;
    done(VS_TRY(f.setup(any_real("s"), any_real("p"), any_real("z"))), f);
}
CASE(custom_two) {
    Custom::TwoPole f;
    done(VS_TRY(f.setup(any_real("s"), any_real("pr"), any_real("pt"), any_real("zr"), any_real("zt"))), f);
}
template <class S> static void sos() {
    double s[2][6];
    for (auto& r : s) for (double& c : r) c = any_real("c");
    Custom::SOSCascade<2, S> f;
    int r = VS_TRY(f.setup(s));
    Biquad* p = f.getCascadeStorage().stageArray;
    vs_check("exception", r == 0 || r == 1);
    clean(p[0]); clean(p[1]);
    vs_reach(r ? "rejected" : "end");
}
CASE(sos_setup) { sos<DirectFormII>(); }
CASE(sos_ctor) {
    double s[2][6];
    for (auto& r : s) for (double& c : r) c = any_real("c");
    int r = VS_TRY(Custom::SOSCascade<2> f(s); Biquad* p = f.getCascadeStorage().stageArray; clean(p[0]); clean(p[1]));
    vs_check("exception", r == 0 || r == 1);
    vs_reach(r ? "rejected" : "end");
}
template <class D> static void rbj() {
    typename D::template F<1> f;
    double a[4];
    if (vs_p("wild")) wild_args<D>(a); else any_args<D>(a);
    done(vs_p("rate") ? VS_TRY(D::set(f, any_real("fs"), a)) : VS_TRY(D::setN(f, a)), f);
}
#define BODY(NAME) rbj<NAME>();
CASE(cookbook) { FOR_RBJ }
#undef BODY
template <class D, int N> static void ordered() {
    typename D::template F<N> f;
    double a[4];
    some_args<D>(a, vs_p("v"));
    // one argument (or all) arbitrary, infinite and NaN included
    int i = vs_p("i");
    if (i == -1) wild_args<D>(a);
    else if (i >= 0) a[i] = any_real("x");
    else {
        // every argument either as it is or extreme
        static const double x[] = {VS_NAN, VS_INF, -VS_INF, 0, -0.0, 1e308, -1e308, 1e-310, 0.49999999999999994, 0.25, 1e5, -1e5, 3000};
        int k = -2 - i, c = vs_choice("extreme", sizeof(x) / sizeof(*x));
        a[k] = x[c];
        for (int j = 0; j < D::n; j++)
            if (j != k) { int c2 = vs_choice("other", 6); if (c2) a[j] = x[c2 * 2 - 1]; }
    }
    int r = VS_TRY(D::setN(f, vs_p("n"), a));
    vs_check("exception", r == 0 || r == 1);
    if (!r) {
        Biquad* p = f.getCascadeStorage().stageArray;
        for (int k = 0; k < (D::band ? N : (N + 1) / 2); k++) clean(p[k]);
        vs_reach("end");
    } else vs_reach("rejected");
}
#define BODY(NAME) ordered<NAME, VS_N>();
CASE(designed) { FOR_ORDERED }
#undef BODY
// the last step of every cascade design: an arbitrary digital layout
CASE(layout) {
    int n = vs_p("n");
    CascadeStages<3, DirectFormII> st;
    Cascade c;
    c.setCascadeStorage(st.getCascadeStorage());
    Layout<6> store;
    LayoutBase l = store;
    bool ok = true;
    for (int i = 0; i < n / 2; i++) {
        complex_t p(any_cplx("p")), z(any_cplx("z"));
        ok = ok && !VS_TRY(if (vs_choice("pair", 2)) l.addPoleZeroConjugatePairs(p, z);
                           else l.add(ComplexPair(p, any_cplx("p")), ComplexPair(z, any_cplx("z"))));
    }
    if (ok && n % 2) ok = !VS_TRY(l.add(any_cplx("p"), any_cplx("z")));
    if (!ok) { vs_reach("rejected"); return; }
    l.setNormal(any_real("w"), any_real("gain"));
    int r = VS_TRY(c.setLayout(l));
    vs_check("exception", r == 0 || r == 1);
    Biquad* b = st.getCascadeStorage().stageArray;
    for (int k = 0; k < 3; k++) clean(b[k]);
    vs_reach(r ? "rejected" : "end");
}
