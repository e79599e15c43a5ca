// C21: a rejected setup leaves the running filter untouched
#include "filters.h"
#include <climits>
using namespace Iir;
#ifndef VS_N
#define VS_N 4
#endif
static void eq_pz(const char* l, const std::vector<PoleZeroPair>& p, const std::vector<PoleZeroPair>& q) {
    vs_check(l, p.size() == q.size());
    for (size_t i = 0; i < p.size() && i < q.size(); i++) {
        const complex_t *a[4] = {&p[i].poles.first, &p[i].poles.second, &p[i].zeros.first, &p[i].zeros.second};
        const complex_t *b[4] = {&q[i].poles.first, &q[i].poles.second, &q[i].zeros.first, &q[i].zeros.second};
        for (int j = 0; j < 4; j++) { vs_eq(l, a[j]->real(), b[j]->real(), 0); vs_eq(l, a[j]->imag(), b[j]->imag(), 0); }
    }
}
static void eq_c(const char* l, cplx a, cplx b) { vs_eq(l, a.real(), b.real(), 0); vs_eq(l, a.imag(), b.imag(), 0); }
// a frequency ('f') or width that must be refused
static double bad(char k) {
    int how = vs_choice(k == 'f' ? "badf" : "badw", k == 'f' ? 3 : 2);
    if (how == 0) return VS_NAN;
    if (k == 'w') return vs_real("w", -VS_INF, 0, 0);
    return how == 1 ? vs_real("f", 0.5, VS_INF, 0) : vs_real("f", -VS_INF, 0, 2);
}
// why: 0 order, 1 frequency, 2 width; other: the other arguments 0 those in use, 1 different ones, 2 anything
template <class D, class F> static void refuse(F& f, int N, const double* cur, double fs) {
    double b[4];
    int why = vs_p("why"), other = vs_p("other"), n = vs_p("rn");
    if (other == 0) for (int i = 0; i < D::n; i++) b[i] = cur[i];
    else if (other == 1) some_args<D>(b, 1);
    else wild_args<D>(b);
    if (why == 0) n = vs_choice("low", 2) ? vs_int("order", INT_MIN, 0) : vs_int("order", N + 1, INT_MAX);
    else b[why - 1] = bad(D::kinds()[why - 1]);
    if (!vs_p("rate")) { vs_check("rejected", VS_TRY(D::setN(f, n, b)) == 1); return; }
    for (int i = 0; i < D::n; i++) if (D::kinds()[i] == 'f' || D::kinds()[i] == 'w') b[i] *= fs;
    vs_check("rejected", VS_TRY(D::set(f, n, fs, b)) == 1);
}
template <class D, int N, class S> static void keeps() {
    constexpr int NS = D::band ? N : (N + 1) / 2;
    typename D::template FS<N, S> f, g;
    double a[4];
    some_args<D>(a, 0);
    int n = vs_p("n");
    if (n) { D::setN(f, n, a); D::setN(g, n, a); }     // n = 0: never set up
    for (int i = 0; i < 3; i++) { double x = any_real("x"); f.filter(x); g.filter(x); }
    for (int r = 0; r < 2; r++) {
        refuse<D>(f, N, a, 1);
        vs_check("stages", f.getNumStages() == g.getNumStages());
        Biquad *p = f.getCascadeStorage().stageArray, *q = g.getCascadeStorage().stageArray;
        for (int i = 0; i < NS; i++) eq_biquad("coefficients", p[i], q[i]);
        eq_pz("poles", f.getPoleZeros(), g.getPoleZeros());
        if (n) eq_c("response", f.response(0.19), g.response(0.19));
        for (int i = 0; i < 4; i++) { double x = any_real("x"); vs_eq("running", f.filter(x), g.filter(x), 0); }
    }
    if (vs_p("other") == 2) { vs_reach("end"); return; }
    // the next valid setup is not disturbed either
    some_args<D>(a, 1);
    D::setN(f, a); D::setN(g, a);
    eq_filter("next", f, g);
    eq_pz("next", f.getPoleZeros(), g.getPoleZeros());
    vs_reach("end");
}
#define BODY(NAME) switch (vs_p("state")) { case 0: keeps<NAME, VS_N, DirectFormI>(); break; case 1: keeps<NAME, VS_N, DirectFormII>(); break; default: keeps<NAME, VS_N, TransposedDirectFormII>(); }
CASE(ordered) { FOR_ORDERED }
#undef BODY
template <class D> static void rbj() {
    typename D::template F<1> f;
    double a[4], b[4];
    some_args<D>(a, 0);
    wild_args<D>(b);
    D::setN(f, a);
    DirectFormI st;
    Biquad c = f;
    for (int i = 0; i < 3; i++) { double x = any_real("x"); f.filter(x); st.filter(x, c); }
    for (int t = 0; t < 2; t++) {
        int r = vs_p("rate") ? VS_TRY(D::set(f, any_real("fs"), b)) : VS_TRY(D::setN(f, b));
        vs_check("exception", r < 2);
        if (r != 1) return;
        eq_biquad("coefficients", f, c);
        eq_pz("poles", f.getPoleZeros(), c.getPoleZeros());
        eq_c("response", f.response(0.19), c.response(0.19));
        for (int i = 0; i < 3; i++) { double x = any_real("x"); vs_eq("running", f.filter(x), st.filter(x, c), 0); }
    }
    vs_reach("end");
}
#define BODY(NAME) rbj<NAME>();
CASE(cookbook) { FOR_RBJ }
#undef BODY
static void raw_keeps(int r, const Biquad& b, const Biquad& c) {
    vs_check("exception", r < 2);
    if (r != 1) return;
    eq_biquad("coefficients", b, c);
    eq_c("response", b.response(0.19), c.response(0.19));
    vs_reach("end");
}
#define PREV(T, b) T b; b.Biquad::setCoefficients(2, -1.5, 0.75, 1, 0.5, 0.25); const Biquad c = b
CASE(coefficients) { PREV(Biquad, b); raw_keeps(VS_TRY(b.setCoefficients(any_real("a0"), any_real("a1"), any_real("a2"), any_real("b0"), any_real("b1"), any_real("b2"))), b, c); }
CASE(one_pole) { PREV(Biquad, b); raw_keeps(VS_TRY(b.setOnePole(any_cplx("p"), any_cplx("z"))), b, c); }
CASE(two_pole) {
    PREV(Biquad, b);
    complex_t p1(any_cplx("p")), z1(any_cplx("z")), p2, z2;
    p2 = vs_choice("pc", 2) ? std::conj(p1) : any_cplx("p");
    z2 = vs_choice("zc", 2) ? std::conj(z1) : any_cplx("z");
    raw_keeps(VS_TRY(b.setTwoPole(p1, z1, p2, z2)), b, c);
}
CASE(pair) {
    PREV(Biquad, b);
    complex_t p1(any_cplx("p")), z1(any_cplx("z")), p2, z2;
    PoleZeroPair s;
    s.poles.first = p1; s.zeros.first = z1;
    if (!vs_choice("single", 2)) {
        s.poles.second = vs_choice("pc", 2) ? std::conj(p1) : any_cplx("p");
        s.zeros.second = vs_choice("zc", 2) ? std::conj(z1) : any_cplx("z");
    }
    raw_keeps(VS_TRY(b.setPoleZeroPair(s)), b, c);
}
CASE(scale) { PREV(Biquad, b); raw_keeps(VS_TRY(b.applyScale(any_real("s"))), b, c); }
CASE(pole_zero_form) {
    PREV(Biquad, b);
    BiquadPoleState s;
    s.poles.first = any_cplx("p"); s.zeros.first = any_cplx("z");
    s.poles.second = vs_choice("pc", 2) ? std::conj(s.poles.first) : any_cplx("p");
    s.zeros.second = vs_choice("zc", 2) ? std::conj(s.zeros.first) : any_cplx("z");
    s.gain = any_real("g");
    raw_keeps(VS_TRY(b.setPoleZeroForm(s)), b, c);
}
CASE(custom_one) { PREV(Custom::OnePole, b); raw_keeps(VS_TRY(b.setup(any_real("s"), any_real("p"), any_real("z"))), b, c); }
CASE(custom_two) { PREV(Custom::TwoPole, b); raw_keeps(VS_TRY(b.setup(any_real("s"), any_real("pr"), any_real("pt"), any_real("zr"), any_real("zt"))), b, c); }
template <class S> static void sos() {
    double s[3][6];
    for (auto& r : s) for (double& c : r) c = any_real("c");
    double good[3][6] = {{1, 0.5, 0.25, 2, -1.5, 0.75}, {1, -1, 0.5, 1, 0.25, 0.125}, {0.5, 0, 0, 1, -0.5, 0}};
    Custom::SOSCascade<3, S> f, g;
    f.setup(good); g.setup(good);
    for (int i = 0; i < 3; i++) { double x = any_real("x"); f.filter(x); g.filter(x); }
    int r = VS_TRY(f.setup(s));
    vs_check("exception", r < 2);
    if (r != 1) return;
    Biquad *p = f.getCascadeStorage().stageArray, *q = g.getCascadeStorage().stageArray;
    for (int i = 0; i < 3; i++) eq_biquad("coefficients", p[i], q[i]);
    for (int i = 0; i < 4; i++) { double x = any_real("x"); vs_eq("running", f.filter(x), g.filter(x), 0); }
    vs_reach("end");
}
CASE(sos_df1) { sos<DirectFormI>(); }
CASE(sos_df2) { sos<DirectFormII>(); }
CASE(sos_tdf2) { sos<TransposedDirectFormII>(); }
