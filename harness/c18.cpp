// C18: a setup overrides every earlier setup and keeps the delay lines
#include "filters.h"
using namespace Iir;
#ifndef VS_N
#define VS_N 4
#endif
template <class D> static void final_args(double* a) {
    if (vs_p("sym") == 2) { any_args<D>(a); return; }
    some_args<D>(a, vs_p("v"));
    if (vs_p("sym") == 1) {
        a[0] = vs_freq("fc", 1, 0, 0.5);
        if (D::band) { a[1] = vs_freq("fw", 2, 0, 0.245); vs_assume(a[0] - a[1] / 2 > 0.0001); vs_assume(a[0] + a[1] / 2 < 0.4999); }
    }
}
// arguments of an earlier setup: each one either that of the final setup or a different one
template <class D> static void other_args(double* o, const double* a) {
    double d[4];
    if (vs_p("sym") == 2) any_args<D>(d, 1);
    else some_args<D>(d, vs_p("v") ^ 1);
    for (int i = 0; i < D::n; i++) {
        if (i < 2 && vs_p("sym") == 1 && (D::kinds()[i] == 'f' || D::kinds()[i] == 'w')) { o[i] = d[i]; continue; }
        char k = D::kinds()[i];
        switch (vs_choice("differs", vs_p("sym") == 0 && (k == 'g' || k == 'r') ? 4 : 2)) {
        case 0: o[i] = a[i]; break;
        case 1: o[i] = d[i]; vs_assume(o[i] != a[i]); break;
        case 2: o[i] = a[i] * (1 + 1e-4); break;                     // almost the same
        default: o[i] = k == 'g' ? 2 * a[i] : a[i] / 4; break;        // same sign, another magnitude
        }
    }
}
template <class D, class F> static void rejected(F& f, int kind, int n, const double* a, int N) {
    double b[4];
    for (int i = 0; i < D::n; i++) b[i] = a[i];
    int r;
    switch (kind) {
    case 0: r = VS_TRY(D::setN(f, N + 1, b)); break;
    case 1: r = VS_TRY(D::setN(f, 0, b)); break;
    case 2: b[0] = 0.5; r = VS_TRY(D::setN(f, n, b)); break;
    case 3: b[0] = VS_NAN; r = VS_TRY(D::setN(f, n, b)); break;
    default:
        for (int i = 1; i < D::n; i++) {
            char k = D::kinds()[i];
            if (k == 'r' || k == 'w') b[i] = -1;
            if (k == 'g') b[i] = VS_NAN;
        }
        if (D::n == 1) b[0] = -0.25;
        r = VS_TRY(D::setN(f, n, b));
    }
    vs_check("rejects", r == 1);
}
template <class D, int N, class S> static void history() {
    typename D::template FS<N, S> f, g;
    double a[4], o[4];
    int h = vs_p("h"), n1 = vs_p("n1"), n2 = vs_p("n2");
    final_args<D>(a); other_args<D>(o, a);
    int ra = 0;
    if (h & 1) ra = VS_TRY(D::setN(f, n2, a));
    ra |= VS_TRY(D::setN(f, n1, o));
    if (h & 2) {
        int k = vs_choice("rejected", 5);
        rejected<D>(f, k, vs_p("rn"), vs_choice("with", 2) ? a : o, N);
    }
    int rf = VS_TRY(D::setN(f, n2, a)), rg = VS_TRY(D::setN(g, n2, a));
    vs_check("same_result", rf == rg);
    if (rf == 0 && rg == 0) {
        vs_check("stages", f.getNumStages() == g.getNumStages());
        Biquad *p = f.getCascadeStorage().stageArray, *q = g.getCascadeStorage().stageArray;
        for (int i = 0; i < (D::band ? N : (N + 1) / 2); i++) {
            if (vs_p("sym") == 1) {
                vs_eqr("coefficients", p[i].m_a0, q[i].m_a0, 1); vs_eqr("coefficients", p[i].m_a1, q[i].m_a1, 1); vs_eqr("coefficients", p[i].m_a2, q[i].m_a2, 1);
                vs_eqr("coefficients", p[i].m_b0, q[i].m_b0, 1); vs_eqr("coefficients", p[i].m_b1, q[i].m_b1, 1); vs_eqr("coefficients", p[i].m_b2, q[i].m_b2, 1);
            } else eq_biquad("coefficients", p[i], q[i]);
        }
        vs_reach("end");
    }
}
#define BODY(NAME) history<NAME, VS_N, DirectFormII>();
CASE(ordered) { FOR_ORDERED }
#undef BODY
// running filter: the delay lines are those of the samples processed so far
template <class S, int NS> struct Ref {
    S st[NS];
    Biquad c[NS];
    template <class F> void take(F& f) { Biquad* p = f.getCascadeStorage().stageArray; for (int i = 0; i < NS; i++) c[i] = p[i]; }
    double filter(double x) { for (int i = 0; i < NS; i++) x = st[i].filter(x, c[i]); return x; }
};
template <class D, int N, class S> static void running() {
    constexpr int NS = D::band ? N : (N + 1) / 2;
    typename D::template FS<N, S> f;
    Ref<S, NS> r;
    int K = vs_p("K");
    double a[4], o[4];
    some_args<D>(a, 0); some_args<D>(o, 1);
    int orders[5] = {N, 2, N, 1, N - 1};
    for (int s = 0; s < 5; s++) {
        D::setN(f, orders[s], s % 2 ? o : a);
        r.take(f);
        for (int i = 0; i < K; i++) { double x = any_real("x"); vs_eq("running", f.filter(x), r.filter(x), 0); }
        rejected<D>(f, s, 2, a, N);
        for (int i = 0; i < 2; i++) { double x = any_real("x"); vs_eq("after_rejected", f.filter(x), r.filter(x), 0); }
    }
    vs_reach("end");
}
template <class D> static void st() {
    switch (vs_p("state")) {
    case 0: running<D, 5, DirectFormI>(); break;
    case 1: running<D, 5, DirectFormII>(); break;
    case 2: running<D, 5, TransposedDirectFormII>(); break;
    }
}
#define BODY(NAME) st<NAME>();
CASE(run) { FOR_ORDERED }
#undef BODY
template <class D> static void rbj() {
    typename D::template F<1> f, g;
    double a[4], o[4];
    any_args<D>(a); any_args<D>(o, 1);
    DirectFormI st; Biquad c;
    int K = vs_p("K");
    if (VS_TRY(D::setN(f, o))) return;
    c = f;
    for (int i = 0; i < K; i++) { double x = any_real("x"); vs_eq("running", f.filter(x), st.filter(x, c), 0); }
    int rf = VS_TRY(D::setN(f, a)), rg = VS_TRY(D::setN(g, a));
    vs_check("same_result", rf == rg);
    if (rf || rg) return;
    eq_biquad("coefficients", f, g);
    c = g;
    for (int i = 0; i < K; i++) { double x = any_real("x"); vs_eq("running", f.filter(x), st.filter(x, c), 0); }
    vs_reach("end");
}
#define BODY(NAME) rbj<NAME>();
CASE(cookbook) { FOR_RBJ }
#undef BODY
template <class S> static void sos() {
    double s[2][6], t[2][6];
    for (int i = 0; i < 2; i++) for (int j = 0; j < 6; j++) { s[i][j] = any_real("c"); t[i][j] = any_real("d"); }
    Custom::SOSCascade<2, S> f, g;
    Ref<S, 2> r;
    if (VS_TRY(f.setup(t))) return;
    r.take(f);
    int K = vs_p("K");
    for (int i = 0; i < K; i++) { double x = any_real("x"); vs_eq("running", f.filter(x), r.filter(x), 0); }
    int rf = VS_TRY(f.setup(s)), rg = VS_TRY(g.setup(s));
    vs_check("same_result", rf == rg);
    if (rf || rg) return;
    Biquad *p = f.getCascadeStorage().stageArray, *q = g.getCascadeStorage().stageArray;
    for (int i = 0; i < 2; i++) eq_biquad("coefficients", p[i], q[i]);
    r.take(g);
    for (int i = 0; i < K; i++) { double x = any_real("x"); vs_eq("running", f.filter(x), r.filter(x), 0); }
    vs_reach("end");
}
CASE(sos_df1) { sos<DirectFormI>(); }
CASE(sos_df2) { sos<DirectFormII>(); }
CASE(sos_tdf2) { sos<TransposedDirectFormII>(); }
// raw setters of a section
CASE(section) {
    Biquad p, q;
    int k1 = vs_choice("first", 4), k2 = vs_choice("second", 4);
    auto set = [](Biquad& b, int k, double a0, double a1, double a2, double b0, double b1, double b2) -> int {
        switch (k) {
        case 0: return VS_TRY(b.setCoefficients(a0, a1, a2, b0, b1, b2));
        case 1: return VS_TRY(b.setOnePole(complex_t(a0, 0), complex_t(a1, 0)));
        case 2: return VS_TRY(b.setTwoPole(complex_t(a0, a1), complex_t(b0, b1), complex_t(a0, -a1), complex_t(b0, -b1)));
        default: b.setIdentity(); return 0;
        }
    };
    double c[6];
    for (double& x : c) x = any_real("p");
    set(p, k1, c[0], c[1], c[2], c[3], c[4], c[5]);
    for (double& x : c) x = any_real("q");
    int rp = set(p, k2, c[0], c[1], c[2], c[3], c[4], c[5]), rq = set(q, k2, c[0], c[1], c[2], c[3], c[4], c[5]);
    vs_check("same_result", rp == rq);
    if (rp || rq) return;
    eq_biquad("coefficients", p, q);
    vs_reach("end");
}
