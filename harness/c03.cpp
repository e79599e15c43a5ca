// C03: reset() restores the freshly set-up filter
#include "filters.h"
using namespace Iir;
template <class F, class G> static void same_out(const char* l, F& f, G& g, int L) {
    for (int i = 0; i < L; i++) {
        double x = any_real("y");
        vs_eq(l, f.filter(x), g.filter(x), 0);
    }
}
template <class D, class F> static void ordered(int N) {
    F f; F g;
    double a[4]; some_args<D>(a, vs_p("v"));
    int n = vs_p("n"), K = vs_p("K"), L = vs_p("L");
    D::setN(f, n, a); D::setN(g, n, a);
    for (int i = 0; i < K; i++) (void)f.filter(any_real("x"));
    f.reset();
    eq_filter("coefficients", f, g);
    same_out("reset", f, g, L);
    // history over several setups: every section of the chain is cleared
    F h;
    D::setN(h, N, a);
    for (int i = 0; i < K; i++) (void)h.filter(any_real("x"));
    D::setN(h, 1, a);
    for (int i = 0; i < K; i++) (void)h.filter(any_real("x"));
    h.reset();
    F e; D::setN(e, 1, a);
    same_out("reset_low", h, e, L);
    h.reset();
    D::setN(h, N, a);
    F c; D::setN(c, N, a);
    eq_filter("coefficients", h, c);
    same_out("reset_high", h, c, L);
    vs_reach("end");
}
template <class D, int N> static void pick() {
    switch (vs_p("state")) {
    case 0: ordered<D, typename D::template FS<N, DirectFormI>>(N); break;
    case 1: ordered<D, typename D::template FS<N, DirectFormII>>(N); break;
    case 2: ordered<D, typename D::template FS<N, TransposedDirectFormII>>(N); break;
    }
}
#ifndef VS_N
#define VS_N 6
#endif
#define BODY(NAME) pick<NAME, VS_N>();
CASE(designed) { FOR_ORDERED }
#undef BODY
template <class D> static void rbj() {
    typename D::template F<1> f, g;
    double a[4]; some_args<D>(a, vs_p("v"));
    D::setN(f, a); D::setN(g, a);
    int K = vs_p("K"), L = vs_p("L");
    for (int i = 0; i < K; i++) (void)f.filter(any_real("x"));
    f.reset();
    eq_filter("coefficients", f, g);
    same_out("reset", f, g, L);
    vs_reach("end");
}
#define BODY(NAME) rbj<NAME>();
CASE(cookbook) { FOR_RBJ }
#undef BODY
template <int NS, class S> static void sos() {
    double s[NS][6];
    for (int i = 0; i < NS; i++) for (int j = 0; j < 6; j++) s[i][j] = any_real("c");
    Custom::SOSCascade<NS, S> f, g;
    if (VS_TRY(f.setup(s))) { vs_reach("rejected"); return; }
    g.setup(s);
    int K = vs_p("K"), L = vs_p("L");
    for (int i = 0; i < K; i++) (void)f.filter(any_real("x"));
    f.reset();
    for (int i = 0; i < NS; i++) eq_biquad("coefficients", f.getCascadeStorage().stageArray[i], g.getCascadeStorage().stageArray[i]);
    same_out("reset", f, g, L);
    vs_reach("end");
}
CASE(sos_df1) { sos<3, DirectFormI>(); }
CASE(sos_df2) { sos<3, DirectFormII>(); }
CASE(sos_tdf2) { sos<3, TransposedDirectFormII>(); }
template <class S> static void state() {
    Biquad s;
    if (VS_TRY(s.setCoefficients(any_real("a0"), any_real("a1"), any_real("a2"), any_real("b0"), any_real("b1"), any_real("b2")))) return;
    S p, q;
    int K = vs_p("K"), L = vs_p("L");
    for (int i = 0; i < K; i++) (void)s.filter(any_real("x"), p);
    p.reset();
    for (int i = 0; i < L; i++) {
        double x = any_real("y");
        vs_eq("reset", s.filter(x, p), s.filter(x, q), 0);
    }
    vs_reach("end");
}
CASE(state_df1) { state<DirectFormI>(); }
CASE(state_df2) { state<DirectFormII>(); }
CASE(state_tdf2) { state<TransposedDirectFormII>(); }
