// C02: the three filter structures give the same output sequence
#include "filters.h"
using namespace Iir;
#ifndef VS_N
#define VS_N 5
#endif
CASE(section) {
    double a0 = any_real("a0"), a1 = any_real("a1"), a2 = any_real("a2");
    double b0 = any_real("b0"), b1 = any_real("b1"), b2 = any_real("b2");
    vs_assume(a0 != 0);
    Biquad s; s.setCoefficients(a0, a1, a2, b0, b1, b2);
    DirectFormI p; DirectFormII q; TransposedDirectFormII r;
    int K = vs_p("K");
    for (int i = 0; i < K; i++) {
        double x = any_real("x");
        double y1 = s.filter(x, p), y2 = s.filter(x, q), y3 = s.filter(x, r);
        vs_eqr("df1_df2", y1, y2, VS_SCALE(ab(y1))); vs_eqr("df1_tdf2", y1, y3, VS_SCALE(ab(y1)));
    }
    vs_reach("end");
}
template <class A, class B, class C> static void run(A& f, B& g, C& h, int K) {
    for (int i = 0; i < K; i++) {
        double x = any_real("x");
        double y1 = f.filter(x), y2 = g.filter(x), y3 = h.filter(x);
        vs_eqr("df1_df2", y1, y2, VS_SCALE(ab(y1))); vs_eqr("df1_tdf2", y1, y3, VS_SCALE(ab(y1)));
    }
}
template <int NS> static void sos() {
    double s[NS][6];
    for (int i = 0; i < NS; i++) for (int j = 0; j < 6; j++) s[i][j] = j == 3 ? 1.0 : any_real("c");
    Custom::SOSCascade<NS, DirectFormI> f(s); Custom::SOSCascade<NS, DirectFormII> g(s); Custom::SOSCascade<NS, TransposedDirectFormII> h(s);
    run(f, g, h, vs_p("K"));
    vs_reach("end");
}
CASE(sos2) { sos<2>(); }
CASE(sos3) { sos<3>(); }
template <class D, int N> static void designed() {
    typename D::template FS<N, DirectFormI> f; typename D::template FS<N, DirectFormII> g; typename D::template FS<N, TransposedDirectFormII> h;
    double a[4]; some_args<D>(a, vs_p("v"));
    int n = vs_p("n"), K = vs_p("K");
    if (n) { D::setN(f, n, a); D::setN(g, n, a); D::setN(h, n, a); }
    else { D::setN(f, a); D::setN(g, a); D::setN(h, a); }
    run(f, g, h, K);
    // the same after a reset and with another order
    f.reset(); g.reset(); h.reset();
    int m = VS_N > 1 ? 2 : 1;
    D::setN(f, m, a); D::setN(g, m, a); D::setN(h, m, a);
    run(f, g, h, K);
    vs_reach("end");
}
#define BODY(NAME) designed<NAME, VS_N>();
CASE(des) { FOR_ORDERED }
