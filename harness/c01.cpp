// C01: outputs obey the difference equation of the section's coefficients; chains compose
#include "filters.h"
#include <cstring>
using namespace Iir;
// reference: the difference equation over externally visible samples only
struct Ref {
    double x1 = 0, x2 = 0, y1 = 0, y2 = 0;
    double scale = 0;
    double expect(double a0, double a1, double a2, double b0, double b1, double b2, double x) {
        scale = VS_SCALE((ab(b0 * x) + ab(b1 * x1) + ab(b2 * x2) + ab(a1 * y1) + ab(a2 * y2)) / ab(a0));
        return (b0 * x + b1 * x1 + b2 * x2 - a1 * y1 - a2 * y2) / a0;
    }
    void push(double x, double y) { x2 = x1; x1 = x; y2 = y1; y1 = y; }
};
template <class S> static void section() {
    int K = vs_p("K");
    double a0 = any_real("a0"), a1 = any_real("a1"), a2 = any_real("a2");
    double b0 = any_real("b0"), b1 = any_real("b1"), b2 = any_real("b2");
    vs_assume(a0 != 0);
    Biquad s; s.setCoefficients(a0, a1, a2, b0, b1, b2);
    S st;
    Ref r;
    for (int i = 0; i < K; i++) {
        double x = any_real("x");
        double y = s.filter(x, st);
        vs_eqr("difference_equation", y, r.expect(a0, a1, a2, b0, b1, b2, x), r.scale);
        r.push(x, y);
    }
    vs_reach("end");
}
CASE(section_df1) { section<DirectFormI>(); }
CASE(section_df2) { section<DirectFormII>(); }
CASE(section_tdf2) { section<TransposedDirectFormII>(); }
// the delay lines hold arbitrary values (induction step; sizeof state seen as doubles)
template <class S> static void step() {
    double a1 = any_real("a1"), a2 = any_real("a2"), b0 = any_real("b0"), b1 = any_real("b1"), b2 = any_real("b2");
    Biquad s; s.setCoefficients(1, a1, a2, b0, b1, b2);
    S st;
    double mem[sizeof(S) / sizeof(double)];
    for (unsigned i = 0; i < sizeof(S) / sizeof(double); i++) mem[i] = any_real("s");
    std::memcpy((void*)&st, mem, sizeof mem);
    Ref r;
    for (int i = 0; i < 4; i++) {
        double x = any_real("x");
        double y = s.filter(x, st);
        if (i >= 2) vs_eqr("difference_equation", y, r.expect(1, a1, a2, b0, b1, b2, x), r.scale);
        r.push(x, y);
    }
    vs_reach("end");
}
CASE(step_df1) { step<DirectFormI>(); }
CASE(step_df2) { step<DirectFormII>(); }
CASE(step_tdf2) { step<TransposedDirectFormII>(); }
// long run: dyadic coefficients (exact arithmetic), concrete prefix, then symbolic samples
template <class S> static void longrun() {
    int pre = vs_p("pre"), K = vs_p("K");
    Custom::SOSCascade<2, S> c;
    const double sos[2][6] = {{1, 2, 3, 1, -1, 1}, {0.5, -1, 0.25, 2, 0, 2}};
    c.setup(sos);
    Ref r0, r1;
    for (int i = 0; i < pre + K; i++) {
        double x = i < pre ? (i % 9973 == 0 ? 1.0 : 0.0) : any_real("x");
        double y = c.filter(x);
        double m = r0.expect(1, -1, 1, 1, 2, 3, x); r0.push(x, m);
        double e = r1.expect(2, 0, 2, 0.5, -1, 0.25, m); r1.push(m, e);
        if (i >= pre) vs_eqr("late_sample", y, e, r1.scale);
        else if (i % 997 == 0) vs_eqr("early_sample", y, e, r1.scale);
    }
    vs_reach("end");
}
CASE(long_df1) { longrun<DirectFormI>(); }
CASE(long_df2) { longrun<DirectFormII>(); }
CASE(long_tdf2) { longrun<TransposedDirectFormII>(); }
// chain of NS sections with symbolic coefficients
template <int NS, class S> static void chain() {
    int K = vs_p("K");
    double sos[NS][6];
    for (int i = 0; i < NS; i++) for (int j = 0; j < 6; j++) sos[i][j] = j == 3 ? 1.0 : any_real("c");
    Custom::SOSCascade<NS, S> c(sos);
    Ref r[NS];
    for (int k = 0; k < K; k++) {
        double x = any_real("x");
        double y = c.filter(x);
        double v = x;
        for (int i = 0; i < NS; i++) {
            double w = r[i].expect(1, sos[i][4], sos[i][5], sos[i][0], sos[i][1], sos[i][2], v);
            r[i].push(v, w); v = w;
        }
        vs_eqr("composition", y, v, r[0].scale);
    }
    vs_reach("end");
}
CASE(chain2_df1) { chain<2, DirectFormI>(); }
CASE(chain2_df2) { chain<2, DirectFormII>(); }
CASE(chain2_tdf2) { chain<2, TransposedDirectFormII>(); }
CASE(chain3_df1) { chain<3, DirectFormI>(); }
CASE(chain3_df2) { chain<3, DirectFormII>(); }
CASE(chain3_tdf2) { chain<3, TransposedDirectFormII>(); }
// designed filters: concrete design, symbolic samples; the chain is the one the object reports
template <class F> static void run(F& f, int K) {
    int n = nsec(f);
    Ref r[20];
    vs_assume(n <= 20);
    for (int k = 0; k < K; k++) {
        double x = any_real("x");
        double y = f.filter(x);
        double v = x;
        for (int i = 0; i < n; i++) {
            auto& b = sec(f, i);
            double w = r[i].expect(b.getA0(), b.getA1(), b.getA2(), b.getB0(), b.getB1(), b.getB2(), v);
            r[i].push(v, w); v = w;
        }
        vs_eqr("reported_chain", y, v, r[0].scale);
    }
    vs_reach("end");
}
template <class D, int N, class S> static void ordered(int order, int K) {
    typename D::template FS<N, S> f;
    double a[4]; some_args<D>(a, vs_p("v"));
    D::setN(f, order, a);
    run(f, K);
}
template <class D, int N> static void ordered_s(int order, int K) {
    switch (vs_p("state")) {
    case 0: ordered<D, N, DirectFormI>(order, K); break;
    case 1: ordered<D, N, DirectFormII>(order, K); break;
    case 2: ordered<D, N, TransposedDirectFormII>(order, K); break;
    }
}
#ifndef VS_N
#define VS_N 5
#endif
#define BODY(NAME) ordered_s<NAME, VS_N>(vs_p("n"), vs_p("K"));
CASE(designed) { FOR_ORDERED }
#undef BODY
#define BODY(NAME) { NAME::F<1> f; double a[4]; some_args<NAME>(a, vs_p("v")); NAME::setN(f, a); run(f, vs_p("K")); }
CASE(rbj) { FOR_RBJ }
#undef BODY
template <class F, class S> struct Free { F f; S s; int getNumStages() { return 1; } const Biquad& operator[](int) { return f; } double filter(double x) { return f.filter(x, s); } };
template <class S> static void custom() {
    Free<Custom::OnePole, S> o; o.f.setup(1.5, 0.75, -0.5); run(o, vs_p("K"));
    Free<Custom::TwoPole, S> t; t.f.setup(0.5, 0.875, 0.5, 0.75, 2.5); run(t, vs_p("K"));
}
CASE(custom_df1) { custom<DirectFormI>(); }
CASE(custom_df2) { custom<DirectFormII>(); }
CASE(custom_tdf2) { custom<TransposedDirectFormII>(); }
