// C05: second-order sections import in scipy order
#include "filters.h"
using namespace Iir;
struct Row { double b0, b1, b2, a0, a1, a2, x1, x2, y1, y2; };
template <int NS, class S> static void check(Custom::SOSCascade<NS, S>& f, const double (&sos)[NS][6], int K) {
    double xs[NS + 1][3] = {}; // delay lines of the specification
    double sc = 0;
    for (int k = 0; k < K; k++) {
        double v = any_real("x");
        double y = f.filter(v);
        for (int i = 0; i < NS; i++) {
            const double* r = sos[i];
            double w = (r[0] * v + r[1] * xs[i][1] + r[2] * xs[i][2] - r[4] * xs[i + 1][1] - r[5] * xs[i + 1][2]) / r[3];
            sc = VS_SCALE(ab(r[0] * v) + ab(r[1] * xs[i][1]) + ab(w));
            xs[i][2] = xs[i][1]; xs[i][1] = v; v = w;
        }
        xs[NS][2] = xs[NS][1]; xs[NS][1] = v;
        vs_eqr("transfer_function", y, v, sc);
    }
    auto st = f.getCascadeStorage();
    vs_check("stages", st.maxStages == NS);
    for (int i = 0; i < NS; i++) {
        const Biquad& b = st.stageArray[i];
        vs_eqr("read_b0", b.getB0(), sos[i][0], 0); vs_eqr("read_b1", b.getB1(), sos[i][1], 0); vs_eqr("read_b2", b.getB2(), sos[i][2], 0);
        vs_eqr("read_a0", b.getA0(), sos[i][3], 0); vs_eqr("read_a1", b.getA1(), sos[i][4], 0); vs_eqr("read_a2", b.getA2(), sos[i][5], 0);
    }
}
template <int NS, class S> static void rows() {
    double sos[NS][6];
    int unit = vs_p("unit"); // rows with a0 = 1
    for (int i = 0; i < NS; i++) for (int j = 0; j < 6; j++) {
        sos[i][j] = j == 3 && (unit >> i & 1) ? 1.0 : any_real("c");
        if (j == 3) vs_assume(sos[i][3] != 0);
    }
    switch (vs_p("how")) {
    case 0: { Custom::SOSCascade<NS, S> f(sos); check<NS, S>(f, sos, vs_p("K")); break; }
    case 1: { Custom::SOSCascade<NS, S> f; f.setup(sos); check<NS, S>(f, sos, vs_p("K")); break; }
    case 2: { // reused object
        double old[NS][6];
        for (int i = 0; i < NS; i++) for (int j = 0; j < 6; j++) old[i][j] = j == 3 ? 2.0 : i + j;
        Custom::SOSCascade<NS, S> f(old); f.setup(sos); check<NS, S>(f, sos, vs_p("K")); break; }
    }
    vs_reach("end");
}
#define R(NS) \
CASE(rows##NS##_df1) { rows<NS, DirectFormI>(); } \
CASE(rows##NS##_df2) { rows<NS, DirectFormII>(); } \
CASE(rows##NS##_tdf2) { rows<NS, TransposedDirectFormII>(); }
R(1) R(2) R(3) R(4) R(6) R(12)
// unity gain by default
template <int NS> static void fresh() {
    Custom::SOSCascade<NS> f;
    for (int i = 0; i < 4; i++) { double x = any_real("x"); vs_eqr("unity", f.filter(x), x, 0); }
}
CASE(unity) { fresh<1>(); fresh<2>(); fresh<5>(); vs_reach("end"); }
