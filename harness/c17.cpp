// C17: a lower requested order gives the true lower-order filter
#include "filters.h"
using namespace Iir;
template <class P> static void same_pz(const char* l, const P& p, const P& q) {
    vs_check(l, p.size() == q.size());
    if (p.size() != q.size()) return;
    for (std::size_t i = 0; i < p.size(); i++) {
        const complex_t v[4] = {p[i].poles.first, p[i].poles.second, p[i].zeros.first, p[i].zeros.second};
        const complex_t w[4] = {q[i].poles.first, q[i].poles.second, q[i].zeros.first, q[i].zeros.second};
        for (int k = 0; k < 4; k++) { 
            if (v[k].real() == VS_INF && w[k].real() == VS_INF) continue;
            vs_eqr(l, v[k].real(), w[k].real(), 1); vs_eqr(l, v[k].imag(), w[k].imag(), 1); }
    }
}
template <class F, class G> static void compare(F& f, G& g, int all) {
    // all: number of sections of the bigger filter
    int n = g.getNumStages();
    vs_check("stages", f.getNumStages() == n);
    if (f.getNumStages() != n) return;
    for (int i = 0; i < n; i++) {
        const Biquad &p = f[i], &q = g[i];
        vs_eqr("coefficients", p.m_a0, q.m_a0, 1); vs_eqr("coefficients", p.m_a1, q.m_a1, 1); vs_eqr("coefficients", p.m_a2, q.m_a2, 1);
        vs_eqr("coefficients", p.m_b0, q.m_b0, 1); vs_eqr("coefficients", p.m_b1, q.m_b1, 1); vs_eqr("coefficients", p.m_b2, q.m_b2, 1);
    }
    // surplus sections pass every sample from any delay lines: one section, arbitrary history
    Biquad* st = f.getCascadeStorage().stageArray;
    for (int i = n; i < all; i++) {
        if (vs_p("given")) { vs_check("surplus", st[i].m_b0 == 1 && st[i].m_b1 == st[i].m_a1 && st[i].m_b2 == st[i].m_a2); continue; }
        DirectFormI s;
        for (int k = 0; k < 4; k++) {
            double x = any_real("u");
            vs_eqr("surplus", s.filter(x, st[i]), x, 1);
        }
    }
}
template <class D, int N, int M, class S> static void lower() {
    using F = typename D::template FS<N, S>;
    using G = typename D::template FS<M, S>;
    constexpr int all = D::band ? N : (N + 1) / 2;
    double a[4], o[4];
    some_args<D>(a, vs_p("v")); some_args<D>(o, vs_p("v") ^ 1);
    if (vs_p("sym")) {
        a[0] = vs_freq("fc", 1, 0, 0.5);
        if (D::band) { a[1] = vs_freq("fw", 2, 0, 0.245); vs_assume(a[0] - a[1] / 2 > 0.0001); vs_assume(a[0] + a[1] / 2 < 0.4999); }
    }
    F f; G g;
    int before = vs_p("before");
    if (before == 1) D::setN(f, N, o);
    if (before == 2) { D::setN(f, N, a); D::setN(f, M, o); }
    D::setN(f, M, a); D::setN(g, a);
    compare(f, g, all);
    if (!vs_p("sym")) {
        same_pz("pole_zeros", f.getPoleZeros(), g.getPoleZeros());
        int K = vs_p("K");
        for (int i = 0; i < K; i++) { double x = any_real("x"); vs_eqr("output", f.filter(x), g.filter(x), 1); }
        double w = vs_freq("w", 1, 0, 0.5);
        cplx p = f.response(w), q = g.response(w);
        vs_eqr("response", p.real(), q.real(), 1); vs_eqr("response", p.imag(), q.imag(), 1);
        // with delay lines filled at the higher order: surplus sections still pass through, so
        // the output obeys the recurrence of the single section left
        if (g.getNumStages() == 1) {
            F h; D::setN(h, N, o);
            for (int i = 0; i < K; i++) (void)h.filter(any_real("h"));
            D::setN(h, M, a);
            const Biquad& b = g[0];
            // a transposed section flushes its two delay lines first
            int from = vs_p("state") == 2 ? 4 : 2;
            double x[7], y[7];
            for (int i = 0; i < 7; i++) {
                x[i] = any_real("z"); y[i] = h.filter(x[i]);
                if (i >= from) vs_eqr("running", b.m_a0 * y[i] + b.m_a1 * y[i - 1] + b.m_a2 * y[i - 2], b.m_b0 * x[i] + b.m_b1 * x[i - 1] + b.m_b2 * x[i - 2], 1);
            }
        }
    }
    vs_reach("end");
}
// given arguments over their whole range
template <class D, int N, int M> static void given() {
    static const double FC[] = {0.2, 0.01, 0.45}, W[] = {0.1, 0.3}, G[] = {6, -8, 40, -60, 0.25, 100, -2}, R[] = {1, 3, 70, 0.02};
    constexpr int all = D::band ? N : (N + 1) / 2;
    const char* k = D::kinds();
    double a[4], o[4];
    for (int i = 0; k[i]; i++) switch (k[i]) {
        case 'f': a[i] = FC[vs_choice("fc", 3)]; break;
        case 'w': a[i] = W[vs_choice("fw", 2)]; break;
        case 'g': a[i] = G[vs_choice("g", 7)]; break;
        case 'r': a[i] = R[vs_choice("r", 4)]; break;
    }
    typename D::template F<N> f; typename D::template F<M> g;
    some_args<D>(o, 1);
    D::setN(f, N, o);
    int rf = VS_TRY(D::setN(f, M, a)), rg = VS_TRY(D::setN(g, a));
    vs_check("result", rf == rg);
    if (rf || rg) return;
    compare(f, g, all);
    same_pz("pole_zeros", f.getPoleZeros(), g.getPoleZeros());
    vs_reach("end");
}
template <class D, int N, int M> static void st() {
    if (vs_p("given")) { given<D, N, M>(); return; }
    switch (vs_p("state")) {
    case 0: lower<D, N, M, DirectFormI>(); break;
    case 1: lower<D, N, M, DirectFormII>(); break;
    case 2: lower<D, N, M, TransposedDirectFormII>(); break;
    }
}
#define L(n, m) case n * 100 + m: st<D, n, m>(); break;
template <class D> static void pick() {
    switch (vs_p("N") * 100 + vs_p("M")) {
#ifdef VS_WIDE
    L(20, 19) L(20, 12) L(19, 1)
#else
    L(2, 1) L(3, 2) L(4, 1) L(5, 1) L(5, 2) L(5, 3) L(6, 4) L(8, 5) L(7, 2) L(8, 2)
#endif
    }
}
#define BODY(NAME) pick<NAME>();
CASE(designed) { FOR_ORDERED }
