// C16: setup overloads, explicit order and default arguments
#include "filters.h"
using namespace Iir;
// every argument symbolic; b: the same in units of the sampling rate
template <class D> static double all_args(double* a, double* b) {
    const char* k = D::kinds();
    double fs = vs_real("fs", 0.001, 1e6, 0);
    if (vs_p("real")) {
        for (int i = 0; k[i]; i++) switch (k[i]) {
            case 'f': a[i] = vs_freq("fc", 1, 0, 0.5); break;
            case 'w': a[i] = vs_freq("fw", 2, 0, 0.245); break;
            case 'r': a[i] = vs_p("v") == 2 ? vs_real("r", 0.01, 3, 0) : vs_p("v") ? 2.5 : 1; break;
            case 'g': a[i] = vs_p("v") == 2 ? vs_real("g", 4, 60, 0) : vs_p("v") ? -8 : 6; break;
            case 'q': a[i] = vs_real("q", 0.01, 1000, 0); break;
            case 's': a[i] = vs_real("s", 0.01, 1, 0); break;
        }
        if (D::band) { vs_assume(a[0] - a[1] / 2 > 0.0001); vs_assume(a[0] + a[1] / 2 < 0.4999); }
        for (int i = 0; k[i]; i++) b[i] = k[i] == 'f' || k[i] == 'w' ? a[i] * fs : a[i];
    } else {
        any_args<D>(b);
        for (int i = 0; k[i]; i++) a[i] = k[i] == 'f' || k[i] == 'w' ? b[i] / fs : b[i];
    }
    return fs;
}
template <class F, class G> static void same(const char* l, int r, int q, F& f, G& g) {
    vs_check(l, r == q);
    if (r || q) return;
    int n = nsec(f);
    vs_check(l, n == nsec(g));
    for (int i = 0; i < n; i++) {
        const Biquad &p = sec(f, i), &q = sec(g, i);
        vs_eqr(l, p.m_a0, q.m_a0, 1); vs_eqr(l, p.m_a1, q.m_a1, 1); vs_eqr(l, p.m_a2, q.m_a2, 1);
        vs_eqr(l, p.m_b0, q.m_b0, 1); vs_eqr(l, p.m_b1, q.m_b1, 1); vs_eqr(l, p.m_b2, q.m_b2, 1);
    }
}
template <class D, int N> static void ordered() {
    double a[4], b[4], fs = all_args<D>(a, b);
    typename D::template F<N> n, m, s, t;
    // without order
    int rn = VS_TRY(D::setN(n, a)), rs = VS_TRY(D::set(s, fs, b));
    same("rate", rs, rn, s, n);
    int rm = VS_TRY(D::setN(m, N, a)), rt = VS_TRY(D::set(t, N, fs, b));
    same("order", rm, rn, m, n);
    same("order_rate", rt, rn, t, n);
    if (N > 1) {
        typename D::template F<N> u, v;
        int ru = VS_TRY(D::setN(u, N - 1, a)), rv = VS_TRY(D::set(v, N - 1, fs, b));
        same("lower_order_rate", rv, ru, v, u);
    }
    if (!rn) vs_reach("end");
}
#ifndef VS_N
#define VS_N 8
#endif
// large template orders, given design arguments, every sampling rate; every explicit order
template <class D, int N> static void large() {
    const char* k = D::kinds();
    double a[4], b[4], fs = vs_real("fs", 0.001, 1e6, 0);
    some_args<D>(a, vs_p("v"));
    for (int i = 0; k[i]; i++) b[i] = k[i] == 'f' || k[i] == 'w' ? a[i] * fs : a[i];
    typename D::template F<N> n, s;
    int rn = VS_TRY(D::setN(n, a)), rs = VS_TRY(D::set(s, fs, b));
    vs_check("accepted", !rn);
    same("rate", rs, rn, s, n);
    for (int o = N; o > 0; o = o > 3 && o < N - 1 ? o / 2 : o - 1) {
        typename D::template F<N> m, t;
        int rm = VS_TRY(D::setN(m, o, a)), rt = VS_TRY(D::set(t, o, fs, b));
        vs_check("accepted", !rm);
        same("order_rate", rt, rm, t, m);
        if (o == N) same("order", rm, rn, m, n);
    }
    vs_reach("end");
}
// given arguments, refused and extreme ones included; rates without rounding
template <class D, int N> static void given() {
    static const double F[] = {0.2, 0, 0.5, -0.1, 0.499, VS_NAN, 0.03, 0.31}, W[] = {0.1, 0, -0.1, 0.45, VS_NAN, 0.02}, G[] = {6, 0, -8, 40, -60, VS_NAN, 0.25}, R[] = {1, 0, -1, 3, 12, 70, VS_NAN, 0.02},
                        Q[] = {0.7, 0, -1, 5, 2000, VS_NAN, 0.01}, S[] = {1, 0, -1, 0.3, 7, VS_NAN}, FS[] = {1, 4096, 0.5};
    const char* k = D::kinds();
    double a[4], b[4];
    double fs = FS[vs_p("fs")];
    for (int i = 0; k[i]; i++) {
        switch (k[i]) {
        case 'f': a[i] = F[vs_choice("fc", 8)]; break;
        case 'w': a[i] = W[vs_choice("fw", 6)]; break;
        case 'g': a[i] = G[vs_choice("g", 7)]; break;
        case 'r': a[i] = R[vs_choice("r", 8)]; break;
        case 'q': a[i] = Q[vs_choice("q", 7)]; break;
        case 's': a[i] = S[vs_choice("s", 6)]; break;
        }
        b[i] = k[i] == 'f' || k[i] == 'w' ? a[i] * fs : a[i];
    }
    typename D::template F<N> n, s;
    int rn = VS_TRY(D::setN(n, a)), rs = VS_TRY(D::set(s, fs, b));
    same("rate", rs, rn, s, n);
    if constexpr (D::ordered) {
        typename D::template F<N> m, t;
        same("order", VS_TRY(D::setN(m, N, a)), rn, m, n);
        same("order_rate", VS_TRY(D::set(t, N, fs, b)), rn, t, n);
        if (N > 1) {
            typename D::template F<N> u, v;
            int ru = VS_TRY(D::setN(u, 1, a)), rv = VS_TRY(D::set(v, 1, fs, b));
            same("lower_order_rate", rv, ru, v, u);
        }
    }
    vs_reach("end");
}
#define BODY(NAME) switch (vs_p("n")) { case 1: given<NAME, 1>(); break; case 2: given<NAME, 2>(); break; case 3: given<NAME, 3>(); break; default: given<NAME, 4>(); }
CASE(given) { FOR_ALL }
#undef BODY
#define BODY(NAME) large<NAME, VS_N>();
CASE(large) { FOR_ORDERED }
#undef BODY
#define BODY(NAME) switch (vs_p("n")) { case 1: ordered<NAME, 1>(); break; case 2: ordered<NAME, 2>(); break; case 3: ordered<NAME, 3>(); break; case 4: ordered<NAME, 4>(); break; case 5: ordered<NAME, 5>(); break; case 6: ordered<NAME, 6>(); break; }
CASE(designed) { FOR_ORDERED }
#undef BODY
template <class D> static void rbj() {
    double a[4], b[4], fs = all_args<D>(a, b);
    typename D::template F<1> n, s;
    int rn = VS_TRY(D::setN(n, a)), rs = VS_TRY(D::set(s, fs, b));
    same("rate", rs, rn, s, n);
    if (!rn) vs_reach("end");
}
#define BODY(NAME) rbj<NAME>();
CASE(cookbook) { FOR_RBJ }
#undef BODY
// omitted optional arguments
template <class F> static void dflt_q(double q) {
    double fs = vs_real("fs", 0.001, 1e6, 0), fn = vs_p("real") ? vs_freq("fc", 1, 0, 0.5) : 0.0, f = vs_p("real") ? fn * fs : any_real("f");
    if (!vs_p("real")) fn = f / fs;
    F a, b, c;
    int ra = VS_TRY(a.setupN(fn)), rb = VS_TRY(b.setupN(fn, q)), rc = VS_TRY(c.setup(fs, f));
    same("default", ra, rb, a, b);
    same("default_rate", rc, rb, c, b);
    if (!rb) vs_reach("end");
}
template <class F> static void dflt_s() {
    double fs = vs_real("fs", 0.001, 1e6, 0), fn = vs_p("real") ? vs_freq("fc", 1, 0, 0.5) : 0.0, f = vs_p("real") ? fn * fs : any_real("f");
    double g = vs_real("g", -200, 200, 0);
    if (!vs_p("real")) fn = f / fs;
    F a, b, c;
    int ra = VS_TRY(a.setupN(fn, g)), rb = VS_TRY(b.setupN(fn, g, 1.0)), rc = VS_TRY(c.setup(fs, f, g));
    same("default", ra, rb, a, b);
    same("default_rate", rc, rb, c, b);
    if (!rb) vs_reach("end");
}
CASE(default_lp) { dflt_q<RBJ::LowPass>(1 / std::sqrt(2.0)); }
CASE(default_hp) { dflt_q<RBJ::HighPass>(1 / std::sqrt(2.0)); }
CASE(default_ap) { dflt_q<RBJ::AllPass>(1 / std::sqrt(2.0)); }
CASE(default_notch) { dflt_q<RBJ::IIRNotch>(10); }
CASE(default_ls) { dflt_s<RBJ::LowShelf>(); }
CASE(default_hs) { dflt_s<RBJ::HighShelf>(); }
