// C19: invalid parameters are always rejected
#include "filters.h"
#include <climits>
using namespace Iir;
#ifndef VS_N
#define VS_N 3
#endif
static double fs = 1;
// overload: 0 setupN(order), 1 setup(order, fs), 2 setupN, 3 setup(fs)
template <class D, class F> static int call(F& f, int ov, int n, const double* a) {
    double b[4];
    if (ov & 1) {
        for (int i = 0; i < D::n; i++) b[i] = D::kinds()[i] == 'f' || D::kinds()[i] == 'w' ? a[i] * fs : a[i];
        a = b;
    }
    if constexpr (D::ordered) {
        switch (ov) {
        case 0: return VS_TRY(D::setN(f, n, a));
        case 1: return VS_TRY(D::set(f, n, fs, a));
        }
    }
    if (ov & 1) return VS_TRY(D::set(f, fs, a));
    return VS_TRY(D::setN(f, a));
}
template <class D, int N> static void order() {
    typename D::template F<N> f;
    double a[4];
    if (vs_p("any")) wild_args<D>(a); else some_args<D>(a, 0);
    int ov = vs_p("ov");
    if (vs_p("before")) { double o[4]; some_args<D>(o, 1); call<D>(f, ov, N, o); if (N > 1) call<D>(f, ov, 1, o); }
    int n = vs_choice("low", 2) ? vs_int("order", INT_MIN, 0) : vs_int("order", N + 1, INT_MAX);
    for (int k = 0; k < 3; k++) vs_check("order", call<D>(f, ov, n, a) == 1);
    vs_reach("end");
}
#define BODY(NAME) order<NAME, VS_N>();
CASE(bad_order) { FOR_ORDERED }
#undef BODY
// one invalid argument (number "i"), the others valid
static double bad(char k, int how) {
    if (how == 2) return VS_NAN;
    switch (k) {
    case 'f': return how ? vs_real("f", 0.5, VS_INF, 0) : vs_real("f", -VS_INF, 0, 2);
    case 'w': return vs_real("w", -VS_INF, 0, 0);
    case 'q': return vs_real("q", -VS_INF, 0, 0);
    }
    return vs_p("den") ? vs_db("r", vs_p("den"), -150, -1e-6) : vs_real("r", -VS_INF, 0, 2);
}
template <class D, int N> static void arg() {
    typename D::template F<N> f;
    double a[4];
    int ov = vs_p("ov"), i = vs_p("i");
    char k = D::kinds()[i];
    int any = vs_p("any");
    if (any == 1) any_args<D>(a, 1); else some_args<D>(a, 0);
    if (any == 2) {
        // the other arguments over their whole range
        static const double FC[] = {0.2, 0.01, 0.45, 0}, W[] = {0.1, 0.3, 0.02}, G[] = {6, -8, 0, 40, -60, 0.25, -2}, R[] = {1, 3, 70, 0.02}, Q[] = {0.7, 0.01, 30, 3000}, S[] = {1, 0.3, 2};
        const char* kk = D::kinds();
        for (int j = 0; kk[j]; j++) switch (j == i ? 0 : kk[j]) {
            case 'f': a[j] = FC[vs_choice("fc", 4)]; break;
            case 'w': a[j] = W[vs_choice("fw", 3)]; break;
            case 'g': a[j] = G[vs_choice("g", 7)]; break;
            case 'r': a[j] = R[vs_choice("r", 4)]; break;
            case 'q': a[j] = Q[vs_choice("q", 4)]; break;
            case 's': a[j] = S[vs_choice("s", 3)]; break;
        }
    }
    int n = D::ordered && ov < 2 ? vs_p("n") : N;
    if (vs_p("before")) { double o[4]; some_args<D>(o, vs_p("before") - 1); call<D>(f, ov, n, o); }
    if (vs_p("fs")) fs = vs_real("fs", 0.001, 1e6, 0);
    a[i] = bad(k, vs_p("how"));
    for (int t = 0; t < 3; t++) vs_check("argument", call<D>(f, ov, n, a) == 1);
    if (vs_p("any")) { vs_reach("end"); return; }
    // after valid calls once more
    double o[4]; some_args<D>(o, 0);
    vs_check("valid", call<D>(f, ov, n, o) == 0);
    vs_check("argument", call<D>(f, ov, n, a) == 1);
    vs_reach("end");
}
#define BODY(NAME) arg<NAME, VS_N>();
CASE(bad_arg) { FOR_ALL }
#undef BODY
#ifdef IIR1_NO_EXCEPTIONS
// compiled without exceptions every rejection ends the program
template <class D, int N> static void abrt() {
    typename D::template F<N> f;
    double a[4]; some_args<D>(a, 0);
    int ov = vs_p("ov"), i = vs_p("i"), n = N;
    if (vs_p("before")) call<D>(f, ov, n, a);
    if (i < 0) n = i == -1 ? vs_int("order", INT_MIN, 0) : vs_int("order", N + 1, INT_MAX);
    else a[i] = bad(D::kinds()[i], vs_p("how"));
    call<D>(f, ov, n, a);
    vs_check("continues", 0);
}
#define BODY(NAME) abrt<NAME, VS_N>();
CASE(aborts) { FOR_ALL }
#endif
