// C08: every valid design is stable (Schur-Cohn conditions of every section)
#include "laws.h"
#ifndef VS_N
#define VS_N 8
#endif
using namespace Iir;
static void stable(const Biquad& b) {
    double a0 = b.getA0(), a1 = b.getA1() / a0, a2 = b.getA2() / a0;
    vs_lt("a2_upper", a2, 1);
    vs_lt("a2_lower", -1, a2);
    vs_lt("a1_upper", a1, 1 + a2);
    vs_lt("a1_lower", -a1, 1 + a2);
}
// left-half-plane image of z^2 + a1 z + a2 under z = (1+s)/(1-s)
static void image(const Biquad& b, double* c) {
    double a0 = b.getA0(), a1 = b.getA1() / a0, a2 = b.getA2() / a0;
    c[0] = 1 + a1 + a2; c[1] = 2 * (1 - a2); c[2] = 1 - a1 + a2;
}
// two sections together (both images of one analogue pole pair): Hurwitz conditions of the
// product; they hold if and only if all four poles are inside the unit circle
static void stable2(const Biquad& a, const Biquad& b) {
    double p[3], q[3], c[5] = {0, 0, 0, 0, 0};
    image(a, p); image(b, q);
    for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) c[i + j] += p[i] * q[j];
    for (int i = 0; i < 5; i++) vs_lt("coefficient", 0, c[i]);
    vs_lt("hurwitz", 0, c[1] * c[2] * c[3] - c[1] * c[1] * c[4] - c[3] * c[3] * c[0]);
}
template <class D> static void ordered() {
    typename D::template F<VS_N> f;
    int n = vs_p("n"), sym = vs_p("sym");
    const char* k = D::kinds();
    double a[4], gain = 0, ripple = 0;
    bool shelf = vs_p("cls") % 7 >= 4;
    if ((sym & 4) && shelf) {
        // every gain, and for Chebyshev shelves every ripple below it (see C13)
        if (vs_p("cls") < 7) gain = 20 * std::log10(ipow(vs_real("rho", 0.125, 8, 0), 2 * n));
        else {
            double V = vs_real("V", 1.01, 8, 0), U = vs_real("U", 1.001, 16, 0);
            if (vs_p("boost")) vs_assume(U < V); else vs_assume(V < U);
            double u = ipow(U, n), v = ipow(V, n), G = (u - 1 / u) / (v - 1 / v), Gb = (u + 1 / u) / (v + 1 / v);
            gain = -20 * std::log10(G);
            ripple = 20 * std::log10(vs_p("boost") ? Gb / G : G / Gb);
        }
    }
    for (int i = 0; k[i]; i++) {
        switch (k[i]) {
        case 'f': a[i] = sym & 1 ? vs_freq("fc", 1, 0, 0.5) : vs_pd("fc"); break;
        case 'w': a[i] = sym & 2 ? vs_freq("fw", 2, vs_pd("wlo"), vs_pd("whi")) : vs_pd("fw"); break;
        case 'g': a[i] = sym & 4 ? gain : vs_pd("g"); break;
        case 'r':
            if ((sym & 4) && shelf) a[i] = ripple;
            else if (sym & 4) {
                double rho = vs_real("rho", 1.0001, vs_pd("rhi"), 0), e = ipow(rho, 2 * n), q = vs_p("cls") >= 14 ? (e + 1) / (2 * ipow(rho, n)) : (e + 1) / (e - 1);
                a[i] = 20 * std::log10(q);
            } else a[i] = vs_pd("r");
            break;
        }
    }
    if (D::band && (sym & 3)) { vs_assume(a[0] - a[1] / 2 > 0.0001); vs_assume(a[0] + a[1] / 2 < 0.4999); }
    D::setN(f, n, a);
    int m = f.getNumStages();
    vs_check("stages", m == (D::band ? n : (n + 1) / 2));
    int i = 0;
    if (D::band && (sym & 3)) for (; i + 1 < m; i += 2) stable2(f[i], f[i + 1]);
    for (; i < m; i++) stable(f[i]);
    vs_reach("end");
}
#define BODY(NAME) ordered<NAME>();
CASE(design) { FOR_ORDERED }
#undef BODY
template <class D> static void rbj() {
    typename D::template F<1> f;
    const char* k = D::kinds();
    double a[3];
    for (int i = 0; k[i]; i++) {
        switch (k[i]) {
        case 'f': a[i] = vs_freq("fc", 1, 0, 0.5); break;
        case 'q': a[i] = vs_real("q", 0.001, 1000, 0); break;
        case 'g': a[i] = vs_db("g", 80, -120, 120); break;
        case 's': a[i] = vs_real("s", 0.01, 1, 0); break;
        }
    }
    D::setN(f, a);
    stable(f);
    vs_reach("end");
}
#define BODY(NAME) rbj<NAME>();
CASE(cookbook) { FOR_RBJ }
