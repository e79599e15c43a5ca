// C22: memory is confined to the filter object and never allocated
#include "filters.h"
#include <climits>
using namespace Iir;
template <class F> static void samples(F& f) {
    // comparing a value with itself: it must not be uninitialised
    double y = f.filter(any_real("x"));
    vs_eq("sample", y, y, 0);
    y = f.filter(any_real("x"));
    vs_eq("sample", y, y, 0);
    f.filter(1.0f); f.filter(3);
}
template <class T> static void pieces(T& f, int used) {
    // sections within the range exist, all others are refused
    for (int i = 0; i < used; i++) vs_check("section", VS_TRY(vs_check("a0", f[i].getA0() != 0)) == 0);
    int k = vs_choice("below", 2) ? vs_int("index", INT_MIN, -1) : vs_int("index", used, INT_MAX);
    vs_check("index", VS_TRY(f[k]) == 1);
}
// what: 0 every order, 1 set up repeatedly, falling and rising orders, 2 rejected orders, 3 copies, 4 never set up
template <class D, int N, class S> static void life() {
    long h = vs_heap_mark();
    typename D::template FS<N, S> f;
    double a[4], o[4];
    some_args<D>(a, 0); some_args<D>(o, 1);
    vs_check("heap_construct", vs_heap_mark() == h);
    int n = N;
    switch (vs_p("what")) {
    case 0:
        n = 1 + vs_choice("order", N);
        D::setN(f, n, a);
        samples(f);
        D::set(f, n, 2.0, o);
        samples(f);
        f.reset();
        samples(f);
        break;
    case 1:
        samples(f);
        for (int k = N; k >= 1; k--) { D::setN(f, k, a); samples(f); }
        D::setN(f, o); samples(f);
        D::set(f, 2.0, o); f.reset(); samples(f);
        for (int k = 1; k <= N; k++) { D::setN(f, k, k % 2 ? a : o); samples(f); }
        break;
    case 2: {
        int k = vs_choice("low", 2) ? vs_int("order", INT_MIN, 0) : vs_int("order", N + 1, INT_MAX);
        VS_TRY(D::setN(f, k, a));
        samples(f);
        D::setN(f, a);
        VS_TRY(D::set(f, k, 2.0, o));
        VS_TRY(D::setN(f, k, o));
        h = vs_heap_mark();
        samples(f);
        f.reset();
        break;
    }
    case 3: {
        D::setN(f, a); samples(f);
        typename D::template FS<N, S> g(f);
        samples(g);
        D::setN(g, o); samples(g); samples(f);
        g = f;
        samples(g);
        break;
    }
    case 5: {
        // everything has been used once; from here on nothing outside the objects changes
        { typename D::template FS<N, S> w; D::setN(w, a); samples(w); typename D::template FS<N, S> c(w); c = w; w.reset(); w.response(0.3); }
        h = vs_heap_mark();
        long m = vs_globals();
        D::setN(f, o); samples(f);
        for (int k = N; k >= 1; k--) { D::set(f, k, 2.0, k % 2 ? a : o); samples(f); }
        VS_TRY(D::setN(f, N + 1, o));
        n = N;
        D::setN(f, o);
        f.reset(); f.response(0.2);
        typename D::template FS<N, S> g(f);
        g = f; samples(g);
        vs_check("static", vs_globals() == m);
        h = vs_heap_mark();
        break;
    }
    case 4: n = 0; f.reset(); samples(f); break;
    }
    vs_check("heap", vs_heap_mark() == h);
    if (n) { vs_check("response", VS_TRY(f.response(0.3)) == 0); }
    pieces(f, n == 0 ? 0 : D::band ? n : (n + 1) / 2);
    if (n) { auto z = f.getPoleZeros(); vs_check("pairs", (int)z.size() == f.getNumStages()); auto y = static_cast<Cascade&>(f).getPoleZeros(); vs_check("pairs", (int)y.size() == f.getNumStages()); }
    // the filter ends its life before the object ends
    vs_reach("end");
}
#ifndef VS_N
#define VS_N 3
#endif
#define BODY(NAME) switch (vs_p("state")) { case 0: life<NAME, VS_N, DirectFormII>(); break; case 1: life<NAME, VS_N, DirectFormI>(); break; default: life<NAME, VS_N, TransposedDirectFormII>(); }
CASE(ordered) { FOR_ORDERED }
#undef BODY
#if VS_N == 3
template <class D> static void rbj() {
    long h = vs_heap_mark();
    typename D::template F<1> f;
    double a[4], o[4];
    if (vs_p("any")) any_args<D>(a); else some_args<D>(a, 0);
    some_args<D>(o, 1);
    samples(f);
    D::setN(f, o); samples(f);
    if (VS_TRY(D::setN(f, a))) return;
    samples(f);
    f.reset(); samples(f);
    D::set(f, 2.0, o); samples(f);
    f.getState();
    typename D::template F<1> g(f);
    samples(g); g = f; samples(g);
    vs_check("heap", vs_heap_mark() == h);
    vs_check("pairs", f.getPoleZeros().size() == 1);
    vs_reach("end");
}
#define BODY(NAME) rbj<NAME>();
CASE(cookbook) { FOR_RBJ }
#undef BODY
template <int N, class S> static void sos() {
    long h = vs_heap_mark();
    double s[N][6];
    for (auto& r : s) { for (double& c : r) c = vs_real("c", -10, 10, 0); r[3] = 2; }
    Custom::SOSCascade<N, S> f;
    samples(f);
    f.setup(s); samples(f); f.reset(); samples(f);
    Custom::SOSCascade<N, S> g(s);
    samples(g);
    g = f; samples(g);
    Custom::SOSCascade<N, S> k(f);
    samples(k);
    auto st = f.getCascadeStorage();
    vs_check("stages", st.maxStages == N);
    for (int i = 0; i < st.maxStages; i++) vs_eq("stage", st.stageArray[i].m_b0, s[i][0] / 2, 1e-9);
    vs_check("heap", vs_heap_mark() == h);
    vs_reach("end");
}
CASE(sos_1) { sos<1, DirectFormI>(); sos<1, DirectFormII>(); sos<1, TransposedDirectFormII>(); }
CASE(sos_4) { sos<4, DirectFormI>(); sos<4, DirectFormII>(); sos<4, TransposedDirectFormII>(); }
CASE(raw) {
    long h = vs_heap_mark();
    Biquad b, c;
    vs_check("a0", b.getA0() == b.getA0() && b.getA1() == b.getA1() && b.getB0() == b.getB0() && b.getB1() == b.getB1() && b.getA2() == b.getA2() && b.getB2() == b.getB2());
    b.response(0.2);
    b.setCoefficients(2, vs_real("c", -9, 9, 0), 1, 1, 2, vs_real("c", -9, 9, 0));
    b.setOnePole(0.5, 0.25); b.setTwoPole(complex_t(0.5, 0.5), complex_t(0.5, 0.25), complex_t(0.5, -0.5), complex_t(0.5, -0.25));
    b.applyScale(2); b.setIdentity();
    Custom::OnePole p; p.setup(1, 0.5, 0.25);
    Custom::TwoPole t; t.setup(1, 0.5, 1, 0.25, 2);
    DirectFormI s1; DirectFormII s2; TransposedDirectFormII s3;
    double y = s1.filter(any_real("x"), t) + s2.filter(any_real("x"), t) + s3.filter(any_real("x"), t);
    vs_eq("sample", y, y, 0);
    s1.reset(); s2.reset(); s3.reset();
    c = b;
    vs_check("heap", vs_heap_mark() == h);
    vs_check("pairs", t.getPoleZeros().size() == 1 && p.getPoleZeros().size() == 1);
    vs_reach("end");
}
// layouts refuse indices of pairs they do not have
CASE(layout) {
    Layout<5> st;
    LayoutBase l = st;
    int n = vs_p("n");
    vs_check("max", l.getMaxPoles() == 5);
    for (int i = 0; i < n / 2; i++) l.addPoleZeroConjugatePairs(complex_t(0.5, 0.25), complex_t(0.5, vs_real("z", -9, 9, 0)));
    if (n & 1) l.add(complex_t(0.5), infinity());
    vs_check("poles", l.getNumPoles() == n);
    for (int i = 0; i < (n + 1) / 2; i++) vs_check("pair", l[i].poles.first.real() == 0.5);
    int k = vs_choice("below", 2) ? vs_int("index", INT_MIN, -1) : vs_int("index", (n + 1) / 2, INT_MAX);
    vs_check("index", VS_TRY(l.getPair(k)) == 1);
    vs_check("index", VS_TRY(l[k]) == 1);
    vs_reach("end");
}
#endif
