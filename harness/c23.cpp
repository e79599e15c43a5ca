// C23: filter objects are independent of each other
#include "filters.h"
using namespace Iir;
#ifndef VS_N
#define VS_N 3
#endif
// uniform adaptors: type T, setup variant v (0, 1 admissible, 2 refused), sections
template <class D, int N_, class S> struct Ord {
    typedef typename D::template FS<N_, S> T;
    static constexpr int NS = D::band ? N_ : (N_ + 1) / 2;
    static int setup(T& f, int v) {
        double a[4];
        some_args<D>(a, v & 1);
        if (v == 2) a[0] = 0.75;
        if (v == 3) return VS_TRY(D::setN(f, N_ + 1, a));
        if (v == 4) return VS_TRY(D::setN(f, N_, a));
        return VS_TRY(D::setN(f, v ? 1 : vs_p("n"), a));
    }
    static Biquad* secs(T& f) { return f.getCascadeStorage().stageArray; }
    static void report(const char* l, T& f, T& g) {
        vs_check(l, f.getNumStages() == g.getNumStages());
        auto p = f.getPoleZeros(), q = g.getPoleZeros();
        vs_check(l, p.size() == q.size());
        for (size_t i = 0; i < p.size() && i < q.size(); i++) {
            vs_eq(l, p[i].poles.first.real(), q[i].poles.first.real(), 0); vs_eq(l, p[i].poles.second.imag(), q[i].poles.second.imag(), 0);
            vs_eq(l, p[i].zeros.first.real(), q[i].zeros.first.real(), 0); vs_eq(l, p[i].zeros.second.imag(), q[i].zeros.second.imag(), 0);
        }
        if (f.getNumStages()) { auto a = f.response(0.19), b = g.response(0.19); vs_eq(l, a.real(), b.real(), 0); vs_eq(l, a.imag(), b.imag(), 0); }
    }
};
template <class D> struct Rbj {
    typedef typename D::template F<1> T;
    static constexpr int NS = 1;
    static int setup(T& f, int v) {
        double a[4];
        some_args<D>(a, v & 1);
        if (v == 2 || v == 3) a[0] = v == 2 ? 0.75 : VS_NAN;
        return VS_TRY(D::setN(f, a));
    }
    static Biquad* secs(T& f) { return &f; }
    static void report(const char* l, T& f, T& g) { auto a = f.response(0.19), b = g.response(0.19); vs_eq(l, a.real(), b.real(), 0); vs_eq(l, a.imag(), b.imag(), 0); }
};
template <int N, class S> struct Sos {
    typedef Custom::SOSCascade<N, S> T;
    static constexpr int NS = N;
    static int setup(T& f, int v) {
        double s[N][6];
        for (int i = 0; i < N; i++) for (int j = 0; j < 6; j++) s[i][j] = 0.25 + i * 0.5 - j * 0.125 * (v & 1 ? -1 : 1) + (j == 3);
        if (v == 2) s[N - 1][3] = 0;
        if (v == 3) s[N - 1][0] = VS_NAN;
        return VS_TRY(f.setup(s));
    }
    static Biquad* secs(T& f) { return f.getCascadeStorage().stageArray; }
    static void report(const char*, T&, T&) {}
};
template <class A> static void same(const char* l, typename A::T& f, typename A::T& g, int k) {
    for (int i = 0; i < A::NS; i++) eq_biquad(l, A::secs(f)[i], A::secs(g)[i]);
    A::report(l, f, g);
    for (int i = 0; i < k; i++) { double x = any_real("x"); vs_eq(l, f.filter(x), g.filter(x), 0); }
}
template <class T> static void run(T& f, int k) { for (int i = 0; i < k; i++) f.filter(any_real("u")); }
template <class T> struct Box { // an object whose end of life can be chosen
    alignas(T) unsigned char mem[sizeof(T)];
    T* p = nullptr;
    template <class... X> T& make(X&&... x) { p = new (mem) T(x...); return *p; }
    void end() { p->~T(); p = nullptr; vs_poison(mem, sizeof(mem)); }
};
// something done to one object
template <class A> static void act(int what, Box<typename A::T>& b) {
    switch (what) {
    case 0: A::setup(*b.p, 1); break;
    case 1: run(*b.p, 3); break;
    case 2: b.p->reset(); break;
    case 3: A::setup(*b.p, 2); A::setup(*b.p, 3); break;
    case 4: b.end(); break;
    case 5: { typename A::T o; A::setup(o, 1); run(o, 2); *b.p = o; A::setup(*b.p, 1); run(*b.p, 1); break; }
    case 6: A::setup(*b.p, 4); run(*b.p, 1); A::setup(*b.p, 1); b.p->reset(); run(*b.p, 2); b.end(); break;
    }
}
// f is copied to g; t lives the same life without ever being copied.  "which": the object acted on, 0 original, 1 copy
template <class A> static void copied() {
    Box<typename A::T> f, g;
    typename A::T t;
    f.make();
    if (vs_p("before")) { A::setup(*f.p, 0); A::setup(t, 0); for (int i = 0; i < 3; i++) { double x = any_real("x"); f.p->filter(x); t.filter(x); } }
    g.make((const typename A::T&)*f.p);
    int w = vs_p("which");
    act<A>(vs_p("what"), w ? g : f);
    typename A::T& o = w ? *f.p : *g.p;
    same<A>("continues", o, t, 4);
    // later setups of the survivor are its own as well
    vs_check("result", A::setup(o, 1) == A::setup(t, 1));
    same<A>("continues", o, t, 3);
    o.reset(); t.reset();
    same<A>("continues", o, t, 2);
    vs_reach("end");
}
// g = f; from then on things happen to one of them and the other one must not change: its twin has the same past
template <class A> static void assigned() {
    Box<typename A::T> f, g;
    typename A::T f2, g2;
    f.make(); g.make();
    int b = vs_p("before");
    if (b & 1) { A::setup(*f.p, 0); A::setup(f2, 0); }
    if (b & 2) { A::setup(*g.p, 1); A::setup(g2, 1); }
    for (int i = 0; i < 3; i++) { double x = any_real("x"), y = any_real("y"); f.p->filter(x); f2.filter(x); g.p->filter(y); g2.filter(y); }
    *g.p = *f.p; g2 = f2;
    vs_check("storage", A::secs(*g.p) != A::secs(*f.p));
    int w = vs_p("which");
    act<A>(vs_p("what"), w ? g : f);
    typename A::T &o = w ? *f.p : *g.p, &t = w ? f2 : g2;
    same<A>("assigned", o, t, 4);
    vs_check("result", A::setup(o, 0) == A::setup(t, 0));
    same<A>("assigned", o, t, 3);
    vs_reach("end");
}
// other filters of every family working in between make no difference
template <class T, class U> static void other(T set, U run) { set(); run(); }
static void noise() {
    Butterworth::LowPass<3> a; ChebyshevI::BandStop<2> b; ChebyshevII::HighPass<3> c; RBJ::LowShelf d; Custom::SOSCascade<2> e; ChebyshevI::LowPass<3> h; ChebyshevII::LowShelf<2> k; Butterworth::BandShelf<2> m;
    a.setupN(0.3); b.setupN(0.2, 0.1, 3); c.setupN(2, 0.2, 30); d.setupN(0.1, 5); h.setupN(3, 0.2, 2); k.setupN(0.2, 7, 1); m.setupN(2, 0.2, 0.1, -6);
    double s[2][6] = {{1, 2, 3, 4, 1, 0.5}, {1, 0, 0, 1, 0.5, 0}};
    e.setup(s);
    double x = any_real("u");
    a.filter(x); b.filter(x); c.filter(x); d.filter(x); e.filter(x); h.filter(x); k.filter(x); m.filter(x);
    VS_TRY(a.setupN(7, 0.1)); VS_TRY(b.setupN(0.2, -1, 3)); VS_TRY(h.setupN(0.7, 1));
    a.reset(); b.reset();
}
template <class A> static void life(bool noisy, const double* x, double* y, Biquad* c) {
    typename A::T f;
    int k = 0;
    if (noisy) noise();
    for (int v : {4, 0, 2, 1, 4, 0}) {
        A::setup(f, v);
        if (noisy) { noise(); typename A::T g; A::setup(g, v ^ 1); A::setup(g, v); run(g, 2); }
        for (int i = 0; i < 2; i++) { y[k] = f.filter(x[k]); k++; if (noisy && v == 0) noise(); }
        for (int i = 0; i < A::NS; i++) *c++ = A::secs(f)[i];
        if (v == 2) f.reset();
    }
    if (noisy) noise();
}
template <class A> static void separate() {
    double x[12], y[12], z[12];
    Biquad c[6 * A::NS], d[6 * A::NS];
    for (double& v : x) v = any_real("x");
    life<A>(false, x, y, c);
    life<A>(true, x, z, d);
    for (int i = 0; i < 12; i++) vs_eq("separate", y[i], z[i], 0);
    for (int i = 0; i < 6 * A::NS; i++) eq_biquad("separate", c[i], d[i]);
    // two objects used alternately
    typename A::T f, g, r;
    A::setup(f, 0); A::setup(g, 1); A::setup(r, 0);
    for (int i = 0; i < 4; i++) { double s = any_real("x"); f.filter(s); g.filter(any_real("u")); r.filter(s); }
    A::setup(g, 0); g.reset();
    same<A>("separate", f, r, 2);
    vs_reach("end");
}
// no operation writes data that several objects (and so several threads) would share; everything has been used once before
template <class A> static void shared() {
    long h = 0;
    for (int round = 0; round < 2; round++) {
        typename A::T f;
        run(f, 1);
        for (int v : {0, 1, 4, 2, 3, 0, 1}) {
            A::setup(f, v);
            if (round) vs_check("shared", vs_globals() == h);
            run(f, 2);
            if (v == 4) f.reset();
        }
        typename A::T g(f);
        run(g, 1); A::setup(g, 0); g = f; run(g, 1);
        A::report("report", g, g);
        noise();
        if (round) vs_check("shared", vs_globals() == h);
        h = vs_globals();
    }
    vs_reach("end");
}
template <class A> static void go() {
    switch (vs_p("mode")) { case 0: copied<A>(); break; case 1: assigned<A>(); break; case 3: shared<A>(); break; default: separate<A>(); }
}
#define BODY(NAME) switch (vs_p("state")) { case 0: go<Ord<NAME, VS_N, DirectFormII>>(); break; case 1: go<Ord<NAME, VS_N, DirectFormI>>(); break; default: go<Ord<NAME, VS_N, TransposedDirectFormII>>(); }
CASE(ordered) { FOR_ORDERED }
#undef BODY
#define BODY(NAME) go<Rbj<NAME>>();
CASE(cookbook) { FOR_RBJ }
#undef BODY
CASE(sos) {
    switch (vs_p("state")) { case 0: go<Sos<3, DirectFormII>>(); break; case 1: go<Sos<3, DirectFormI>>(); break; default: go<Sos<3, TransposedDirectFormII>>(); }
}
