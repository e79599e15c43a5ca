// C04: samples of any arithmetic type are processed in double precision
#include "filters.h"
#include <climits>
using namespace Iir;
template <class T> struct In;
#define INT(T, L, H) template <> struct In<T> { static T get() { return (T)vs_int("x", L, H); } static void eq(const char* l, T a, T b) { vs_check(l, a == b); } };
INT(int, INT_MIN, INT_MAX) INT(short, SHRT_MIN, SHRT_MAX) INT(signed char, SCHAR_MIN, SCHAR_MAX)
INT(unsigned char, 0, UCHAR_MAX) INT(unsigned short, 0, USHRT_MAX) INT(unsigned, 0, INT_MAX)
template <> struct In<long long> {
    // any 32-bit value, or (wide) values that need 54 to 57 bits
    static long long get(int k = 0) {
        static const long long big[4] = {9007199254740993LL, -9007199254740995LL, (1LL << 56) + 9, -(3LL << 54) - 1};
                return vs_p("wide") ? big[k & 3] : (long long)vs_int("x", INT_MIN, INT_MAX);
    }
    static void eq(const char* l, long long a, long long b) { vs_check(l, a == b); }
};
template <> struct In<float> { static float get() { return (float)any_real("x"); } static void eq(const char* l, float a, float b) { vs_eq(l, a, b, 0); } };
template <> struct In<double> { static double get() { return any_real("x"); } static void eq(const char* l, double a, double b) { vs_eq(l, a, b, 0); } };
// the specification: the sections one after the other, everything in double
template <class S, int NS> struct Chain {
    S st[NS];
    Biquad c[NS];
    int n = 0;
    template <class F> void take(F& f) { n = nsec(f); for (int i = 0; i < n; i++) c[i] = sec(f, i); }
    void take(Biquad* p, int k) { n = k; for (int i = 0; i < n; i++) c[i] = p[i]; }
    double filter(double x) { for (int i = 0; i < n; i++) x = st[i].filter(x, c[i]); return x; }
};
template <class T> static T next(int i) { if constexpr (std::is_same<T, long long>::value) return In<T>::get(i); else return In<T>::get(); }
template <class T, class F, class R> static void run(F& f, R& r, const char* l) {
    int K = vs_p("K");
    for (int i = 0; i < K; i++) {
        T x = next<T>(i);
        T y = f.filter(x);
        In<T>::eq(l, y, (T)r.filter((double)x));
    }
}
template <class F, class R> static void types(F& f, R& r) {
    switch (vs_p("type")) {
    case 0: run<float>(f, r, "float"); break;
    case 1: run<int>(f, r, "int"); break;
    case 2: run<short>(f, r, "short"); break;
    case 3: run<long long>(f, r, "longlong"); break;
    case 4: run<signed char>(f, r, "char"); break;
    case 5: run<double>(f, r, "double"); break;
    case 7: run<unsigned char>(f, r, "uchar"); break;
    case 8: run<unsigned short>(f, r, "ushort"); break;
    case 9: run<unsigned>(f, r, "uint"); break;
    // types in turn on the same object
    case 6: for (int i = 0; i < 2; i++) { run<float>(f, r, "float"); run<double>(f, r, "double"); run<short>(f, r, "short"); } break;
    }
    // afterwards the delay lines are those of the double run
    for (int i = 0; i < 3; i++) {
        double x = any_real("z");
        vs_eq("state", f.filter(x), r.filter(x), 0);
    }
    vs_reach("end");
}
#ifndef VS_N
#define VS_N 4
#endif
template <class D, int N, class S> static void ordered() {
    typename D::template FS<N, S> f;
    Chain<S, N> r;
    double a[4]; some_args<D>(a, vs_p("v"));
    D::setN(f, a);
    r.take(f);
    types(f, r);
}
#define BODY(NAME) switch (vs_p("state")) { case 0: ordered<NAME, VS_N, DirectFormI>(); break; case 1: ordered<NAME, VS_N, DirectFormII>(); break; case 2: ordered<NAME, VS_N, TransposedDirectFormII>(); break; }
CASE(designed) { FOR_ORDERED }
#undef BODY
#define BODY(NAME) { NAME::F<1> f; Chain<DirectFormI, 1> r; double a[4]; some_args<NAME>(a, vs_p("v")); NAME::setN(f, a); r.take(f); types(f, r); }
CASE(cookbook) { FOR_RBJ }
#undef BODY
template <class S> static void sos() {
    double s[3][6];
    for (int i = 0; i < 3; i++) for (int j = 0; j < 6; j++) s[i][j] = any_real("c");
    Custom::SOSCascade<3, S> f;
    Chain<S, 3> r;
    if (VS_TRY(f.setup(s))) return;
    r.take(f.getCascadeStorage().stageArray, 3);
    types(f, r);
}
CASE(sos_df1) { sos<DirectFormI>(); }
CASE(sos_df2) { sos<DirectFormII>(); }
CASE(sos_tdf2) { sos<TransposedDirectFormII>(); }
