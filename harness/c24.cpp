// C24: custom pole/zero filters realise exactly the given poles and zeros
#include "vs.h"
#include "Iir.h"
using namespace Iir;
// H(z) = s (1 + n1 z^-1 + n2 z^-2) / (1 + d1 z^-1 + d2 z^-2)
static void is(const Biquad& b, double s, double n1, double n2, double d1, double d2) {
    vs_eqr("b0", b.getB0(), s * b.getA0(), 1); vs_eqr("b1", b.getB1(), s * n1 * b.getA0(), 1); vs_eqr("b2", b.getB2(), s * n2 * b.getA0(), 1);
    vs_eqr("a1", b.getA1(), d1 * b.getA0(), 1); vs_eqr("a2", b.getA2(), d2 * b.getA0(), 1);
    vs_check("a0", b.getA0() != 0);
    // the filter itself: s(x + n1 x' + n2 x'') = y + d1 y' + d2 y''
    if (vs_p("run")) {
        DirectFormI st;
        double x1 = 0, x2 = 0, y1 = 0, y2 = 0;
        for (int i = 0; i < 4; i++) {
            double x = vs_real("x", -1, 1, 0), y = st.filter(x, b);
            vs_eqr("filter", y + d1 * y1 + d2 * y2, s * (x + n1 * x1 + n2 * x2), 100);
            x2 = x1; x1 = x; y2 = y1; y1 = y;
        }
    }
}
static void eqz(const char* l, complex_t a, complex_t b) { vs_eqr(l, a.real(), b.real(), 1); vs_eqr(l, a.imag(), b.imag(), 1); }
static double R(const char* n) { return vs_real(n, -10, 10, 0); }
static double P(const char* n) { return vs_real(n, 0, 10, 0); }
CASE(one) {
    double s = R("s"), p = R("p"), z = R("z");
    Custom::OnePole f;
    f.setup(s, p, z);
    is(f, s, -z, 0, -p, 0);
    double w = vs_freq("f", 1, 0, 0.5);
    cplx u(std::cos(2 * M_PI * w), -std::sin(2 * M_PI * w));
    cplx n = s * (1.0 - z * u), d = 1.0 - p * u;
    vs_assume(d.real() != 0 || d.imag() != 0);
    cplx h = f.response(w) * d - n;
    vs_eqr("response", h.real(), 0, 100); vs_eqr("response", h.imag(), 0, 100);
    if (vs_p("pz")) {
        vs_assume(s != 0);
        PoleZeroPair q = f.getPoleZeros()[0];
        eqz("pole", q.poles.first, p); eqz("zero", q.zeros.first, z);
        eqz("pole2", q.poles.second, 0); eqz("zero2", q.zeros.second, 0);
    }
    vs_reach("end");
}
// angles: 2 pi t with every t in (0, 0.5), (-0.5, 0), or a special angle
static double angle(const char* n, int k, double& c, double& si) {
    static const double sp[] = {0, M_PI / 3, M_PI / 2, M_PI, -M_PI / 4, -M_PI / 2, 1.25, 4, 2 * M_PI, -M_PI};
    double t;
    if (k == 0) t = 2 * M_PI * vs_freq(n, 1, 0, 0.5);
    else if (k == 1) t = -2 * M_PI * vs_freq(n, 1, 0, 0.5);
    else t = sp[k - 2];
    c = std::cos(t); si = std::sin(t);
    return t;
}
CASE(two) {
    double s = R("s"), pr = P("pr"), zr = P("zr"), pc, ps, zc, zs;
    double pt = angle("pt", vs_p("pk"), pc, ps), zt = angle("zt", vs_p("zk"), zc, zs);
    Custom::TwoPole f;
    f.setup(s, pr, pt, zr, zt);
    is(f, s, -2 * zr * zc, zr * zr, -2 * pr * pc, pr * pr);
    if (vs_p("pz")) {
        vs_assume(s != 0);
        PoleZeroPair q = f.getPoleZeros()[0];
        // the pair in any order
        eqz("pole_sum", q.poles.first + q.poles.second, 2 * pr * pc); eqz("pole_prod", q.poles.first * q.poles.second, pr * pr);
        eqz("zero_sum", q.zeros.first + q.zeros.second, 2 * zr * zc); eqz("zero_prod", q.zeros.first * q.zeros.second, zr * zr);
    }
    vs_reach("end");
}
// sections set from pairs: k 0 conjugate, 1 real
static void pick(int k, const char* n, complex_t& a, complex_t& b, double& sum, double& prod) {
    double x = R(n), y = R(n);
    if (k == 0) { a = complex_t(x, y); b = complex_t(x, -y); sum = 2 * x; prod = x * x + y * y; }
    else { a = x; b = y; sum = x + y; prod = x * y; }
}
template <class T> static void pairs(T set) {
    complex_t p1, p2, z1, z2;
    double ps, pp, zs, zp;
    pick(vs_p("pk"), "p", p1, p2, ps, pp); pick(vs_p("zk"), "z", z1, z2, zs, zp);
    Biquad b;
    b.setCoefficients(3, 1, 2, 4, 5, 6);
    double s = set(b, p1, z1, p2, z2);
    is(b, s, -zs, zp, -ps, pp);
    vs_reach("end");
}
CASE(two_pole) { pairs([](Biquad& b, complex_t p1, complex_t z1, complex_t p2, complex_t z2) { b.setTwoPole(p1, z1, p2, z2); return 1.0; }); }
CASE(pair) { pairs([](Biquad& b, complex_t p1, complex_t z1, complex_t p2, complex_t z2) { b.setPoleZeroPair(PoleZeroPair(p1, z1, p2, z2)); return 1.0; }); }
CASE(form) {
    pairs([](Biquad& b, complex_t p1, complex_t z1, complex_t p2, complex_t z2) {
        BiquadPoleState s;
        s.poles = ComplexPair(p1, p2); s.zeros = ComplexPair(z1, z2); s.gain = R("g");
        b.setPoleZeroForm(s); return s.gain; });
}
CASE(one_pole) {
    double p = R("p"), z = R("z"), s = R("s");
    Biquad b;
    b.setCoefficients(3, 1, 2, 4, 5, 6);
    switch (vs_p("how")) {
    case 0: b.setOnePole(p, z); s = 1; break;
    case 1: b.setPoleZeroPair(PoleZeroPair(complex_t(p), complex_t(z))); s = 1; break;
    case 2: { BiquadPoleState q; q.poles = ComplexPair(p); q.zeros = ComplexPair(z); q.gain = s; b.setPoleZeroForm(q); break; }
    case 3: b.setOnePole(p, z); b.applyScale(s); break;
    }
    is(b, s, -z, 0, -p, 0);
    vs_reach("end");
}
// rejected: anything that is not a conjugate or real pair (IEEE comparisons, NaN included)
static bool fits(complex_t a, complex_t b) {
    return a.imag() == 0 ? b.imag() == 0 : b.real() == a.real() && b.imag() == -a.imag();
}
CASE(reject_two) {
    complex_t p1(any_cplx("p")), z1(any_cplx("z")), p2(any_cplx("p")), z2(any_cplx("z"));
    Biquad b;
    bool ok = fits(p1, p2) && fits(z1, z2);
    int r = VS_TRY(b.setTwoPole(p1, z1, p2, z2));
    if (!ok) { vs_check("rejected", r == 1); vs_reach("end"); }
}
CASE(reject_pair) {
    complex_t p1(any_cplx("p")), z1(any_cplx("z")), p2(any_cplx("p")), z2(any_cplx("z"));
    Biquad b;
    bool ok = fits(p1, p2) && fits(z1, z2), single = (p2 == complex_t(0) && z2 == complex_t(0));
    int r = VS_TRY(b.setPoleZeroPair(PoleZeroPair(p1, z1, p2, z2)));
    if (!ok && !single) { vs_check("rejected", r == 1); vs_reach("end"); }
    // a single pole or zero must be real
    if (single && (!(p1.imag() == 0) || !(z1.imag() == 0))) vs_check("rejected_single", r == 1);
}
CASE(reject_one) {
    complex_t p(any_cplx("p")), z(any_cplx("z"));
    Biquad b;
    int r = VS_TRY(b.setOnePole(p, z));
    if (!(p.imag() == 0) || !(z.imag() == 0)) { vs_check("rejected", r == 1); vs_reach("end"); }
}
CASE(accept) {
    complex_t p1, p2, z1, z2;
    double ps, pp, zs, zp;
    pick(vs_p("pk"), "p", p1, p2, ps, pp); pick(vs_p("zk"), "z", z1, z2, zs, zp);
    Biquad b;
    vs_check("accepted", VS_TRY(b.setTwoPole(p1, z1, p2, z2)) == 0);
    vs_check("accepted", VS_TRY(b.setPoleZeroPair(PoleZeroPair(p1, z1, p2, z2))) == 0);
    vs_reach("end");
}
