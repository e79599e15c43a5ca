H = r'''
#include "Iir.h"
#include <cstdio>
#include <cmath>
#include <cstring>
#include <complex>
#include <limits>
#include <unistd.h>
using namespace Iir;
static int bad(const char* m, double got = 0, double want = 0) { printf("%s (got %.9g, expected %.9g)\n", m, got, want); return 1; }
static bool near(double a, double b, double rel = 1e-9) { return std::fabs(a - b) <= rel * (std::fabs(b) + 1e-300); }
'''
BUGS = []
def B(id, prop, edits, needs, breaks, demo): BUGS.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=H + demo))

B('c01-denormal-flush', 'C01', [('iir/State.h', "		m_v1 = w;\n", "		m_v1 = (w < 1e-30 && w > -1e-30) ? 0.0 : w; // no denormals\n")],
  'samples so small that the DirectFormII delay line falls below 1e-30',
  'an anti-denormal guard with a far too large threshold zeroes the delay line, so the difference equation no longer holds for small signals',
  r'''
int main() {
  const double c[1][6] = {{0.2, 0.3, 0.1, 1, -0.5, 0.25}};
  Custom::SOSCascade<1, DirectFormII> f(c);
  double x[6] = {1, -2, 0.5, 3, 0, 0}, x1 = 0, x2 = 0, y1 = 0, y2 = 0;
  for (int i = 0; i < 6; i++) {
    double in = x[i] * 1e-31, y = 0.2*in + 0.3*x1 + 0.1*x2 + 0.5*y1 - 0.25*y2, o = f.filter(in);
    if (std::fabs(o - y) > 1e-36) return bad("output", o, y);
    x2 = x1; x1 = in; y2 = y1; y1 = y;
  }
  return 0;
}''')

B('c02-tdf2-firstorder', 'C02', [('iir/State.h', "		m_s2 = s.m_b2*in - s.m_a2*out;\n", "		m_s2 = (s.m_a2 == 0) ? 0.0 : s.m_b2*in - s.m_a2*out;\n")],
  'TransposedDirectFormII and a section with a2 = 0 but b2 != 0 (an FIR section, for example)',
  'the second delay line is skipped for sections taken for first order ones although they have a second order numerator',
  r'''
int main() {
  const double c[1][6] = {{0.25, 0.5, 0.25, 1, -0.5, 0}};
  Custom::SOSCascade<1, DirectFormI> f(c);
  Custom::SOSCascade<1, TransposedDirectFormII> g(c);
  for (int i = 0; i < 10; i++) { double a = f.filter(i == 0 ? 1.0 : 0.0), b = g.filter(i == 0 ? 1.0 : 0.0); if (std::fabs(a-b) > 1e-12) return bad("output", b, a); }
  return 0;
}''')

B('c03-tdf2-reset', 'C03', [('iir/State.h', "		m_s2 = 0.0;\n		m_s2_1 = 0.0;\n", "		m_s2 = 0.0;\n")],
  'TransposedDirectFormII, at least one sample filtered before reset() and a second sample after it',
  'reset() leaves the delayed copy of the second delay line',
  r'''
int main() {
  Butterworth::LowPass<4, TransposedDirectFormII> f, g;
  f.setup(1000, 100); g.setup(1000, 100);
  for (int i = 0; i < 20; i++) f.filter(1.0 + i);
  f.reset();
  for (int i = 0; i < 20; i++) { double a = f.filter(i % 3 - 1.0), b = g.filter(i % 3 - 1.0); if (a != b) return bad("output after reset", a, b); }
  return 0;
}''')

B('c04-cascade-rounding', 'C04', [('iir/Cascade.h', "                double out = in;\n", "                Sample out = in;\n")],
  'samples which are not double and a cascade with at least two sections',
  'the signal between the sections is rounded to the sample type',
  r'''
int main() {
  const double c[2][6] = {{0.1, 0, 0, 1, -0.5, 0}, {10, 0, 0, 1, 0, 0}};
  Custom::SOSCascade<2> f(c), g(c);
  for (int i = 0; i < 20; i++) { int a = f.filter(i * 7 - 50); int b = (int) g.filter((double) (i * 7 - 50)); if (a != b) return bad("integer sample", a, b); }
  return 0;
}''')

B('c05-sos-index', 'C05', [('iir/Cascade.h', "                                sosCoefficients[i][5],\n", "                                sosCoefficients[i == 2 ? 1 : i][5],\n")],
  'three or more sections with different a2',
  'the third section of the imported array gets a2 of the second one',
  r'''
int main() {
  const double c[3][6] = {{1, 0.1, 0.2, 1, 0.3, 0.4}, {1, 0.5, 0.6, 1, 0.7, 0.8}, {1, -0.1, -0.2, 1, -0.3, -0.4}};
  Custom::SOSCascade<3> f(c); auto s = f.getCascadeStorage();
  for (int i = 0; i < 3; i++) if (s.stageArray[i].getA2() != c[i][5]) return bad("a2", s.stageArray[i].getA2(), c[i][5]);
  return 0;
}''')

B('c06-response-a0', 'C06', [('iir/Biquad.cpp', "		cb = addmul (cb, a2/a0, czn2);\n", "		cb = addmul (cb, a2, czn2);\n")],
  'a section whose a0 is not one (RBJ filters), away from frequencies where the response stays close',
  'Biquad::response does not normalise a2',
  r'''
int main() {
  RBJ::LowPass f; f.setupN(0.1, 2);
  for (int k = 0; k < 10; k++) {
    double w = 2 * M_PI * 0.05 * k; std::complex<double> z1 = std::polar(1., -w), z2 = z1 * z1;
    std::complex<double> h = (f.getB0() + f.getB1()*z1 + f.getB2()*z2) / (f.getA0() + f.getA1()*z1 + f.getA2()*z2);
    if (std::abs(h - f.response(0.05 * k)) > 1e-9) return bad("response", std::abs(f.response(0.05 * k)), std::abs(h));
  }
  return 0;
}''')

B('c07-single-pole', 'C07', [('iir/Biquad.cpp', "		if (a2 == 0 && b2 == 0)\n", "		if (a2 == 0)\n")],
  'a section with a2 = 0 and b2 != 0 (first order denominator, second order numerator)',
  'the second zero of the section is reported as zero and the first one is wrong',
  r'''
int main() {
  Biquad b; b.setCoefficients(1, -0.5, 0, 1, -1.5, 0.5);   // zeros 1 and 0.5
  auto pz = b.getPoleZeros();
  auto z1 = pz[0].zeros.first, z2 = pz[0].zeros.second;
  if (std::abs(z1 + z2 - 1.5) > 1e-9 || std::abs(z1 * z2 - 0.5) > 1e-9) return bad("zeros", z1.real(), 1);
  return 0;
}''')

B('c08-notch-radius', 'C08', [('iir/RBJ.cpp', "		double r = exp(-(w0/2) / q_factor);\n", "		double r = 1 - (w0/2) / q_factor;\n")],
  'a low Q factor and a high frequency so that w0/2/Q exceeds 2',
  'the first order approximation of the pole radius leaves the unit circle',
  r'''
int main() {
  const double qs[] = {0.1, 0.5, 2, 10, 50};
  for (double q : qs) for (double f = 0.01; f < 0.5; f += 0.02) {
    RBJ::IIRNotch n; n.setupN(f, q);
    double y = 0, m = 0; for (int i = 0; i < 20000; i++) { y = n.filter(i == 0 ? 1.0 : 0.0); if (i > 19900) m = m > std::fabs(y) ? m : std::fabs(y); if (!(y < 1e9 && y > -1e9)) return bad("impulse response grows", y); }
    if (!(m < 1e-3)) return bad("impulse response of the notch does not decay", m);
  }
  return 0;
}''')

B('c09-tan-clamp', 'C09', [('iir/PoleFilter.cpp', "	f = tan (doublePi * fc);\n", "	f = tan (doublePi * (fc < 0.49 ? fc : 0.49));\n")],
  'a low pass with its cutoff between 0.49 and 0.5 of the sampling rate',
  'a clamp against the tan overflow moves the cutoff',
  r'''
int main() {
  Butterworth::LowPass<3> f; f.setupN(0.496);
  double g = std::abs(f.response(0.496));
  if (!near(g, std::sqrt(0.5), 1e-6)) return bad("gain at the cutoff", g, std::sqrt(0.5));
  return 0;
}''')

B('c10-edge-clamp', 'C10', [('iir/PoleFilter.cpp', "	if (wc2 < 1e-8)\n		wc2 = 1e-8;", "	if (wc2 < 1e-2)\n		wc2 = 1e-2;", 'what is this crap?')],
  'a band pass whose lower edge is below 0.0016 of the sampling rate',
  'the lower band edge is moved, so the band edges are no longer at -3 dB',
  r'''
int main() {
  Butterworth::BandPass<2> f; f.setupN(0.003, 0.005);
  double g = std::abs(f.response(0.0005));
  if (!near(g, std::sqrt(0.5), 1e-4)) return bad("gain at the lower band edge", g, std::sqrt(0.5));
  return 0;
}''')

B('c11-bandpass-gain', 'C11', [('iir/PoleFilter.cpp', "	digital.setNormal (2 * atan (sqrt (tan ((wc + wn)* 0.5) * tan((wc2 + wn)* 0.5))),\n			   analog.getNormalGain());", "	digital.setNormal (2 * atan (sqrt (tan ((wc + wn)* 0.5) * tan((wc2 + wn)* 0.5))),\n			   1);")],
  'an even order Chebyshev I band pass',
  'the centre is normalised to 0 dB although it is a ripple minimum for even orders, so the pass band exceeds 0 dB',
  r'''
int main() {
  ChebyshevI::BandPass<4> f; f.setupN(0.2, 0.1, 3);
  for (double x = 0.1; x < 0.3; x += 0.0005) { double g = std::abs(f.response(x)); if (g > 1 + 1e-6) return bad("pass band gain", g, 1); }
  return 0;
}''')

B('c12-deep-stopband', 'C12', [('iir/ChebyshevII.cpp', "    const double v0 = asinh (1 / eps) / numPoles;\n", "    const double v0 = asinh (eps > 1e-4 ? 1 / eps : 1e4) / numPoles;\n")],
  'a requested stop band rejection of more than 80 dB',
  'the poles are placed for 80 dB only, so the stop band edge is not at the requested frequency or rejection',
  r'''
int main() {
  ChebyshevII::LowPass<6> f; f.setupN(0.2, 100);
  double g = std::abs(f.response(0.2));
  if (!near(20 * std::log10(g), -100, 1e-3)) return bad("gain at the stop band edge in dB", 20 * std::log10(g), -100);
  return 0;
}''')

B('c13-odd-shelf', 'C13', [('iir/Butterworth.cpp', "      add (gp, gz);\n", "      add (gp, gainDb < 0 ? gp : gz);\n")],
  'a Butterworth shelf of odd order with a negative gain',
  'the real pole and zero cancel for cuts, so less than the requested attenuation is delivered',
  r'''
int main() {
  Butterworth::LowShelf<3> f; f.setupN(0.1, -12);
  double g = 20 * std::log10(std::abs(f.response(0)));
  if (!near(g, -12, 1e-6)) return bad("gain at DC in dB", g, -12);
  return 0;
}''')

B('c14-allpass-lowq', 'C14', [('iir/RBJ.cpp', "	double AL = sn / ( 2 * q );\n	double b0 =  1 - AL;", "	double AL = sn / ( 2 * q );\n	if (AL > 1) AL = 1; // real poles\n	double b0 =  1 - AL;")],
  'an all-pass with a Q below 0.5 and a frequency high enough that sin(w0) > 2 Q',
  'the phase response no longer follows the requested Q',
  r'''
int main() {
  RBJ::AllPass f; f.setupN(0.2, 0.2);
  double w = 2 * M_PI * 0.2, al = std::sin(w) / 0.4, v = 2 * M_PI * 0.1; std::complex<double> z = std::polar(1., -v);
  auto h = ((1-al) - 2*std::cos(w)*z + (1+al)*z*z) / ((1+al) - 2*std::cos(w)*z + (1-al)*z*z);
  if (std::abs(h - f.response(0.1)) > 1e-9) return bad("phase", std::arg(f.response(0.1)), std::arg(h));
  return 0;
}''')

B('c15-integer-gain', 'C15', [('iir/RBJ.cpp', "		double A  = pow (10, gainDb/40);\n", "		double A  = pow (10, int(gainDb)/40.0);\n", 'void HighShelf::setupN')],
  'a high shelf whose gain is not a whole number of dB',
  'the fraction of the gain is dropped',
  r'''
int main() {
  RBJ::HighShelf f; f.setupN(0.1, 3.5, 1);
  double g = 20 * std::log10(std::abs(f.response(0.5)));
  if (!near(g, 3.5, 1e-6)) return bad("gain at Nyquist in dB", g, 3.5);
  return 0;
}''')

B('c16-width-rate', 'C16', [('iir/ChebyshevII.h', "				      widthFrequency / sampleRate,\n", "				      widthFrequency / (sampleRate > 1 ? sampleRate : 1),\n", 'struct BandShelf :', 'void setup (int reqOrder')],
  'the overload with a requested order and a sampling rate below one',
  'the width of the band is taken as normalised for low sampling rates',
  r'''
int main() {
  ChebyshevII::BandShelf<4> f, g; f.setup(3, 0.5, 0.1, 0.05, 6, 1); g.setupN(3, 0.2, 0.1, 6, 1);
  for (double x = 0.01; x < 0.5; x += 0.01) if (std::abs(f.response(x) - g.response(x)) > 1e-9) return bad("response", std::abs(f.response(x)), std::abs(g.response(x)));
  return 0;
}''')

B('c17-req-order', 'C17', [('iir/ChebyshevI.h', "		HighShelfBase::setup (reqOrder,", "		HighShelfBase::setup (FilterOrder,", 'struct HighShelf :', 'void setupN(int reqOrder')],
  'ChebyshevI::HighShelf::setupN with a requested order below the maximum',
  'the requested order is ignored',
  r'''
int main() {
  ChebyshevI::HighShelf<6> f; ChebyshevI::HighShelf<2> g; f.setupN(2, 0.1, 6, 1); g.setupN(0.1, 6, 1);
  for (double x = 0.01; x < 0.5; x += 0.01) if (std::abs(f.response(x) - g.response(x)) > 1e-9) return bad("response", std::abs(f.response(x)), std::abs(g.response(x)));
  return 0;
}''')

B('c17-identity', 'C17', [('iir/Cascade.cpp', "		for (int i = 0; i < m_maxStages; ++i, ++stage)\n			stage->setIdentity();\n", "		for (int i = 0; i < m_numStages; ++i, ++stage)\n			stage->setIdentity();\n")],
  'a setup of a higher order followed by a setup of a lower order on the same object',
  'the sections beyond the requested order keep their old coefficients and still filter',
  r'''
int main() {
  Butterworth::LowPass<8> f; Butterworth::LowPass<8> g; f.setup(8, 1000., 100.); f.setup(2, 1000., 200.); g.setup(2, 1000., 200.);
  for (int i = 0; i < 30; i++) { double a = f.filter(i == 0 ? 1. : 0.), b = g.filter(i == 0 ? 1. : 0.); if (std::fabs(a - b) > 1e-12) return bad("output", a, b); }
  return 0;
}''')

B('c18-even-odd', 'C18', [('iir/ChebyshevI.cpp', "      add (complex_t (sinh_v0, 0), infinity());\n      setNormal (0, 1);\n", "      add (complex_t (sinh_v0, 0), infinity());\n")],
  'an even order Chebyshev I setup followed by one with an odd order on the same object',
  'the normalisation of the even order is still used for the odd order',
  r'''
int main() {
  ChebyshevI::LowPass<4> f, g; f.setup(4, 1000., 100., 3.); f.setup(3, 1000., 100., 3.); g.setup(3, 1000., 100., 3.);
  if (std::abs(f.response(0.01) - g.response(0.01)) > 1e-12) return bad("response", std::abs(f.response(0.01)), std::abs(g.response(0.01)));
  return 0;
}''')

B('c18-gain-cache', 'C18', [('iir/ChebyshevII.cpp', "      m_stopBandDb != stopBandDb ||\n      m_gainDb != gainDb)", "      m_stopBandDb != stopBandDb ||\n      m_gainDb * gainDb <= 0)")],
  'two setups of a Chebyshev II shelf with different gains of the same sign and otherwise equal parameters',
  'the cached prototype of the previous gain is used again',
  r'''
int main() {
  ChebyshevII::LowShelf<4> f, g; f.setupN(0.1, 12., 1.); f.setupN(0.1, 6., 1.); g.setupN(0.1, 6., 1.);
  if (std::abs(f.response(0.01) - g.response(0.01)) > 1e-12) return bad("response", std::abs(f.response(0.01)), std::abs(g.response(0.01)));
  return 0;
}''')

B('c19-negative-highpass', 'C19', [('iir/PoleFilter.cpp', "	if (fc < 0.0) throw_invalid_argument(cutoffNeg);\n", "	if (fc <= -0.5) throw_invalid_argument(cutoffNeg);\n", 'HighPassTransform::HighPassTransform')],
  'a high pass or high shelf with a negative frequency',
  'negative frequencies above -0.5 are accepted and give an unstable filter',
  r'''
int main() {
  Butterworth::HighPass<2> f;
  try { f.setupN(-0.2); } catch (const std::exception&) { return 0; }
  return bad("a negative frequency is accepted");
}''')

B('c20-nan-payload', 'C20', [('iir/MathSupplement.h', "  return !(v == v);\n", "  const double d = v; unsigned long long u; __builtin_memcpy (&u, &d, sizeof u);\n  return (u & 0x7fffffffffffffffULL) == 0x7ff8000000000000ULL; // also with -ffast-math\n")],
  'a NaN with a payload (nan("1")), not the default quiet NaN',
  'only the default NaN pattern is recognised, others get into the coefficients',
  r'''
int main() {
  const double c[1][6] = {{1, 0, 0, 1, nan("5"), 0}};
  Custom::SOSCascade<1> f;
  try { f.setup(c); } catch (const std::exception&) { return 0; }
  double y = 0; for (int i = 0; i < 4; i++) y = f.filter(1.0);
  return y == y ? 0 : bad("NaN coefficient accepted");
}''')

B('c21-layout-reset', 'C21', [('iir/PoleFilter.cpp', "	if (!(fc < 0.5)) throw_invalid_argument(cutoffError);\n	if (fc < 0.0) throw_invalid_argument(cutoffNeg);\n	\n	digital.reset ();\n\n	// prewarp\n	f = tan", "	digital.reset ();\n	\n	if (!(fc < 0.5)) throw_invalid_argument(cutoffError);\n	if (fc < 0.0) throw_invalid_argument(cutoffNeg);\n	\n	// prewarp\n	f = tan")],
  'a rejected low pass setup (cutoff above Nyquist) after a good one, then asking for the poles and zeros',
  'the digital layout is emptied before the parameters are checked',
  r'''
int main() {
  Butterworth::LowPass<4> f; f.setupN(0.1);
  size_t n = f.getPoleZeros().size();
  try { f.setupN(0.7); } catch (const std::exception&) {}
  return f.getPoleZeros().size() == n ? 0 : bad("pole/zero pairs after the rejected setup", f.getPoleZeros().size(), n);
}''')

B('c22-index', 'C22', [('iir/Cascade.h', "(index >= m_numStages)", "(index > m_numStages)")],
  'operator[] with an index equal to the number of sections',
  'the section behind the last one is returned instead of an exception',
  r'''
int main() {
  Butterworth::LowPass<4> f; f.setupN(0.1);
  try { f[2]; } catch (const std::exception&) { return 0; }
  return bad("index 2 of 2 sections accepted");
}''')

B('c22-order-overflow', 'C22', [('iir/ChebyshevI.h', "		if (reqOrder > FilterOrder) throw_invalid_argument(orderTooHigh);", "		if (reqOrder > 2 * FilterOrder) throw_invalid_argument(orderTooHigh);", 'struct BandStop :', 'void setupN(int reqOrder')],
  'ChebyshevI::BandStop::setupN with a requested order above the maximum (but at most twice as high)',
  'the prototype is written beyond the storage inside the filter object',
  r'''
int main() {
  struct { ChebyshevI::BandStop<2> f; char canary[4096]; } s;
  memset(s.canary, 0x5a, sizeof s.canary);
  try { s.f.setupN(4, 0.2, 0.1, 1); } catch (const std::exception&) {}
  for (char c : s.canary) if (c != 0x5a) { puts("memory behind the filter overwritten"); fflush(stdout); _exit(1); }
  return 0;
}''')

B('c23-assign', 'C23', [('iir/PoleFilter.h', "		PoleFilter& operator=(const PoleFilter&)\n", "		PoleFilter& operator=(const PoleFilter& other)\n"),
  ('iir/PoleFilter.h', "				// Reset the filter state when copied for now\n", "				// Copy the coefficients and reset the filter state\n				BaseClass::operator=(other);\n")],
  'assigning one filter to another, then setting up one of them with other parameters',
  'both filters share the coefficient storage of the source after an assignment',
  r'''
int main() {
  Butterworth::LowPass<4> a, b, ref; a.setupN(0.1); b.setupN(0.2); ref.setupN(0.1);
  b = a;
  b.setupN(0.3);
  for (int i = 0; i < 20; i++) { double x = a.filter(i == 0 ? 1. : 0.), y = ref.filter(i == 0 ? 1. : 0.); if (x != y) return bad("output of the source of the assignment", x, y); }
  return 0;
}''')

B('c24-near-real', 'C24', [('iir/Biquad.cpp', "		if (zero1.imag() != 0)\n		{\n			if (zero2 != std::conj (zero1))", "		if (std::fabs (zero1.imag()) > 1e-3)\n		{\n			if (zero2 != std::conj (zero1))"),
  ('iir/Biquad.cpp', "			if (zero2.imag() != 0)\n", "			if (std::fabs (zero2.imag()) > 1e-3)\n")],
  'a custom filter with a pair of zeros at an angle below 0.001',
  'nearly real zeros are taken for real ones, which removes the notch',
  r'''
int main() {
  Custom::TwoPole f; f.setup(1, 0.5, 1, 1, 5e-4);
  double g = std::abs(f.response(5e-4 / (2 * M_PI)));
  return g < 1e-9 ? 0 : bad("gain at the zero", g, 0);
}''')
