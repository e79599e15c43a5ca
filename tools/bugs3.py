exec(open('/verif/tools/bugs1.py').read().split("B('c01")[0])
B('c01-overflow-clamp', 'C01', [('iir/State.h', "		m_y1 = out;\n", "		m_y1 = out > 1e12 ? 1e12 : out;\n")],
  'DirectFormI and outputs above 1e12', 'the fed back output is clamped, the returned one is not',
  r'''
int main() {
  Biquad b; b.setCoefficients(1, -0.5, 0, 1, 0, 0);
  DirectFormI s; s.filter(4e12, b); double y = s.filter(0, b);
  return near(y, 2e12) ? 0 : bad("second output", y, 2e12);
}''')
B('c03-reset-idle', 'C03', [('iir/Cascade.h', "                for (auto &state: m_states)\n                        state.reset();", "                for (int i = 0; i < MaxStages; i++)\n                        if (m_stages[i].m_a1 != 0 || m_stages[i].m_a2 != 0) m_states[i].reset(); // idle sections need no reset")],
  'sections without recursion (identity sections of a lower order) which have seen samples, reset and then used again by a setup of a higher order',
  'the delay lines of idle sections survive reset()',
  r'''
int main() {
  Butterworth::LowPass<4> f, g;
  f.setupN(2, 0.1); g.setupN(2, 0.1);
  for (int i = 0; i < 5; i++) f.filter(1.0);
  f.reset();
  f.setupN(4, 0.1); g.setupN(4, 0.1);
  double a = f.filter(0.0), b = g.filter(0.0);
  for (int i = 0; i < 5; i++) { a += f.filter(0.0); b += g.filter(0.0); }
  return a == b ? 0 : bad("output after reset", a, b);
}''')
B('c04-round', 'C04', [('iir/Cascade.h', "                return static_cast<Sample> (out);", "return static_cast<Sample> (std::is_integral<Sample>::value && out < 0 ? out - 0.5 : out);"), ('iir/Cascade.h', 'namespace Iir {', '#include <type_traits>\nnamespace Iir {')],
  'negative outputs of integer samples', 'negative results are rounded away from zero instead of being converted',
  r'''
int main() {
  Custom::SOSCascade<1> f({{0.75, 0, 0, 1, 0, 0}});
  int y = f.filter(-1);
  return y == 0 ? 0 : bad("-0.75 as int", y, 0);
}''')
B('c05-negative-a0', 'C05', [('iir/Biquad.cpp', "		a1 /= a0;\n		a2 /= a0;\n", "		if (a0 < 0) { a0 = -a0; b0 = -b0; b1 = -b1; b2 = -b2; } // the normalised section has a positive a0\n		a1 /= a0;\n		a2 /= a0;\n")],
  'a section with a negative a0', 'the recursive coefficients keep the wrong sign',
  r'''
int main() {
  Custom::SOSCascade<1> f({{1, 0, 0, -2, 1, 0}});
  f.filter(1.0); double y = f.filter(0.0);
  return near(y, -0.25) ? 0 : bad("second output", y, -0.25);
}''')
B('c06-cached-phasor', 'C06', [('iir/Biquad.cpp', "		const complex_t czn1 = std::polar (1., -w);\n		const complex_t czn2 = std::polar (1., -2 * w);\n", "		static thread_local float last = -1; // polar is expensive\n		static thread_local complex_t czn1, czn2;\n		if ((float) w != last) { last = (float) w; czn1 = std::polar (1., -w); czn2 = std::polar (1., -2 * w); }\n")],
  'asking a section for its response at two frequencies which are equal in single precision', 'the second answer is that of the first frequency',
  r'''
int main() {
  Custom::OnePole f; f.setup(1, 0.999999, 0);
  double a = std::abs(f.response(1e-12)), b = std::abs(f.response(1e-12 + 1e-20));
  a = std::abs(f.response(0.2)); b = std::abs(f.response(0.2000000001));
  return a != b ? 0 : bad("responses", b, a * 0.9999999);
}''')
B('c07-tiny-a2', 'C07', [('iir/Biquad.cpp', "		if (a2 == 0 && b2 == 0)", "		if (std::fabs (a2) < 1e-9 && b2 == 0)")],
  'a section with a tiny but non-zero a2', 'the second pole is dropped',
  r'''
int main() {
  Biquad b; b.setCoefficients(1, -1e-4, 1e-10, 1, 0, 0);
  // poles 1e-4*(1 +- i sqrt(3))/2 have magnitude 1e-5 ... product 1e-10
  auto p = b.getPoleZeros()[0].poles;
  double prod = std::abs(p.first * p.second);
  return near(prod, 1e-10, 1e-6) ? 0 : bad("product of the poles", prod, 1e-10);
}''')
B('c08-allpass-q', 'C08', [('iir/RBJ.cpp', "	double AL = sn / ( 2 * q );\n	double b0 =  1 - AL;", "	double AL = sn / ( 2 * q );\n	if (AL < 1e-3) AL = 0; // no audible damping\n	double b0 =  1 - AL;")],
  'an all-pass with a Q so high (or a frequency so low) that sin(w0)/2Q is below 0.001', 'the poles lie on the unit circle',
  r'''
int main() {
  RBJ::AllPass f; f.setupN(0.1, 1000);
  double a2 = f.getA2() / f.getA0();
  return a2 < 1 ? 0 : bad("a2", a2, 0.9994);
}''')
B('c09-hp-clamp', 'C09', [('iir/PoleFilter.cpp', "	f = 1. / tan (doublePi * fc);\n", "	f = 1. / tan (doublePi * fc);\n	if (f > 1e5) f = 1e5; // keep the poles away from z = 1\n")],
  'a high pass with a cutoff below 3.2e-6 of the sampling rate', 'the cutoff is not where it was asked for',
  r'''
int main() {
  Butterworth::HighPass<1> f; f.setupN(1e-6);
  double g = std::norm(f.response(1e-6));
  return near(g, 0.5, 1e-3) ? 0 : bad("|H|^2 at the cutoff", g, 0.5);
}''')
B('c10-stop-wide', 'C10', [('iir/PoleFilter.cpp', "	b = tan ((wc - wc2) * .5);\n", "	b = tan ((wc - wc2) * .5);\n	if (b > 20) b = 20;\n")],
  'a band stop that covers more than 97 % of the band', 'the edges are not at -3 dB any more',
  r'''
int main() {
  Butterworth::BandStop<2> f; f.setupN(0.25, 0.49);
  double g = std::norm(f.response(0.005));
  return near(g, 0.5, 1e-6) ? 0 : bad("|H|^2 at the edge", g, 0.5);
}''')
B('c11-tiny-ripple', 'C11', [('iir/ChebyshevI.cpp', "    const double v0 = asinh (1 / eps) / numPoles;\n    const double sinh_v0 = -sinh (v0);", "    const double v0 = (eps < 1e-3 ? log (2 / eps) * 1.0000001 : asinh (1 / eps)) / numPoles;\n    const double sinh_v0 = -sinh (v0);"), ],
  'a ripple below 4.3e-6 dB', 'an approximation of asinh changes the ripple',
  r'''
int main() {
  ChebyshevI::LowPass<3> f; f.setupN(0.2, 4e-6);
  double e = 1 / std::norm(f.response(0.2)) - 1, w = std::pow(10, 4e-7) - 1;
  return near(e, w, 1e-7) ? 0 : bad("eps^2 at the cutoff", e, w);
}''')
B('c12-bandstop-gain', 'C12', [('iir/ChebyshevII.cpp', "    const double eps = std::sqrt (1. / (std::exp (stopBandDb * 0.1 * doubleLn10) - 1));", "    if (stopBandDb < 3) stopBandDb = 3; // less makes no sense\n    const double eps = std::sqrt (1. / (std::exp (stopBandDb * 0.1 * doubleLn10) - 1));")],
  'a requested rejection below 3 dB', 'the rejection is raised to 3 dB',
  r'''
int main() {
  ChebyshevII::LowPass<3> f; f.setupN(0.2, 1);
  double g = 20 * std::log10(std::abs(f.response(0.2)));
  return near(g, -1, 1e-6) ? 0 : bad("edge", g, -1);
}''')
B('c13-gain-limit', 'C13', [('iir/Butterworth.cpp', "    const double g = pow (pow (10., gainDb/20), 1. / n2);", "    const double g = pow (pow (10., (gainDb < -96 ? -96 : gainDb)/20), 1. / n2);")],
  'a Butterworth shelf with more than 96 dB of attenuation', 'the attenuation is limited to 96 dB',
  r'''
int main() {
  Butterworth::HighShelf<2> f; f.setupN(0.2, -100);
  double g = 20 * std::log10(std::abs(f.response(0.5)));
  return near(g, -100, 1e-4) ? 0 : bad("gain at Nyquist", g, -100);
}''')
B('c14-bandpass-q', 'C14', [('iir/RBJ.cpp', "		double b0 = bandWidth * AL;// sn / 2;\n		double b1 =  0;\n		double b2 = -bandWidth * AL;//-sn / 2;", "		double b0 = bandWidth > 1000 ? 1000 * AL : bandWidth * AL;// sn / 2;\n		double b1 =  0;\n		double b2 = -b0;//-sn / 2;")],
  'BandPass1 with a Q above 1000', 'the peak gain is limited',
  r'''
int main() {
  RBJ::BandPass1 f; f.setupN(0.2, 2000);
  double g = std::abs(f.response(0.2));
  return near(g, 2000, 1e-5) ? 0 : bad("peak", g, 2000);
}''')
B('c15-wide-bell', 'C15', [('iir/RBJ.cpp', "double AL = sn * sinh( doubleLn2/2 * bandWidth * w0/sn );", "double AL = sn * sinh( doubleLn2/2 * (bandWidth > 6 ? 6 : bandWidth) * w0/sn );")],
  'a band shelf wider than six octaves', 'the width is limited to six octaves',
  r'''
int main() {
  RBJ::BandShelf f; f.setupN(0.1, 10, 7);
  double A = std::pow(10, 0.25), w0 = 2 * M_PI * 0.1, AL = std::sin(w0) * std::sinh(std::log(2.0) / 2 * 7 * w0 / std::sin(w0));
  return near(f.getB0(), 1 + AL * A, 1e-9) ? 0 : bad("b0", f.getB0(), 1 + AL * A);
}''')
B('c16-shelf-args', 'C16', [('iir/ChebyshevII.h', "				      cutoffFrequency / sampleRate,\n				      gainDb,\n				      stopBandDb);", "				      cutoffFrequency / sampleRate,\n				      gainDb,\n				      stopBandDb < 0 ? -stopBandDb : gainDb > 0 && stopBandDb > gainDb ? gainDb : stopBandDb);", "struct HighShelf : PoleFilter", "setup (int reqOrder,")],
  'ChebyshevII::HighShelf with an explicit order, a sampling rate and a negative ripple', 'the negative ripple is accepted by one overload only',
  r'''
int main() {
  ChebyshevII::HighShelf<3> f, g;
  int a = 0, b = 0;
  try { f.setup(3, 1.0, 0.1, 6.0, -1.0); } catch (const std::exception&) { a = 1; }
  try { g.setupN(3, 0.1, 6.0, -1.0); } catch (const std::exception&) { b = 1; }
  if (a != b) return bad("rejected by", a, b);
  return a || f.getCascadeStorage().stageArray[0].m_b0 == g.getCascadeStorage().stageArray[0].m_b0 ? 0 : bad("b0");
}''')
B('c18-gain-sign', 'C18', [('iir/ChebyshevI.cpp', "      m_gainDb != gainDb)", "      fabs (m_gainDb - gainDb) > 1e-4 * fabs (gainDb))")],
  'two setups of a Chebyshev I shelf whose gains differ by less than 0.01 percent', 'the prototype of the previous gain is used again',
  r'''
int main() {
  ChebyshevI::LowShelf<3> f, g;
  f.setupN(0.1, 20.0, 1); f.setupN(0.1, 20.001, 1); g.setupN(0.1, 20.001, 1);
  double a = std::abs(f.response(0)), b = std::abs(g.response(0));
  return near(a, b, 1e-9) ? 0 : bad("gain", a, b);
}''')
B('c19-shelf-order', 'C19', [('iir/ChebyshevII.h', "		if (reqOrder > FilterOrder) throw_invalid_argument(orderTooHigh);", "		if (reqOrder > FilterOrder && gainDb > -90) throw_invalid_argument(orderTooHigh);", "struct HighShelf : PoleFilter", "void setup (int reqOrder,")],
  'ChebyshevII::HighShelf with too high an order, a sampling rate and a gain below -90 dB', 'the order is not checked in this case',
  r'''
int main() {
  ChebyshevII::HighShelf<5> f;
  try { f.setup(6, 1.0, 0.1, -95.0, 1.0); } catch (const std::invalid_argument&) { return 0; }
  return bad("accepted");
}''')
B('c20-a2-nan', 'C20', [('iir/MathSupplement.h', "  return Iir::is_nan (v.real()) || Iir::is_nan (v.imag());", "  return Iir::is_nan (v.real()) && Iir::is_nan (v.imag());"), ('iir/Biquad.cpp', '		if (Iir::is_nan (a2)) throw_invalid_argument("a2 is NaN");\n', ''), ('iir/Biquad.cpp', '		if (Iir::is_nan (a2)) throw_invalid_argument("a2/a0 is NaN");\n', '')],
  'coefficients of which only a2 is NaN', 'a NaN a2 is stored', r'''
int main() {
  Custom::SOSCascade<1> f;
  try { f.setup({{1, 0, 0, 1, 0.5, NAN}}); } catch (const std::invalid_argument&) { return 0; }
  double y = f.filter(1.0); y = f.filter(1.0); y = f.filter(1.0);
  return y == y ? 0 : bad("NaN accepted");
}''')
B('c21-a0-early', 'C21', [('iir/Biquad.cpp', '		if (Iir::is_nan (a1)) throw_invalid_argument("a1 is NaN");', '		m_a0 = a0;\n		if (Iir::is_nan (a1)) throw_invalid_argument("a1 is NaN");')],
  'a rejected setCoefficients with a different a0', 'a0 is stored before the other coefficients have been checked, so the getters return other values',
  r'''
int main() {
  Biquad b; b.setCoefficients(1, 0.5, 0.25, 1, 0, 0);
  try { b.setCoefficients(2, NAN, 0, 1, 0, 0); } catch (const std::invalid_argument&) {}
  return b.getA1() == 0.5 ? 0 : bad("a1", b.getA1(), 0.5);
}''')
B('c21-scale-partial', 'C21', [('iir/PoleFilter.cpp', "	const double ww = 2 * doublePi * fw;\n	\n	// pre-calcs", "	const double ww = 2 * doublePi * fw;\n	if (ww > 2 * doublePi) throw_invalid_argument(widthError);\n	\n	// pre-calcs")],
  'a band pass with a width above the sampling rate', 'it is rejected only after the layout of the running filter has been emptied',
  r'''
int main() {
  Butterworth::BandPass<2> f; f.setupN(0.2, 0.1);
  size_t n = f.getPoleZeros().size();
  try { f.setupN(0.2, 1.5); } catch (const std::invalid_argument&) { return f.getPoleZeros().size() == n ? 0 : bad("poles", f.getPoleZeros().size(), n); }
  return 0;
}''')
B('c22-last-setup', 'C22', [('iir/Cascade.cpp', "		const int numPoles = proto.getNumPoles();\n", "		static int largest = 0; // for the tuning of the buffers\n		const int numPoles = proto.getNumPoles();\n		if (numPoles > largest) largest = numPoles;\n")],
  'a setup of a filter of higher order than any before', 'a static variable is written without synchronisation',
  r'''
extern "C" char __data_start, _end;
static unsigned long hash() { unsigned long h = 1; for (char* p = &__data_start; p < &_end; p++) h = h * 31 + (unsigned char) *p; return h; }
static Butterworth::LowPass<4>* f;
int main() {
  f = new Butterworth::LowPass<4>;
  f->setupN(1, 0.1); unsigned long a = hash(); f->setupN(2, 0.1); unsigned long b = hash();
  return a == b ? 0 : bad("static data is written by a setup");
}''')
B('c24-reflect', 'C24', [('iir/Custom.cpp', "  complex_t zero = std::polar (zeroRho, zeroTheta);\n", "  if (zeroRho > 1e3) zeroRho = 1e3;\n  complex_t zero = std::polar (zeroRho, zeroTheta);\n")],
  'a custom filter with a zero radius above 1000', 'the zero is moved',
  r'''
int main() {
  Custom::TwoPole f; f.setup(1, 0.5, 0.3, 2000, 0.7);
  return near(f.getB2(), 4e6, 1e-9) ? 0 : bad("b2", f.getB2(), 4e6);
}''')
B('c24-origin', 'C24', [('iir/Biquad.cpp', "			a2 =   pole1.real() * pole2.real();", "			a2 =   pole1.real() * pole2.real();\n			if (pole1 == pole2 && pole1.real() < 0) a2 = 0; // a double pole counts once")],
  'a double real pole on the negative axis', 'the second one is dropped',
  r'''
int main() {
  Biquad b; b.setTwoPole(-0.5, 0, -0.5, 0);
  return near(b.getA2(), 0.25) ? 0 : bad("a2", b.getA2(), 0.25);
}''')
B('c23-assign-layout', 'C23', [('iir/PoleFilter.h', "		PoleFilter& operator=(const PoleFilter&)\n			{", "		PoleFilter& operator=(const PoleFilter& other)\n			{\n				this->m_digitalProto = other.m_digitalProto; // the poles of the new design")],
  'assigning a filter and then setting up one of the two', 'the layout storage is shared with the source',
  r'''
int main() {
  Butterworth::LowPass<2> f, g; f.setupN(0.1); g.setupN(0.2);
  g = f;
  auto p = f.getPoleZeros()[0].poles.first;
  g.setupN(0.3);
  auto q = f.getPoleZeros()[0].poles.first;
  return p == q ? 0 : bad("pole of the source", q.real(), p.real());
}''')
B('c02-state-split', 'C02', [('iir/State.h', "		m_s1_1 = m_s1;\n		m_s2_1 = m_s2;\n", "		m_s1_1 = m_s1;\n		if (in != 0 || s.m_b2 == 0) m_s2_1 = m_s2; else m_s2_1 = -s.m_a2*m_s1_1;\n")],
  'TransposedDirectFormII and a sample which is exactly zero', 'the second delay line is fed by the wrong value',
  r'''
int main() {
  Biquad b; b.setCoefficients(1, -0.5, 0.25, 1, 2, 1);
  TransposedDirectFormII s; DirectFormI t; double x[5] = {1, 0, 0, 0, 0};
  for (double v : x) { double p = s.filter(v, b), q = t.filter(v, b); if (std::fabs(p - q) > 1e-12) return bad("output", p, q); }
  return 0;
}''')
B('c17-shelf-order', 'C17', [('iir/ChebyshevI.cpp', "void HighShelfBase::setup (int order,\n                           double cutoffFrequency,\n                           double gainDb,\n                           double rippleDb)\n{\n", "void HighShelfBase::setup (int order,\n                           double cutoffFrequency,\n                           double gainDb,\n                           double rippleDb)\n{\n  if (gainDb < -40 && order == 2) order = 3; // steep enough for large cuts\n")],
  'ChebyshevI::HighShelf with more than 40 dB of attenuation and order 2', 'the order is raised to 3',
  r'''
int main() {
  ChebyshevI::HighShelf<4> f; f.setupN(2, 0.2, -50, 1);
  return f.getNumStages() == 1 ? 0 : bad("sections", f.getNumStages(), 1);
}''')
