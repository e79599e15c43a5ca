exec(open('/tmp/w/bugs1.py').read().split("B('c01")[0])
CAN = r'''
static size_t news = 0;
'''
B('c04-rbj-float', 'C04', [('iir/RBJ.h', "state.filter((double)s,*this)", "state.filter((float)s,*this)")],
  'RBJ filters with samples that have more than 24 significant bits (double, large integers)',
  'the sample is rounded to single precision before it is filtered',
  r'''
int main() {
  RBJ::LowPass f; f.setupN(0.1);
  const int big = 16777217; double y = f.filter((double) big);
  return near(y, f.getB0() / f.getA0() * big, 1e-12) ? 0 : bad("first output", y, f.getB0() / f.getA0() * big);
}''')
B('c05-getb2', 'C05', [('iir/Biquad.h', "getB2 () const { return m_b2*m_a0; }", "getB2 () const { return m_b2; }")],
  'a section whose a0 is not one and whose b2 is not zero',
  'the coefficient read back is the normalised one',
  r'''
int main() {
  const double c[1][6] = {{1, 0.5, 0.25, 2, 0.5, 0.25}};
  Custom::SOSCascade<1> f(c);
  double b = f.getCascadeStorage().stageArray[0].getB2();
  return b == 0.25 ? 0 : bad("b2", b, 0.25);
}''')
B('c06-nyquist', 'C06', [('iir/Cascade.cpp', "if (normalizedFrequency > 0.5)", "if (normalizedFrequency >= 0.5)")],
  'asking a cascade for its response exactly at 0.5',
  'the Nyquist frequency is refused',
  r'''
int main() {
  Butterworth::BandPass<2> f; f.setupN(0.2, 0.1);
  try { return std::abs(f.response(0.5)) < 1e-6 ? 0 : bad("response at 0.5"); } catch (const std::exception&) { return bad("response at 0.5 refused"); }
}''')
B('c06-cascade-order', 'C06', [('iir/Cascade.cpp', "		const Biquad* stage = m_stageArray;\n		for (int i = m_numStages; --i >=0; ++stage)", "		const Biquad* stage = m_stageArray;\n		for (int i = m_numStages < 8 ? m_numStages : 8; --i >=0; ++stage)")],
  'a filter with more than eight sections (order above 16, or above 8 for band filters)',
  'the response leaves out the sections from the ninth on',
  r'''
int main() {
  Butterworth::LowPass<18> f; f.setupN(0.2);
  double g = std::abs(f.response(0.2));
  return near(g, std::sqrt(0.5), 1e-6) ? 0 : bad("gain at the cutoff", g, std::sqrt(0.5));
}''')
B('c07-gain', 'C07', [('iir/Biquad.cpp', "		gain = b0 / a0;\n", "		gain = b0;\n")],
  'rebuilding a section with a0 != 1 from its poles, zeros and gain',
  'the reported gain is not normalised by a0',
  r'''
int main() {
  Biquad b, c; b.setCoefficients(2, -1, 0.5, 1, -1.5, 0.5);
  BiquadPoleState s(b); c.setPoleZeroForm(s);
  double x = std::abs(b.response(0.1)), y = std::abs(c.response(0.1));
  return near(y, x, 1e-9) ? 0 : bad("response of the rebuilt section", y, x);
}''')
B('c08-shelf-sign', 'C08', [('iir/ChebyshevI.cpp', "    if (gainDb<0)\n      rippleDb = -rippleDb;\n", "    if (gainDb<-30)\n      rippleDb = -fabs (gainDb) / 2;\n    else if (gainDb<0)\n      rippleDb = -rippleDb;\n"), ('iir/ChebyshevI.cpp', "      add (-sinh_u, -sinh_v);\n", "      add (-sinh_u, gainDb < -30 ? sinh_v : -sinh_v);\n")],
  'a Chebyshev I shelf of odd order with more than 30 dB of boost',
  'not a stability bug: see c13', r'''int main() { return 0; }''') if False else None
B('c08-pole-side', 'C08', [('iir/ChebyshevII.cpp', "      add (1 / sinh_v0, infinity());\n", "      add ((stopBandDb > 120 ? -1 : 1) / sinh_v0, infinity());\n")],
  'an odd order Chebyshev II filter with more than 120 dB of rejection',
  'the real pole is put on the wrong side',
  r'''
int main() {
  ChebyshevII::LowPass<3> f; f.setupN(0.2, 130);
  for (auto& p : f.getPoleZeros()) if (!(std::abs(p.poles.first) < 1 && std::abs(p.poles.second) < 1)) return bad("pole radius", std::abs(p.poles.first), 1);
  return 0;
}''')
B('c09-order-dependent', 'C09', [('iir/Butterworth.cpp', "    const double n2 = 2 * numPoles;\n    const int pairs = numPoles / 2;\n    for (int i = 0; i < pairs; ++i)", "    const double n2 = 2 * numPoles;\n    const int pairs = numPoles > 12 ? 6 : numPoles / 2;\n    for (int i = 0; i < pairs; ++i)")],
  'an order above 12',
  'only six pole pairs are placed for high orders',
  r'''
int main() {
  Butterworth::LowPass<14> f; f.setupN(0.1);
  double w = std::tan(M_PI * 0.12) / std::tan(M_PI * 0.1), want = 1 / std::sqrt(1 + std::pow(w, 28)), g = std::abs(f.response(0.12));
  return near(g, want, 1e-6) ? 0 : bad("gain", g, want);
}''')
B('c10-arith-centre', 'C10', [('iir/PoleFilter.cpp', "2 * atan (sqrt (tan ((wc + wn)* 0.5) * tan((wc2 + wn)* 0.5)))", "wn + (wc + wc2) * 0.5")],
  'a band pass: visible for wide bands away from a quarter of the sampling rate',
  'the gain is normalised at the arithmetic centre instead of the warped one',
  r'''
int main() {
  Butterworth::BandPass<3> f; f.setupN(0.15, 0.28);
  double g = std::abs(f.response(0.01));
  return near(g, std::sqrt(0.5), 1e-6) ? 0 : bad("gain at the band edge", g, std::sqrt(0.5));
}''')
B('c10-real-poles', 'C10', [('iir/Biquad.cpp', "			a2 =   pole1.real() * pole2.real();\n", "			a2 =   pole1.real() * pole1.real();\n")],
  'a band pass or band stop of odd order which is so wide that the middle section has two real poles',
  'the second real pole of a section is taken to equal the first one',
  r'''
int main() {
  Butterworth::BandPass<1> f; f.setupN(0.2, 0.35);
  double g = std::abs(f.response(0.025));
  return near(g, std::sqrt(0.5), 1e-6) ? 0 : bad("gain at the band edge", g, std::sqrt(0.5));
}''')
B('c11-big-ripple', 'C11', [('iir/ChebyshevI.cpp', "    const double v0 = asinh (1 / eps) / numPoles;\n", "    const double v0 = (eps < 1 ? asinh (1 / eps) : 1 / eps) / numPoles;\n")],
  'a ripple above 3.01 dB',
  'a small-argument approximation of asinh is used for large ripples',
  r'''
int main() {
  ChebyshevI::LowPass<3> f; f.setupN(0.1, 5);
  double g = 20 * std::log10(std::abs(f.response(0.1)));
  return near(g, -5, 1e-6) ? 0 : bad("gain at the cutoff in dB", g, -5);
}''')
B('c12-highpass-zero', 'C12', [('iir/PoleFilter.cpp', "  if (c == infinity())\n    return complex_t (1, 0);\n", "  if (std::abs (c) > 4)\n    return complex_t (1, 0);\n")],
  'a high pass whose prototype has a finite zero far out (Chebyshev II of order 7 and more)',
  'finite zeros beyond 4 are taken for zeros at infinity',
  r'''
int main() {
  ChebyshevII::HighPass<8> f; f.setupN(0.2, 40);
  for (double x = 0.001; x <= 0.2; x += 0.0005) { double g = 20 * std::log10(std::abs(f.response(x))); if (g > -40 + 1e-6) return bad("stop band gain in dB", g, -40); }
  double g = 20 * std::log10(std::abs(f.response(0.2)));
  return near(g, -40, 1e-6) ? 0 : bad("gain at the stop band edge in dB", g, -40);
}''')
B('c13-ripple-sign', 'C13', [('iir/ChebyshevI.cpp', "    if (gainDb<0)\n      rippleDb = -rippleDb;\n", "    if (gainDb < -1)\n      rippleDb = -rippleDb;\n")],
  'a Chebyshev I shelf with a boost of at most 1 dB (and a ripple below it)',
  'the ripple has the wrong sign for small boosts',
  r'''
int main() {
  ChebyshevI::LowShelf<3> f;
  try { f.setupN(0.1, 0.8, 0.1); } catch (const std::exception&) { return bad("valid shelf rejected"); }
  for (double x = 0; x < 0.1; x += 0.001) { double g = 20 * std::log10(std::abs(f.response(x))); if (!(g > 0.7 - 1e-6 && g < 0.8 + 1e-6)) return bad("gain in the boosted band", g, 0.8); }
  return 0;
}''')
B('c14-highpass-q', 'C14', [('iir/RBJ.cpp', "		double AL = sn / ( 2 * q );\n		double b0 =  (1 + cs) / 2;", "		double AL = (cutoffFrequency > 0.25 ? 1 : sn) / ( 2 * q );\n		double b0 =  (1 + cs) / 2;")],
  'an RBJ high pass above a quarter of the sampling rate',
  'the resonance does not follow Q above a quarter of the sampling rate',
  r'''
int main() {
  RBJ::HighPass f; f.setupN(0.4, 3);
  double g = std::abs(f.response(0.4));
  return near(g, 3, 1e-6) ? 0 : bad("gain at the cutoff", g, 3);
}''')
B('c15-cut-slope', 'C15', [('iir/RBJ.cpp', "		double sq = 2 * sqrt(A) * AL;\n		double b0 =    A*( (A+1) - (A-1)*cs + sq );", "		double sq = 2 * (gainDb < 0 && shelfSlope < 1 ? 1 / sqrt(A) : sqrt(A)) * AL;\n		double b0 =    A*( (A+1) - (A-1)*cs + sq );")],
  'a low shelf with a negative gain and a slope below one',
  'a cut is not the inverse of the boost',
  r'''
int main() {
  RBJ::LowShelf f, g; f.setupN(0.1, -12, 0.5); g.setupN(0.1, 12, 0.5);
  for (double x = 0; x < 0.5; x += 0.01) { double p = std::abs(f.response(x)) * std::abs(g.response(x)); if (!near(p, 1, 1e-9)) return bad("product of boost and cut", p, 1); }
  return 0;
}''')
B('c16-notch-default', 'C16', [('iir/RBJ.h', "			    double q_factor = 10) {\n", "			    double q_factor = ONESQRT2) {\n")],
  'IIRNotch::setup with a sampling rate and without the optional Q factor',
  'the default Q differs from the documented one and from setupN',
  r'''
int main() {
  RBJ::IIRNotch f, g; f.setup(1000, 50); g.setupN(0.05);
  double x = std::abs(f.response(0.06)), y = std::abs(g.response(0.06));
  return near(x, y, 1e-9) ? 0 : bad("response", x, y);
}''')
B('c16-full-order', 'C16', [('iir/Butterworth.h', "		if (reqOrder > FilterOrder) throw_invalid_argument(orderTooHigh);", "		if (reqOrder >= FilterOrder && FilterOrder > 4) throw_invalid_argument(orderTooHigh);", 'struct BandStop :', 'void setupN(int reqOrder')],
  'Butterworth::BandStop::setupN asked explicitly for the full order of a filter with an order above 4',
  'the full order is rejected',
  r'''
int main() {
  Butterworth::BandStop<6> f;
  try { f.setupN(6, 0.2, 0.1); } catch (const std::exception&) { return bad("full order rejected"); }
  return 0;
}''')
B('c17-normalisation', 'C17', [('iir/Cascade.cpp', "		if (m_numStages < 1) return;\n		m_stageArray->applyScale (scale);\n", "		if (m_maxStages < 1) return;\n		m_stageArray[m_maxStages - 1].applyScale (scale);\n")],
  'a requested order with fewer sections than the template order',
  'the gain is applied to the last section of the storage, which is not part of the reported response (outputs are right)',
  r'''
int main() {
  Butterworth::LowPass<8> f; Butterworth::LowPass<2> g; f.setupN(2, 0.1); g.setupN(0.1);
  double x = std::abs(f.response(0.01)), y = std::abs(g.response(0.01));
  return near(x, y, 1e-9) ? 0 : bad("reported response", x, y);
}''')
B('c18-tolerant-cache', 'C18', [('iir/ChebyshevI.cpp', "      m_rippleDb != rippleDb)\n", "      fabs (m_rippleDb - rippleDb) > 1e-3)\n")],
  'two setups of a Chebyshev I filter on the same object whose ripples differ by less than 0.001 dB',
  'the prototype of the previous ripple is used again',
  r'''
int main() {
  ChebyshevI::LowPass<6> f, g; f.setupN(0.1, 0.0015); f.setupN(0.1, 0.0006); g.setupN(0.1, 0.0006);
  double x = std::abs(f.response(0.13)), y = std::abs(g.response(0.13));
  return near(x, y, 1e-9) ? 0 : bad("response", x, y);
}''')
B('c18-skip-identity', 'C18', [('iir/Cascade.h', "                for (const auto &stage: m_stages)\n                        out = (state++)->filter(out, stage);\n", "                for (const auto &stage: m_stages)\n                {\n                        if (stage.m_b0 != 1 || stage.m_b1 != 0 || stage.m_b2 != 0 || stage.m_a1 != 0 || stage.m_a2 != 0)\n                                out = state->filter(out, stage);\n                        ++state;\n                }\n")],
  'a running filter with surplus sections (lower requested order) which is then set up with a higher order',
  'sections that pass samples through no longer move their delay lines, so a later setup continues from other samples',
  r'''
int main() {
  Custom::SOSCascade<2, DirectFormI> f; const double id[2][6] = {{1,0,0,1,0,0},{1,0,0,1,0,0}}, c[2][6] = {{1, 0.5, 0.25, 1, 0, 0}, {1,0,0,1,0,0}};
  f.setup(id); f.filter(1.0); f.filter(2.0); f.setup(c);
  double y = f.filter(0.0);
  return near(y, 0.5 * 2 + 0.25 * 1) ? 0 : bad("output continuing from the samples already processed", y, 1.25);
}''')
B('c19-no-abort', 'C19', [('iir/Common.h', "    abort();\n", "    return;\n")],
  'a build with IIR1_NO_EXCEPTIONS',
  'invalid parameters are ignored instead of aborting',
  r'''
#include <sys/wait.h>
#ifdef NOEXC
int main() { Butterworth::LowPass<2> f; f.setupN(0.7); return 0; }
#else
int main() { return 0; }
#endif''')
BUGS[-1]['sh'] = '''g++ -std=c++17 -O1 -w -DNOEXC -DIIR1_NO_EXCEPTIONS -I. "$d/demo.cpp" iir/*.cpp -o "$t/demo" || exit 2
( ulimit -c 0; "$t/demo" ); [ $? -ne 0 ]
'''
B('c19-analog-order', 'C19', [('iir/PoleFilter.cpp', "	if (fc < 0.0) throw_invalid_argument(cutoffNeg);\n", "	if (fc + fw < 0.0) throw_invalid_argument(cutoffNeg);\n", 'BandStopTransform::BandStopTransform')],
  'a band stop with a negative centre frequency whose magnitude is below the width',
  'negative centre frequencies are accepted as long as the width is larger',
  r'''
int main() {
  Butterworth::BandStop<2> f;
  try { f.setupN(-0.05, 0.2); } catch (const std::exception&) { return 0; }
  return bad("negative centre frequency accepted");
}''')
B('c21-bandpass-reset', 'C21', [('iir/Butterworth.cpp', "  m_analogProto.design (order);\n\n  BandPassTransform (centerFrequency,", "  m_digitalProto.reset ();\n  m_analogProto.design (order);\n\n  BandPassTransform (centerFrequency,")],
  'a rejected band pass setup after a good one, then asking for the poles and zeros',
  'the digital layout is emptied before the parameters are checked',
  r'''
int main() {
  Butterworth::BandPass<4> f; f.setupN(0.1, 0.05);
  size_t n = f.getPoleZeros().size();
  try { f.setupN(0.1, -1); } catch (const std::exception&) {}
  return f.getPoleZeros().size() == n ? 0 : bad("pole/zero pairs after the rejected setup", f.getPoleZeros().size(), n);
}''')
B('c22-odd-layout', 'C22', [('iir/Layout.h', "		PoleZeroPair m_pairs[(MaxPoles+1)/2] = {};", "		PoleZeroPair m_pairs[MaxPoles/2 + (MaxPoles == 1)] = {};")],
  'a low pass, high pass or shelf with an odd template order above one',
  'the storage for the last pole/zero pair is missing, so the setup writes behind it',
  r'''
int main() {
  struct { Butterworth::LowPass<5> f; unsigned char canary[512]; } s;
  memset(s.canary, 0x5a, sizeof s.canary);
  s.f.setupN(0.1);
  for (unsigned char c : s.canary) if (c != 0x5a) { puts("memory behind the filter overwritten"); fflush(stdout); _exit(1); }
  return 0;
}''')
B('c22-heap', 'C22', [('iir/Cascade.cpp', "		Biquad* stage = m_stageArray;\n		for (int i = 0; i < m_maxStages; ++i, ++stage)\n			stage->setIdentity();\n  \n		stage = m_stageArray;\n", "		std::vector<Biquad> identity (m_maxStages);\n		Biquad* stage = m_stageArray;\n		for (int i = 0; i < m_maxStages; ++i, ++stage)\n			*stage = identity[i];\n  \n		stage = m_stageArray;\n")],
  'any setup of a designed filter while heap allocations are watched',
  'the setup allocates memory from the heap',
  r'''
#include <new>
static size_t news = 0;
void* operator new(size_t n) { ++news; return malloc(n); }
void operator delete(void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }
int main() {
  Butterworth::LowPass<4> f; news = 0; f.setupN(0.1);
  return news == 0 ? 0 : bad("heap allocations during setup", news, 0);
}''')
B('c23-static-proto', 'C23', [('iir/Butterworth.cpp', "    const double g = pow (pow (10., gainDb/20), 1. / n2);\n", "    static double lastGain = 0, lastRoot = 1; // pow is expensive\n    if (gainDb != lastGain) { lastGain = gainDb; lastRoot = pow (pow (10., gainDb/20), 1. / n2); }\n    const double g = lastRoot;\n")],
  'two Butterworth shelves of different order and the same gain, set up one after the other',
  'a cache shared by all shelves ignores the order, so one filter influences the next one',
  r'''
int main() {
  Butterworth::LowShelf<4> f; f.setupN(0.1, 6); Butterworth::LowShelf<2> g; g.setupN(0.1, 6);
  double x = 20 * std::log10(std::abs(g.response(0)));
  return near(x, 6, 1e-6) ? 0 : bad("gain at DC in dB", x, 6);
}''')
B('c23-copy-layout', 'C23', [('iir/PoleFilter.h', "			BaseClass::setPrototypeStorage (m_analogStorage, m_digitalStorage);", "", )], '', '', r'''int main() { return 0; }''') if False else None
B('c24-conj-check', 'C24', [('iir/Biquad.cpp', "			if (zero2 != std::conj (zero1))\n", "			if (zero2.imag() != -zero1.imag())\n")],
  'setting a section from two complex zeros with opposite imaginary but different real parts',
  'a pair of zeros that is not conjugate is accepted and the second one ignored',
  r'''
int main() {
  Biquad b;
  try { b.setTwoPole(complex_t(0.1, 0.2), complex_t(0.3, 0.4), complex_t(0.1, -0.2), complex_t(0.5, -0.4)); } catch (const std::exception&) { return 0; }
  return bad("zeros which are not conjugate accepted");
}''')
BUGS = [b for b in BUGS if b]
