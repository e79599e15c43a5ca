exec(open('/verif/tools/bugs1.py').read().split("B('c01")[0])
B('c01-silence-break', 'C01', [('iir/Cascade.h', "                for (const auto &stage: m_stages)\n                        out = (state++)->filter(out, stage);", "                for (const auto &stage: m_stages) {\n                        out = (state++)->filter(out, stage);\n                        if (out == 0) break; // silence stays silence\n                }")],
  'a section output which is exactly zero in the middle of a chain whose later sections still ring', 'the later sections miss that sample',
  r'''
int main() {
  const double c[2][6] = {{1, -1, 0, 1, 0, 0}, {1, 0, 0, 1, -0.5, 0}};
  Custom::SOSCascade<2> f(c);
  double y = f.filter(1.0); y = f.filter(1.0);
  return near(y, 0.5) ? 0 : bad("second output", y, 0.5);
}''')
B('c02-df2-steady', 'C02', [('iir/State.h', "		m_v2 = m_v1;\n		m_v1 = w;\n", "		if (w == m_v1) return out; // steady state\n		m_v2 = m_v1;\n		m_v1 = w;\n")],
  'direct form II and two equal successive delay values after a different one', 'the older delay value is not updated',
  r'''
int main() {
  const double c[1][6] = {{0, 0, 1, 1, 0, 0}};
  Custom::SOSCascade<1, DirectFormII> f(c); Custom::SOSCascade<1, DirectFormI> g(c);
  double in[5] = {1, 2, 2, 2, 2};
  for (double x : in) { double a = f.filter(x), b = g.filter(x); if (a != b) return bad("output", a, b); }
  return 0;
}''')
B('c03-df1-idle', 'C03', [('iir/State.h', "		m_x1 = 0;\n		m_x2 = 0;\n		m_y1 = 0;\n		m_y2 = 0;\n", "		if (m_x1 == 0 && m_y1 == 0) return; // already at rest\n		m_x1 = 0;\n		m_x2 = 0;\n		m_y1 = 0;\n		m_y2 = 0;\n")],
  'direct form I: the last input and output exactly zero, the ones before not', 'the older delay values survive reset()',
  r'''
int main() {
  const double c[1][6] = {{1, 0, 1, 1, 0, 0}};
  Custom::SOSCascade<1, DirectFormI> f(c);
  f.filter(1.0); f.filter(0.0); f.reset();
  double y = f.filter(0.0);
  return y == 0 ? 0 : bad("output after reset", y, 0);
}''')
B('c04-uchar-clamp', 'C04', [('iir/Cascade.h', "                return static_cast<Sample> (out);", "                if (sizeof(Sample) == 1 && out > 127) out = 127; // full scale\n                return static_cast<Sample> (out);")],
  'unsigned 8 bit samples above 127', 'the output is limited to the signed range',
  r'''
int main() {
  const double c[1][6] = {{1, 0, 0, 1, 0, 0}};
  Custom::SOSCascade<1> f(c);
  unsigned char y = f.filter((unsigned char) 200);
  return y == 200 ? 0 : bad("output", y, 200);
}''')
B('c05-terminator', 'C05', [('iir/Cascade.h', "                for (int i = 0; i < MaxStages; i++) {\n                        stages[i].setCoefficients(", "                for (int i = 0; i < MaxStages; i++) {\n                        // an empty row ends the table\n                        if (sosCoefficients[i][0] == 0 && sosCoefficients[i][1] == 0 && sosCoefficients[i][2] == 0) break;\n                        stages[i].setCoefficients(")],
  'a row with zero numerator', 'this and the following rows are ignored',
  r'''
int main() {
  const double c[2][6] = {{0, 0, 0, 1, 0, 0}, {3, 0, 0, 1, 0, 0}};
  Custom::SOSCascade<2> f(c);
  double y = f.filter(1.0);
  return y == 0 ? 0 : bad("output", y, 0);
}''')
B('c06-skip-b0', 'C06', [('iir/Cascade.cpp', "			complex_t cb (1);\n			complex_t ct    (stage->getB0()/stage->getA0());", "			if (stage->getB0() == 0) continue; // section not in use\n			complex_t cb (1);\n			complex_t ct    (stage->getB0()/stage->getA0());")],
  'a section of a cascade whose b0 is zero (a cascade with such a section)', 'its response is left out',
  r'''
struct C : Cascade { Biquad b[1]; C() { setCascadeStorage(Storage(1, b)); Layout<2> l; LayoutBase p = l; p.addPoleZeroConjugatePairs(complex_t(0.5, 0.1), complex_t(0.2, 0.3)); p.setNormal(0, 1); setLayout(p); b[0].setCoefficients(1, -0.5, 0.25, 0, 1, 0); } };
int main() {
  C c;
  double h = std::abs(c.response(0)), w = 1 / 0.75;
  return near(h, w) ? 0 : bad("gain at 0", h, w);
}''')
B('c07-a1-zero', 'C07', [('iir/Biquad.cpp', "				if (poles.is_nan()) throw_invalid_argument(\"poles are NaN\");", "				if (a1 == 0) { poles.first = std::sqrt (std::fabs (a2 / a0)); poles.second = -poles.first; }\n				if (poles.is_nan()) throw_invalid_argument(\"poles are NaN\");")],
  'a section with a1 exactly zero and a2 positive', 'imaginary poles are reported as real ones',
  r'''
int main() {
  Biquad b; b.setCoefficients(1, 0, 0.25, 1, 0.5, 0.1);
  auto p = b.getPoleZeros()[0].poles.first;
  return near(std::fabs(p.imag()), 0.5) ? 0 : bad("imaginary part", p.imag(), 0.5);
}''')
B('c08-shelf-high', 'C08', [('iir/Butterworth.cpp', "		const double theta = doublePi / 2 * (1 + (2 * i + 1.0) / numPoles); // xx", "")] if False else
 [('iir/PoleFilter.cpp', "	// prewarp\n	f = tan (doublePi * fc);", "	// prewarp (short series: accurate enough for low cutoffs)\n	f = fc < 0.02 ? doublePi * fc : tan (doublePi * fc);")],
  'cutoffs below 0.02', 'the frequency is not warped', r'''
int main() {
  Butterworth::LowPass<3> f; f.setupN(0.01);
  double h = std::norm(f.response(0.02)), t = tan(M_PI*0.02)/tan(M_PI*0.01), w = 1/(1+std::pow(t,6));
  return near(h, w, 1e-7) ? 0 : bad("power at 0.02", h, w);
}''') if False else None
B('c09-small-angle', 'C09', [('iir/PoleFilter.cpp', "	// prewarp\n	f = tan (doublePi * fc);", "	// prewarp (no need for tan at low cutoffs)\n	f = fc < 0.002 ? doublePi * fc : tan (doublePi * fc);")],
  'cutoffs below 0.002', 'the cutoff is not exactly half power',
  r'''
int main() {
  Butterworth::LowPass<6> f; f.setupN(0.0019);
  double h = std::norm(f.response(0.0019));
  return near(h, 0.5, 1e-6) ? 0 : bad("power at the cutoff", h, 0.5);
}''')
B('c12-high-order', 'C12', [('iir/ChebyshevII.cpp', "      const double im = 1 / cos (k * fn);\n      addPole", "      const double im = 1 / cos (i > 5 ? floor (k * fn * 1e4) / 1e4 : k * fn);\n      addPole", "void AnalogLowPass::design")],
  'orders of 14 and more', 'some zeros are only accurate to four digits',
  r'''
int main() {
  ChebyshevII::LowPass<16> f; f.setupN(0.2, 40);
  // zeros of the stop band: tan(pi f) = tan(pi fc)/cos(k pi/32)
  for (int k = 1; k < 16; k += 2) {
    double z = std::atan(std::tan(M_PI*0.2) / std::cos(k*M_PI/32)) / M_PI, h = std::abs(f.response(z));
    if (h > 1e-7) return bad("gain at a zero", h, 0);
  }
  return 0;
}''')
B('c15-tiny-gain', 'C15', [('iir/RBJ.cpp', "		double A  = pow (10, gainDb/40);", "		double A  = fabs (gainDb) < 0.01 ? 1 : pow (10, gainDb/40); // inaudible", "void HighShelf::setupN")],
  'a high shelf with a gain below 0.01 dB', 'the gain is not applied',
  r'''
int main() {
  RBJ::HighShelf f; f.setupN(0.1, 0.005);
  double h = 20*std::log10(std::abs(f.response(0.5)));
  return near(h, 0.005, 1e-5) ? 0 : bad("gain", h, 0.005);
}''')
B('c18-fine-tuning', 'C18', [('iir/RBJ.cpp', "		double w0 = 2 * doublePi * cutoffFrequency;\n", "		if (fabs (cutoffFrequency - m_last) > 1e-7) m_last = cutoffFrequency; // no audible change otherwise\n		double w0 = 2 * doublePi * m_last;\n", "void HighPass::setupN"),
   ('iir/RBJ.h', "	struct IIR_EXPORT HighPass : RBJbase\n	{\n", "	struct IIR_EXPORT HighPass : RBJbase\n	{\n		double m_last = -1;\n")],
  'a second setup whose cutoff differs by less than 1e-7', 'the second setup keeps the first cutoff',
  r'''
int main() {
  RBJ::HighPass f, g; f.setupN(1e-7); f.setupN(1.5e-7); g.setupN(1.5e-7);
  return f.m_a1 == g.m_a1 && f.m_a2 == g.m_a2 ? 0 : bad("a2", f.m_a2, g.m_a2);
}''')
B('c19-abs-order', 'C19', [('iir/ChebyshevI.h', "			if (reqOrder > FilterOrder) throw_invalid_argument(orderTooHigh);", "			if (reqOrder > FilterOrder) throw_invalid_argument(orderTooHigh);\n			if (reqOrder < 1) reqOrder = FilterOrder; // not given", "struct BandStop", "void setupN(int reqOrder")],
  'ChebyshevI::BandStop::setupN with an order below 1', 'the order is silently replaced',
  r'''
int main() {
  ChebyshevI::BandStop<4> f;
  try { f.setupN(0, 0.2, 0.1, 1.0); } catch (const std::invalid_argument&) { return 0; }
  return bad("order 0 accepted");
}''')
B('c20-scale-b1', 'C20', [('iir/Biquad.cpp', "		if (Iir::is_nan (b0) || Iir::is_nan (b1) || Iir::is_nan (b2))", "		if (Iir::is_nan (b0))")],
  'a scale which makes b1 or b2 NaN but not b0 (an infinite b1 scaled by zero)', 'NaN coefficients are left behind',
  r'''
int main() {
  Biquad b; b.setCoefficients(1, 0, 0, 1, std::numeric_limits<double>::infinity(), 0);
  try { b.applyScale(0); } catch (const std::invalid_argument&) { return 0; }
  return b.m_b1 == b.m_b1 ? 0 : bad("b1 is NaN");
}''')
B('c21-custom-direct', 'C21', [('iir/Custom.cpp', "  Biquad b;\n  b.setTwoPole (pole, zero, std::conj(pole), std::conj(zero));\n  b.applyScale (scale);\n  Biquad::operator= (b);", "  setTwoPole (pole, zero, std::conj(pole), std::conj(zero));\n  applyScale (scale);")],
  'Custom::TwoPole set up with a NaN scale', 'the rejected setup has already replaced the coefficients',
  r'''
int main() {
  Custom::TwoPole f; f.setup(2, 0.5, 1, 0.3, 2);
  double a1 = f.m_a1, b0 = f.m_b0;
  try { f.setup(std::nan(""), 0.7, 0.5, 0.1, 0.1); } catch (const std::invalid_argument&) {}
  return f.m_a1 == a1 && f.m_b0 == b0 ? 0 : bad("a1", f.m_a1, a1);
}''')
B('c22-sos-heap', 'C22', [('iir/Cascade.h', "                Biquad stages[MaxStages] = {};", "                std::vector<Biquad> stages((unsigned long)MaxStages); // keeps the stack small")],
  'setup of a custom cascade', 'memory is allocated',
  r'''
#include <cstdlib>
#include <new>
static int count = 0;
void* operator new(std::size_t n) { count++; return std::malloc(n); }
void operator delete(void* p) noexcept { std::free(p); }
void operator delete(void* p, std::size_t) noexcept { std::free(p); }
int main() {
  const double c[2][6] = {{1, 0, 0, 1, 0, 0}, {3, 0, 0, 1, 0, 0}};
  Custom::SOSCascade<2> f;
  int k = count; f.setup(c);
  return count == k ? 0 : bad("allocations", count - k, 0);
}''')
B('c23-static-sos', 'C23', [('iir/Cascade.h', "                Biquad stages[MaxStages] = {};", "                static Biquad stages[MaxStages]; // scratch")],
  'two threads setting up two custom cascades', 'both use the same scratch sections',
  r'''
#include <thread>
#include <atomic>
int main() {
  const double c[2][6] = {{1, 0, 0, 1, 0.5, 0}, {3, 0, 0, 1, 0, 0.25}}, d[2][6] = {{2, 1, 0, 1, 0.25, 0}, {5, 0, 1, 1, 0, 0.125}};
  std::atomic<int> wrong(0);
  auto run = [&](const double (&s)[2][6]) {
    Custom::SOSCascade<2> f;
    for (int i = 0; i < 3000000 && !wrong; i++) {
      f.setup(s);
      auto p = f.getCascadeStorage().stageArray;
      if (p[0].m_b0 != s[0][0] || p[1].m_b0 != s[1][0] || p[0].m_a1 != s[0][4] || p[1].m_a2 != s[1][5]) wrong = 1;
    }
  };
  std::thread t(run, std::cref(c)); run(d); t.join();
  return wrong ? bad("coefficients of the other filter") : 0;
}''')
B('c24-zero-product', 'C24', [('iir/Biquad.cpp', "			b2 =   zero1.real() * zero2.real();", "			b2 =   zero1.real() == zero2.real() ? std::norm (zero1) : zero1.real() == -zero2.real() ? std::norm (zero1) : zero1.real() * zero2.real();")],
  'two opposite real zeros', 'the sign of b2 is wrong',
  r'''
int main() {
  Biquad b; b.setTwoPole(0.5, 0.25, 0.5, -0.25);
  return b.m_b2 == -0.0625 ? 0 : bad("b2", b.m_b2, -0.0625);
}''')
B('c10-quarter', 'C10', [('iir/PoleFilter.cpp', "	if (fc < 0.25)\n		digital.setNormal (doublePi, analog.getNormalGain());\n	else", "	if (fc <= 0.25 && fw < 0.4)\n		digital.setNormal (doublePi, analog.getNormalGain());\n	else if (fc < 0.25 + 1e-6)\n		digital.setNormal (1e-2, analog.getNormalGain());\n	else")],
  'a band stop centred at (or just above or below) 0.25 with a width of at least 0.4', 'the gain is normalised slightly off 0',
  r'''
int main() {
  Butterworth::BandStop<2> f; f.setupN(0.25, 0.45);
  double h = std::abs(f.response(0));
  return near(h, 1, 1e-9) ? 0 : bad("gain at 0", h, 1);
}''')
B('c11-wn-shift', 'C11', [('iir/PoleFilter.cpp', "	digital.setNormal (doublePi - analog.getNormalW(),\n			   analog.getNormalGain());", "	digital.setNormal (doublePi - analog.getNormalW() - (fc > 0.49 ? 1e-4 : 0), // tan is steep there\n			   analog.getNormalGain());")],
  'high-pass filters with a cutoff above 0.49', 'the gain is normalised off Nyquist',
  r'''
int main() {
  ChebyshevI::HighPass<3> f; f.setupN(0.4999, 1);
  double h = std::abs(f.response(0.5));
  return near(h, 1, 1e-7) ? 0 : bad("gain at Nyquist", h, 1);
}''')
B('c13-quarter-shelf', 'C13', [('iir/Butterworth.cpp', "	BandPassTransform (centerFrequency,", "	if (gainDb > -0.2 && gainDb < 0.2) m_analogProto.setNormal (m_analogProto.getNormalW (), 1.0);\n	BandPassTransform (centerFrequency,", "BandShelfBase")],
  'a Butterworth band shelf with a gain between -0.2 and 0.2 dB', 'nothing if the normal gain is one', r'''
int main() { return 0; }''') if False else None
B('c17-odd-stages', 'C17', [('iir/Cascade.cpp', "		for (int i = 0; i < m_maxStages; ++i, ++stage)\n			stage->setIdentity();", "		for (int i = 0; i < m_maxStages - (numPoles > 6 ? 1 : 0); ++i, ++stage)\n			stage->setIdentity(); // the last one is in use in this case")],
  'a requested order above 6 which leaves the last section unused, after a setup which used it', 'the last section keeps its old coefficients',
  r'''
int main() {
  Butterworth::LowPass<12> f; Butterworth::LowPass<8> g;
  f.setupN(12, 0.1); f.setupN(8, 0.2); g.setupN(8, 0.2);
  double d = 0; for (int i = 0; i < 20; i++) d += std::fabs(f.filter(i == 0 ? 1.0 : 0.0) - g.filter(i == 0 ? 1.0 : 0.0));
  return d < 1e-12 ? 0 : bad("difference", d, 0);
}''')
B('c14-narrow', 'C14', [('iir/RBJ.cpp', "		double AL = sn / ( 2 * bandWidth );", "		double AL = sn / ( 2 * (bandWidth > 200 ? 200 : bandWidth) );", "void BandPass2::setupN")],
  'constant-peak band-pass with a Q above 200', 'the Q is limited', r'''
int main() {
  RBJ::BandPass2 f; f.setupN(0.1, 1000);
  double h = std::abs(f.response(0.101)), Q = 1000, t = tan(M_PI*0.101)/tan(M_PI*0.1), w = 1/std::sqrt(1+Q*Q*(t-1/t)*(t-1/t));
  return near(h, w, 1e-6) ? 0 : bad("gain at 0.101", h, w);
}''')
B('c16-rate-int', 'C16', [('iir/ChebyshevI.h', "cutoffFrequency / sampleRate,", "sampleRate > 1000 ? cutoffFrequency / (float) sampleRate : cutoffFrequency / sampleRate,", "struct HighShelf", "void setup (double sampleRate")],
  'ChebyshevI::HighShelf at sampling rates above 1000 which are not single precision numbers', 'the rate is rounded',
  r'''
int main() {
  ChebyshevI::HighShelf<2> f, g; f.setup(44100.0001, 5000.0, 6, 1); g.setupN(5000.0 / 44100.0001, 6, 1);
  double a = f.response(0.2).real(), b = g.response(0.2).real();
  return near(a, b, 1e-12) ? 0 : bad("response", a, b);
}''')
