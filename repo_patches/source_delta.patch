From bc7147befeab6e370f953aa2a6a6cb707f27b42f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:05 +0000
Subject: [PATCH 01/11] fix: copies of a filter use their own coefficient and
 layout storage

---
 iir/Cascade.h    |  8 ++++++++
 iir/Layout.h     |  7 +++++++
 iir/PoleFilter.h | 20 +++++++++++++++++++-
 3 files changed, 34 insertions(+), 1 deletion(-)

diff --git a/iir/Cascade.h b/iir/Cascade.h
index 57578d2..3c89d46 100644
--- a/iir/Cascade.h
+++ b/iir/Cascade.h
@@ -99,6 +99,14 @@ namespace Iir {
 
         void setLayout (const LayoutBase& proto);
 
+        protected:
+        // replaces the storage but keeps the current number of stages
+        void rebindCascadeStorage (const Storage& storage)
+        {
+                m_maxStages = storage.maxStages;
+                m_stageArray = storage.stageArray;
+        }
+
         private:
         int m_numStages = 0;
         int m_maxStages = 0;
diff --git a/iir/Layout.h b/iir/Layout.h
index b69d2ec..9b4efa2 100644
--- a/iir/Layout.h
+++ b/iir/Layout.h
@@ -83,6 +83,13 @@ namespace Iir {
 			m_pair = other.m_pair;
 		}
 
+		// replaces the storage but keeps the current layout
+		void rebindStorage (const LayoutBase& other)
+		{
+			m_maxPoles = other.m_maxPoles;
+			m_pair = other.m_pair;
+		}
+
 		void reset ()
 		{
 			m_numPoles = 0;
diff --git a/iir/PoleFilter.h b/iir/PoleFilter.h
index a5dd6e0..3aa5a8f 100644
--- a/iir/PoleFilter.h
+++ b/iir/PoleFilter.h
@@ -100,6 +100,14 @@ namespace Iir {
 			m_analogProto.setStorage (analogStorage);
 			m_digitalProto = digitalStorage;
 		}
+
+		// replaces the storage but keeps the current layouts
+		void rebindPrototypeStorage (const LayoutBase& analogStorage,
+					     const LayoutBase& digitalStorage)
+		{
+			m_analogProto.rebindStorage (analogStorage);
+			m_digitalProto.rebindStorage (digitalStorage);
+		}
 		
 	protected:
 		AnalogPrototype m_analogProto = {};
@@ -127,7 +135,17 @@ namespace Iir {
 				CascadeStages<(MaxDigitalPoles + 1) / 2 , StateType>::reset();
 			}
 		
-		PoleFilter(const PoleFilter&) = default;
+		PoleFilter(const PoleFilter& other)
+			: BaseClass (other)
+			, CascadeStages <(MaxDigitalPoles + 1) / 2 , StateType> (other)
+			, m_analogStorage (other.m_analogStorage)
+			, m_digitalStorage (other.m_digitalStorage)
+			{
+				// The copied base classes still point to the
+				// storage of the original: use our own instead.
+				BaseClass::rebindCascadeStorage (this->getCascadeStorage());
+				BaseClass::rebindPrototypeStorage (m_analogStorage, m_digitalStorage);
+			}
 		
 		PoleFilter& operator=(const PoleFilter&)
 			{
-- 
2.43.0


From 33dec12f5e6893821b895470767fe5d946ec3632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:05 +0000
Subject: [PATCH 02/11] fix: a rejected prototype design is not mistaken for a
 completed one by the next setup

---
 iir/Butterworth.cpp |  5 ++++-
 iir/ChebyshevI.cpp  | 10 ++++++++--
 iir/ChebyshevII.cpp | 10 ++++++++--
 3 files changed, 20 insertions(+), 5 deletions(-)

diff --git a/iir/Butterworth.cpp b/iir/Butterworth.cpp
index 1a96d04..c22ac19 100644
--- a/iir/Butterworth.cpp
+++ b/iir/Butterworth.cpp
@@ -80,7 +80,8 @@ void AnalogLowShelf::design (int numPoles, double gainDb)
   if (m_numPoles != numPoles ||
       m_gainDb != gainDb)
   {
-    m_numPoles = numPoles;
+    // not valid until the design has been completed
+    m_numPoles = -1;
     m_gainDb = gainDb;
 
     reset ();
@@ -99,6 +100,8 @@ void AnalogLowShelf::design (int numPoles, double gainDb)
     
     if (numPoles & 1)
       add (gp, gz);
+
+    m_numPoles = numPoles;
   }
 }
 
diff --git a/iir/ChebyshevI.cpp b/iir/ChebyshevI.cpp
index 23730f4..2d7d71e 100644
--- a/iir/ChebyshevI.cpp
+++ b/iir/ChebyshevI.cpp
@@ -51,7 +51,8 @@ void AnalogLowPass::design (int numPoles,
   if (m_numPoles != numPoles ||
       m_rippleDb != rippleDb)
   {
-    m_numPoles = numPoles;
+    // not valid until the design has been completed
+    m_numPoles = -1;
     m_rippleDb = rippleDb;
 
     reset ();
@@ -81,6 +82,8 @@ void AnalogLowPass::design (int numPoles,
     {
       setNormal (0, pow (10, -rippleDb/20.));
     }
+
+    m_numPoles = numPoles;
   }
 }
 
@@ -106,7 +109,8 @@ void AnalogLowShelf::design (int numPoles,
       m_rippleDb != rippleDb ||
       m_gainDb != gainDb)
   {
-    m_numPoles = numPoles;
+    // not valid until the design has been completed
+    m_numPoles = -1;
     m_rippleDb = rippleDb;
     m_gainDb = gainDb;
 
@@ -151,6 +155,8 @@ void AnalogLowShelf::design (int numPoles,
 
     if (numPoles & 1)
       add (-sinh_u, -sinh_v);
+
+    m_numPoles = numPoles;
   }
 }
 
diff --git a/iir/ChebyshevII.cpp b/iir/ChebyshevII.cpp
index f9647ab..bc45b3c 100644
--- a/iir/ChebyshevII.cpp
+++ b/iir/ChebyshevII.cpp
@@ -55,7 +55,8 @@ void AnalogLowPass::design (int numPoles,
   if (m_numPoles != numPoles ||
       m_stopBandDb != stopBandDb)
   {
-    m_numPoles = numPoles;
+    // not valid until the design has been completed
+    m_numPoles = -1;
     m_stopBandDb = stopBandDb;
 
     reset ();
@@ -81,6 +82,8 @@ void AnalogLowPass::design (int numPoles,
     {
       add (1 / sinh_v0, infinity());
     }
+
+    m_numPoles = numPoles;
   }
 }
 
@@ -107,7 +110,8 @@ void AnalogLowShelf::design (int numPoles,
       m_stopBandDb != stopBandDb ||
       m_gainDb != gainDb)
   {
-    m_numPoles = numPoles;
+    // not valid until the design has been completed
+    m_numPoles = -1;
     m_stopBandDb = stopBandDb;
     m_gainDb = gainDb;
 
@@ -152,6 +156,8 @@ void AnalogLowShelf::design (int numPoles,
 
     if (numPoles & 1)
       add (-sinh_u, -sinh_v);
+
+    m_numPoles = numPoles;
   }
 }
 
-- 
2.43.0


From 206bc03597eaca01da86b2931f0680b4ffe8dc61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:43 +0000
Subject: [PATCH 03/11] fix: reject coefficients which become NaN by
 normalising or scaling them

---
 iir/Biquad.cpp | 36 ++++++++++++++++++++++++++++--------
 1 file changed, 28 insertions(+), 8 deletions(-)

diff --git a/iir/Biquad.cpp b/iir/Biquad.cpp
index 47f7102..4b5bc06 100644
--- a/iir/Biquad.cpp
+++ b/iir/Biquad.cpp
@@ -130,12 +130,25 @@ namespace Iir {
 		if (Iir::is_nan (b1)) throw_invalid_argument("b1 is NaN");
 		if (Iir::is_nan (b2)) throw_invalid_argument("b2 is NaN");
 
+		// the normalised coefficients can be NaN even if their arguments aren't
+		a1 /= a0;
+		a2 /= a0;
+		b0 /= a0;
+		b1 /= a0;
+		b2 /= a0;
+
+		if (Iir::is_nan (a1)) throw_invalid_argument("a1/a0 is NaN");
+		if (Iir::is_nan (a2)) throw_invalid_argument("a2/a0 is NaN");
+		if (Iir::is_nan (b0)) throw_invalid_argument("b0/a0 is NaN");
+		if (Iir::is_nan (b1)) throw_invalid_argument("b1/a0 is NaN");
+		if (Iir::is_nan (b2)) throw_invalid_argument("b2/a0 is NaN");
+
 		m_a0 = a0;
-		m_a1 = a1/a0;
-		m_a2 = a2/a0;
-		m_b0 = b0/a0;
-		m_b1 = b1/a0;
-		m_b2 = b2/a0;
+		m_a1 = a1;
+		m_a2 = a2;
+		m_b0 = b0;
+		m_b1 = b1;
+		m_b2 = b2;
 	}
 
 	void Biquad::setOnePole (complex_t pole, complex_t zero)
@@ -213,9 +226,16 @@ namespace Iir {
 
 	void Biquad::applyScale (double scale)
 	{
-		m_b0 *= scale;
-		m_b1 *= scale;
-		m_b2 *= scale;
+		const double b0 = m_b0 * scale;
+		const double b1 = m_b1 * scale;
+		const double b2 = m_b2 * scale;
+
+		if (Iir::is_nan (b0) || Iir::is_nan (b1) || Iir::is_nan (b2))
+			throw_invalid_argument("scaled coefficients are NaN");
+
+		m_b0 = b0;
+		m_b1 = b1;
+		m_b2 = b2;
 	}
 
 }
-- 
2.43.0


From c41e4e9084e1e21e609c78cd31f2f67b62a4cfe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:43 +0000
Subject: [PATCH 04/11] fix: pole and zero of a first order section

---
 iir/Biquad.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/iir/Biquad.cpp b/iir/Biquad.cpp
index 4b5bc06..397b222 100644
--- a/iir/Biquad.cpp
+++ b/iir/Biquad.cpp
@@ -51,8 +51,8 @@ namespace Iir {
 		if (a2 == 0 && b2 == 0)
 		{
 			// single pole
-			poles.first = -a1;
-			zeros.first = -b0 / b1;
+			poles.first = -a1 / a0;
+			zeros.first = -b1 / b0;
 			poles.second = 0;
 			zeros.second = 0;
 		}
-- 
2.43.0


From 0687c75481a1e9fdf571e8435265b8c311567483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:43 +0000
Subject: [PATCH 05/11] fix: reject filter orders below one

---
 iir/Butterworth.cpp | 4 ++++
 iir/ChebyshevI.cpp  | 4 ++++
 iir/ChebyshevII.cpp | 4 ++++
 iir/Common.h        | 1 +
 4 files changed, 13 insertions(+)

diff --git a/iir/Butterworth.cpp b/iir/Butterworth.cpp
index c22ac19..3055f76 100644
--- a/iir/Butterworth.cpp
+++ b/iir/Butterworth.cpp
@@ -48,6 +48,8 @@ AnalogLowPass::AnalogLowPass ()
 
 void AnalogLowPass::design (int numPoles)
 {
+  if (numPoles < 1) throw_invalid_argument(orderTooLow);
+
   if (m_numPoles != numPoles)
   {
     m_numPoles = numPoles;
@@ -77,6 +79,8 @@ AnalogLowShelf::AnalogLowShelf ()
 
 void AnalogLowShelf::design (int numPoles, double gainDb)
 {
+  if (numPoles < 1) throw_invalid_argument(orderTooLow);
+
   if (m_numPoles != numPoles ||
       m_gainDb != gainDb)
   {
diff --git a/iir/ChebyshevI.cpp b/iir/ChebyshevI.cpp
index 2d7d71e..2701356 100644
--- a/iir/ChebyshevI.cpp
+++ b/iir/ChebyshevI.cpp
@@ -48,6 +48,8 @@ AnalogLowPass::AnalogLowPass ()
 void AnalogLowPass::design (int numPoles,
                             double rippleDb)
 {
+  if (numPoles < 1) throw_invalid_argument(orderTooLow);
+
   if (m_numPoles != numPoles ||
       m_rippleDb != rippleDb)
   {
@@ -105,6 +107,8 @@ void AnalogLowShelf::design (int numPoles,
                              double gainDb,
                              double rippleDb)
 {
+  if (numPoles < 1) throw_invalid_argument(orderTooLow);
+
   if (m_numPoles != numPoles ||
       m_rippleDb != rippleDb ||
       m_gainDb != gainDb)
diff --git a/iir/ChebyshevII.cpp b/iir/ChebyshevII.cpp
index bc45b3c..3de9887 100644
--- a/iir/ChebyshevII.cpp
+++ b/iir/ChebyshevII.cpp
@@ -52,6 +52,8 @@ AnalogLowPass::AnalogLowPass ()
 void AnalogLowPass::design (int numPoles,
                             double stopBandDb)
 {
+  if (numPoles < 1) throw_invalid_argument(orderTooLow);
+
   if (m_numPoles != numPoles ||
       m_stopBandDb != stopBandDb)
   {
@@ -106,6 +108,8 @@ void AnalogLowShelf::design (int numPoles,
                              double gainDb,
                              double stopBandDb)
 {
+  if (numPoles < 1) throw_invalid_argument(orderTooLow);
+
   if (m_numPoles != numPoles ||
       m_stopBandDb != stopBandDb ||
       m_gainDb != gainDb)
diff --git a/iir/Common.h b/iir/Common.h
index d8f8f4f..b42ee5c 100644
--- a/iir/Common.h
+++ b/iir/Common.h
@@ -67,6 +67,7 @@
 #include <stdexcept> // for invalid_argument
 
 static const char orderTooHigh[] = "Requested order is too high. Provide a higher order for the template.";
+static const char orderTooLow[] = "Requested order is too low. It needs to be at least one.";
 
 #define DEFAULT_FILTER_ORDER 4
 
-- 
2.43.0


From 83fd32216ff34da283d6762d44873681afec8c59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:43 +0000
Subject: [PATCH 06/11] fix: reject bands without a positive width

---
 iir/PoleFilter.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/iir/PoleFilter.cpp b/iir/PoleFilter.cpp
index d54a5eb..f77161c 100644
--- a/iir/PoleFilter.cpp
+++ b/iir/PoleFilter.cpp
@@ -43,6 +43,7 @@ namespace Iir {
 
 static const char cutoffError[] = "The cutoff frequency needs to be below the Nyquist frequency.";
 static const char cutoffNeg[] = "Cutoff frequency is negative.";
+static const char widthError[] = "The width of the frequency band needs to be positive.";
 
 complex_t LowPassTransform::transform (complex_t c)
 {
@@ -144,6 +145,7 @@ BandPassTransform::BandPassTransform (double fc,
 {
 	if (!(fc < 0.5)) throw_invalid_argument(cutoffError);
 	if (fc < 0.0) throw_invalid_argument(cutoffNeg);
+	if (!(fw > 0.0)) throw_invalid_argument(widthError);
 
 	digital.reset ();
 	
@@ -228,6 +230,7 @@ BandStopTransform::BandStopTransform (double fc,
 {
 	if (!(fc < 0.5)) throw_invalid_argument(cutoffError);
 	if (fc < 0.0) throw_invalid_argument(cutoffNeg);
+	if (!(fw > 0.0)) throw_invalid_argument(widthError);
 
 	digital.reset ();
 	
-- 
2.43.0


From 3d4d6e9ca88c4447f0387879ed17d3604a6a66f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:43 +0000
Subject: [PATCH 07/11] fix: RBJ filters reject frequencies outside of
 0..Nyquist and a Q or bandwidth which is not positive

---
 iir/RBJ.cpp | 29 +++++++++++++++++++++++++++++
 1 file changed, 29 insertions(+)

diff --git a/iir/RBJ.cpp b/iir/RBJ.cpp
index b1b80eb..d1317d6 100644
--- a/iir/RBJ.cpp
+++ b/iir/RBJ.cpp
@@ -40,9 +40,22 @@ namespace Iir {
 
 namespace RBJ {
 
+	static void checkFrequency(double f)
+	{
+		if (!(f < 0.5)) throw_invalid_argument("The frequency needs to be below the Nyquist frequency.");
+		if (f < 0.0) throw_invalid_argument("The frequency is negative.");
+	}
+
+	static void checkPositive(double v)
+	{
+		if (!(v > 0.0)) throw_invalid_argument("The Q factor or bandwidth needs to be positive.");
+	}
+
 	void LowPass::setupN(double cutoffFrequency,
 			    double q)
 	{
+		checkFrequency(cutoffFrequency);
+		checkPositive(q);
 		double w0 = 2 * doublePi * cutoffFrequency;
 		double cs = cos (w0);
 		double sn = sin (w0);
@@ -59,6 +72,8 @@ namespace RBJ {
 	void HighPass::setupN (double cutoffFrequency,
 			      double q)
 	{
+		checkFrequency(cutoffFrequency);
+		checkPositive(q);
 		double w0 = 2 * doublePi * cutoffFrequency;
 		double cs = cos (w0);
 		double sn = sin (w0);
@@ -75,6 +90,8 @@ namespace RBJ {
 	void BandPass1::setupN (double centerFrequency,
 			       double bandWidth)
 	{
+		checkFrequency(centerFrequency);
+		checkPositive(bandWidth);
 		double w0 = 2 * doublePi * centerFrequency;
 		double cs = cos (w0);
 		double sn = sin (w0);
@@ -91,6 +108,8 @@ namespace RBJ {
 	void BandPass2::setupN (double centerFrequency,
 			       double bandWidth)
 	{
+		checkFrequency(centerFrequency);
+		checkPositive(bandWidth);
 		double w0 = 2 * doublePi * centerFrequency;
 		double cs = cos (w0);
 		double sn = sin (w0);
@@ -107,6 +126,8 @@ namespace RBJ {
 	void BandStop::setupN (double centerFrequency,
 			      double bandWidth)
 	{
+		checkFrequency(centerFrequency);
+		checkPositive(bandWidth);
 		double w0 = 2 * doublePi * centerFrequency;
 		double cs = cos (w0);
 		double sn = sin (w0);
@@ -123,6 +144,8 @@ namespace RBJ {
 	void IIRNotch::setupN (double centerFrequency,
 			      double q_factor)
 	{
+		checkFrequency(centerFrequency);
+		checkPositive(q_factor);
 		double w0 = 2 * doublePi * centerFrequency;
 		double cs = cos (w0);
 		double r = exp(-(w0/2) / q_factor);
@@ -139,6 +162,7 @@ namespace RBJ {
 			      double gainDb,
 			      double shelfSlope)
 	{
+		checkFrequency(cutoffFrequency);
 		double A  = pow (10, gainDb/40);
 		double w0 = 2 * doublePi * cutoffFrequency;
 		double cs = cos (w0);
@@ -159,6 +183,7 @@ namespace RBJ {
 			       double gainDb,
 			       double shelfSlope)
 	{
+		checkFrequency(cutoffFrequency);
 		double A  = pow (10, gainDb/40);
 		double w0 = 2 * doublePi * cutoffFrequency;
 		double cs = cos (w0);
@@ -179,6 +204,8 @@ namespace RBJ {
 			       double gainDb,
 			       double bandWidth)
 	{
+		checkFrequency(centerFrequency);
+		checkPositive(bandWidth);
 		double A  = pow (10, gainDb/40);
 		double w0 = 2 * doublePi * centerFrequency;
 		double cs = cos(w0);
@@ -198,6 +225,8 @@ namespace RBJ {
 void AllPass::setupN (double phaseFrequency,
                      double q)
 {
+	checkFrequency(phaseFrequency);
+	checkPositive(q);
 	double w0 = 2 * doublePi * phaseFrequency;
 	double cs = cos (w0);
 	double sn = sin (w0);
-- 
2.43.0


From a6d400663ca9359d601d0ec45d62e755d391539c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:43 +0000
Subject: [PATCH 08/11] fix: no negative magnitudes for std::polar in the
 Butterworth shelf design

---
 iir/Butterworth.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/iir/Butterworth.cpp b/iir/Butterworth.cpp
index 3055f76..e9a78ef 100644
--- a/iir/Butterworth.cpp
+++ b/iir/Butterworth.cpp
@@ -99,7 +99,7 @@ void AnalogLowShelf::design (int numPoles, double gainDb)
     for (int i = 1; i <= pairs; ++i)
     {
       const double theta = doublePi * (0.5 - (2 * i - 1) / n2);
-      addPoleZeroConjugatePairs (std::polar (gp, theta), std::polar (gz, theta));
+      addPoleZeroConjugatePairs (-std::polar (1. / g, theta), -std::polar (g, theta));
     }
     
     if (numPoles & 1)
-- 
2.43.0


From 26d8374d240d74ccd71584128bb43a683882a103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:43 +0000
Subject: [PATCH 09/11] fix: rejected custom, SOS and pole/zero setups leave
 the coefficients untouched

---
 iir/Biquad.cpp |  6 ++++--
 iir/Cascade.h  |  5 ++++-
 iir/Custom.cpp | 12 ++++++++----
 3 files changed, 16 insertions(+), 7 deletions(-)

diff --git a/iir/Biquad.cpp b/iir/Biquad.cpp
index 397b222..bb396c3 100644
--- a/iir/Biquad.cpp
+++ b/iir/Biquad.cpp
@@ -215,8 +215,10 @@ namespace Iir {
 
 	void Biquad::setPoleZeroForm (const BiquadPoleState& bps)
 	{
-		setPoleZeroPair (bps);
-		applyScale (bps.gain);
+		Biquad b;
+		b.setPoleZeroPair (bps);
+		b.applyScale (bps.gain);
+		*this = b;
 	}
 
 	void Biquad::setIdentity ()
diff --git a/iir/Cascade.h b/iir/Cascade.h
index 3c89d46..6eb153c 100644
--- a/iir/Cascade.h
+++ b/iir/Cascade.h
@@ -144,8 +144,9 @@ namespace Iir {
          * \param sosCoefficients 2D array in Python style sos ordering: 0-2: FIR, 3-5: IIR coeff.
          **/
         void setup (const double (&sosCoefficients)[MaxStages][6]) {
+                Biquad stages[MaxStages] = {};
                 for (int i = 0; i < MaxStages; i++) {
-                        m_stages[i].setCoefficients(
+                        stages[i].setCoefficients(
                                 sosCoefficients[i][3],
                                 sosCoefficients[i][4],
                                 sosCoefficients[i][5],
@@ -153,6 +154,8 @@ namespace Iir {
                                 sosCoefficients[i][1],
                                 sosCoefficients[i][2]);
                 }
+                for (int i = 0; i < MaxStages; i++)
+                        m_stages[i] = stages[i];
         }
 
         public:
diff --git a/iir/Custom.cpp b/iir/Custom.cpp
index e1cebdf..b29c0db 100644
--- a/iir/Custom.cpp
+++ b/iir/Custom.cpp
@@ -44,8 +44,10 @@ void OnePole::setup (double scale,
                      double pole,
                      double zero)
 {
-  setOnePole (pole, zero);
-  applyScale (scale);
+  Biquad b;
+  b.setOnePole (pole, zero);
+  b.applyScale (scale);
+  Biquad::operator= (b);
 }
 
 void TwoPole::setup (double scale,
@@ -57,8 +59,10 @@ void TwoPole::setup (double scale,
   complex_t pole = std::polar (poleRho, poleTheta);
   complex_t zero = std::polar (zeroRho, zeroTheta);
 
-  setTwoPole (pole, zero, std::conj(pole), std::conj(zero));
-  applyScale (scale);
+  Biquad b;
+  b.setTwoPole (pole, zero, std::conj(pole), std::conj(zero));
+  b.applyScale (scale);
+  Biquad::operator= (b);
 }
 
 }
-- 
2.43.0


From 7043e879951ba62d335027da54dc5702db57e58c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:06 +0000
Subject: [PATCH 10/11] fix: Chebyshev II filters reject every negative stop
 band rejection

A rejection between 0 and about -1e-15 dB was rounded to 0 dB and accepted
for even orders.
---
 iir/ChebyshevII.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/iir/ChebyshevII.cpp b/iir/ChebyshevII.cpp
index 3de9887..1fa9c2b 100644
--- a/iir/ChebyshevII.cpp
+++ b/iir/ChebyshevII.cpp
@@ -53,6 +53,7 @@ void AnalogLowPass::design (int numPoles,
                             double stopBandDb)
 {
   if (numPoles < 1) throw_invalid_argument(orderTooLow);
+  if (!(stopBandDb >= 0)) throw_invalid_argument("The stop band rejection is negative or NaN.");
 
   if (m_numPoles != numPoles ||
       m_stopBandDb != stopBandDb)
-- 
2.43.0


From ce663ba452f98203c41cff9dd627de14beb11aa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:09 +0000
Subject: [PATCH 11/11] fix: reject sections whose a0 is zero or infinite

Their coefficients read back as NaN.
---
 iir/Biquad.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/iir/Biquad.cpp b/iir/Biquad.cpp
index bb396c3..f901bef 100644
--- a/iir/Biquad.cpp
+++ b/iir/Biquad.cpp
@@ -130,6 +130,9 @@ namespace Iir {
 		if (Iir::is_nan (b1)) throw_invalid_argument("b1 is NaN");
 		if (Iir::is_nan (b2)) throw_invalid_argument("b2 is NaN");
 
+		// the coefficients can't be normalised by this a0: getA1() etc. would be NaN
+		if (a0 == 0 || std::isinf (a0)) throw_invalid_argument("a0 is zero or infinite");
+
 		// the normalised coefficients can be NaN even if their arguments aren't
 		a1 /= a0;
 		a2 /= a0;
-- 
2.43.0

