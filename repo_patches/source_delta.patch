From 8bb5bd7c2c737f5e0d3de76dcc91a96f3c0ad9e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:41 +0000
Subject: [PATCH 01/46] fix: DCT::forward must not depend on an earlier
 inverse() call

---
 dsp/transforms/DCT.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/dsp/transforms/DCT.cpp b/dsp/transforms/DCT.cpp
index 1ce1abe..01d5582 100644
--- a/dsp/transforms/DCT.cpp
+++ b/dsp/transforms/DCT.cpp
@@ -35,6 +35,11 @@ DCT::~DCT()
 void
 DCT::forward(const double *in, double *out)
 {
+    // inverse() leaves rounding residue in the even-numbered entries
+    for (int i = 0; i < m_n*2; ++i) {
+        m_time2[i*2] = 0.0;
+    }
+
     for (int i = 0; i < m_n; ++i) {
         m_time2[i*2 + 1] = in[i];
         m_time2[m_n*4 - i*2 - 1] = in[i];
-- 
2.43.0


From 29700c35046b0d7593455d7f8380794860ad5646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:41 +0000
Subject: [PATCH 02/46] fix: Kaiser window of length 1 is 1, not NaN

---
 base/KaiserWindow.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/base/KaiserWindow.cpp b/base/KaiserWindow.cpp
index 306b6aa..c014057 100644
--- a/base/KaiserWindow.cpp
+++ b/base/KaiserWindow.cpp
@@ -53,6 +53,11 @@ static double bessel0(double x)
 void
 KaiserWindow::init()
 {
+    if (m_length == 1) {
+        m_window.push_back(1.0);
+        return;
+    }
+
     double denominator = bessel0(m_beta);
     bool even = (m_length % 2 == 0);
     for (int i = 0; i < (even ? m_length/2 : (m_length+1)/2); ++i) {
-- 
2.43.0


From 6be80f637d21e42874457fa283865ab103c69231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:02 +0000
Subject: [PATCH 03/46] fix: Filter with one denominator coefficient wrote past
 its history buffer

---
 dsp/signalconditioning/Filter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsp/signalconditioning/Filter.cpp b/dsp/signalconditioning/Filter.cpp
index b737860..98c510c 100644
--- a/dsp/signalconditioning/Filter.cpp
+++ b/dsp/signalconditioning/Filter.cpp
@@ -50,7 +50,7 @@ Filter::Filter(Parameters params)
     m_offb = m_offmax;
 
     if (!m_fir) {
-        m_bufa.resize(m_order + m_offmax);
+        m_bufa.resize(m_sz + m_offmax);
     }
 
     m_bufb.resize(m_sz + m_offmax);
-- 
2.43.0


From 52019137ed483ca0feab473c4880554783da18d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:02 +0000
Subject: [PATCH 04/46] fix: FiltFilt started each call with the filter state
 of the previous one

---
 dsp/signalconditioning/FiltFilt.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dsp/signalconditioning/FiltFilt.cpp b/dsp/signalconditioning/FiltFilt.cpp
index 3f011ca..617b85f 100644
--- a/dsp/signalconditioning/FiltFilt.cpp
+++ b/dsp/signalconditioning/FiltFilt.cpp
@@ -69,6 +69,9 @@ void FiltFilt::process(const double *const QM_R__ src,
         filtScratchIn[ i + nFact ] = src[ i ];
     }
     
+    // each call is a separate series: nothing may remain of the last one
+    m_filter.reset();
+
     ////////////////////////////////
     // Do 0Ph filtering
     m_filter.process(filtScratchIn, filtScratchOut, nExt);
-- 
2.43.0


From a1b0489997a958be344e2844621a6ca3216ee2d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:02 +0000
Subject: [PATCH 05/46] fix: DecimatorB divided by the factor before checking
 that it is valid

---
 dsp/rateconversion/DecimatorB.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dsp/rateconversion/DecimatorB.cpp b/dsp/rateconversion/DecimatorB.cpp
index b6cbe3e..7da095d 100644
--- a/dsp/rateconversion/DecimatorB.cpp
+++ b/dsp/rateconversion/DecimatorB.cpp
@@ -40,7 +40,6 @@ void DecimatorB::initialise(int inLength, int decFactor)
 {
     m_inputLength = inLength;
     m_decFactor = decFactor;
-    m_outputLength = m_inputLength / m_decFactor;
 
     if (m_decFactor < 2 || !MathUtilities::isPowerOfTwo(m_decFactor)) {
         std::cerr << "ERROR: DecimatorB::initialise: Decimation factor must be a power of 2 and at least 2 (was: " << m_decFactor << ")" << std::endl;
@@ -54,6 +53,8 @@ void DecimatorB::initialise(int inLength, int decFactor)
         return;
     }        
 
+    m_outputLength = m_inputLength / m_decFactor;
+
     m_aaBuffer = new double[m_inputLength];
     m_tmpBuffer = new double[m_inputLength];
 
-- 
2.43.0


From 7b89132e502447db79e23886b958954e98c1983a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:08 +0000
Subject: [PATCH 06/46] fix: Pitch::getPitchForFrequency rounded towards zero
 below MIDI pitch 0

---
 base/Pitch.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/Pitch.cpp b/base/Pitch.cpp
index 2b8fd8b..cccbbcf 100644
--- a/base/Pitch.cpp
+++ b/base/Pitch.cpp
@@ -32,7 +32,7 @@ Pitch::getPitchForFrequency(float frequency,
 {
     float p = 12.0 * (log(frequency / (concertA / 2.0)) / log(2.0)) + 57.0;
 
-    int midiPitch = int(p + 0.00001);
+    int midiPitch = int(floor(p + 0.00001));
     float centsOffset = (p - midiPitch) * 100.0;
 
     if (centsOffset >= 50.0) {
-- 
2.43.0


From 8fd0ee99ad807ff4d0a44c2bc1fe766438e3a11b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:32 +0000
Subject: [PATCH 07/46] fix: TCSGram converted an uninitialised frame duration
 to long

---
 dsp/tonal/TCSgram.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dsp/tonal/TCSgram.cpp b/dsp/tonal/TCSgram.cpp
index 4806096..c0e7af2 100644
--- a/dsp/tonal/TCSgram.cpp
+++ b/dsp/tonal/TCSgram.cpp
@@ -23,7 +23,8 @@
 #include "maths/MathUtilities.h"
 
 TCSGram::TCSGram() :
-    m_uNumBins(6)
+    m_uNumBins(6),
+    m_dFrameDurationMS(0)
 {
 }
 
-- 
2.43.0


From f31e8cac0d6c651e2cf71d5de7661ceffe8130a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:29 +0000
Subject: [PATCH 08/46] fix: DFProcess median window ran past the data when
 shorter than the window

---
 dsp/signalconditioning/DFProcess.cpp | 49 ++++------------------------
 1 file changed, 7 insertions(+), 42 deletions(-)

diff --git a/dsp/signalconditioning/DFProcess.cpp b/dsp/signalconditioning/DFProcess.cpp
index 996eb1e..a0dc388 100644
--- a/dsp/signalconditioning/DFProcess.cpp
+++ b/dsp/signalconditioning/DFProcess.cpp
@@ -96,8 +96,7 @@ void DFProcess::process(double *src, double* dst)
 
 void DFProcess::medianFilter(double *src, double *dst)
 {
-    int i,k,j,l;
-    int index = 0;
+    int i,j,l;
 
     double val = 0;
 
@@ -106,53 +105,19 @@ void DFProcess::medianFilter(double *src, double *dst)
 
     double* scratch = new double[ m_length ];
 
-    for( i = 0; i < m_winPre; i++) {
-        
-        if (index >= m_length) {
-            break;
-        }
-
-        k = i + m_winPost + 1;
+    for( i = 0; i < m_length; i++) {
 
-        for( j = 0; j < k; j++) {
-            y[ j ] = src[ j ];
-        }
-        scratch[ index ] = MathUtilities::median( y, k );
-        index++;
-    }
+        // the window is cut short at either end of the data
+        const int first = std::max( i - m_winPre, 0 );
+        const int last = std::min( i + m_winPost, m_length - 1 );
 
-    for(  i = 0; i + m_winPost + m_winPre < m_length; i ++) {
-        
-        if (index >= m_length) {
-            break;
-        }
-                         
         l = 0;
-        for(  j  = i; j < ( i + m_winPost + m_winPre + 1); j++) {
+        for( j = first; j <= last; j++) {
             y[ l ] = src[ j ];
             l++;
         }
 
-        scratch[index] = MathUtilities::median( y, (m_winPost + m_winPre + 1 ));
-        index++;
-    }
-
-    for( i = std::max( m_length - m_winPost, 1); i < m_length; i++) {
-        
-        if (index >= m_length) {
-            break;
-        }
-
-        k = std::max( i - m_winPre, 1);
-
-        l = 0;
-        for( j = k; j < m_length; j++) {
-            y[ l ] = src[ j ];
-            l++;
-        }
-                
-        scratch[index] = MathUtilities::median( y, l);
-        index++;
+        scratch[ i ] = MathUtilities::median( y, l );
     }
 
     for( i = 0; i < m_length; i++ ) {
-- 
2.43.0


From 6b482da624e541a0229ea1b3be95cda6f3443315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:29 +0000
Subject: [PATCH 09/46] fix: DFProcess returned NaN for a silent detection
 function

---
 dsp/signalconditioning/DFProcess.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/dsp/signalconditioning/DFProcess.cpp b/dsp/signalconditioning/DFProcess.cpp
index a0dc388..c9f8ffc 100644
--- a/dsp/signalconditioning/DFProcess.cpp
+++ b/dsp/signalconditioning/DFProcess.cpp
@@ -151,6 +151,11 @@ void DFProcess::removeDCNormalize( double *src, double*dst )
 
     MathUtilities::getAlphaNorm( src, m_length, m_alphaNormParam, &DFAlphaNorm );
 
+    if (DFAlphaNorm == 0) {
+        // all silent, nothing to normalise
+        DFAlphaNorm = 1;
+    }
+
     for (int i = 0; i < m_length; i++) {
         dst[ i ] = ( src[ i ] - DFMin ) / DFAlphaNorm; 
     }
-- 
2.43.0


From 3c98bdadddecf18b312756618fb238744cf7f105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:01 +0000
Subject: [PATCH 10/46] fix: ConstantQ interleaved process() wrote one value
 past its output buffer

---
 dsp/chromagram/ConstantQ.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/dsp/chromagram/ConstantQ.cpp b/dsp/chromagram/ConstantQ.cpp
index d268756..63ffe0f 100644
--- a/dsp/chromagram/ConstantQ.cpp
+++ b/dsp/chromagram/ConstantQ.cpp
@@ -168,7 +168,6 @@ double* ConstantQ::process( const double* fftdata )
 
     for (int row=0; row < 2 * m_uK; row++) {
         m_CQdata[ row ] = 0;
-        m_CQdata[ row+1 ] = 0;
     }
     const int *fftbin = &(sk->is[0]);
     const int *cqbin = &(sk->js[0]);
-- 
2.43.0


From c1054efbb1afefcff7ea865fbdbca5224fae26c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:12 +0000
Subject: [PATCH 11/46] fix: ConstantQ took the address of elements of an empty
 kernel

---
 dsp/chromagram/ConstantQ.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/dsp/chromagram/ConstantQ.cpp b/dsp/chromagram/ConstantQ.cpp
index 63ffe0f..fa2d46e 100644
--- a/dsp/chromagram/ConstantQ.cpp
+++ b/dsp/chromagram/ConstantQ.cpp
@@ -169,6 +169,11 @@ double* ConstantQ::process( const double* fftdata )
     for (int row=0; row < 2 * m_uK; row++) {
         m_CQdata[ row ] = 0;
     }
+
+    if (sk->real.empty()) {
+        return m_CQdata;
+    }
+
     const int *fftbin = &(sk->is[0]);
     const int *cqbin = &(sk->js[0]);
     const double *real = &(sk->real[0]);
@@ -206,6 +211,10 @@ void ConstantQ::process(const double *FFTRe, const double* FFTIm,
         CQIm[ row ] = 0;
     }
 
+    if (sk->real.empty()) {
+        return;
+    }
+
     const int *fftbin = &(sk->is[0]);
     const int *cqbin = &(sk->js[0]);
     const double *real = &(sk->real[0]);
-- 
2.43.0


From ed9d014040c70a1d63c9412e743b78d56292fa10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:26 +0000
Subject: [PATCH 12/46] fix: ConstantQ interleaved process() read the spectrum
 one bin off

---
 dsp/chromagram/ConstantQ.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dsp/chromagram/ConstantQ.cpp b/dsp/chromagram/ConstantQ.cpp
index fa2d46e..be47ecf 100644
--- a/dsp/chromagram/ConstantQ.cpp
+++ b/dsp/chromagram/ConstantQ.cpp
@@ -186,8 +186,8 @@ double* ConstantQ::process( const double* fftdata )
         if (col == 0) continue;
         const double & r1 = real[i];
         const double & i1 = imag[i];
-        const double & r2 = fftdata[ (2*m_FFTLength) - 2*col - 2 ];
-        const double & i2 = fftdata[ (2*m_FFTLength) - 2*col - 2 + 1 ];
+        const double & r2 = fftdata[ (2*m_FFTLength) - 2*col ];
+        const double & i2 = fftdata[ (2*m_FFTLength) - 2*col + 1 ];
         // add the multiplication
         m_CQdata[ 2*row  ] += (r1*r2 - i1*i2);
         m_CQdata[ 2*row+1] += (r1*i2 + i1*r2);
-- 
2.43.0


From ce1c53d5df185443a5863a59ad75117b4929cc1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:26 +0000
Subject: [PATCH 13/46] fix: ConstantQ::sparsekernel leaked the kernel when
 called again

---
 dsp/chromagram/ConstantQ.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dsp/chromagram/ConstantQ.cpp b/dsp/chromagram/ConstantQ.cpp
index be47ecf..8386228 100644
--- a/dsp/chromagram/ConstantQ.cpp
+++ b/dsp/chromagram/ConstantQ.cpp
@@ -123,6 +123,7 @@ void ConstantQ::sparsekernel()
     delete [] transfWindowRe;
     delete [] transfWindowIm;
 
+    delete m_sparseKernel;
     m_sparseKernel = sk;
 }
 
-- 
2.43.0


From de93deb1d75e539e2cf1e3bf44c5c032866cb39f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:54 +0000
Subject: [PATCH 14/46] fix: GetKeyMode with a zero averaging time wrote past
 its buffers

---
 dsp/keydetection/GetKeyMode.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/dsp/keydetection/GetKeyMode.cpp b/dsp/keydetection/GetKeyMode.cpp
index 879f8a8..8cd52dc 100644
--- a/dsp/keydetection/GetKeyMode.cpp
+++ b/dsp/keydetection/GetKeyMode.cpp
@@ -100,6 +100,14 @@ GetKeyMode::GetKeyMode(Config config) :
         (m_hpcpAverage * chromaConfig.FS / m_chromaFrameSize);
     m_medianWinSize = (int)ceil
         (m_medianAverage * chromaConfig.FS / m_chromaFrameSize);
+
+    // An average of no duration still needs the current frame
+    if (m_chromaBufferSize < 1) {
+        m_chromaBufferSize = 1;
+    }
+    if (m_medianWinSize < 1) {
+        m_medianWinSize = 1;
+    }
     
     // Reset counters
     m_bufferIndex = 0;
-- 
2.43.0


From 51aa7d19f739718d10f1c21d280c29d342eccca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:54 +0000
Subject: [PATCH 15/46] fix: GetKeyMode reported a key for silence

---
 dsp/keydetection/GetKeyMode.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/dsp/keydetection/GetKeyMode.cpp b/dsp/keydetection/GetKeyMode.cpp
index 8cd52dc..4a543d6 100644
--- a/dsp/keydetection/GetKeyMode.cpp
+++ b/dsp/keydetection/GetKeyMode.cpp
@@ -260,6 +260,11 @@ int GetKeyMode::process(double *pcmData)
     int maxBin = (maxMaj > maxMin) ? maxMajBin : (maxMinBin + kBinsPerOctave);
     key = maxBin / 3 + 1;
 
+    // Nothing correlates (e.g. silence): no key detected
+    if (maxMaj <= 0 && maxMin <= 0) {
+        key = 0;
+    }
+
     // Median filtering
 
     // track Median buffer initial filling
-- 
2.43.0


From c68afe471ed960ae516157dcc29239d582c2c6c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:54 +0000
Subject: [PATCH 16/46] fix: GetKeyMode::getKeyStrengths read uninitialised
 correlations before process()

---
 dsp/keydetection/GetKeyMode.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/dsp/keydetection/GetKeyMode.cpp b/dsp/keydetection/GetKeyMode.cpp
index 4a543d6..9e0998e 100644
--- a/dsp/keydetection/GetKeyMode.cpp
+++ b/dsp/keydetection/GetKeyMode.cpp
@@ -125,6 +125,11 @@ GetKeyMode::GetKeyMode(Config config) :
     
     m_majCorr = new double[kBinsPerOctave];
     m_minCorr = new double[kBinsPerOctave];
+
+    for (int i = 0; i < kBinsPerOctave; i++) {
+        m_majCorr[i] = 0;
+        m_minCorr[i] = 0;
+    }
     
     m_majProfileNorm = new double[kBinsPerOctave];
     m_minProfileNorm = new double[kBinsPerOctave];
-- 
2.43.0


From bd8dd7f443b4d62765fc705dbcd3046723a33d43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:47 +0000
Subject: [PATCH 17/46] fix: TempoTrackV2::calculateBeats read before the data
 when shorter than the beat period

---
 dsp/tempotracking/TempoTrackV2.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/dsp/tempotracking/TempoTrackV2.cpp b/dsp/tempotracking/TempoTrackV2.cpp
index 72812b2..f703b3b 100644
--- a/dsp/tempotracking/TempoTrackV2.cpp
+++ b/dsp/tempotracking/TempoTrackV2.cpp
@@ -465,12 +465,13 @@ TempoTrackV2::calculateBeats(const vector<double> &df,
 
     // STARTING POINT, I.E. LAST BEAT.. PICK A STRONG POINT IN cumscore VECTOR
     d_vec_t tmp_vec;
-    for (int i = df_len - beat_period[beat_period.size()-1] ; i < df_len; i++) {
+    int last_period_start = df_len - beat_period[beat_period.size()-1];
+    if (last_period_start < 0) last_period_start = 0;
+    for (int i = last_period_start; i < df_len; i++) {
         tmp_vec.push_back(cumscore[i]);
     }
 
-    int startpoint = get_max_ind(tmp_vec) +
-        df_len - beat_period[beat_period.size()-1] ;
+    int startpoint = get_max_ind(tmp_vec) + last_period_start;
 
     // can happen if no results obtained earlier (e.g. input too short)
     if (startpoint >= int(backlink.size())) {
-- 
2.43.0


From 5bf7c81dc82b0dc052b251adcf7c593bf360aac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:37 +0000
Subject: [PATCH 18/46] fix: TempoTrack::process read past the data when called
 again

---
 dsp/tempotracking/TempoTrack.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dsp/tempotracking/TempoTrack.cpp b/dsp/tempotracking/TempoTrack.cpp
index ac0aadb..12b4338 100644
--- a/dsp/tempotracking/TempoTrack.cpp
+++ b/dsp/tempotracking/TempoTrack.cpp
@@ -651,6 +651,7 @@ vector<int> TempoTrack::process( vector <double> DF,
     for(int clear = 0; clear < m_lagLength; clear++){ PW[ clear ] = 0.0;}
 
     m_DFFramer.setSource( &causalDF[0], m_dataLength );
+    m_DFFramer.resetCounters();
 
     int TTFrames = m_DFFramer.getMaxNoFrames();
 
-- 
2.43.0


From a0d62b9d4bf3e04191aa0eef6dac63212202f0dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:17 +0000
Subject: [PATCH 19/46] fix: TempoTrack::findMeter leaked its scratch buffer

---
 dsp/tempotracking/TempoTrack.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dsp/tempotracking/TempoTrack.cpp b/dsp/tempotracking/TempoTrack.cpp
index 12b4338..1e3b8e3 100644
--- a/dsp/tempotracking/TempoTrack.cpp
+++ b/dsp/tempotracking/TempoTrack.cpp
@@ -481,6 +481,8 @@ int TempoTrack::findMeter(double *ACF, int len, double period)
         tsig = 4;
     }
 
+    delete [] dbf;
+
     return tsig;
 }
 
-- 
2.43.0


From 0308a10f6987bf5ebf8df98d03956f86c4e78646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:46 +0000
Subject: [PATCH 20/46] fix: TempoTrack::findMeter read one value past the
 autocorrelation

---
 dsp/tempotracking/TempoTrack.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsp/tempotracking/TempoTrack.cpp b/dsp/tempotracking/TempoTrack.cpp
index 1e3b8e3..2332d29 100644
--- a/dsp/tempotracking/TempoTrack.cpp
+++ b/dsp/tempotracking/TempoTrack.cpp
@@ -439,7 +439,7 @@ int TempoTrack::findMeter(double *ACF, int len, double period)
     double* dbf = new double[ len ]; int t = 0;
     for( int u = 0; u < len; u++ ){ dbf[ u ] = 0.0; }
 
-    if( (double)len < 6 * p + 2 ) {
+    if( (double)len < 6 * p + 3 ) {
         
         for( i = ( 3 * p - 2 ); i < ( 3 * p + 2 ) + 1; i++ ) {
             temp3A += ACF[ i ];
-- 
2.43.0


From e41081ad98d3e79bdd99af34a1e104a0e3824d6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:14 +0000
Subject: [PATCH 21/46] fix: DownBeat::resetAudioBuffer kept the decimator
 filter state

---
 dsp/tempotracking/DownBeat.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dsp/tempotracking/DownBeat.cpp b/dsp/tempotracking/DownBeat.cpp
index a5101f6..ac7e450 100644
--- a/dsp/tempotracking/DownBeat.cpp
+++ b/dsp/tempotracking/DownBeat.cpp
@@ -132,6 +132,8 @@ DownBeat::resetAudioBuffer()
     m_buffer = 0;
     m_buffill = 0;
     m_bufsiz = 0;
+    if (m_decimator1) m_decimator1->resetFilter();
+    if (m_decimator2) m_decimator2->resetFilter();
 }
 
 void
-- 
2.43.0


From 92b5bce9112b14a9c173178b87a4f3e4a4078eb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:27 +0000
Subject: [PATCH 22/46] fix: hmm_close leaked the initial probabilities

---
 hmm/hmm.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hmm/hmm.c b/hmm/hmm.c
index e00e829..18ed1e3 100644
--- a/hmm/hmm.c
+++ b/hmm/hmm.c
@@ -137,6 +137,7 @@ void hmm_close(model_t* model)
         free(model->cov[i]);
     }
     free(model->cov);         
+    free(model->p0);
     free(model);    
 }
 
-- 
2.43.0


From e0c14732b3a19e99e67c33a08388221b337f613f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:27 +0000
Subject: [PATCH 23/46] fix: invert leaked its pivot array

---
 hmm/hmm.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hmm/hmm.c b/hmm/hmm.c
index 18ed1e3..28d9bd0 100644
--- a/hmm/hmm.c
+++ b/hmm/hmm.c
@@ -609,6 +609,7 @@ void invert(double** cov, int L, double** icov, double* detcov)
 #ifndef HAVE_ATLAS	
     free(work);
 #endif
+    free(ipiv);
     free(a);	
 }
 
-- 
2.43.0


From fd5cc63fa3a18f2260bf53b2f4846542d5f2c8d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:27 +0000
Subject: [PATCH 24/46] fix: ClusterMeltSegmenter leaked its MFCC object unless
 segmented

---
 dsp/segmentation/ClusterMeltSegmenter.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dsp/segmentation/ClusterMeltSegmenter.cpp b/dsp/segmentation/ClusterMeltSegmenter.cpp
index 6fbb3b5..33be8d6 100644
--- a/dsp/segmentation/ClusterMeltSegmenter.cpp
+++ b/dsp/segmentation/ClusterMeltSegmenter.cpp
@@ -116,6 +116,7 @@ ClusterMeltSegmenter::~ClusterMeltSegmenter()
 {
     delete window;
     delete constq;
+    delete mfcc;
     delete decimator;
     delete fft;
 }
-- 
2.43.0


From 3b32534a252576a7d25349f71aa3d8403ec711c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:27 +0000
Subject: [PATCH 25/46] fix: constq_segment with fewer than 20 coefficients
 read and wrote out of bounds

---
 dsp/segmentation/cluster_segmenter.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dsp/segmentation/cluster_segmenter.c b/dsp/segmentation/cluster_segmenter.c
index 1b3e591..94e8e08 100644
--- a/dsp/segmentation/cluster_segmenter.c
+++ b/dsp/segmentation/cluster_segmenter.c
@@ -214,6 +214,7 @@ void constq_segment(int* q, double** features, int frames_read, int bins, int nc
 
         /* do PCA on the features (but not the envelope) */
         int ncomponents = 20;
+        if (ncomponents > ncoeff) ncomponents = ncoeff;
         pca_project(features, frames_read, ncoeff, ncomponents);
                 
         /* copy the envelope so that it immediatly follows the chosen components */
-- 
2.43.0


From 09b779fdd4138e8b05fe818c6cf608bd8b381603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:27 +0000
Subject: [PATCH 26/46] fix: ClusterMeltSegmenter read uninitialised memory
 when given more than a window

---
 dsp/segmentation/ClusterMeltSegmenter.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/dsp/segmentation/ClusterMeltSegmenter.cpp b/dsp/segmentation/ClusterMeltSegmenter.cpp
index 33be8d6..b4ddc01 100644
--- a/dsp/segmentation/ClusterMeltSegmenter.cpp
+++ b/dsp/segmentation/ClusterMeltSegmenter.cpp
@@ -172,7 +172,8 @@ void ClusterMeltSegmenter::extractFeaturesConstQ(const double* samples, int nsam
     int pcount = nsamples;
 
     if (decimator) {
-        pcount = nsamples / decimator->getFactor();
+        // the decimator takes exactly one window
+        pcount = getWindowsize() / decimator->getFactor();
         double *decout = new double[pcount];
         decimator->process(samples, decout);
         psource = decout;
@@ -263,7 +264,8 @@ void ClusterMeltSegmenter::extractFeaturesMFCC(const double* samples, int nsampl
     int pcount = nsamples;
 
     if (decimator) {
-        pcount = nsamples / decimator->getFactor();
+        // the decimator takes exactly one window
+        pcount = getWindowsize() / decimator->getFactor();
         double *decout = new double[pcount];
         decimator->process(samples, decout);
         psource = decout;
-- 
2.43.0


From 514886d876218e5bf809e0895e1981f7cb9629a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:54 +0000
Subject: [PATCH 27/46] fix: dlamch referred to Fortran I/O functions the
 library does not have

Programs using the HMM or segmentation code could not be linked with
libqm-dsp.a: s_wsfe, do_fio and e_wsfe were undefined.
---
 ext/cblas/src/dlamch.c | 18 ++----------------
 1 file changed, 2 insertions(+), 16 deletions(-)

diff --git a/ext/cblas/src/dlamch.c b/ext/cblas/src/dlamch.c
index 1243e82..3430ed7 100644
--- a/ext/cblas/src/dlamch.c
+++ b/ext/cblas/src/dlamch.c
@@ -15,7 +15,6 @@
 
 /* Table of constant values */
 
-static integer c__1 = 1;
 static doublereal c_b32 = 0.;
 
 doublereal dlamch_(char *cmach)
@@ -381,20 +380,12 @@ L30:
     static logical first = TRUE_;
     static logical iwarn = FALSE_;
 
-    /* Format strings */
-    static char fmt_9999[] = "(//\002 WARNING. The value EMIN may be incorre"
-	    "ct:-\002,\002  EMIN = \002,i8,/\002 If, after inspection, the va"
-	    "lue EMIN looks\002,\002 acceptable please comment out \002,/\002"
-	    " the IF block as marked within the code of routine\002,\002 DLAM"
-	    "C2,\002,/\002 otherwise supply EMIN explicitly.\002,/)";
-
     /* System generated locals */
     integer i__1;
     doublereal d__1, d__2, d__3, d__4, d__5;
 
     /* Builtin functions */
     double pow_di(doublereal *, integer *);
-    integer s_wsfe(cilist *), do_fio(integer *, char *, ftnlen), e_wsfe(void);
 
     /* Local variables */
     doublereal a, b, c__;
@@ -424,9 +415,6 @@ L30:
 	    doublereal *);
     integer ngnmin, ngpmin;
 
-    /* Fortran I/O blocks */
-    static cilist io___58 = { 0, 6, 0, fmt_9999, 0 };
-
 
 
 /*  -- LAPACK auxiliary routine (version 3.2) -- */
@@ -637,12 +625,10 @@ L10:
 	}
 	first = FALSE_;
 /* ** */
-/* Comment out this if block if EMIN is ok */
+/* The warning for a doubtful EMIN is not written: it needs the Fortran */
+/* I/O of libf2c, which this library does not include */
 	if (iwarn) {
 	    first = TRUE_;
-	    s_wsfe(&io___58);
-	    do_fio(&c__1, (char *)&lemin, (ftnlen)sizeof(integer));
-	    e_wsfe();
 	}
 /* ** */
 
-- 
2.43.0


From 536c13048022b656722a4eb0eeb282f776b36af9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:22 +0000
Subject: [PATCH 28/46] fix: invert raced when used from two threads at once

dlamch and ilaenv kept their working variables in static storage.
---
 ext/cblas/src/dlamch.c   | 36 ++++++++++++++++++------------------
 ext/clapack/src/ilaenv.c | 14 +++++++-------
 2 files changed, 25 insertions(+), 25 deletions(-)

diff --git a/ext/cblas/src/dlamch.c b/ext/cblas/src/dlamch.c
index 3430ed7..bbdb06d 100644
--- a/ext/cblas/src/dlamch.c
+++ b/ext/cblas/src/dlamch.c
@@ -21,7 +21,7 @@ doublereal dlamch_(char *cmach)
 {
     /* Initialized data */
 
-    static logical first = TRUE_;
+    logical first = TRUE_;
 
     /* System generated locals */
     integer i__1;
@@ -31,18 +31,18 @@ doublereal dlamch_(char *cmach)
     double pow_di(doublereal *, integer *);
 
     /* Local variables */
-    static doublereal t;
+    doublereal t;
     integer it;
-    static doublereal rnd, eps, base;
+    doublereal rnd, eps, base;
     integer beta;
-    static doublereal emin, prec, emax;
+    doublereal emin, prec, emax;
     integer imin, imax;
     logical lrnd;
-    static doublereal rmin, rmax;
+    doublereal rmin, rmax;
     doublereal rmach;
     extern logical lsame_(char *, char *);
     doublereal small;
-    static doublereal sfmin;
+    doublereal sfmin;
     extern /* Subroutine */ int dlamc2_(integer *, integer *, logical *, 
 	    doublereal *, integer *, doublereal *, integer *, doublereal *);
 
@@ -169,20 +169,20 @@ doublereal dlamch_(char *cmach)
 {
     /* Initialized data */
 
-    static logical first = TRUE_;
+    logical first = TRUE_;
 
     /* System generated locals */
     doublereal d__1, d__2;
 
     /* Local variables */
     doublereal a, b, c__, f, t1, t2;
-    static integer lt;
+    integer lt;
     doublereal one, qtr;
-    static logical lrnd;
-    static integer lbeta;
+    logical lrnd;
+    integer lbeta;
     doublereal savec;
     extern doublereal dlamc3_(doublereal *, doublereal *);
-    static logical lieee1;
+    logical lieee1;
 
 
 /*  -- LAPACK auxiliary routine (version 3.2) -- */
@@ -377,8 +377,8 @@ L30:
 {
     /* Initialized data */
 
-    static logical first = TRUE_;
-    static logical iwarn = FALSE_;
+    logical first = TRUE_;
+    logical iwarn = FALSE_;
 
     /* System generated locals */
     integer i__1;
@@ -390,21 +390,21 @@ L30:
     /* Local variables */
     doublereal a, b, c__;
     integer i__;
-    static integer lt;
+    integer lt;
     doublereal one, two;
     logical ieee;
     doublereal half;
     logical lrnd;
-    static doublereal leps;
+    doublereal leps;
     doublereal zero;
-    static integer lbeta;
+    integer lbeta;
     doublereal rbase;
-    static integer lemin, lemax;
+    integer lemin, lemax;
     integer gnmin;
     doublereal small;
     integer gpmin;
     doublereal third;
-    static doublereal lrmin, lrmax;
+    doublereal lrmin, lrmax;
     doublereal sixth;
     extern /* Subroutine */ int dlamc1_(integer *, integer *, logical *, 
 	    logical *);
diff --git a/ext/clapack/src/ilaenv.c b/ext/clapack/src/ilaenv.c
index 425f141..38ff960 100644
--- a/ext/clapack/src/ilaenv.c
+++ b/ext/clapack/src/ilaenv.c
@@ -19,14 +19,14 @@ integer ilaenv_(integer *ispec, char *name__, char *opts, integer *n1,
     integer s_cmp(char *, char *, ftnlen, ftnlen);
 
     /* Local variables */
-    static integer i__;
-    static char c1[1], c2[2], c3[3], c4[2];
-    static integer ic, nb, iz, nx;
-    static logical cname;
-    static integer nbmin;
-    static logical sname;
+    integer i__;
+    char c1[1], c2[2], c3[3], c4[2];
+    integer ic, nb, iz, nx;
+    logical cname;
+    integer nbmin;
+    logical sname;
     extern integer ieeeck_(integer *, real *, real *);
-    static char subnam[6];
+    char subnam[6];
     extern integer iparmq_(integer *, char *, char *, integer *, integer *, 
 	    integer *, integer *);
 
-- 
2.43.0


From 28035d6736a1c4785e058442b1999d0f88d25b15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:30 +0000
Subject: [PATCH 29/46] fix: pca_project did not project onto the leading
 components

The QL iteration returns the eigenvalues in no particular order, but the
last columns were taken as the principal axes.
---
 maths/pca/pca.c | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/maths/pca/pca.c b/maths/pca/pca.c
index fa8d1de..f84a5ec 100644
--- a/maths/pca/pca.c
+++ b/maths/pca/pca.c
@@ -280,6 +280,25 @@ void pca_project(double** data, int n, int m, int ncomponents)
 /* evals now contains the eigenvalues,
    columns of symmat now contain the associated eigenvectors. */   
 
+/* tqli leaves them in no particular order: sort by increasing eigenvalue,
+   so that the principal components are the last columns */
+    for (i = 0; i < m-1; i++) {
+        k = i;
+        for (j = i+1; j < m; j++) {
+            if (evals[j] < evals[k]) k = j;
+        }
+        if (k != i) {
+            double tmp = evals[i];
+            evals[i] = evals[k];
+            evals[k] = tmp;
+            for (k2 = 0; k2 < m; k2++) {
+                tmp = symmat[k2][i];
+                symmat[k2][i] = symmat[k2][k];
+                symmat[k2][k] = tmp;
+            }
+        }
+    }
+
 /*
   printf("\nEigenvalues:\n");
   for (j = m-1; j >= 0; j--) {
-- 
2.43.0


From 6ff18b49a398e8fadf1bada650d6e7500b3a9b32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:47 +0000
Subject: [PATCH 30/46] fix: pca_project divided zero by zero and ended the
 process

On degenerate data a rotation with f = g = 0 gave NaN, and the iteration
then stopped the program with "No convergence".
---
 maths/pca/pca.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/maths/pca/pca.c b/maths/pca/pca.c
index f84a5ec..18229f2 100644
--- a/maths/pca/pca.c
+++ b/maths/pca/pca.c
@@ -214,6 +214,14 @@ void tqli(double* d, double* e, int n, double** z)
                 {
                     f = s * e[i];
                     b = c * e[i];
+                    if (f == 0.0 && g == 0.0)
+                    {
+                        /* recover from underflow: the matrix splits here */
+                        e[i+1] = 0.0;
+                        d[i+1] -= p;
+                        e[m] = 0.0;
+                        break;
+                    }
                     if (fabs(f) >= fabs(g))
                     {
                         c = g / f;
@@ -240,6 +248,7 @@ void tqli(double* d, double* e, int n, double** z)
                         z[k][i] = c * z[k][i] - s * f;
                     }
                 }
+                if (i >= l) continue;
                 d[l] = d[l] - p;
                 e[l] = g;
                 e[m] = 0.0;
-- 
2.43.0


From 241b6ed6730fc05897268c842eeebbf67426186b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:40 +0000
Subject: [PATCH 31/46] fix: pca_project ended the process on constant data

Rounding residues left a tridiagonal matrix with denormal elements, on
which the QL iteration did not converge.
---
 maths/pca/pca.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/maths/pca/pca.c b/maths/pca/pca.c
index 18229f2..6fc1edc 100644
--- a/maths/pca/pca.c
+++ b/maths/pca/pca.c
@@ -187,11 +187,16 @@ void tred2(double** a, int n, double* d, double* e)
 void tqli(double* d, double* e, int n, double** z)
 {
     int m, l, iter, i, k;
-    double s, r, p, g, f, dd, c, b;
+    double s, r, p, g, f, dd, c, b, norm;
         
     for (i = 1; i < n; i++)
         e[i-1] = e[i];
     e[n-1] = 0.0;
+    norm = 0.0;
+    for (i = 0; i < n; i++)
+    {
+        if (fabs(d[i]) + fabs(e[i]) > norm) norm = fabs(d[i]) + fabs(e[i]);
+    }
     for (l = 0; l < n; l++)
     {
         iter = 0;
@@ -201,6 +206,9 @@ void tqli(double* d, double* e, int n, double** z)
             {
                 dd = fabs(d[m]) + fabs(d[m+1]);
                 if (fabs(e[m]) + dd == dd) break;
+                /* nor do elements matter that vanish beside the whole matrix:
+                   once they are denormal they would never converge */
+                if (fabs(e[m]) + norm == norm) break;
             }
             if (m != l)
             {
-- 
2.43.0


From 31d653fb38e3fcb1cf55b469fe90730f448f3a23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:45 +0000
Subject: [PATCH 32/46] fix: BlockAllocator used freed memory beyond 1024
 chunks

Growing the vector of blocks copied them and freed the memory they own;
the header also used std::vector without including it.
---
 thread/BlockAllocator.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/thread/BlockAllocator.h b/thread/BlockAllocator.h
index 6b4c9f5..ccf94a5 100644
--- a/thread/BlockAllocator.h
+++ b/thread/BlockAllocator.h
@@ -35,6 +35,8 @@ THE SOFTWARE.
 #define QM_DSP_BLOCK_ALLOCATOR_H
 
 #include <cstdlib>
+#include <vector>
+#include <deque>
 
 /**
  * BlockAllocator is a simple allocator for fixed-size (usually small)
@@ -174,11 +176,9 @@ private:
 
     struct Blocks
     {
-        std::vector<Block> data;
-
-        Blocks() {
-            data.reserve(1024);
-        }
+        // a deque, as Blocks own their memory and must never be copied
+        // when there come to be more of them
+        std::deque<Block> data;
     };
 
     const int m_sz;
-- 
2.43.0


From ec17022d2e0eea841db914bb021bc7077f24ceca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:47 +0000
Subject: [PATCH 33/46] fix: Condition::wait with a timeout could return at
 once

A deadline falling exactly on a whole second was passed to
pthread_cond_timedwait as 1000000000 nanoseconds, which it refuses.
---
 thread/Thread.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/thread/Thread.cpp b/thread/Thread.cpp
index 54820a0..8ad201a 100644
--- a/thread/Thread.cpp
+++ b/thread/Thread.cpp
@@ -510,7 +510,7 @@ Condition::wait(int us)
         gettimeofday(&now, 0);
 
         now.tv_usec += us;
-        while (now.tv_usec > 1000000) {
+        while (now.tv_usec >= 1000000) {
             now.tv_usec -= 1000000;
             ++now.tv_sec;
         }
-- 
2.43.0


From 4fae3dd51b81c29f62bb63b5c64fa686bbf1cba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:47 +0000
Subject: [PATCH 34/46] fix: AsynchronousTask::awaitTask could return before
 its task was done

A condition wait may return without having been signalled; awaitTask
took any return for completion.
---
 thread/AsynchronousTask.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/thread/AsynchronousTask.h b/thread/AsynchronousTask.h
index e34bec0..2a6580c 100644
--- a/thread/AsynchronousTask.h
+++ b/thread/AsynchronousTask.h
@@ -70,7 +70,9 @@ protected:
         m_todo.unlock();
     }
     void awaitTask() {
-        m_done.wait();
+        while (m_inTask) {
+            m_done.wait();
+        }
         m_done.unlock();
     }
 
-- 
2.43.0


From 4b5cd3b8dc1669b59caf3e72d4bb36ffea4bb09e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:02 +0000
Subject: [PATCH 35/46] fix: Mutex examined its owner without synchronisation

lock() and unlock() read m_locked and m_lockedBy without holding the
mutex while another thread may be writing them: a data race.
---
 thread/Thread.cpp | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/thread/Thread.cpp b/thread/Thread.cpp
index 8ad201a..e91cb92 100644
--- a/thread/Thread.cpp
+++ b/thread/Thread.cpp
@@ -375,8 +375,10 @@ void
 Mutex::lock()
 {
 #ifndef NO_THREAD_CHECKS
+    // These are examined without the mutex held, so must be atomic
     pthread_t tid = pthread_self();
-    if (m_locked && m_lockedBy == tid) {
+    if (__atomic_load_n(&m_locked, __ATOMIC_ACQUIRE) &&
+        __atomic_load_n(&m_lockedBy, __ATOMIC_RELAXED) == tid) {
         cerr << "ERROR: Deadlock on mutex " << &m_mutex << endl;
     }
 #endif
@@ -385,8 +387,8 @@ Mutex::lock()
 #endif
     pthread_mutex_lock(&m_mutex);
 #ifndef NO_THREAD_CHECKS
-    m_lockedBy = tid;
-    m_locked = true;
+    __atomic_store_n(&m_lockedBy, tid, __ATOMIC_RELAXED);
+    __atomic_store_n(&m_locked, true, __ATOMIC_RELEASE);
 #endif
 #ifdef DEBUG_MUTEX
     cerr << "MUTEX DEBUG: " << (void *)tid << ": Locked mutex " << &m_mutex << endl;
@@ -398,10 +400,10 @@ Mutex::unlock()
 {
 #ifndef NO_THREAD_CHECKS
     pthread_t tid = pthread_self();
-    if (!m_locked) {
+    if (!__atomic_load_n(&m_locked, __ATOMIC_ACQUIRE)) {
         cerr << "ERROR: Mutex " << &m_mutex << " not locked in unlock" << endl;
         return;
-    } else if (m_lockedBy != tid) {
+    } else if (__atomic_load_n(&m_lockedBy, __ATOMIC_RELAXED) != tid) {
         cerr << "ERROR: Mutex " << &m_mutex << " not owned by unlocking thread" << endl;
         return;
     }
@@ -410,7 +412,7 @@ Mutex::unlock()
     cerr << "MUTEX DEBUG: " << (void *)tid << ": Unlocking mutex " << &m_mutex << endl;
 #endif
 #ifndef NO_THREAD_CHECKS
-    m_locked = false;
+    __atomic_store_n(&m_locked, false, __ATOMIC_RELEASE);
 #endif
     pthread_mutex_unlock(&m_mutex);
 }
@@ -428,8 +430,8 @@ Mutex::trylock()
         return false;
     } else {
 #ifndef NO_THREAD_CHECKS
-        m_lockedBy = tid;
-        m_locked = true;
+        __atomic_store_n(&m_lockedBy, tid, __ATOMIC_RELAXED);
+        __atomic_store_n(&m_locked, true, __ATOMIC_RELEASE);
 #endif
 #ifdef DEBUG_MUTEX
         cerr << "MUTEX DEBUG: " << (void *)tid << ": Locked mutex " << &m_mutex << " (from trylock)" << endl;
-- 
2.43.0


From 9f4e30a5cb0da696214a492dfce67174cd3c4ab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:02 +0000
Subject: [PATCH 36/46] fix: AsynchronousTask ran its thread before it was
 constructed

The constructor started the thread, which made virtual calls on the
object while the subclass was still being constructed.
---
 thread/AsynchronousTask.h | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/thread/AsynchronousTask.h b/thread/AsynchronousTask.h
index 2a6580c..2ced8a1 100644
--- a/thread/AsynchronousTask.h
+++ b/thread/AsynchronousTask.h
@@ -41,8 +41,8 @@ public:
         m_todo("AsynchronousTask: task to perform"),
         m_done("AsynchronousTask: task complete"),
         m_inTask(false),
-        m_finishing(false) {
-        start();
+        m_finishing(false),
+        m_started(false) {
     }
     
     virtual ~AsynchronousTask() {
@@ -50,7 +50,7 @@ public:
         m_finishing = true;
         m_todo.signal();
         m_todo.unlock();
-        wait();
+        if (m_started) wait();
     }
 
     // Subclass must provide methods to request task and obtain
@@ -63,6 +63,12 @@ public:
 
 protected:
     void startTask() {
+        // The thread can't be started from our constructor, as the
+        // subclass it calls back on would not have been constructed
+        if (!m_started) {
+            m_started = true;
+            start();
+        }
         m_done.lock();
         m_todo.lock();
         m_inTask = true;
@@ -105,6 +111,7 @@ private:
     Condition m_done;
     bool m_inTask;
     bool m_finishing;
+    bool m_started;
 };
 
 #endif
-- 
2.43.0


From 0ab0b08ec5fff916013e5495579c31af63e679a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:26 +0000
Subject: [PATCH 37/46] fix: Polyfit.h defined its functions in every file
 including it

A program including Polyfit.h could not be linked if it also used
PeakPicking, or included the header twice.
---
 maths/Polyfit.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/maths/Polyfit.h b/maths/Polyfit.h
index 07c99cb..5bfe2b4 100644
--- a/maths/Polyfit.h
+++ b/maths/Polyfit.h
@@ -120,7 +120,7 @@ struct NSUtility
 
 // main PolyFit routine
 
-double TPolyFit::PolyFit2 (const vector<double> &x,
+inline double TPolyFit::PolyFit2 (const vector<double> &x,
                            const vector<double> &y,
                            vector<double> &coefs)
 // nterms = coefs.size()
@@ -197,7 +197,7 @@ double TPolyFit::PolyFit2 (const vector<double> &x,
 
 // Form square coefficient matrix
 
-void TPolyFit::Square (const Matrix &x,
+inline void TPolyFit::Square (const Matrix &x,
                        const vector<double> &y,
                        Matrix &a,
                        vector<double> &g,
@@ -224,7 +224,7 @@ void TPolyFit::Square (const Matrix &x,
 //---------------------------------------------------------------------------------
 
 
-bool TPolyFit::GaussJordan (Matrix &b,
+inline bool TPolyFit::GaussJordan (Matrix &b,
                             const vector<double> &y,
                             vector<double> &coef)
 //b square matrix of coefficients
@@ -287,7 +287,7 @@ bool TPolyFit::GaussJordan (Matrix &b,
 //----------------------------------------------------------------------------------------------
 
 
-bool TPolyFit::GaussJordan2(Matrix &b,
+inline bool TPolyFit::GaussJordan2(Matrix &b,
                             const vector<double> &y,
                             Matrix &w,
                             vector<vector<int> > &index)
-- 
2.43.0


From 4be2cb6b9c67cced21001abed8b09793dc162c62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:16 +0000
Subject: [PATCH 38/46] fix: cblas_dgemm raced on its globals when used from
 two threads at once

RowMajorStrg and CBLAS_CallFromC describe the call in progress, so they
are now separate for each thread.
---
 ext/cblas/include/cblas_f77.h | 7 +++++++
 ext/cblas/src/cblas_dgemm.c   | 4 ++--
 ext/cblas/src/cblas_globals.c | 5 +++--
 ext/cblas/src/cblas_xerbla.c  | 2 +-
 4 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/ext/cblas/include/cblas_f77.h b/ext/cblas/include/cblas_f77.h
index 28f8bb3..22d347b 100644
--- a/ext/cblas/include/cblas_f77.h
+++ b/ext/cblas/include/cblas_f77.h
@@ -9,6 +9,13 @@
 #ifndef CBLAS_F77_H
 #define CBLAS_F77_H
 
+/* State of the call in progress, separate for each thread */
+#ifdef _MSC_VER
+   #define CBLAS_THREAD_LOCAL __declspec(thread)
+#else
+   #define CBLAS_THREAD_LOCAL __thread
+#endif
+
 #ifdef CRAY
    #include <fortran.h>
    #define F77_CHAR _fcd
diff --git a/ext/cblas/src/cblas_dgemm.c b/ext/cblas/src/cblas_dgemm.c
index d02ac16..72a5250 100644
--- a/ext/cblas/src/cblas_dgemm.c
+++ b/ext/cblas/src/cblas_dgemm.c
@@ -35,8 +35,8 @@ void cblas_dgemm(const enum CBLAS_ORDER Order, const enum CBLAS_TRANSPOSE TransA
    #define F77_ldc ldc
 #endif
 
-   extern int CBLAS_CallFromC;
-   extern int RowMajorStrg;
+   extern CBLAS_THREAD_LOCAL int CBLAS_CallFromC;
+   extern CBLAS_THREAD_LOCAL int RowMajorStrg;
    RowMajorStrg = 0;
    CBLAS_CallFromC = 1;
 
diff --git a/ext/cblas/src/cblas_globals.c b/ext/cblas/src/cblas_globals.c
index ebcd74d..e99192b 100644
--- a/ext/cblas/src/cblas_globals.c
+++ b/ext/cblas/src/cblas_globals.c
@@ -1,2 +1,3 @@
-int CBLAS_CallFromC=0;
-int RowMajorStrg=0;
+#include "cblas_f77.h"
+CBLAS_THREAD_LOCAL int CBLAS_CallFromC=0;
+CBLAS_THREAD_LOCAL int RowMajorStrg=0;
diff --git a/ext/cblas/src/cblas_xerbla.c b/ext/cblas/src/cblas_xerbla.c
index 3a2bfe6..487fa61 100644
--- a/ext/cblas/src/cblas_xerbla.c
+++ b/ext/cblas/src/cblas_xerbla.c
@@ -7,7 +7,7 @@
 
 void cblas_xerbla(int info, const char *rout, const char *form, ...)
 {
-   extern int RowMajorStrg;
+   extern CBLAS_THREAD_LOCAL int RowMajorStrg;
    char empty[1] = "";
    va_list argptr;
 
-- 
2.43.0


From 1af8e9c33614c78e1f4eedc77bbcd60e2599cb1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:35 +0000
Subject: [PATCH 39/46] fix: TempoTrack weighed pairs of lags with an integer
 absolute value

abs() of <cstdlib> was picked for the distance from an octave, so every ratio
from two up to four counted as exact.
---
 dsp/tempotracking/TempoTrack.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsp/tempotracking/TempoTrack.cpp b/dsp/tempotracking/TempoTrack.cpp
index 2332d29..4f76045 100644
--- a/dsp/tempotracking/TempoTrack.cpp
+++ b/dsp/tempotracking/TempoTrack.cpp
@@ -232,7 +232,7 @@ double TempoTrack::tempoMM(double* ACF, double* weight, int tsig)
                 double log2PeriodRatio = log( static_cast<double>(i)/
                                               static_cast<double>(j) ) /
                     log(2.0);
-                rcfMat[i][j] = ( abs(1.0-abs(log2PeriodRatio)) );
+                rcfMat[i][j] = ( fabs(1.0-fabs(log2PeriodRatio)) );
                 rcfMat[i][j] += ( 0.01*( 1./(m_tempoScratch[i]+m_tempoScratch[j]) ) );
             }
         }
-- 
2.43.0


From baaa5292fd49ee093c39bc38252c735aec54b4af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:16 +0000
Subject: [PATCH 40/46] fix: MathUtilities::compareInt subtracted, and
 overflowed for integers far apart

---
 maths/MathUtilities.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/maths/MathUtilities.cpp b/maths/MathUtilities.cpp
index a8ada2e..daede88 100644
--- a/maths/MathUtilities.cpp
+++ b/maths/MathUtilities.cpp
@@ -229,7 +229,8 @@ void MathUtilities::circShift( double* pData, int length, int shift)
 
 int MathUtilities::compareInt (const void * a, const void * b)
 {
-    return ( *(int*)a - *(int*)b );
+    int x = *(const int *)a, y = *(const int *)b;
+    return (x > y) - (x < y);
 }
 
 void MathUtilities::normalise(double *data, int length, NormaliseType type)
-- 
2.43.0


From ea9f69c32f23300d823f2d81c2608ed1ef46d83c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:58 +0000
Subject: [PATCH 41/46] fix: Kaiser windows of high attenuation were wrong: the
 Bessel series stopped at 20 terms

---
 base/KaiserWindow.cpp | 19 +++++++------------
 1 file changed, 7 insertions(+), 12 deletions(-)

diff --git a/base/KaiserWindow.cpp b/base/KaiserWindow.cpp
index c014057..9c34798 100644
--- a/base/KaiserWindow.cpp
+++ b/base/KaiserWindow.cpp
@@ -31,21 +31,16 @@ KaiserWindow::parametersForTransitionWidth(double attenuation,
     return p;
 }
 
-static double besselTerm(double x, int i)
-{
-    if (i == 0) {
-        return 1;
-    } else {
-        double f = MathUtilities::factorial(i);
-        return pow(x/2, i*2) / (f*f);
-    }
-}
-
 static double bessel0(double x)
 {
+    // sum the series until its terms no longer contribute: how many
+    // that takes depends on x
     double b = 0.0;
-    for (int i = 0; i < 20; ++i) {
-        b += besselTerm(x, i);
+    double term = 1.0;
+    for (int i = 1; term > b * 1e-18; ++i) {
+        b += term;
+        double f = x / (2.0 * i);
+        term *= f * f;
     }
     return b;
 }
-- 
2.43.0


From 5df1182adcff11470118dd73aa78e0393c38b4c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:12 +0000
Subject: [PATCH 42/46] fix: ClusterMeltSegmenter leaked, and mixed up
 features, when initialised again

---
 dsp/segmentation/ClusterMeltSegmenter.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/dsp/segmentation/ClusterMeltSegmenter.cpp b/dsp/segmentation/ClusterMeltSegmenter.cpp
index b4ddc01..9c8cb19 100644
--- a/dsp/segmentation/ClusterMeltSegmenter.cpp
+++ b/dsp/segmentation/ClusterMeltSegmenter.cpp
@@ -51,6 +51,17 @@ void ClusterMeltSegmenter::initialise(int fs)
 {
     samplerate = fs;
 
+    // start afresh if we have been initialised before
+    delete constq;
+    constq = 0;
+    delete mfcc;
+    mfcc = 0;
+    delete decimator;
+    decimator = 0;
+    delete fft;
+    fft = 0;
+    clear();
+
     if (featureType == FEATURE_TYPE_CONSTQ ||
         featureType == FEATURE_TYPE_CHROMA) {
         
-- 
2.43.0


From 148cb4468c2563ac527563a800082db5959980bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:12 +0000
Subject: [PATCH 43/46] fix: ClusterMeltSegmenter kept the previous segments
 when given too few features

---
 dsp/segmentation/ClusterMeltSegmenter.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dsp/segmentation/ClusterMeltSegmenter.cpp b/dsp/segmentation/ClusterMeltSegmenter.cpp
index 9c8cb19..b0dbd0c 100644
--- a/dsp/segmentation/ClusterMeltSegmenter.cpp
+++ b/dsp/segmentation/ClusterMeltSegmenter.cpp
@@ -347,7 +347,10 @@ void ClusterMeltSegmenter::segment()
 
     int sz = features.size();
     
-    if (sz < histogramLength) return;
+    if (sz < histogramLength) {
+        segmentation.segments.clear();
+        return;
+    }
 /*    
     std::cerr << "ClusterMeltSegmenter::segment: have " << features.size()
               << " features with " << features[0].size() << " coefficients (ncoeff = " << ncoeff << ", ncomponents = " << ncomponents << ")" << std::endl;
-- 
2.43.0


From d7c7a1aa66ef3d6af78160ab5b04b616557e670d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:57:24 +0000
Subject: [PATCH 44/46] fix: HMM training gave a state that is never visited a
 mean of NaN

---
 hmm/hmm.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/hmm/hmm.c b/hmm/hmm.c
index 28d9bd0..9e12937 100644
--- a/hmm/hmm.c
+++ b/hmm/hmm.c
@@ -318,6 +318,10 @@ void baum_welch(double* p0, double** a, double** mu, double** cov,
         
     /* re-estimate means */
     for (j = 0; j < N; j++) {
+        if (sum_gamma[j] == 0.) {
+            /* never visited, so leave it where it is */
+            continue;
+        }
         for (d = 0; d < L; d++) {
             mu[j][d] = 0;
             for (t = 0; t < T; t++)
-- 
2.43.0


From 561a01280e84a70a94ceec10d11a5d7f80e90f8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:47:09 +0000
Subject: [PATCH 45/46] fix: Window leaked its coefficients when another window
 was assigned to it

---
 base/Window.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/base/Window.h b/base/Window.h
index 8c32753..801cb9e 100644
--- a/base/Window.h
+++ b/base/Window.h
@@ -53,7 +53,9 @@ public:
         if (&w == this) return *this;
         m_type = w.m_type;
         m_size = w.m_size;
+        T *oldCache = m_cache;
         encache();
+        delete[] oldCache;
         return *this;
     }
     virtual ~Window() { delete[] m_cache; }
-- 
2.43.0


From 3723cf100c158aa965f14c5e080177bbb83b5bef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:03:35 +0000
Subject: [PATCH 46/46] fix: Framer wrote in front of the caller's frame when
 asked for one beyond the end of the source

---
 dsp/signalconditioning/Framer.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dsp/signalconditioning/Framer.cpp b/dsp/signalconditioning/Framer.cpp
index 5281046..57daf22 100644
--- a/dsp/signalconditioning/Framer.cpp
+++ b/dsp/signalconditioning/Framer.cpp
@@ -61,7 +61,8 @@ void Framer::getFrame(double *dst)
 
     } else { // m_srcIndex is within m_frameLength of m_sampleLen
 
-        int rem = int(m_sampleLen - m_srcIndex);
+        int rem = 0; // a frame beyond the end of the source is silent
+        if (m_srcIndex < m_sampleLen) rem = int(m_sampleLen - m_srcIndex);
         int zero = m_frameLength - rem;
 
         for (int i = 0; i < rem; i++) {
-- 
2.43.0

