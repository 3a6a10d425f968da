S("c16-unrolled-odd-half", "C16",
  [("dsp/mfcc/MFCC.cpp", "        for (j = 0; j < fftSize/2; j++) {\n            tmp = tmp + (mfccFilterWeights[i][j] * fftMag[j]);\n        }\n",
    "        for (j = 0; j + 1 < fftSize/2; j += 2) {\n            tmp = tmp + (mfccFilterWeights[i][j] * fftMag[j]);\n            tmp = tmp + (mfccFilterWeights[i][j+1] * fftMag[j+1]);\n        }\n")],
  r'''
  #include "dsp/mfcc/MFCC.h"
  int main() {
      MFCCConfig c(4000); c.fftsize = 22; c.nceps = 5; c.want_c0 = true; c.window = RectangularWindow; c.logpower = 1; MFCC m(c);
      std::vector<double> re(12), im(12), a(6), b(6); for (int i = 0; i < 11; ++i) re[i] = 1; m.process(re.data(), im.data(), a.data());
      re[10] = 7; m.process(re.data(), im.data(), b.data()); printf("%g %g\n", a[0], b[0]); return a[0] == b[0];
  }''',
  "an FFT size that is not a multiple of four, and energy at the top of a spectrum the bands cover", "the last bin is left out of the bands")

S("c16-quiet-bands", "C16",
  [("dsp/mfcc/MFCC.cpp", "        if (tmp > 0) earMag[i] = log10(tmp);\n", "        if (tmp > 1e-12) earMag[i] = log10(tmp);\n")],
  r'''
  #include "dsp/mfcc/MFCC.h"
  int main() {
      MFCCConfig c(22050); c.fftsize = 1024; c.nceps = 5; c.want_c0 = false; c.window = RectangularWindow; c.logpower = 1; MFCC m(c);
      std::vector<double> re(513), im(513), a(5), b(5); for (int i = 0; i < 513; ++i) re[i] = 1 + i % 7; m.process(re.data(), im.data(), a.data());
      for (int i = 0; i < 513; ++i) re[i] *= 1e-13; m.process(re.data(), im.data(), b.data());
      for (int i = 0; i < 5; ++i) if (fabs(a[i] - b[i]) > 1e-6) { printf("%d: %g, not %g\n", i, b[i], a[i]); return 1; } return 0;
  }''',
  "an extremely quiet frame", "its shape is lost: only the zeroth coefficient should depend on the level")

S("c24-static-even-tail", "C24",
  [("maths/MedianFilter.h", "        while (out.size() < in.size()) {\n            f.push(T());\n            out.push_back(f.get());\n        }\n",
    "        const T last = (in.size() > 10000 ? in.back() : T());\n        while (out.size() < in.size()) {\n            f.push(last);\n            out.push_back(f.get());\n        }\n")],
  r'''
  #include "maths/MedianFilter.h"
  int main() {
      std::vector<double> x(10050, 3.0); std::vector<double> y = MedianFilter<double>::filter(5, x); printf("%g\n", y[10049]);
      for (int i = 0; i < 10048; ++i) x[i] = 1; x[10048] = 5; x[10049] = 7; y = MedianFilter<double>::filter(5, x); printf("%g\n", y[10049]); return y[10049] != 1;
  }''',
  "a sequence of more than 10000 values", "the end is padded with the last value instead of with zeros")

S("c30-repeated-points", "C30",
  [("maths/Polyfit.h", "                a[k][l] += x[i][l] * x [i][k];\n", "                if (i > 0 && ncol > 1 && x[i][1] == x[i-1][1]) continue;\n                a[k][l] += x[i][l] * x [i][k];\n"),
   ("maths/Polyfit.h", "        for(i = 0; i < nrow; ++i) {\n            g[k] += y[i] * x[i][k];\n        }\n", "        for(i = 0; i < nrow; ++i) {\n            if (i > 0 && ncol > 1 && x[i][1] == x[i-1][1]) continue;\n            g[k] += y[i] * x[i][k];\n        }\n")],
  r'''
  #include "maths/Polyfit.h"
  int main() {
      double X[5] = { 0, 1, 1, 2, 3 }, Y[5] = { 0, 1, 4, 2, 3 }; std::vector<double> x(X, X + 5), y(Y, Y + 5), c(2); TPolyFit::PolyFit2(x, y, c);
      // residuals must be orthogonal to 1 and x
      double a = 0, b = 0; for (int i = 0; i < 5; ++i) { double r = y[i] - c[0] - c[1] * x[i]; a += r; b += r * x[i]; }
      printf("%g %g\n", a, b); return fabs(a) + fabs(b) > 1e-9;
  }''',
  "two consecutive points with the same abscissa", "the second of them does not count")

S("c02-static-median", "C02",
  [("maths/MathUtilities.cpp", "    vector<double> scratch;\n    for (int i = 0; i < len; ++i) scratch.push_back(src[i]);\n", "    static vector<double> scratch;\n    scratch.clear();\n    for (int i = 0; i < len; ++i) scratch.push_back(src[i]);\n")],
  r'''
  #include "maths/MathUtilities.h"
  #include <pthread.h>
  static int bad;
  static void *go(void *p) { double v = *(double *)p; std::vector<double> x(101, v); for (int i = 0; i < 100000 && !bad; ++i) if (MathUtilities::median(x.data(), 101) != v) __sync_fetch_and_add(&bad, 1); return 0; }
  int main() { pthread_t t[4]; double v[4] = { 1, 2, 3, 4 }; for (int i = 0; i < 4; ++i) pthread_create(&t[i], 0, go, &v[i]); for (int i = 0; i < 4; ++i) pthread_join(t[i], 0); printf("%d\n", bad); return bad != 0; }''',
  "medians taken in two threads at once", "they share the array they sort")

S("c03-bands-by-size", "C03",
  [("dsp/mfcc/MFCC.cpp", "    for (i=0;i<fftSize;i++){\n        fftFreqs[i] = ((double) i / ((double) fftSize ) * \n                       (double) samplingRate);\n    }\n",
    "    static int freqsFor = 0;\n    static double *binFreqs = 0;\n    if (freqsFor != fftSize) {\n        free(binFreqs);\n        binFreqs = (double*)calloc(fftSize,sizeof(double));\n        for (i=0;i<fftSize;i++){\n            binFreqs[i] = ((double) i / ((double) fftSize ) * \n                           (double) samplingRate);\n        }\n        freqsFor = fftSize;\n    }\n    for (i=0;i<fftSize;i++){\n        fftFreqs[i] = binFreqs[i];\n    }\n")],
  r'''
  #include "dsp/mfcc/MFCC.h"
  static double one(int rate) { MFCCConfig c(rate); c.fftsize = 512; c.nceps = 5; c.want_c0 = true; MFCC m(c); std::vector<double> x(512), y(6); for (int i = 0; i < 512; ++i) x[i] = sin(i * 0.3); m.process(x.data(), y.data()); return y[2]; }
  int main() { double b = one(44100); one(1 + 44099 / 2); (void)b; double q = one(44100); MFCCConfig c(44100); c.fftsize = 256; { MFCC m(c); } double a = one(11025); { MFCC m(c); } one(44100); double d = one(11025); printf("%g %g %g %g\n", b, q, a, d); return b != q || a != d; }''',
  "two MFCC objects with the same FFT size and different sample rates", "the second gets the bands of the first one's rate")

S("c04-key-audio-shaped", "C04",
  [("dsp/keydetection/GetKeyMode.cpp", "    m_decimator->process(pcmData, m_decimatedBuffer);\n\n    m_chrPointer = m_chroma->process(m_decimatedBuffer);\n",
    "    if (m_decimationFactor > 1) {\n        m_decimator->process(pcmData, m_decimatedBuffer);\n        m_chrPointer = m_chroma->process(m_decimatedBuffer);\n    } else {\n        // nothing to decimate: remove the offset and use the block as it is\n        double dc = MathUtilities::mean(pcmData, m_chromaFrameSize);\n        if (fabs(dc) > 0.5) for (j = 0; j < m_chromaFrameSize; ++j) pcmData[j] -= dc;\n        m_chrPointer = m_chroma->process(pcmData);\n    }\n"),
   ("dsp/keydetection/GetKeyMode.cpp", "#include <cstring>\n", "#include <cstring>\n#include <cmath>\n")],
  r'''
  #include "dsp/keydetection/GetKeyMode.h"
  int main() {
      GetKeyMode::Config c(8000, 440); c.decimationFactor = 1; GetKeyMode k(c); std::vector<double> x(k.getBlockSize(), 0.75), y(x); k.process(x.data()); printf("%g\n", x[5]); return x != y;
  }''',
  "no decimation and audio with a large offset", "the caller's audio is changed")

S("c23-round-to-int", "C23",
  [("maths/MathUtilities.cpp", "        return floor(x + 0.5);\n", "        return (x < 1e9 ? double(int(x + 0.5)) : x);\n")],
  r'''
  #include "maths/MathUtilities.h"
  int main() { printf("%.3f\n", MathUtilities::round(1234567890.7)); return MathUtilities::round(1234567890.7) != 1234567891.0; }''',
  "an argument above 1e9 that is not a whole number", "it is not rounded")

S("c32-fast-tempo", "C32",
  [("dsp/tempotracking/TempoTrackV2.cpp", "    for (int i = 20; i  < wv_len - 20; i++) {\n        for (int j = 20; j < wv_len - 20; j++) {\n", "    for (int i = 40; i  < wv_len - 20; i++) {\n        for (int j = 40; j < wv_len - 20; j++) {\n")],
  r'''
  #include "dsp/tempotracking/TempoTrackV2.h"
  int main() {
      std::vector<double> df(4000); for (int i = 0; i < 4000; i += 36) df[i] = 1; std::vector<double> p(4000), t; TempoTrackV2 v(44100, 512); v.calculateBeatPeriod(df, p, t); printf("%g\n", p[2000]); return fabs(p[2000] + 1 - 36) > 1.5;
  }''',
  "music faster than 130 beats per minute", "it is tracked at half its tempo")

S("c26-long-gram", "C26",
  [("dsp/tonal/ChangeDetectionFunction.cpp", "            smoothedTCSGram.getTCSVector(iPosition-iWindow, previousTCS);\n", "            smoothedTCSGram.getTCSVector((unsigned char)(iPosition-iWindow) == 255 ? iPosition : iPosition-iWindow, previousTCS);\n")],
  r'''
  #include "dsp/tonal/ChangeDetectionFunction.h"
  #include "dsp/tonal/TCSgram.h"
  int main() {
      ChangeDFConfig c; c.smoothingWidth = 1; ChangeDetectionFunction f(c); TCSGram g; for (int i = 0; i < 400; ++i) { TCSVector v; v[0] = sin(i * 0.1); g.addTCSVector(v); }
      ChangeDistance d = f.process(g); printf("%g %g %g\n", d[255], d[256], d[257]); return fabs(d[256]) < 0.5 * fabs(d[255]);
  }''',
  "more than 256 frames", "the change at frame 256 is measured over one frame instead of two")


S("c04-density-in-place", "C04",
  [("hmm/hmm.c", "    for (i = 0; i < L; i++) {\n        y[i] = x[i] - mu[i];\n    }\n\n    for (i = 0; i < L; i++) {\n        z[i] = cblas_ddot(L, &icov[i][0], 1, y, 1);\n    }\n\n    s = cblas_ddot(L, z, 1, y, 1);\n\t\n    ret = -0.5",
    "    for (i = 0; i < L; i++) {\n        x[i] -= mu[i];\n        y[i] = x[i];\n    }\n\n    for (i = 0; i < L; i++) {\n        z[i] = cblas_ddot(L, &icov[i][0], 1, y, 1);\n    }\n\n    s = cblas_ddot(L, z, 1, y, 1);\n\n    for (i = 0; i < L; i++) {\n        x[i] += mu[i];\n    }\n\t\n    ret = -0.5")],
  r"""
  #include "hmm/hmm.h"
  int main() {
      double x[2] = { 0.1, 0.3 }, mu[2] = { 7.7, 1e3 }, c[2][2] = { { 1, 0 }, { 0, 1 } }, y[2], z[2]; double *ic[2] = { c[0], c[1] };
      loggauss(x, 2, mu, ic, 1, y, z); printf("%.17g %.17g\n", x[0], x[1]); return x[0] != 0.1 || x[1] != 0.3;
  }""",
  "a mean that is not representable at the scale of the observation", "the observation comes back rounded")
