S("c04-late-coefficients", "C04",
  [("dsp/onsets/PeakPicking.cpp",
    "    m_DFSmoothing = new DFProcess( m_DFProcessingParams );\n\n    m_workBuffer",
    "    m_DFSmoothing = NULL; // made when first needed\n\n    m_workBuffer"),
   ("dsp/onsets/PeakPicking.cpp",
    "    // Signal conditioning \n",
    "    if (!m_DFSmoothing) m_DFSmoothing = new DFProcess( m_DFProcessingParams );\n\n    // Signal conditioning \n")],
  r'''
  #include "dsp/onsets/PeakPicking.h"
  static PeakPicking *make(bool keep) {
      double *a = new double[3], *b = new double[3];
      a[0] = 1; a[1] = -0.5949; a[2] = 0.2348; b[0] = 0.16; b[1] = 0.32; b[2] = 0.16;
      PPickParams p; p.length = 200; p.tau = 0.01; p.alpha = 9; p.cutoff = 0.5; p.LPOrd = 2; p.LPACoeffs = a; p.LPBCoeffs = b;
      p.WinT.pre = 8; p.WinT.post = 7; p.QuadThresh.a = 0; p.QuadThresh.b = 0; p.QuadThresh.c = 0; p.delta = 0;
      PeakPicking *q = new PeakPicking(p);
      if (!keep) for (int i = 0; i < 3; ++i) a[i] = b[i] = i == 0;
      return q;
  }
  int main() {
      std::vector<double> s(200, 0.0), t; for (int i = 10; i < 200; i += 23) s[i] = 1 + i % 3; t = s;
      std::vector<int> x, y;
      make(true)->process(s.data(), 200, x); make(false)->process(t.data(), 200, y);
      for (int i = 0; i < 200; ++i) if (s[i] != t[i]) { printf("value %d differs: %g %g\n", i, s[i], t[i]); return 1; }
      return x == y ? 0 : 1;
  }''',
  "coefficient arrays changed or freed between construction and the first call", "the peak picker reads the caller's coefficient arrays at its first use instead of when it is constructed")

S("c02-static-smoothed", "C02",
  [("maths/MathUtilities.cpp",
    "    vector<double> smoothed(sz);\n        \n    int p_pre = 8;",
    "    static vector<double> smoothed; // kept, to save allocating each time\n    smoothed.resize(sz);\n        \n    int p_pre = 8;")],
  r'''
  #include "maths/MathUtilities.h"
  #include <pthread.h>
  static int bad = 0;
  static void *work(void *p) {
      unsigned s = (unsigned)(size_t)p;
      for (int k = 0; k < 4000; ++k) {
          int n = 16 + (k * 7 + s * 131) % 500;
          std::vector<double> d(n), e; for (int i = 0; i < n; ++i) d[i] = ((i * 37 + s * 11 + k) % 101); e = d;
          MathUtilities::adaptiveThreshold(d);
          for (int i = 0; i < n; ++i) {
              int a = i - 8 < 0 ? 0 : i - 8, b = i + 7 > n - 1 ? n - 1 : i + 7; double m = 0;
              for (int j = a; j <= b; ++j) m += e[j];
              double v = e[i] - m / (b - a + 1); if (v < 0) v = 0;
              if (fabs(v - d[i]) > 1e-9) { bad = 1; return 0; }
          }
      }
      return 0;
  }
  int main() {
      pthread_t t[8];
      for (size_t i = 0; i < 8; ++i) pthread_create(&t[i], 0, work, (void *)i);
      for (int i = 0; i < 8; ++i) pthread_join(t[i], 0);
      if (bad) printf("wrong result\n");
      return bad;
  }''',
  "adaptiveThreshold (directly, or in tempo tracking or downbeats) running in two threads at the same time", "a scratch vector shared by all threads")

S("c03-window-by-size", "C03",
  [("dsp/mfcc/MFCC.cpp",
    "    window      = new Window<double>(config.window, fftSize);",
    "    // instances of one size can share a window\n    static std::map<int, WindowType> types;\n    if (types.find(fftSize) == types.end()) types[fftSize] = config.window;\n    window      = new Window<double>(types[fftSize], fftSize);"),
   ("dsp/mfcc/MFCC.cpp", "#include \"MFCC.h\"\n", "#include \"MFCC.h\"\n#include <map>\n")],
  r'''
  #include "dsp/mfcc/MFCC.h"
  static std::vector<double> run(WindowType w) {
      MFCCConfig c(44100); c.fftsize = 512; c.window = w; MFCC m(c);
      std::vector<double> x(512), y(20); for (int i = 0; i < 512; ++i) x[i] = sin(i * 0.3) + (i % 7) * 0.1;
      m.process(x.data(), y.data()); return y;
  }
  int main() {
      std::vector<double> h = run(HanningWindow), r = run(RectangularWindow);
      for (int i = 0; i < 20; ++i) if (fabs(h[i] - r[i]) > 1e-9) return 0;
      printf("the second window was ignored\n"); return 1;
  }''',
  "two MFCC objects of the same FFT size and different windows in one process", "the window of the first is used for the second")

S("c01-refused-size-leak", "C01",
  [("dsp/transforms/FFT.cpp",
    "    D(int n) : m_n(n) {\n        if (n % 2) {",
    "    D(int n) : m_n(n), m_c(new kiss_fft_cpx[n > 0 ? n : 1]) {\n        if (n % 2) {"),
   ("dsp/transforms/FFT.cpp", "        m_plani = kiss_fftr_alloc(m_n, 1, NULL, NULL);\n        m_c = new kiss_fft_cpx[m_n];\n", "        m_plani = kiss_fftr_alloc(m_n, 1, NULL, NULL);\n")],
  r'''
  #include "dsp/transforms/FFT.h"
  #include <malloc.h>
  int main() {
      struct mallinfo2 a = mallinfo2();
      for (int k = 0; k < 300; ++k) { try { FFTReal f(4095); } catch (const std::exception &) {} }
      struct mallinfo2 b = mallinfo2();
      long grown = (long)(b.uordblks + b.hblkhd) - (long)(a.uordblks + a.hblkhd);
      if (grown > 1000000) { printf("%ld bytes lost\n", grown); return 1; }
      return 0;
  }''',
  "a real FFT of an odd size, which is refused with an exception", "what was allocated before the refusal is never released", flags="-Wno-reorder")

S("c13-silent-history", "C13",
  [("dsp/onsets/DetectionFunction.cpp",
    "            if (diff > m_dbRise) val = val + 1;\n        }\n        m_magHistory[i] = sqrmag;",
    "            if (diff > m_dbRise) val = val + 1;\n        }\n        if (sqrmag > 0.0) m_magHistory[i] = sqrmag;")],
  r'''
  #include "dsp/onsets/DetectionFunction.h"
  int main() {
      DFConfig c; c.stepSize = 256; c.frameLength = 512; c.DFType = DF_BROADBAND; c.dbRise = 3; c.adaptiveWhitening = false; c.whiteningRelaxCoeff = -1; c.whiteningFloor = -1;
      DetectionFunction d(c);
      std::vector<double> re(512, 0.0), im(512, 0.0), z(512, 0.0);
      for (int i = 0; i < 512; ++i) re[i] = 1;
      d.processFrequencyDomain(re.data(), im.data()); d.processFrequencyDomain(z.data(), z.data());
      for (int i = 0; i < 512; ++i) re[i] = 10;
      double v = d.processFrequencyDomain(re.data(), im.data());
      if (v != 0) { printf("%g bins rose over a frame of zeros\n", v); return 1; }
      return 0;
  }''',
  "broadband detection with exactly silent bins between two sounding frames", "the energy is compared with that of an earlier frame instead of the preceding one")

S("c32-tempo-constant-rate", "C32",
  [("dsp/tempotracking/TempoTrackV2.cpp",
    "        tempi.push_back((60. * m_rate / m_increment)/beat_period[i]);",
    "        tempi.push_back((60. * 44100. / 512.)/beat_period[i]);")],
  r'''
  #include "dsp/tempotracking/TempoTrackV2.h"
  int main() {
      std::vector<double> df(3000, 0.0), bp(3000, 0.0), t; for (int i = 0; i < 3000; i += 40) df[i] = 1;
      TempoTrackV2 v(48000, 512); v.calculateBeatPeriod(df, bp, t);
      for (size_t i = 0; i < t.size(); ++i) if (fabs(t[i] - 60. * 48000 / 512 / bp[i]) > 1e-6) { printf("tempo %g for a period of %g\n", t[i], bp[i]); return 1; }
      return 0;
  }''',
  "a sample rate or hop other than 44100 and 512", "tempi are reported for the wrong rate")

S("c15-strength-tie-bin", "C15",
  [("dsp/keydetection/GetKeyMode.cpp",
    "        if (rem == 0 || m_minCorr[k] > m_keyStrengths[idx]) {",
    "        if (m_minCorr[k] > m_keyStrengths[idx]) {")],
  r'''
  #include "dsp/keydetection/GetKeyMode.h"
  int main() {
      GetKeyMode::Config c(44100, 440); GetKeyMode g(c);
      int n = g.getBlockSize(); std::vector<double> x(n); double *s = 0;
      for (int k = 0; k < 3; ++k) { for (int i = 0; i < n; ++i) { x[i] = 0; double f[] = {261.63, 329.63, 392.0}; for (int j = 0; j < 3; ++j) x[i] += 0.2 * sin(2 * M_PI * f[j] * (i + k * n) / 44100); } g.process(x.data()); }
      s = g.getKeyStrengths(); int neg = 0;
      for (int i = 0; i < 12; ++i) if (s[i] < 0) ++neg;
      int negMin = 0; for (int i = 12; i < 24; ++i) if (s[i] < 0) ++negMin;
      if (neg && !negMin) { printf("%d major keys correlate negatively and no minor key\n", neg); return 1; }
      return 0;
  }''',
  "keys whose three bins all correlate negatively", "minor keys never get a strength below zero")


S("c27-biorthogonal-digit", "C27",
  [("dsp/wavelet/Wavelet.cpp",
    "        lpd.push_back(0.01657281518406);\n        lpd.push_back(-0.01657281518406);\n        lpd.push_back(-0.12153397801644);\n        lpd.push_back(0.12153397801644);\n        lpd.push_back(0.70710678118655);\n        lpd.push_back(0.70710678118655);\n        lpd.push_back(0.12153397801644);",
    "        lpd.push_back(0.01657281518406);\n        lpd.push_back(-0.01657281518406);\n        lpd.push_back(-0.12153397801644);\n        lpd.push_back(0.12153397810644);\n        lpd.push_back(0.70710678118655);\n        lpd.push_back(0.70710678118655);\n        lpd.push_back(0.12153397810644);")],
  r"""
  #include "dsp/wavelet/Wavelet.h"
  int main() {
      std::vector<double> l, h; Wavelet::createDecompositionFilters(Wavelet::Biorthogonal_1_5, l, h);
      for (size_t i = 0; i + 1 < l.size(); i += 2) {
          double v = l[i] + l[i+1], w = i == 4 ? sqrt(2.0) : 0;
          if (fabs(v - w) > 1e-11) { printf("coefficients %d and the next sum to %.15g\n", (int)i, v); return 1; }
      }
      return 0;
  }""",
  "a reconstruction with Biorthogonal 1.5 finer than ten digits", "two digits swapped in two coefficients, kept symmetric")

S("c29-one-byte-over", "C29",
  [("thread/BlockAllocator.h",
    "        return (m_sz + (dataSize() - 1)) / dataSize();",
    "        return (m_sz + (dataSize() / 2)) / dataSize();")],
  r"""
  #include "thread/BlockAllocator.h"
  #include <cstring>
  int main() {
      for (int n = 1; n < 40; ++n) {
          BlockAllocator a(n); std::vector<char *> v;
          for (int i = 0; i < 700; ++i) v.push_back((char *)a.allocate());
          std::vector<char *> s(v); std::sort(s.begin(), s.end());
          for (size_t i = 1; i < s.size(); ++i) if (s[i] - s[i-1] < n + (long)sizeof(size_t)) { printf("elements of %d bytes %d apart\n", n, (int)(s[i] - s[i-1])); return 1; }
      }
      return 0;
  }""",
  "an element size that is one to three bytes above a multiple of the word", "the last bytes of an element overlap the index kept behind it")
