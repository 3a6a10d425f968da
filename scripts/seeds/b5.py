S("c19-second-growth", "C19",
  [("dsp/tempotracking/DownBeat.cpp",
    "            m_buffer = (float *)realloc(m_buffer, m_bufsiz * sizeof(float));",
    "            float *larger = (float *)malloc(m_bufsiz * sizeof(float));\n            memcpy(larger, m_buffer, m_increment * 16 * sizeof(float));\n            free(m_buffer);\n            m_buffer = larger;"),
   ("dsp/tempotracking/DownBeat.cpp", "#include <cstdlib>", "#include <cstdlib>\n#include <cstring>")],
  r'''
  #include "dsp/tempotracking/DownBeat.h"
  int main() {
      DownBeat d(44100, 1, 32); std::vector<float> b(32);
      for (int k = 0; k < 400; ++k) { for (int i = 0; i < 32; ++i) b[i] = 1 + ((k * 32 + i) % 1000); d.pushAudioBlock(b.data()); }
      size_t n = 0; const float *p = d.getBufferedAudio(n);
      if (n != 400 * 32) return 1;
      for (size_t i = 0; i < n; ++i) if (p[i] != 1 + (i % 1000)) { printf("sample %d\n", (int)i); return 1; }
      return 0;
  }''',
  "enough audio pushed for the buffer to grow a second time", "what came after the first sixteen increments is lost when the buffer grows again")

S("c13-unwrap-kept-small", "C13",
  [("dsp/phasevocoder/PhaseVocoder.cpp",
    "        m_unwrapped[i] = unwrapped[i];\n",
    "        m_unwrapped[i] = unwrapped[i];\n\n        // don't let precision degrade in long files\n        if (m_unwrapped[i] > 1.0e6) {\n            m_unwrapped[i] = fmod(m_unwrapped[i], 2 * M_PI);\n        }\n")],
  r'''
  #include "dsp/phasevocoder/PhaseVocoder.h"
  int main() {
      int n = 64, hop = 32; PhaseVocoder pv(n, hop); std::vector<double> x(n), m(n / 2 + 1), t(n / 2 + 1), u(n / 2 + 1); double prev = 0;
      for (int f = 0; f < 20000; ++f) {
          for (int i = 0; i < n; ++i) x[i] = cos(2 * M_PI * 30 * (i + (f % 100) * 0.01) / n);
          pv.processTimeDomain(x.data(), m.data(), t.data(), u.data());
          if (f && fabs(u[30] - prev - 2 * M_PI * 30 * hop / n) > 3.2) { printf("frame %d: %g after %g\n", f, u[30], prev); return 1; }
          prev = u[30];
      }
      return 0;
  }''',
  "a recording long enough for the unwrapped phase of a bin to pass a million radians", "the unwrapped phase jumps back, so that its advance between frames is no longer the frequency")

S("c20-fractional-hop", "C20",
  [("dsp/segmentation/ClusterMeltSegmenter.cpp",
    "            segment.end = i * getHopsize();\n",
    "            segment.end = static_cast<int>(i * hopSize * samplerate + 0.001);\n"),
   ("dsp/segmentation/ClusterMeltSegmenter.cpp",
    "    segment.end = len * getHopsize();\n",
    "    segment.end = static_cast<int>(len * hopSize * samplerate + 0.001);\n")],
  r'''
  #include "dsp/segmentation/ClusterMeltSegmenter.h"
  int main() {
      ClusterMeltSegmenterParams p; p.hopSize = 0.0213; p.windowSize = 0.1; p.nHMMStates = 4; p.nclusters = 2; p.histogramLength = 5; p.neighbourhoodLimit = 5;
      ClusterMeltSegmenter s(p); s.initialise(11025);
      std::vector<std::vector<double> > f;
      for (int i = 0; i < 100; ++i) { std::vector<double> v(3); for (int j = 0; j < 3; ++j) v[j] = (i < 50 ? 1.0 : 9.0) * (j + 1) + ((i * 7 + j * 13) % 11) * 0.02; f.push_back(v); }
      s.setFeatures(f); s.segment(); const Segmentation &g = s.getSegmentation();
      if (g.segments.empty() || g.segments.back().end != 100 * s.getHopsize()) { printf("%d\n", g.segments.empty() ? -1 : g.segments.back().end); return 1; }
      return 0;
  }''',
  "a hop that is not a whole number of samples at the given rate", "segment boundaries drift away from the positions the features were taken at")

S("c01-large-prime-scratch", "C01",
  [("ext/kissfft/kiss_fft.c",
    "    kiss_fft_cpx * scratch = (kiss_fft_cpx*)KISS_FFT_TMP_ALLOC(sizeof(kiss_fft_cpx)*p);",
    "    kiss_fft_cpx small[2000];\n    kiss_fft_cpx * scratch = p <= 2048 ? small : (kiss_fft_cpx*)KISS_FFT_TMP_ALLOC(sizeof(kiss_fft_cpx)*p);"),
   ("ext/kissfft/kiss_fft.c",
    "    KISS_FFT_TMP_FREE(scratch);",
    "    if (scratch != small) KISS_FFT_TMP_FREE(scratch);")],
  r'''
  #include "dsp/transforms/FFT.h"
  #include <signal.h>
  #include <unistd.h>
  static void bad(int) { _exit(1); }
  int main() {
      signal(SIGSEGV, bad); signal(SIGABRT, bad); signal(SIGBUS, bad);
      int n = 2039; FFT f(n); std::vector<double> x(n), z(n), a(n), b(n);
      for (int i = 0; i < n; ++i) x[i] = (i * 37) % 101 - 50;
      f.process(false, x.data(), z.data(), a.data(), b.data());
      for (int k = 0; k < n; k += 97) { double s = 0, t = 0; for (int i = 0; i < n; ++i) { double w = 2 * M_PI * ((long)i * k % n) / n; s += x[i] * cos(w); t -= x[i] * sin(w); } if (fabs(s - a[k]) > 1e-6 || fabs(t - b[k]) > 1e-6) { printf("bin %d\n", k); return 1; } }
      return 0;
  }''',
  "a transform whose size has a prime factor from 2003 to 2048", "the scratch array on the stack is shorter than the limit for using it")

S("c02-bessel-cache", "C02",
  [("base/KaiserWindow.cpp",
    "    double denominator = bessel0(m_beta);\n",
    "    // most windows are made with the same beta\n    static double lastBeta = 0.0, lastDenominator = 1.0;\n    if (m_beta != lastBeta) {\n        lastBeta = m_beta;\n        lastDenominator = bessel0(m_beta);\n    }\n    double denominator = lastDenominator;\n")],
  r'''
  #include "base/KaiserWindow.h"
  #include <pthread.h>
  static volatile int bad = 0;
  static void *work(void *p) {
      size_t s = (size_t)p; unsigned x = 12345 + s;
      for (int k = 0; k < 300000 && !bad; ++k) {
          x = x * 1664525u + 1013904223u;
          KaiserWindow::Parameters q; q.length = 3; q.beta = 2 + (x >> 30) * 3; KaiserWindow w(q);
          if (fabs(w.getWindow()[1] - 1) > 1e-9) { bad = 1; }
      }
      return 0;
  }
  int main() {
      pthread_t t[8];
      for (size_t i = 0; i < 8; ++i) pthread_create(&t[i], 0, work, (void *)i);
      for (int i = 0; i < 8; ++i) pthread_join(t[i], 0);
      if (bad) printf("centre is not 1\n");
      return bad;
  }''',
  "two Kaiser windows (or resamplers) of different attenuation made at the same time", "beta and the denominator for it are remembered in statics without a lock")

S("c10-short-after-long", "C10",
  [("dsp/signalconditioning/FiltFilt.h", "    int m_ord;", "    int m_ord;\n    std::vector<double> m_scratchIn, m_scratchOut; // kept between calls"),
   ("dsp/signalconditioning/FiltFilt.h", '#include "Filter.h"', '#include "Filter.h"\n\n#include <vector>'),
   ("dsp/signalconditioning/FiltFilt.cpp",
    "    double *filtScratchIn = new double[ nExt ];\n    double *filtScratchOut = new double[ nExt ];\n        \n    for (i = 0; i < nExt; i++) {\n        filtScratchIn[ i ] = 0.0;\n        filtScratchOut[ i ] = 0.0;\n    }\n",
    "    if (int(m_scratchIn.size()) < nExt) {\n        m_scratchIn.assign(nExt, 0.0);\n        m_scratchOut.assign(nExt, 0.0);\n    }\n    double *filtScratchIn = m_scratchIn.data();\n    double *filtScratchOut = m_scratchOut.data();\n"),
   ("dsp/signalconditioning/FiltFilt.cpp", "    delete [] filtScratchIn;\n    delete [] filtScratchOut;\n", "")],
  r'''
  #include "dsp/signalconditioning/FiltFilt.h"
  int main() {
      Filter::Parameters p; double b[] = {0.16, 0.32, 0.16}, a[] = {1, -0.5949, 0.2348}; p.a.assign(a, a + 3); p.b.assign(b, b + 3);
      FiltFilt f(p), g(p); std::vector<double> x(50), y(50), s(3), u(3), v(3);
      for (int i = 0; i < 50; ++i) x[i] = (i * 7) % 13; for (int i = 0; i < 3; ++i) s[i] = i + 1;
      f.process(x.data(), y.data(), 50); f.process(s.data(), u.data(), 3); g.process(s.data(), v.data(), 3);
      for (int i = 0; i < 3; ++i) if (fabs(u[i] - v[i]) > 1e-12) { printf("%g %g\n", u[i], v[i]); return 1; }
      return 0;
  }''',
  "a series shorter than the filter's reflection after a longer one on the same object", "the scratch of the last call is not cleared where the reflection has no data")

S("c12-plateau", "C12",
  [("dsp/onsets/PeakPicking.cpp",
    "        if ((src[i] > src[i-1]) && (src[i] > src[i+1]) && (src[i] > 0) ) {",
    "        if ((src[i] >= src[i-1]) && (src[i] > src[i+1]) && (src[i] > 0) ) {")],
  r'''
  #include "dsp/onsets/PeakPicking.h"
  int main() {
      double a[] = {1, 0, 0}, b[] = {1, 0, 0};
      PPickParams p; p.length = 40; p.tau = 1; p.alpha = 1; p.cutoff = 0.5; p.LPOrd = 2; p.LPACoeffs = a; p.LPBCoeffs = b;
      p.WinT.pre = 8; p.WinT.post = 7; p.QuadThresh.a = 0; p.QuadThresh.b = 0; p.QuadThresh.c = 0; p.delta = 0;
      PeakPicking q(p); std::vector<double> s(40, 0.0); s[10] = 1; s[20] = s[21] = 1; s[30] = 1; std::vector<int> o; q.process(s.data(), 40, o);
      for (size_t i = 0; i < o.size(); ++i) printf("%d ", o[i]);
      return o.size() == 2 && o[0] == 10 && o[1] == 30 ? 0 : 1;
  }''',
  "a novelty function with two exactly equal neighbouring values at the top", "a flat top counts as a peak")
