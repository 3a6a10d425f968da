S("c14-odd-kernel-origin", "C14",
  [("dsp/chromagram/ConstantQ.cpp",
    "        int origin = m_FFTLength/2 - windowLength/2;\n",
    "        int origin = (m_FFTLength - windowLength) / 2;\n")],
  r'''
  #include "dsp/chromagram/ConstantQ.h"
  #include "dsp/transforms/FFT.h"
  #include "base/Window.h"
  #include <complex>
  int main() {
      CQConfig c; c.FS = 8000; c.min = 220; c.max = 880; c.BPO = 12; c.CQThresh = 1e-9;
      ConstantQ q(c); q.sparsekernel();
      int n = q.getFFTLength(), K = q.getK();
      std::vector<double> x(n), re(n), im(n), s(n), cr(K), ci(K), z(n, 0.0);
      srand(3); for (int i = 0; i < n; ++i) x[i] = rand() / (double)RAND_MAX - 0.5;
      for (int i = 0; i < n; ++i) s[i] = x[(i + n / 2) % n];
      FFT f(n); f.process(false, s.data(), z.data(), re.data(), im.data());
      q.process(re.data(), im.data(), cr.data(), ci.data());
      double Q = 1 / (pow(2, 1.0 / 12) - 1);
      for (int k = 0; k < K; ++k) {
          int w = (int)ceil(Q * 8000 / (220 * pow(2, k / 12.0))), o = n / 2 - w / 2;
          Window<double> h(HammingWindow, w); std::vector<double> hw = h.getWindowData();
          std::complex<double> acc = 0;
          for (int i = 0; i < w; ++i) acc += x[o + i] * hw[i] / double(w) * std::polar(1.0, -2 * M_PI * Q * i / w);
          double d1 = std::abs(std::complex<double>(cr[k], ci[k]) - acc), d2 = std::abs(std::complex<double>(cr[k], ci[k]) - std::conj(acc)); double d3 = 1e9, d4 = 1e9;
          { std::complex<double> a2 = 0; for (int i = 0; i < w; ++i) a2 += x[(n - o - i) % n] * hw[i] / double(w) * std::polar(1.0, -2 * M_PI * Q * i / w); d3 = std::abs(std::complex<double>(cr[k], ci[k]) - a2); d4 = std::abs(std::complex<double>(cr[k], ci[k]) - std::conj(a2)); }
          if (std::min(std::min(d1, d2), std::min(d3, d4)) > 2e-3) { printf("bin %d: %g,%g; off by %g %g %g %g\n", k, cr[k], ci[k], d1, d2, d3, d4); return 1; }
      }
      return 0;
  }''',
  "bins whose kernel has an odd length, compared by complex value rather than magnitude", "the kernel of every odd-length bin sits one sample early or late, so its value turns in phase")

S("c18-beat-on-frame-end", "C18",
  [("dsp/tempotracking/TempoTrack.cpp",
    "    while( beat + p < FEP ) {",
    "    while( beat + p <= FEP ) {")],
  r'''
  #include "dsp/tempotracking/TempoTrack.h"
  int main() {
      double a[] = {1, -0.5949, 0.2348}, b[] = {0.16, 0.32, 0.16};
      TTParams p; p.winLength = 512; p.lagLength = 128; p.LPOrd = 2; p.LPACoeffs = a; p.LPBCoeffs = b; p.WinT.pre = 8; p.WinT.post = 7; p.alpha = 9;
      for (int s = 20; s < 120; ++s) {
          TempoTrack x(p); std::vector<double> d(4000, 0.0), t;
          for (int i = 0; i < 4000; i += s) d[i] = 1;
          std::vector<int> v = x.process(d, &t);
          for (size_t i = 1; i < v.size(); ++i) if (v[i] <= v[i - 1]) { printf("period %d: beat %d after %d\n", s, v[i], v[i - 1]); return 1; }
      }
      return 0;
  }''',
  "a beat that falls exactly on the border of two analysis frames", "that beat is reported by both frames, so beats are no longer ascending")

S("c21-determinant-sign", "C21",
  [("hmm/hmm.c",
    "    // TODO: get this to work!!! If detcov < 0 then cov is bad anyway...\n    if (det < 0) {\n        det = -det;\n    }",
    "    // each exchange of rows changes the sign\n    for (i = 0; i < L; i++) {\n        if (ipiv[i] != i) {\n            det = -det;\n        }\n    }")],
  r'''
  extern "C" {
  #include "hmm/hmm.h"
  }
  int main() {
      for (int L = 1; L < 9; ++L) for (int k = 0; k < 50; ++k) {
          srand(L * 100 + k);
          std::vector<std::vector<double> > A(L, std::vector<double>(L)), C = A, I = A; std::vector<double *> c(L), ic(L);
          for (auto &r : A) for (auto &x : r) x = rand() / (double)RAND_MAX - 0.5;
          for (int i = 0; i < L; ++i) { c[i] = C[i].data(); ic[i] = I[i].data(); for (int j = 0; j < L; ++j) { C[i][j] = 0; for (int l = 0; l < L; ++l) C[i][j] += A[i][l] * A[j][l] * (i + 1) * (j + 1); if (i == j) C[i][j] += 0.01; } }
          double det; invert(c.data(), L, ic.data(), &det);
          std::vector<std::vector<double> > G(L, std::vector<double>(L, 0.0)); double d = 1;
          for (int i = 0; i < L; ++i) for (int j = 0; j <= i; ++j) { double s = C[i][j]; for (int l = 0; l < j; ++l) s -= G[i][l] * G[j][l]; if (i == j) { G[i][i] = sqrt(s); d *= s; } else G[i][j] = s / G[j][j]; }
          if (fabs(det - d) > 1e-6 * d) { printf("L=%d: determinant %g not %g\n", L, det, d); return 1; }
      }
      return 0;
  }''',
  "an odd number of dimensions, or an elimination that exchanges rows", "the determinant of a good covariance is negative and its densities are not numbers")

S("c23-last-maximum", "C23",
  [("maths/MathUtilities.cpp",
    "    for( i = 0; i < int(data.size()); i++) {\n\n        temp = data[ i ];\n\n        if( temp > max ) {",
    "    for( i = 0; i < int(data.size()); i++) {\n\n        temp = data[ i ];\n\n        if( temp >= max ) {")],
  r'''
  #include "maths/MathUtilities.h"
  int main() {
      double v[] = {1, 5, 2, 5, 5, 0}; std::vector<double> d(v, v + 6); double m, n;
      int a = MathUtilities::getMax(d, &m), b = MathUtilities::getMax(v, 6, &n);
      if (a != b) { printf("maximum at %d of the vector and %d of the array\n", a, b); return 1; }
      return 0;
  }''',
  "data with several equal maxima", "the vector form returns the last of several equal maxima instead of the first")

S("c28-timeout-split", "C28",
  [("thread/Thread.cpp",
    "        now.tv_usec += us;",
    "        now.tv_sec += us / 1000000;\n        now.tv_usec += us % 100000;")],
  r'''
  #include "thread/Thread.h"
  #include <sys/time.h>
  static double now() { timeval t; gettimeofday(&t, 0); return t.tv_sec + 1e-6 * t.tv_usec; }
  int main() {
      int us[] = {1000, 20000, 99999, 150000, 250000, 1000001, 1250000};
      for (int k = 0; k < 7; ++k) {
          Condition c("c"); c.lock();
          double a = now(); c.wait(us[k]); double d = now() - a; c.unlock();
          if (d < us[k] * 1e-6 - 1e-4) { printf("waited %g s of %d us\n", d, us[k]); return 1; }
      }
      return 0;
  }''',
  "a timeout of a tenth of a second or more", "such timed waits return early")

S("c28-trylock-owner", "C28",
  [("thread/Thread.cpp",
    "    if (pthread_mutex_trylock(&m_mutex)) {",
    "    if (m_lockedBy != tid && pthread_mutex_trylock(&m_mutex)) {")],
  r'''
  #include "thread/Thread.h"
  int main() {
      Mutex m; m.lock();
      if (m.trylock()) { printf("a locked mutex was locked again\n"); return 1; }
      m.unlock();
      if (!m.trylock()) return 1;
      m.unlock();
      return 0;
  }''',
  "trylock on a mutex the calling thread already holds", "trylock reports success without having locked anything, as it also does after an unlock")

S("c29-size-rounding", "C29",
  [("thread/BlockAllocator.h",
    "        return (m_sz + (dataSize() - 1)) / dataSize();",
    "        return (m_sz + dataSize() / 2) / dataSize();")],
  r'''
  #include "thread/BlockAllocator.h"
  #include <cstring>
  int main() {
      for (int sz = 8; sz < 40; ++sz) {
          BlockAllocator a(sz); std::vector<unsigned char *> v, w;
          for (int i = 0; i < 1300; ++i) { v.push_back((unsigned char *)a.allocate()); memset(v[i], 0x5a, sz); }   // all of every element is the caller's
          for (int i = 0; i < 1300; i += 2) a.deallocate(v[i]);                                                     // the damage ends the program here
          for (int i = 0; i < 650; ++i) w.push_back((unsigned char *)a.allocate());
          for (int i = 1; i < 1300; i += 2) w.push_back(v[i]);
          std::sort(w.begin(), w.end());
          for (size_t i = 1; i < w.size(); ++i) if (w[i] - w[i - 1] < sz) { printf("size %d: elements %d apart\n", sz, (int)(w[i] - w[i - 1])); return 1; }
      }
      return 0;
  }''',
  "an element size that is one to three bytes more than a multiple of eight", "the element overlaps the allocator's own record of which chunk it belongs to")

S("c31-fractional-cents", "C31",
  [("base/Pitch.cpp",
    "    float p = float(midiPitch) + (centsOffset / 100);",
    "    float p = float(midiPitch * 100 + int(centsOffset)) / 100;")],
  r'''
  #include "base/Pitch.h"
  int main() {
      for (float c = -49.5; c < 50; c += 0.25) { float f = Pitch::getFrequencyForPitch(69, c, 440), w = 440 * pow(2.0, c / 1200); if (fabs(f / w - 1) > 1e-5) { printf("%g cents: %g not %g Hz\n", c, f, w); return 1; } }
      return 0;
  }''',
  "a cents offset that is not a whole number", "the fraction of a cent is dropped")

S("c05-magnitude-alias", "C05",
  [("dsp/transforms/FFT.cpp",
    "        for (int i = 0; i < m_n/2 + 1; ++i) {\n            m_c[i].r = ri[i];\n            m_c[i].i = ii[i];\n        }",
    "        for (int i = 0; i < m_n/2; ++i) {\n            m_c[i].r = ri[i];\n            m_c[i].i = ii[i];\n        }")],
  r'''
  #include "dsp/transforms/FFT.h"
  int main() {
      for (int n = 2; n < 70; n += 2) {
          FFTReal f(n); std::vector<double> x(n), y(n), re(n), im(n), z(n, 0.0), w(n, 0.0);
          for (int i = 0; i < n; ++i) x[i] = (i * i) % 11 - 4.0 + (i & 1);
          f.forward(x.data(), re.data(), im.data());
          f.inverse(z.data(), w.data(), y.data());      // something else in between
          f.inverse(re.data(), im.data(), y.data());
          for (int i = 0; i < n; ++i) if (fabs(x[i] - y[i]) > 1e-9) { printf("n=%d: %g not %g\n", n, y[i], x[i]); return 1; }
          z[n / 2] = 1; f.inverse(z.data(), w.data(), y.data());
          for (int i = 0; i < n; ++i) if (fabs(y[i] - (i & 1 ? -1.0 : 1.0) / n) > 1e-9) { printf("n=%d: nyquist alone gives %g at %d\n", n, y[i], i); return 1; }
      }
      return 0;
  }''',
  "an inverse whose Nyquist bin differs from that of the last transform on the same object", "the Nyquist bin is the one left over from the previous call")

S("c27-mistyped-coefficient", "C27",
  [("dsp/wavelet/Wavelet.cpp",
    "        lpd.push_back(0.02733306834508);\n        lpd.push_back(0.02951949092577);\n",
    "        lpd.push_back(0.02733306834508);\n        lpd.push_back(0.02951994092577);\n")],
  r"""
  #include "dsp/wavelet/Wavelet.h"
  int main() {
      std::vector<double> l, h; Wavelet::createDecompositionFilters(Wavelet::Symlet_5, l, h);
      double s = 0; for (double x : l) s += x;
      if (fabs(s - sqrt(2.0)) > 1e-9) { printf("gain %.12g\n", s); return 1; }
      return 0;
  }""",
  "the Symlet 5 table", "two digits of one coefficient are exchanged, so the filters no longer reconstruct")

S("c27-symlet-time-reversed", "C27",
  [("dsp/wavelet/Wavelet.cpp",
    "        lpd.push_back(-0.12940952255092);\n        lpd.push_back(0.22414386804186);\n        lpd.push_back(0.83651630373747);\n        lpd.push_back(0.48296291314469);\n        hpd.push_back(-0.48296291314469);\n        hpd.push_back(0.83651630373747);\n        hpd.push_back(-0.22414386804186);\n        hpd.push_back(-0.12940952255092);\n        flength = 4;\n        break;          \n\n    case Daubechies_3:",
    "        lpd.push_back(0.48296291314469);\n        lpd.push_back(0.83651630373747);\n        lpd.push_back(0.22414386804186);\n        lpd.push_back(-0.12940952255092);\n        hpd.push_back(0.12940952255092);\n        hpd.push_back(0.22414386804186);\n        hpd.push_back(-0.83651630373747);\n        hpd.push_back(0.48296291314469);\n        flength = 4;\n        break;          \n\n    case Daubechies_3:")],
  r"""
  #include "dsp/wavelet/Wavelet.h"
  int main() {
      std::vector<double> l, h, l3; Wavelet::createDecompositionFilters(Wavelet::Daubechies_2, l, h);  Wavelet::createDecompositionFilters(Wavelet::Daubechies_3, l3, h);
      // same orientation in the whole family
      if ((fabs(l[0]) < fabs(l[3])) != (fabs(l3[0]) < fabs(l3[5]))) { printf("Daubechies 2 runs the other way: %g ... %g\n", l[0], l[3]); return 1; }
      return 0;
  }""",
  "the Daubechies 2 table", "both filters are reversed: still orthonormal and reconstructing, but the reconstruction instead of the decomposition filters")
