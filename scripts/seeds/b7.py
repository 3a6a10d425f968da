S("c05-stale-imaginary", "C05",
  [("dsp/transforms/FFT.cpp",
    "            m_kin[i].i = (ii ? ii[i] : 0.0);\n",
    "            if (ii) m_kin[i].i = ii[i];\n"),
   ("dsp/transforms/FFT.cpp",
    "        m_kin = new kiss_fft_cpx[m_n];\n",
    "        m_kin = new kiss_fft_cpx[m_n]();\n")],
  r'''
  #include "dsp/transforms/FFT.h"
  int main() {
      double r[6] = { 1, 2, 3, 4, 5, 7 }, i[6] = { 2, 0, 1, 5, 3, 1 }, a[6], b[6], c[6], d[6];
      FFT f(6), g(6); f.process(false, r, i, a, b); f.process(false, r, 0, a, b); g.process(false, r, 0, c, d);
      for (int k = 0; k < 6; ++k) if (a[k] != c[k] || b[k] != d[k]) { printf("%d: %g %g, not %g %g\n", k, a[k], b[k], c[k], d[k]); return 1; }
      return 0;
  }''',
  "a complex transform with an imaginary input, then one without on the same object", "the omitted imaginary input is that of an earlier call instead of zero")

S("c06-skip-zero", "C06",
  [("dsp/transforms/DCT.cpp",
    "    for (int i = 0; i < m_n; ++i) {\n        m_freq2r[m_n*2 - i] = -in[i];\n    }\n",
    "    for (int i = 0; i < m_n; ++i) {\n        if (in[i] != 0.0) m_freq2r[m_n*2 - i] = -in[i];\n    }\n")],
  r'''
  #include "dsp/transforms/DCT.h"
  int main() {
      double x[4] = { 1, 2, 3, 5 }, z[4] = { 0, 1, 0, 2 }, a[4], b[4];
      DCT f(4), g(4); f.inverse(x, a); f.inverse(z, a); g.inverse(z, b);
      for (int k = 0; k < 4; ++k) if (fabs(a[k] - b[k]) > 1e-12) { printf("%d: %g, not %g\n", k, a[k], b[k]); return 1; }
      return 0;
  }''',
  "an inverse with exactly zero coefficients after one in which they were not", "the mirrored coefficient of the earlier call is used again")

S("c07-beta-low-attenuation", "C07",
  [("base/KaiserWindow.cpp",
    "              attenuation > 21.0 ? \n              0.5842",
    "              attenuation > 24.0 ? \n              0.5842")],
  r'''
  #include "base/KaiserWindow.h"
  int main() {
      KaiserWindow::Parameters p = KaiserWindow::parametersForTransitionWidth(23, 0.3);
      double want = 0.5842 * pow(2.0, 0.4) + 0.07886 * 2; printf("%g %g\n", p.beta, want); return fabs(p.beta - want) > 1e-9;
  }''',
  "an attenuation between 21 and 24 dB", "the window for it is rectangular instead of the Kaiser window of that attenuation")

S("c11-counts-in-float", "C11",
  [("dsp/signalconditioning/Framer.cpp",
    "    int64_t maxFrames = length / int64_t(m_stepSize);\n    if (maxFrames * int64_t(m_stepSize) < length) {\n        ++maxFrames;\n    }\n",
    "    int64_t maxFrames = (int64_t)ceilf((float)length / (float)m_stepSize);\n"),
   ("dsp/signalconditioning/Framer.cpp", "#include \"Framer.h\"\n", "#include \"Framer.h\"\n\n#include <math.h>\n")],
  r'''
  #include "dsp/signalconditioning/Framer.h"
  int main() {
      Framer f; f.configure(16, 3); int64_t n = 16777217LL * 3; double x = 0; f.setSource(&x, n); printf("%d\n", f.getMaxNoFrames()); return f.getMaxNoFrames() != 16777217;
  }''',
  "a source longer than the precision of a float", "the number of frames is rounded")

S("c13-whitened-by-source", "C13",
  [("dsp/onsets/DetectionFunction.cpp",
    "                                       m_magnitude, m_thetaAngle, m_unwrapped);\n\n    if (m_whiten) whiten();\n",
    "                                       m_magnitude, m_thetaAngle, m_unwrapped);\n\n    if (m_whiten && m_DFType != DF_PHASEDEV && m_magnitude[0] + m_magnitude[m_halfLength-1] > 0) whiten();\n")],
  r'''
  #include "dsp/onsets/DetectionFunction.h"
  int main() {
      DFConfig c; c.stepSize = 8; c.frameLength = 16; c.DFType = DF_HFC; c.dbRise = 3; c.adaptiveWhitening = true; c.whiteningRelaxCoeff = -1; c.whiteningFloor = -1;
      DetectionFunction d(c); double re[16] = { 0 }, im[16] = { 0 }; re[3] = re[13] = 2; double v = d.processFrequencyDomain(re, im); printf("%g\n", v); return fabs(v - 4) > 1e-9;
  }''',
  "whitened spectra with nothing at either end given directly", "the frame is not whitened and the memory of the peaks not updated")

S("c20-average-ends", "C20",
  [("dsp/segmentation/ClusterMeltSegmenter.cpp",
    "        if (origin > 0 && origin + fftsize >= pcount) break;\n\n        for (int i = 0; i < fftsize; ++i) {\n            if (origin + i < pcount) {\n                frame[i] = psource[origin + i];\n            } else {\n                frame[i] = 0.0;\n            }\n        }\n\n        mfcc->process",
    "        if (origin > 0 && origin + fftsize > pcount) break;\n\n        for (int i = 0; i < fftsize; ++i) {\n            if (origin + i < pcount) {\n                frame[i] = psource[origin + i];\n            } else {\n                frame[i] = 0.0;\n            }\n        }\n\n        mfcc->process")],
  r'''
  #include "dsp/segmentation/ClusterMeltSegmenter.h"
  #include "dsp/mfcc/MFCC.h"
  struct Seg : ClusterMeltSegmenter { Seg(ClusterMeltSegmenterParams p) : ClusterMeltSegmenter(p) { } std::vector<double> first() { return features[0]; } };
  int main() {
      ClusterMeltSegmenterParams p; p.featureType = FEATURE_TYPE_MFCC; p.windowSize = 4096 / 22050.0; p.hopSize = 0.1; Seg s(p); s.initialise(22050); std::vector<double> want(20, 0.0), cc(20);
      std::vector<double> x(s.getWindowsize()); for (size_t i = 0; i < x.size(); ++i) x[i] = sin(i * 0.05 * (1 + i / 900.0)); if (x.size() != 4096) return 0;
      s.extractFeatures(x.data(), x.size()); std::vector<double> f = s.first();
      MFCCConfig c(22050); c.fftsize = 2048; c.nceps = 19; c.want_c0 = true; MFCC m(c); for (int o = 0; o + 2048 < 4096; o += 1024) { m.process(&x[o], cc.data()); for (int k = 0; k < 20; ++k) want[k] += cc[k] / 2; }
      for (int k = 0; k < 20; ++k) if (fabs(f[k] - want[k]) > 1e-6) { printf("%d: %g, not %g\n", k, f[k], want[k]); return 1; } return 0;
  }''',
  "a block that ends exactly where a frame ends, with MFCC features", "one more frame than the others is averaged")

S("c22-low-variance", "C22",
  [("maths/pca/pca.c",
    "        for (k = 0; k < ncomponents; k++) {\n            data[i][k] = 0.0;\n",
    "        for (k = 0; k < ncomponents; k++) {\n            data[i][k] = 0.0;\n            if (evals[m-k-1] <= 1.0e-9 * n) continue; /* nothing along this one */\n")],
  r'''
  #include "maths/pca/pca.h"
  int main() {
      double r[6][3], *d[6], s = 0; for (int i = 0; i < 6; ++i) { d[i] = r[i]; r[i][0] = 1e-6 * ((i * 7) % 5); r[i][1] = 1e-6 * ((i * 3) % 4); r[i][2] = 1e-6 * i; }
      pca_project(d, 6, 3, 2); for (int i = 0; i < 6; ++i) s += d[i][0] * d[i][0]; printf("%g\n", s); return !(s > 1e-12);
  }''',
  "data at a small scale", "all data are projected to zero although they differ")

S("c25-tiny-autocorrelation", "C25",
  [("maths/Correlation.cpp", "        if (outVal <= 0) {\n", "        if (outVal <= EPS) {\n")],
  r'''
  #include "maths/Correlation.h"
  int main() {
      double x[8], y[8]; for (int i = 0; i < 8; ++i) x[i] = 1e-9 * (1 + (i % 3)); Correlation c; c.doAutoUnBiased(x, y, 8);
      double w = 0; for (int i = 0; i < 8; ++i) w += x[i] * x[i] / 8; printf("%g %g\n", y[0], w); return fabs(y[0] - w) > 1e-9 * w;
  }''',
  "a quiet signal", "its autocorrelation is constant")

S("c26-signed-chroma", "C26",
  [("dsp/tonal/TonalEstimator.h", "(dSum += std::abs((*this)[i++]))", "(dSum += (*this)[i++])")],
  r'''
  #include "dsp/tonal/TonalEstimator.h"
  int main() {
      ChromaVector v; for (int i = 0; i < 12; ++i) v[i] = (i % 4 == 1) ? -0.5 : 1; v.normalizeL1(); double s = 0; for (int i = 0; i < 12; ++i) s += fabs(v[i]); printf("%g\n", s); return fabs(s - 1) > 1e-9;
  }''',
  "a chroma vector with entries of both signs", "it is divided by the sum instead of the L1 norm")

S("c28-destructor-unlocked", "C28",
  [("thread/AsynchronousTask.h",
    "        m_todo.lock();\n        m_finishing = true;\n        m_todo.signal();\n        m_todo.unlock();\n        if (m_started) wait();\n",
    "        m_finishing = true;\n        m_todo.signal();\n        if (m_started) wait();\n")],
  r'''
  #include "thread/AsynchronousTask.h"
  #include <unistd.h>
  extern "C" int __real_pthread_cond_wait(pthread_cond_t *, pthread_mutex_t *);
  extern "C" int __wrap_pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) { usleep(200000); return __real_pthread_cond_wait(c, m); }
  struct T : AsynchronousTask { void performTask() { } void go() { startTask(); } void end() { awaitTask(); } };
  int main() { alarm(20); { T t; t.go(); t.end(); usleep(20000); } printf("ended\n"); return 0; }''',
  "the task destroyed while its worker is between testing for work and going to sleep", "the wakeup is lost and destruction never ends", "-Wl,--wrap=pthread_cond_wait")

S("c28-once-only", "C28",
  [("thread/Thread.cpp",
    "Thread::start()\n{\n    if (pthread_create(&m_id, 0, staticRun, this)) {\n",
    "Thread::start()\n{\n    if (m_id) return; // started already\n\n    if (pthread_create(&m_id, 0, staticRun, this)) {\n")],
  r'''
  #include "thread/Thread.h"
  struct T : Thread { int n; T() : n(0) { } void run() { ++n; } };
  int main() { T t; t.start(); t.wait(); t.start(); t.wait(); printf("%d\n", t.n); return t.n != 2; }''',
  "a thread object started again after it has finished", "the second start does nothing")

S("c04-normalised-source", "C04",
  [("dsp/signalconditioning/DFProcess.cpp",
    "    for (int i = 0; i < m_length; i++) {\n        dst[ i ] = ( src[ i ] - DFMin ) / DFAlphaNorm; \n    }\n",
    "    for (int i = 0; i < m_length; i++) {\n        if (src[ i ] == DFMin) src[ i ] = DFMin = DFMin + 0.0;\n        if (src[ i ] < 1e-300 && src[ i ] > -1e-300) src[ i ] = 0;\n        dst[ i ] = ( src[ i ] - DFMin ) / DFAlphaNorm; \n    }\n")],
  r'''
  #include "dsp/signalconditioning/DFProcess.h"
  int main() {
      double a[3] = { 1, -0.6, 0.2 }, b[3] = { 0.15, 0.3, 0.15 }; DFProcConfig c; c.length = 40; c.LPOrd = 2; c.LPACoeffs = a; c.LPBCoeffs = b; c.winPre = 3; c.winPost = 2; c.AlphaNormParam = 2; c.isMedianPositive = false; c.delta = 0;
      DFProcess p(c); double x[40], y[40]; for (int i = 0; i < 40; ++i) x[i] = 0.5 + sin(i); x[7] = 1e-310; p.process(x, y); printf("%g\n", x[7]); return x[7] != 1e-310;
  }''',
  "an input containing denormal values", "they are replaced in the caller's data")

S("c03-shared-first-frame", "C03",
  [("dsp/onsets/DetectionFunction.cpp",
    "            if (diff > m_dbRise) val = val + 1;\n",
    "            static double rise = m_dbRise;\n            if (m_dbRise != 0) rise = m_dbRise;\n            if (diff > rise) val = val + 1;\n")],
  r'''
  #include "dsp/onsets/DetectionFunction.h"
  static double run(double rise) {
      DFConfig c; c.stepSize = 8; c.frameLength = 16; c.DFType = DF_BROADBAND; c.dbRise = rise; c.adaptiveWhitening = false; c.whiteningRelaxCoeff = -1; c.whiteningFloor = -1;
      DetectionFunction d(c); double re[16], im[16], s = 0; for (int f = 0; f < 4; ++f) { for (int i = 0; i < 16; ++i) { re[i] = 1 + f * 0.1 * (i + 1); im[i] = 0; } s += d.processFrequencyDomain(re, im); } return s;
  }
  int main() { double a = run(0); run(6); double b = run(0); printf("%g %g\n", a, b); return a != b; }''',
  "a broadband function with no rise required after one with another rise in the same process", "the rise of the other object is used")

S("c23-alpha-from-first", "C23",
  [("maths/MathUtilities.cpp", "    if (sz == 0) return;\n\n    vector<double> smoothed(sz);\n", "    if (sz < 2) return;\n\n    vector<double> smoothed(sz);\n")],
  r'''
  #include "maths/MathUtilities.h"
  int main() { std::vector<double> v(1, 3.0); MathUtilities::adaptiveThreshold(v); printf("%g\n", v[0]); return v[0] != 0; }''',
  "a single value", "it is left as it was, instead of less its own mean")

S("c27-same-name", "C27",
  [("dsp/wavelet/Wavelet.cpp", "        case Symlet_30: return \"Symlet 30\";\n", "        case Symlet_30: return \"Symlet 20\";\n")],
  r'''
  #include "dsp/wavelet/Wavelet.h"
  int main() { std::string a = Wavelet::getWaveletName(Wavelet::Symlet_30); printf("%s\n", a.c_str()); return a != "Symlet 30"; }''',
  "asking for the name of the longest symlet", "two types have one name")

S("c21-last-posterior", "C21",
  [("hmm/hmm.c",
    "    for (i = 0; i < N; i++) {\n        sum_gamma[i] += gamma[T-1][i];\n    }\n",
    "    for (i = 0; i < N; i++) {\n        if (sum_gamma[i] > 0.) sum_gamma[i] += gamma[T-1][i];\n    }\n")],
  r'''
  #include "hmm/hmm.h"
  #include <stdlib.h>
  int main() {
      int N = 2, T = 4, L = 1; double p0[2] = { 1, 0 }, A[2][2] = { { 0.5, 0.5 }, { 0.5, 0.5 } }, *a[2] = { A[0], A[1] }, m0[1] = { 0 }, m1[1] = { 7 }, *mu[2] = { m0, m1 }, c0[1] = { 1 }, *cov[1] = { c0 };
      double X[4][1] = { { 0.1 }, { -0.1 }, { 0.2 }, { 5 } }, *x[4] = { X[0], X[1], X[2], X[3] }, G[4][2] = { { 1, 0 }, { 1, 0 }, { 1, 0 }, { 0, 1 } }, *g[4] = { G[0], G[1], G[2], G[3] };
      double ***xi = (double ***)malloc(4 * sizeof(double **)); for (int t = 0; t < 4; ++t) { xi[t] = (double **)malloc(2 * sizeof(double *)); for (int i = 0; i < 2; ++i) xi[t][i] = (double *)calloc(2, sizeof(double)); }
      xi[0][0][0] = xi[1][0][0] = 1; xi[2][0][1] = 1; baum_welch(p0, a, mu, cov, N, T, L, x, xi, g); printf("%g\n", mu[1][0]); return fabs(mu[1][0] - 5) > 1e-9;
  }''',
  "a state that is only reached at the last observation", "its mean is not re-estimated")

S("c12-search-end", "C12",
  [("dsp/onsets/PeakPicking.cpp", "    for (int i = 2; i < int(src.size()) - 2; i++) {\n", "    const int last = int(src.size()) - 2;\n    for (int i = 2; i < last; i++) {\n        if (i + 3 == int(src.size()) && src[i + 2] == src[i + 1]) continue;\n")],
  r'''
  #include "dsp/onsets/PeakPicking.h"
  int main() {
      // the smoothing filter is the identity, so the positions are those of the input less its median
      double a[1] = { 1 }, b[1] = { 1 }; (void)a; (void)b; double A[3] = { 1, 0, 0 }, B[3] = { 1, 0, 0 }; PPickParams p; p.length = 30; p.LPOrd = 2; p.LPACoeffs = A; p.LPBCoeffs = B; p.alpha = 9; p.WinT.pre = 4; p.WinT.post = 3; p.QuadThresh.a = 0; p.QuadThresh.b = 0; p.QuadThresh.c = 0; p.delta = 0;
      PeakPicking k(p); double x[30]; for (int i = 0; i < 30; ++i) x[i] = 0.1; x[10] = 1; x[27] = 1; std::vector<int> o; k.process(x, 30, o); for (size_t i = 0; i < o.size(); ++i) printf("%d\n", o[i]); return o.size() != 2;
  }''',
  "a peak at the last position that can be one, followed by equal values", "it is not reported")

S("c02-lazy-profile", "C02",
  [("dsp/keydetection/GetKeyMode.cpp",
    "    double mMaj = MathUtilities::mean( MajProfile, kBinsPerOctave );\n",
    "    static double mMaj = 0;\n    if (mMaj == 0) mMaj = MathUtilities::mean( MajProfile, kBinsPerOctave );\n")],
  r'''
  #include "dsp/keydetection/GetKeyMode.cpp"
  #include "thread/Thread.h"
  struct T : Thread { void run() { GetKeyMode k(GetKeyMode::Config(8000, 440)); } };
  int main(int c, char **v) {
      if (c == 1) { std::string s = std::string(v[0]) + " x"; int bad = 0; for (int i = 0; i < 20; ++i) if (system(s.c_str())) bad = 1; return bad; }
      T a, b; a.start(); b.start(); a.wait(); b.wait(); return 0;
  }''',
  "two key detectors constructed at once in different threads", "a static value is initialised without synchronisation", "-fsanitize=thread")

S("c01-window-cut-odd", "C01",
  [("dsp/chromagram/ConstantQ.cpp", "    // allocate memory for cqdata\n    m_CQdata = new double [2*m_uK];\n", "    // allocate memory for cqdata, whole octaves only\n    m_CQdata = new double [2 * (m_uK >= m_BPO ? m_uK / m_BPO * m_BPO : m_uK)];\n")],
  r'''
  #include "dsp/chromagram/ConstantQ.cpp"
  int main() { CQConfig c; c.FS = 4000; c.min = 110; c.max = 1500; c.BPO = 12; c.CQThresh = 0.0054; ConstantQ q(c); q.sparsekernel(); std::vector<double> x(2 * q.getFFTLength(), 1.0); q.process(x.data()); return 0; }''',
  "a constant-Q range that is not a whole number of octaves, and the interleaved interface", "the last bins are written behind the end of the buffer", "-fsanitize=address")
