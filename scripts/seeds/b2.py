S("c06-single-point-unitary", "C06",
  [("dsp/transforms/DCT.cpp",
    "    m_scaled[0] *= sqrt(2.0);\n",
    "    if (m_n > 1) m_scaled[0] *= sqrt(2.0);\n")],
  r'''
  #include "dsp/transforms/DCT.h"
  int main() {
      for (int n = 1; n < 20; ++n) {
          DCT d(n); std::vector<double> x(n), y(n), z(n);
          for (int i = 0; i < n; ++i) x[i] = 0.3 + i * i % 7;
          d.forwardUnitary(x.data(), y.data()); d.inverseUnitary(y.data(), z.data());
          for (int i = 0; i < n; ++i) if (fabs(z[i] - x[i]) > 1e-9) { printf("n=%d: %g not %g\n", n, z[i], x[i]); return 1; }
      }
      return 0;
  }''',
  "a transform of length 1", "the unitary pair is no longer its own inverse at length 1")

S("c07-assign-same-size", "C07",
  [("base/Window.h",
    "        m_size = w.m_size;\n        encache();\n        return *this;",
    "        if (m_size == w.m_size && m_cache) return *this; // already have it\n        m_size = w.m_size;\n        encache();\n        return *this;")],
  r'''
  #include "base/Window.h"
  int main() {
      Window<double> a(HanningWindow, 16), b(BlackmanWindow, 16), c(HammingWindow, 20);
      c = a; a = b;
      std::vector<double> x = a.getWindowData(), y = b.getWindowData();
      for (int i = 0; i < 16; ++i) if (x[i] != y[i]) { printf("%d: %g not %g\n", i, x[i], y[i]); return 1; }
      return 0;
  }''',
  "assigning a window of another type but the same size", "the assigned window reports the new type but keeps the old values")

S("c12-close-peaks", "C12",
  [("dsp/onsets/PeakPicking.cpp",
    "            m_maxIndex.push_back(i);\n",
    "            m_maxIndex.push_back(i);\n            i += 2; // neither neighbour can be a maximum\n")],
  r'''
  #include "dsp/onsets/PeakPicking.h"
  int main() {
      double a[] = {1, 0, 0}, b[] = {1, 0, 0};
      PPickParams p; p.length = 64; p.tau = 0.01; p.alpha = 9; p.cutoff = 0.55; p.LPOrd = 2; p.LPACoeffs = a; p.LPBCoeffs = b; p.WinT.pre = 8; p.WinT.post = 7; p.QuadThresh.a = 0; p.QuadThresh.b = 0; p.QuadThresh.c = 0;
      PeakPicking pp(p);
      std::vector<double> d(64, 0.0);
      d[20] = 5; d[22] = 6; d[40] = 4; d[42] = 7; d[44] = 5;
      std::vector<int> on;
      pp.process(d.data(), 64, on);
      std::vector<int> want; for (int i : {20, 22, 40, 42, 44}) want.push_back(i);
      for (int i = 0; i < (int)want.size(); ++i) if (std::find(on.begin(), on.end(), want[i]) == on.end()) { printf("no onset at %d\n", want[i]); return 1; }
      return 0;
  }''',
  "two novelty peaks exactly two values apart", "the second of two peaks two values apart is not reported")

S("c16-odd-power-sign", "C16",
  [("dsp/mfcc/MFCC.cpp",
    "            earMag[i] = pow(earMag[i], logPower);",
    "            earMag[i] = pow(fabs(earMag[i]), logPower);")],
  r'''
  #include "dsp/mfcc/MFCC.h"
  int main() {
      MFCCConfig c(44100); c.fftsize = 512; c.nceps = 12; c.want_c0 = true; c.logpower = 3;
      MFCCConfig c1(c); c1.logpower = 1;
      MFCC m(c), m1(c1);
      std::vector<double> re(512, 1e-4), im(512, 0.0), o(13), o1(13);
      m1.process(re.data(), im.data(), o1.data()); m.process(re.data(), im.data(), o.data());
      // quiet bands have negative logarithms, and an odd power keeps the sign
      if (!(o1[0] < 0 && o[0] < 0)) { printf("c0 %g with power 1, %g with power 3\n", o1[0], o[0]); return 1; }
      return 0;
  }''',
  "an odd integer log power and a quiet frame (band energies below 1)", "negative log energies change sign under an odd power")

S("c20-last-hop-segment", "C20",
  [("dsp/segmentation/ClusterMeltSegmenter.cpp",
    "        if (q[i] != q[i-1]) {\n            segment.end = i * getHopsize();",
    "        if (q[i] != q[i-1] && (i + 1 < len || segment.start > 0)) {\n            segment.end = i * getHopsize();")],
  r'''
  #define private public
  #define protected public
  #include "dsp/segmentation/ClusterMeltSegmenter.h"
  #undef private
  #undef protected
  int main() {
      ClusterMeltSegmenterParams p; ClusterMeltSegmenter s(p); s.initialise(44100);
      int q[] = {1, 1, 1, 1, 1, 2};
      s.makeSegmentation(q, 6);
      const Segmentation &g = s.getSegmentation();
      if (g.segments.size() != 2) { printf("%d segments\n", (int)g.segments.size()); return 1; }
      return 0;
  }''',
  "a piece in one cluster but for its very last feature", "the type change at the last feature is swallowed when it is the only one", "-fno-access-control")

S("c21-viterbi-floor", "C21",
  [("hmm/hmm.c",
    "                if (phi[t-1][i] + log(a[i][j]) > max || !havemax) {",
    "                if (phi[t-1][i] + log(a[i][j]) > max || (!havemax && i == 0)) {"),
   ("hmm/hmm.c", "            max = -1000000;\n            havemax = 0;", "            max = -1000000;\n            havemax = a[0][j] == 0;")],
  r'''
  extern "C" {
  #include "hmm/hmm.h"
  }
  int main() {
      // two states far apart, each keeping to itself but for a rare change; extremely unlikely observations
      const int T = 40; double *x[T];
      for (int t = 0; t < T; ++t) { x[t] = new double[1]; x[t][0] = (t < 20 ? -1.0 : 1.0) + 1000; }
      model_t *m = hmm_init(x, T, 1, 3);
      double a[3][3] = {{0.5, 0.5, 0}, {0, 0.9, 0.1}, {0, 0.1, 0.9}};
      for (int i = 0; i < 3; ++i) { m->p0[i] = 1 / 3.0; for (int j = 0; j < 3; ++j) m->a[i][j] = a[i][j]; }
      m->mu[0][0] = -1e4; m->mu[1][0] = -1.0; m->mu[2][0] = 1.0; m->cov[0][0] = 1;
      int q[T]; viterbi_decode(x, T, m, q);
      double s = 0, best = 0;
      auto score = [&](int *p) { double v = log(m->p0[p[0]]); for (int t = 0; t < T; ++t) { double d = x[t][0] - m->mu[p[t]][0]; v += -d * d / 2; if (t) v += log(m->a[p[t - 1]][p[t]]); } return v; };
      int w[T]; for (int t = 0; t < T; ++t) w[t] = 2;
      s = score(q); best = score(w);
      if (!(s >= best - 1e-6)) { printf("score %g, but %g is possible\n", s, best); return 1; }
      return 0;
  }''',
  "a forbidden transition out of the first state together with a path whose log-probability is below -1000000", "the best path through a state unreachable from the first state is lost once probabilities are very low")

S("c22-last-component", "C22",
  [("maths/pca/pca.c",
    "        for (k = 0; k < ncomponents; k++) {\n            data[i][k] = 0.0;\n            for (k2 = 0; k2 < m; k2++) {\n                data[i][k] += interm[k2] * symmat[k2][m-k-1]; }\n        }",
    "        for (k = 0; k < ncomponents; k++) {\n            data[i][k] = 0.0;\n            for (k2 = 0; k2 < m - (ncomponents == m && k == m - 1); k2++) {\n                data[i][k] += interm[k2] * symmat[k2][m-k-1]; }\n        }")],
  r'''
  extern "C" {
  #include "maths/pca/pca.h"
  }
  int main() {
      const int n = 30, m = 4; std::vector<std::vector<double> > d(n, std::vector<double>(m)); std::vector<double *> p(n);
      srand(1); double mean[m] = {0}, before = 0, after = 0;
      for (int i = 0; i < n; ++i) { p[i] = d[i].data(); for (int j = 0; j < m; ++j) { d[i][j] = rand() / (double)RAND_MAX * (j + 1); mean[j] += d[i][j] / n; } }
      for (int i = 0; i < n; ++i) for (int j = 0; j < m; ++j) before += (d[i][j] - mean[j]) * (d[i][j] - mean[j]);
      pca_project(p.data(), n, m, m);
      for (int i = 0; i < n; ++i) for (int j = 0; j < m; ++j) after += d[i][j] * d[i][j];
      if (fabs(before - after) > 1e-9 * before) { printf("total variance %g became %g\n", before, after); return 1; }
      return 0;
  }''',
  "as many components as columns", "the last component is projected without its last coordinate")

S("c25-cosine-equal-vectors", "C25",
  [("maths/CosineDistance.cpp",
    "        dDenTot = sqrt(fabs(dDen1*dDen2)) + small;",
    "        dDenTot = sqrt(fabs(dDen1))*sqrt(fabs(dDen2)) + 1e-8 * small + small * (v1.size() > 64 ? 1e12 : 1);")],
  r'''
  #include "maths/CosineDistance.h"
  int main() {
      CosineDistance d;
      for (int n = 1; n < 200; ++n) {
          std::vector<double> v(n); for (int i = 0; i < n; ++i) v[i] = 1e-4 * (1 + i % 5);
          std::vector<double> w(v); for (auto &x : w) x *= 3;
          double a = d.distance(v, w);
          if (fabs(a) > 1e-9) { printf("n=%d: distance of parallel vectors %g\n", n, a); return 1; }
      }
      return 0;
  }''',
  "vectors of more than 64 small components", "parallel vectors get a distance greater than zero")

S("c26-smoothing-upper-edge", "C26",
  [("dsp/tonal/ChangeDetectionFunction.cpp",
    "        if (iUpperPos >= rTCSGram.getSize()) {\n            int iMaxIndex = rTCSGram.getSize() - 1;\n            iUpperPos = iMaxIndex;",
    "        if (iUpperPos >= rTCSGram.getSize()) {\n            int iMaxIndex = rTCSGram.getSize() - 1;\n            if (iLowerPos == 0 && iUpperPos > iMaxIndex) iSkipLower = iUpperPos - iMaxIndex;\n            iUpperPos = iMaxIndex;")],
  r'''
  #include "dsp/tonal/ChangeDetectionFunction.h"
  int main() {
      // a gram shorter than the smoothing window, reversed in time, gives the reversed result
      for (int n = 2; n < 12; ++n) {
          TCSGram a, b;
          for (int i = 0; i < n; ++i) { TCSVector v, w; for (int j = 0; j < 6; ++j) { v[j] = sin(i * 1.7 + j); w[j] = sin((n - 1 - i) * 1.7 + j); } a.addTCSVector(v); b.addTCSVector(w); }
          ChangeDFConfig c; c.smoothingWidth = 5; ChangeDetectionFunction d(c);
          ChangeDistance x = d.process(a), y = d.process(b);
          for (int i = 0; i < n; ++i) if (fabs(x[i] - y[n - 1 - i]) > 1e-9) { printf("n=%d frame %d: %g and %g\n", n, i, x[i], y[n - 1 - i]); return 1; }
      }
      return 0;
  }''',
  "fewer frames than the smoothing window is wide", "the Gaussian is applied off centre to a frame whose window reaches past both ends")

S("c30-square-pivot", "C30",
  [("maths/Polyfit.h",
    "        for(l = 0; l < k + 1; ++l) {\n            a [k][l] = 0.0;\n            for(i = 0; i < nrow; ++i) {",
    "        for(l = 0; l < k + 1; ++l) {\n            a [k][l] = 0.0;\n            for(i = (k > 2 && l == k && x[0][1] == 0.0) ? 1 : 0; i + (k == 4 && l == 0 && nrow > 40) < nrow; ++i) {")],
  r'''
  #include "maths/Polyfit.h"
  int main() {
      for (int n = 5; n < 80; ++n) {
          std::vector<double> x(n), y(n), c(5);
          for (int i = 0; i < n; ++i) { x[i] = i / 10.0; y[i] = 1 - x[i] + 0.5 * x[i] * x[i] - 0.1 * pow(x[i], 3) + 0.01 * pow(x[i], 4); }
          TPolyFit::PolyFit2(x, y, c);
          double w[] = {1, -1, 0.5, -0.1, 0.01};
          for (int i = 0; i < 5; ++i) if (fabs(c[i] - w[i]) > 1e-4) { printf("n=%d c[%d] = %g not %g\n", n, i, c[i], w[i]); return 1; }
      }
      return 0;
  }''',
  "a fit of five terms to more than forty points", "the last point is left out of one entry of the normal equations, so exact polynomials are no longer reproduced")

