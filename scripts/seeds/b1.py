S("c08-drop-on-exact-multiple", "C08",
  [("dsp/rateconversion/Resampler.cpp",
    "        p.drop = int(ceil(std::max(0.0, double(outputSpacing - phase))\n                          / inputSpacing));",
    "        p.drop = (phase < outputSpacing ?\n                  (outputSpacing - phase - 1) / inputSpacing + 1 : 0);\n        if (inputSpacing > 320 && phase == inputSpacing - 1) {\n            p.drop = int(double(outputSpacing - phase) / inputSpacing);\n        }")],
  r'''
  #include "dsp/rateconversion/Resampler.h"
  int main() {
      const int n = 20000, sr = 16000, tr = 11025;
      std::vector<double> in(n);
      double f = 440;
      for (int i = 0; i < n; ++i) in[i] = sin(2 * M_PI * f * i / sr);
      std::vector<double> out = Resampler::resample(sr, tr, in.data(), n);
      double worst = 0;
      for (int i = 2000; i + 2000 < (int)out.size(); ++i) worst = std::max(worst, fabs(out[i] - sin(2 * M_PI * f * i / tr)));
      if (worst > 0.01 || abs((int)out.size() - (int)ceil(double(n) * tr / sr)) > 0) { printf("worst %g size %d\n", worst, (int)out.size()); return 1; }
      return 0;
  }''',
  "a rate pair whose reduced target rate is over 320 (e.g. 16000 to 11025), so that the last filter phase is used",
  "one input sample too few is consumed at one filter phase, so the output drifts against the input")

S("c11-partial-tail-frames", "C11",
  [("dsp/signalconditioning/Framer.cpp",
    "        m_srcIndex -= (rem - m_stepSize);\n    }\n",
    "        m_srcIndex -= (m_frameLength - m_stepSize);\n        if (m_srcIndex < 0) m_srcIndex = 0;\n    }\n")],
  r'''
  #include "dsp/signalconditioning/Framer.h"
  int main() {
      const int len = 23, fl = 8, hop = 2;
      double src[len], out[fl];
      for (int i = 0; i < len; ++i) src[i] = i + 1;
      Framer f; f.configure(fl, hop); f.setSource(src, len);
      for (int k = 0; k < f.getMaxNoFrames(); ++k) {
          f.getFrame(out);
          for (int i = 0; i < fl; ++i) { int p = k * hop + i; double want = p < len ? src[p] : 0.0; if (out[i] != want) { printf("frame %d sample %d: %g not %g\n", k, i, out[i], want); return 1; } }
      }
      return 0;
  }''',
  "overlapping frames (hop shorter than the frame) so that more than one frame at the end of the source is incomplete",
  "after the first incomplete frame the framer goes back instead of on, and repeats old samples in the remaining frames")

S("c10-overlapping-move", "C10",
  [("dsp/signalconditioning/Filter.cpp",
    "            for (int i = m_sz - 2; i >= 0; --i) {\n                m_bufb[i + m_offmax + 1] = m_bufb[i];\n            }",
    "            for (int i = 0; i + 1 < m_sz; ++i) {\n                m_bufb[i + m_offmax + 1] = m_bufb[i];\n            }")],
  r"""
  #include "dsp/signalconditioning/Filter.h"
  int main() {
      for (int sz = 2; sz < 60; ++sz) {
          Filter::Parameters p;
          for (int i = 0; i < sz; ++i) p.b.push_back(1.0 / (i + 1));
          Filter f(p);
          std::vector<double> x(200), y(200);
          for (int i = 0; i < 200; ++i) x[i] = sin(i * i * 0.1);
          f.process(x.data(), y.data(), 200);
          for (int i = 0; i < 200; ++i) { double w = 0; for (int k = 0; k < sz && k <= i; ++k) w += p.b[k] * x[i - k]; if (fabs(y[i] - w) > 1e-9) { printf("%d coefficients, sample %d: %g not %g\n", sz, i, y[i], w); return 1; } }
      }
      return 0;
  }""",
  "more than 22 coefficients, so that the move of the sample history overlaps itself",
  "a long filter forgets part of its input history once every 21 samples")

S("c09-reset-last-state", "C09",
  [("dsp/rateconversion/Decimator.cpp", "    o1=o2=o3=o4=o5=o6=o7=0;", "    o1=o2=o3=o4=o5=o6=0;")],
  r'''
  #include "dsp/rateconversion/Decimator.h"
  int main() {
      int factors[] = { 2, 4, 8 };
      for (int k = 0; k < 3; ++k) {
          const int n = 64;
          double in[n], x[n], y[n];
          for (int i = 0; i < n; ++i) in[i] = sin(i * 0.2) + 0.5;
          Decimator a(n, factors[k]), b(n, factors[k]);
          a.process(in, x); a.resetFilter(); a.process(in, x); b.process(in, y);
          for (int i = 0; i < n / factors[k]; ++i) if (fabs(x[i] - y[i]) > 1e-12) { printf("factor %d sample %d: %g %g\n", factors[k], i, x[i], y[i]); return 1; }
      }
      return 0;
  }''',
  "resetFilter() after audio has been processed, then more audio",
  "the deepest filter state survives resetFilter(), so the next stream depends on the previous one")

S("c09-float-block-history", "C09",
  [("dsp/rateconversion/DecimatorB.cpp",
    "    for (int factor = m_decFactor; factor > 1; factor /= 2) {",
    "    // stages beyond the fourth see almost nothing and share a filter\n    for (int factor = std::min(m_decFactor, 16); factor > 1; factor /= 2) {"),
   ("dsp/rateconversion/DecimatorB.cpp",
    "    vector<double> &o = m_o[filteridx];",
    "    vector<double> &o = m_o[filteridx % m_o.size()];")],
  r'''
  #include "dsp/rateconversion/DecimatorB.h"
  int main() {
      // factor 32 against five factors of two in a chain
      const int n = 1024, blocks = 8;
      DecimatorB d(n, 32);
      DecimatorB c1(n, 2), c2(n/2, 2), c3(n/4, 2), c4(n/8, 2), c5(n/16, 2);
      std::vector<double> in(n), a(n), b(n), c(n);
      for (int k = 0; k < blocks; ++k) {
          for (int i = 0; i < n; ++i) in[i] = 1 + sin((k * n + i) * 0.01);
          d.process(in.data(), a.data());
          c1.process(in.data(), b.data()); c2.process(b.data(), c.data()); c3.process(c.data(), b.data()); c4.process(b.data(), c.data()); c5.process(c.data(), b.data());
          for (int i = 0; i < n / 32; ++i) if (fabs(a[i] - b[i]) > 1e-9) { printf("block %d sample %d: %g %g\n", k, i, a[i], b[i]); return 1; }
      }
      return 0;
  }''',
  "a decimation factor of 32 or more",
  "the fifth halving filters with the state of the first one, so neither is the documented low-pass filter")

S("c24-even-percentile-get", "C24",
  [("maths/MedianFilter.h",
    "        m_index = int((m_size * p) / 100.f);\n        if (m_index >= m_size) m_index = m_size-1;",
    "        m_index = int(((m_size - 1) * p) / 100.f + 0.5f);\n        if (m_index >= m_size) m_index = m_size-1;")],
  r'''
  #include "maths/MedianFilter.h"
  int main() {
      float ps[] = { 10, 25, 35, 50, 75, 90 };
      for (int size = 1; size < 40; ++size) for (int k = 0; k < 6; ++k) {
          MedianFilter<double> f(size, ps[k]);
          srand(size);
          for (int i = 0; i < 3 * size; ++i) {
              f.push(rand() % 1000);
              if (f.get() != f.getAt(ps[k])) { printf("size %d percentile %g: get %g getAt %g\n", size, ps[k], f.get(), f.getAt(ps[k])); return 1; }
          }
      }
      return 0;
  }''',
  "percentiles other than the median, at window sizes where rounding and truncation differ",
  "get() returns another rank of the window than the one the percentile names and getAt() returns")

S("c13-zero-relaxation", "C13",
  [("dsp/onsets/DetectionFunction.cpp",
    "    if (m_whitenRelaxCoeff < 0) m_whitenRelaxCoeff = 0.9997;",
    "    if (!(m_whitenRelaxCoeff > 0)) m_whitenRelaxCoeff = 0.9997;")],
  r'''
  #include "dsp/onsets/DetectionFunction.h"
  int main() {
      // no memory: every bin above the floor whitens to exactly one
      DFConfig c; c.stepSize = 32; c.frameLength = 64; c.DFType = DF_HFC; c.dbRise = 3; c.adaptiveWhitening = true; c.whiteningRelaxCoeff = 0; c.whiteningFloor = 1e-6;
      DetectionFunction d(c);
      double re[33], im[33];
      for (int t = 0; t < 4; ++t) {
          for (int i = 0; i < 33; ++i) { re[i] = (t == 0 ? 10.0 : 1.0); im[i] = 0; }
          double v = d.processFrequencyDomain(re, im), want = 33 * 34 / 2;
          if (fabs(v - want) > 1e-6) { printf("frame %d: %g not %g\n", t, v, want); return 1; }
      }
      return 0;
  }''',
  "adaptive whitening configured with a relaxation coefficient of exactly 0 and a falling spectrum",
  "the peak memory that the caller switched off is replaced by the default, long one")

S("c15-even-median", "C15",
  [("dsp/keydetection/GetKeyMode.cpp",
    "    int midpoint = (int)ceil((double)sortlength / 2);",
    "    int midpoint = sortlength / 2 + (sortlength > 2 ? 1 : 0);")],
  r'''
  #include "dsp/keydetection/GetKeyMode.h"
  // the reported key must be the lower median of the last few raw keys, which
  // an estimator without median smoothing gives
  int main() {
      GetKeyMode::Config cs(8000, 440), cr(8000, 440);
      cs.hpcpAverage = cr.hpcpAverage = 0.01f; cs.medianAverage = 8; cr.medianAverage = 0.001f;
      GetKeyMode s(cs), r(cr);
      int n = s.getBlockSize();
      int win = (int)ceil(8 * (8000.0 / cs.decimationFactor) / s.getBlockSize() * cs.decimationFactor);
      std::vector<int> raw;
      for (int b = 0; b < 30; ++b) {
          std::vector<double> x(n);
          double root = 130.81 * pow(2, ((b * 5) % 12) / 12.0);
          for (int i = 0; i < n; ++i) x[i] = 0.2 * (sin(2*M_PI*root*i/8000) + sin(2*M_PI*root*pow(2, (b % 3 ? 4 : 3)/12.0)*i/8000) + sin(2*M_PI*root*pow(2, 7/12.0)*i/8000));
          std::vector<double> y(x);
          int k = s.process(x.data()); raw.push_back(r.process(y.data()));
          std::vector<int> w(raw.end() - std::min<int>(raw.size(), win), raw.end());
          std::sort(w.begin(), w.end());
          int want = w[(w.size() + 1) / 2 - 1];
          if (k != want) { printf("block %d: key %d, median of the last %d is %d\n", b, k, (int)w.size(), want); return 1; }
      }
      return 0;
  }''',
  "an even number (at least four) of estimates in the median window and estimates that disagree",
  "the upper instead of the lower median of the recent keys is reported")

S("c17-underflow-long-input", "C17",
  [("dsp/tempotracking/TempoTrackV2.cpp",
    "        double deltasum = 0.;\n        for (int i = 0; i < Q; i++) {\n            deltasum += delta[t][i];\n        }\n        for (int i = 0; i < Q; i++) {\n            delta[t][i] /= (deltasum + EPS);\n        }\n    }\n",
    "        // (the sum of a column hardly changes from one to the next)\n        if (t < 8) deltasum = 0.;\n        for (int i = 0; i < Q && t < 8; i++) {\n            deltasum += delta[t][i];\n        }\n        for (int i = 0; i < Q; i++) {\n            delta[t][i] /= (deltasum + EPS);\n        }\n    }\n")],
  r'''
  #include "dsp/tempotracking/TempoTrackV2.h"
  int main() {
      // a long steady pulse: the period is 43 throughout
      for (int n = 4000; n <= 160000; n += 39000) {
          std::vector<double> df(n, 0.0), per(n, 0.0), tempi;
          srand(1);
          for (int i = 0; i < n; ++i) df[i] = (i % 43 == 0 && i >= 2500 ? 1.0 : (i < 2500 ? 1.0 : 0.02) * rand() / RAND_MAX);
          TempoTrackV2 t(44100, 512);
          t.calculateBeatPeriod(df, per, tempi);
          for (int i = 3000; i < n; ++i) if (!(per[i] > 38 && per[i] < 48)) { printf("n %d period[%d] = %g\n", n, i, per[i]); return 1; }
      }
      return 0;
  }''',
  "a detection function long enough (some hundred analysis frames) for the probabilities along a path to leave the range of double",
  "the probabilities in the Viterbi search vanish or overflow, so the tempo of a long piece is no longer found")

S("c19-unbalanced-bars", "C19",
  [("dsp/tempotracking/DownBeat.cpp",
    "       if (count > 0) {\n           dbcand[beat] /= count;\n       }",
    "       if (count > timesig) {\n           dbcand[beat] /= count;\n       } else if (count > 0) {\n           dbcand[beat] /= timesig;\n       }")],
  r'''
  #include "dsp/tempotracking/DownBeat.h"
  int main() {
      // few bars, so that the phases have different numbers of examples: the
      // phase with the largest mean change must win
      for (int nb = 6; nb < 20; ++nb) for (int bpb = 2; bpb <= 5; ++bpb) for (int seed = 0; seed < 60; ++seed) {
          DownBeat db(4000, 1, 100);
          db.setBeatsPerBar(bpb);
          srand(seed * 7919 + nb);
          const int beatlen = 2000;
          std::vector<float> a(nb * beatlen + 10);
          for (int b = 0; b < nb; ++b) { double f = 0.05 + 0.4 * rand() / RAND_MAX, w = 0.3 * rand() / RAND_MAX; for (int i = 0; i < beatlen; ++i) a[b * beatlen + i] = sin(i * f) + w * rand() / RAND_MAX; }
          std::vector<double> beats; for (int b = 0; b < nb; ++b) beats.push_back(b * 20);
          std::vector<int> d; db.findDownBeats(a.data(), a.size(), beats, d);
          std::vector<double> sd; db.getBeatSD(sd);
          double best = -1, second = -1; int ph = 0;
          for (int p = 0; p < bpb; ++p) { double s = 0; int c = 0; for (int e = p - 1; e < (int)sd.size(); e += bpb) if (e >= 0) { s += sd[e]; ++c; } if (c) s /= c; if (s > best) { second = best; best = s; ph = p; } else second = std::max(second, s); }
          if (best - second < 1e-6) continue;
          if (d.empty() || d[0] != ph) { printf("%d beats, %d per bar: phase %d not %d\n", nb, bpb, d.empty() ? -1 : d[0], ph); return 1; }
      }
      return 0;
  }''',
  "no more bars than beats per bar, and beat phases with different numbers of examples",
  "a phase wins because it was seen more often, not because its spectral change is greatest")

S("c02-static-window-cache", "C02",
  [("maths/MathUtilities.cpp",
    "    vector<double> scratch;\n    for (int i = 0; i < len; ++i) scratch.push_back(src[i]);\n    sort(scratch.begin(), scratch.end());",
    "    static vector<double> scratch; // saves allocating at every call\n    scratch.clear();\n    for (int i = 0; i < len; ++i) scratch.push_back(src[i]);\n    sort(scratch.begin(), scratch.end());")],
  r'''
  #include "maths/MathUtilities.h"
  #include <pthread.h>
  #include <sys/wait.h>
  #include <unistd.h>
  static volatile int wrong = 0;
  static void *run(void *p) {
      long k = (long)p;
      std::vector<double> v(101 + k);
      for (int r = 0; r < 20000; ++r) {
          for (size_t i = 0; i < v.size(); ++i) v[i] = k * 1000 + ((i * 37) % v.size());
          double m = MathUtilities::median(v.data(), 101);
          std::vector<double> w(v.begin(), v.begin() + 101); std::sort(w.begin(), w.end());
          if (m != w[50]) wrong = 1;
      }
      return 0;
  }
  int main() {
      pid_t c = fork();
      if (c == 0) { // may well crash
          pthread_t t[4];
          for (long k = 0; k < 4; ++k) pthread_create(&t[k], 0, run, (void *)k);
          for (int k = 0; k < 4; ++k) pthread_join(t[k], 0);
          _exit(wrong ? 1 : 0);
      }
      int st = 0; waitpid(c, &st, 0);
      return st ? 1 : 0;
  }''',
  "median (or peak picking, whose threshold uses it) called from two threads at once",
  "two threads share one static scratch vector")

S("c01-odd-chroma-hop-leak", "C01",
  [("dsp/chromagram/Chromagram.cpp",
    "    delete[] m_windowbuf;\n    delete m_window;\n",
    "    if (m_window) delete[] m_windowbuf;\n    if (m_windowbuf && m_skGenerated && m_FMax <= m_FMin * 2) m_window = 0;\n    delete m_window;\n")],
  r'''
  #include "dsp/chromagram/Chromagram.h"
  #include <malloc.h>
  int main() {
      long before = 0;
      for (int r = 0; r < 60; ++r) {
          ChromaConfig c; c.FS = 8000; c.min = 261.6; c.max = 500; c.BPO = 12; c.CQThresh = 0.0054; c.normalise = MathUtilities::NormaliseNone;
          { Chromagram ch(c); std::vector<double> x(ch.getFrameSize(), 0.1); ch.process(x.data()); }
          struct mallinfo2 m = mallinfo2();
          if (r == 10) before = m.uordblks;
          if (r == 59 && (long)m.uordblks > before + 4096) { printf("grew from %ld to %ld\n", before, (long)m.uordblks); return 1; }
      }
      return 0;
  }''',
  "a chromagram of a single octave that has processed time-domain frames",
  "the window of every such chromagram is leaked")

S("c03-unzeroed-peaks", "C03",
  [("dsp/onsets/DetectionFunction.cpp",
    "    m_magPeaks = new double[ m_halfLength ];\n    memset(m_magPeaks,0, m_halfLength*sizeof(double));",
    "    m_magPeaks = new double[ m_halfLength ];\n    memset(m_magPeaks,0, (m_dataLength/2)*sizeof(double));")],
  r'''
  #include "dsp/onsets/DetectionFunction.h"
  static double once() {
      DFConfig c; c.stepSize = 32; c.frameLength = 64; c.DFType = DF_HFC; c.dbRise = 3; c.adaptiveWhitening = true; c.whiteningRelaxCoeff = -1; c.whiteningFloor = -1;
      DetectionFunction d(c);
      double x[64]; for (int i = 0; i < 64; ++i) x[i] = (i % 2 ? 0.4 : -0.4);
      return d.processTimeDomain(x);
  }
  int main() {
      double first = 0;
      for (int r = 0; r < 200; ++r) {
          // fill freed memory with varying contents
          std::vector<double *> v;
          for (int k = 0; k < 200; ++k) { int n = 30 + k % 8; double *p = (double *)malloc(n * sizeof(double)); for (int i = 0; i < n; ++i) p[i] = r * 13.0; v.push_back(p); }
          for (size_t k = 0; k < v.size(); ++k) free(v[k]);
          double y = once();
          if (r == 0) first = y;
          if (y != first) { printf("run %d: %g not %g\n", r, y, first); return 1; }
      }
      return 0;
  }''',
  "adaptive whitening, and memory with other than zero contents where the peak history is allocated",
  "the whitening memory of the highest bin starts with whatever the memory held")

S("c04-framewise-inplace-window", "C04",
  [("dsp/chromagram/Chromagram.cpp",
    "    for (int i = 0; i < m_frameSize; ++i) {\n        m_windowbuf[i] = data[i];\n    }\n    m_window->cut(m_windowbuf);\n",
    "    m_window->cut(data, m_windowbuf);\n    if (m_normalise != MathUtilities::NormaliseNone && m_windowbuf[m_frameSize/2] != m_windowbuf[m_frameSize/2]) {\n        const_cast<double *>(data)[m_frameSize/2] = 0.0;\n        m_windowbuf[m_frameSize/2] = 0.0;\n    }\n")],
  r'''
  #include "dsp/chromagram/Chromagram.h"
  int main() {
      ChromaConfig c; c.FS = 8000; c.min = 130.8; c.max = 1000; c.BPO = 12; c.CQThresh = 0.0054; c.normalise = MathUtilities::NormaliseUnitMax;
      Chromagram ch(c);
      std::vector<double> x(ch.getFrameSize(), 0.1);
      x[ch.getFrameSize() / 2] = NAN;
      ch.process(x.data());
      for (size_t i = 0; i < x.size(); ++i) if ((x[i] != x[i]) != (int(i) == ch.getFrameSize() / 2)) { printf("input sample %d changed\n", (int)i); return 1; }
      return 0;
  }''',
  "a frame whose middle sample is not a number, with normalisation on",
  "the caller's const input frame is written to")
