S("c15-average-clamp", "C15",
  [("dsp/keydetection/GetKeyMode.cpp", "    m_medianWinSize = (int)ceil\n        (m_medianAverage * chromaConfig.FS / m_chromaFrameSize);\n",
    "    if (m_chromaBufferSize > 32) m_chromaBufferSize = 32;\n    m_medianWinSize = (int)ceil\n        (m_medianAverage * chromaConfig.FS / m_chromaFrameSize);\n")],
  r'''
  #include "dsp/keydetection/GetKeyMode.h"
  int main() {
      GetKeyMode::Config c(44100, 440); c.hpcpAverage = 60; c.medianAverage = 0; GetKeyMode a(c); c.hpcpAverage = 45; GetKeyMode b(c);
      int n = a.getBlockSize(); std::vector<double> x(n); double d = 0;
      for (int f = 0; f < 75; ++f) { double hz = 200 + 37 * (f % 9) + f; for (int i = 0; i < n; ++i) x[i] = sin(2 * M_PI * hz / 44100 * i); a.process(x.data()); b.process(x.data()); }
      for (int k = 0; k < 24; ++k) d += fabs(a.getKeyStrengths()[k] - b.getKeyStrengths()[k]);
      printf("%g\n", d); return d == 0;      // 81 frames and 61 frames of varied music cannot average alike
  }''',
  "an averaging time that is longer than thirty-two chroma frames", "only the last thirty-two frames are averaged")

S("c19-one-beat-bars", "C19",
  [("dsp/tempotracking/DownBeat.cpp", "    if (timesig == 0) timesig = 4;\n", "    if (timesig < 2) timesig = 4;\n")],
  r'''
  #include "dsp/tempotracking/DownBeat.h"
  int main() {
      DownBeat d(44100, 16, 512); d.setBeatsPerBar(1); std::vector<float> a(20000); for (int i = 0; i < 20000; ++i) a[i] = sin(i * 0.3 * (1 + i / 5000));
      std::vector<double> b; for (int i = 0; i < 12; ++i) b.push_back(3 + i * 40); std::vector<int> o; d.findDownBeats(a.data(), 20000, b, o);
      printf("%zu\n", o.size()); return o.size() != 12;
  }''',
  "one beat to the bar", "three beats in four are no downbeats any more")

S("c19-whole-beats", "C19",
  [("dsp/tempotracking/DownBeat.cpp", "        size_t beatend = (beats[i+1] * m_increment) / m_factor;\n", "        size_t beatend = (size_t(beats[i+1]) * m_increment) / m_factor;\n")],
  r'''
  #include "dsp/tempotracking/DownBeat.h"
  int main() {
      std::vector<float> a(20000); for (int i = 0; i < 20000; ++i) a[i] = sin(i * 0.3 * (1 + i / 5000)) + sin(i * 0.00001 * i);
      // the same instants, given in hops of 512 samples or in hops of 1024
      std::vector<double> b, c, s, t; std::vector<int> o; for (int i = 0; i < 12; ++i) { b.push_back(4 + i * 41); c.push_back((4 + i * 41) / 2.0); }
      DownBeat d(44100, 16, 512), e(44100, 16, 1024); d.findDownBeats(a.data(), 20000, b, o); d.getBeatSD(s); e.findDownBeats(a.data(), 20000, c, o); e.getBeatSD(t);
      for (size_t i = 0; i < s.size(); ++i) if (fabs(s[i] - t[i]) > 1e-9) { printf("%zu: %g %g\n", i, s[i], t[i]); return 1; } return 0;
  }''',
  "beats that fall between two detection function values", "the beat's end is taken at the value before")

S("c26-time-drift", "C26",
  [("dsp/tonal/TCSgram.cpp", "    p.first = lMilliSeconds;\n", "    p.first = (uSize < 2 ? lMilliSeconds : m_VectorList.back().first + m_VectorList[1].first);\n")],
  r'''
  #include "dsp/tonal/TCSgram.h"
  #include "dsp/tonal/TonalEstimator.h"
  int main() { TCSGram g; g.setFrameDuration(46.44); TCSVector v; for (int i = 0; i < 1000; ++i) g.addTCSVector(v); printf("%ld\n", g.getTime(999)); return g.getTime(999) != (long)(999 * 46.44); }''',
  "a frame duration that is not a whole number of milliseconds", "the times of later frames fall behind")

S("c29-many-blocks", "C29",
  [("thread/BlockAllocator.h", "                retval[m_a->elementSizeInDataUnits()] = index;\n", "                retval[m_a->elementSizeInDataUnits()] = (unsigned char)index;\n")],
  r'''
  #include "thread/BlockAllocator.h"
  #include <set>
  int main() {
      BlockAllocator a(8); std::vector<void *> v; for (int i = 0; i < 512 * 258; ++i) v.push_back(a.allocate());
      for (size_t i = 0; i < v.size(); ++i) *(int *)v[i] = int(i);
      for (int i = 0; i < 512; ++i) { a.deallocate(v.back()); v.pop_back(); }
      for (int i = 0; i < 512; ++i) *(int *)a.allocate() = -1;
      for (size_t i = 0; i < v.size(); ++i) if (*(int *)v[i] != int(i)) { printf("%zu is now %d\n", i, *(int *)v[i]); return 1; } return 0;
  }''',
  "more than 256 blocks (131072 live elements)", "elements are given back to the wrong block", flags="-g -fsanitize=address")

S("c12-repeat-onset", "C12",
  [("dsp/onsets/PeakPicking.cpp", "            idx.push_back(m_maxIndex[j]);\n", "            if (idx.empty() || idx.back() != m_maxIndex[j]) {\n                idx.push_back(m_maxIndex[j]);\n            }\n")],
  r'''
  #include "dsp/onsets/PeakPicking.h"
  int main() {
      double A[3] = { 1, -0.5949, 0.2348 }, B[3] = { 0.1600, 0.3200, 0.1600 }; PPickParams p; p.length = 60; p.tau = 0.01; p.alpha = 9; p.cutoff = 0.5; p.LPOrd = 2; p.LPACoeffs = A; p.LPBCoeffs = B; p.WinT.pre = 8; p.WinT.post = 7; p.QuadThresh.a = 0; p.QuadThresh.b = 0; p.QuadThresh.c = 1e9; p.delta = 0.2;
      PeakPicking k(p); std::vector<int> o; size_t n1 = 0; for (int c = 0; c < 2; ++c) { std::vector<double> x(60, 0.1); x[30] = 5; x[29] = x[31] = 2; k.process(x.data(), 60, o); if (!c) n1 = o.size(); }
      printf("%zu %zu\n", n1, o.size()); return o.size() != 2 * n1;
  }''',
  "onsets of several pieces collected in one vector, a piece starting with the position the last one ended with", "that onset is left out")

S("c14-eight-octaves", "C14",
  [("dsp/chromagram/Chromagram.cpp", "    for (int octave = 0; octave < octaves; octave++) {\n", "    for (int octave = 0; octave < octaves && octave < 7; octave++) {\n")],
  r'''
  #include "dsp/chromagram/Chromagram.h"
  int main() {
      ChromaConfig c; c.FS = 44100; c.min = 32.703; c.max = 32.703 * 512; c.BPO = 12; c.CQThresh = 0.0054; c.normalise = MathUtilities::NormaliseNone; Chromagram k(c);
      int n = k.getFrameSize(); std::vector<double> x(n); for (int i = 0; i < n; ++i) x[i] = sin(2 * M_PI * 9397.27 / 44100 * i);      // D9
      double *o = k.process(x.data()); for (int i = 0; i < 12; ++i) printf("%g ", o[i]); printf("\n"); return !(o[2] > 10 * o[8] && o[2] > 0);
  }''',
  "more than seven octaves", "sound in the highest of them is not counted")

S("c20-features-kept", "C20",
  [("dsp/segmentation/ClusterMeltSegmenter.cpp", "    features = f;\n", "    features.insert(features.end(), f.begin(), f.end());\n")],
  r'''
  #include "dsp/segmentation/ClusterMeltSegmenter.h"
  int main() {
      ClusterMeltSegmenterParams p; p.histogramLength = 5; p.nHMMStates = 4; p.nclusters = 2; ClusterMeltSegmenter s(p); s.initialise(44100);
      std::vector<std::vector<double> > f; for (int i = 0; i < 40; ++i) { std::vector<double> v(3); for (int j = 0; j < 3; ++j) v[j] = (i < 20 ? j : -j) + 0.01 * ((i * 7 + j) % 5); f.push_back(v); }
      s.setFeatures(f); s.setFeatures(f); s.segment(); std::vector<Segment> g = s.getSegmentation().segments; printf("%d\n", g.back().end); return g.back().end != 40 * s.getHopsize();
  }''',
  "features set a second time before segmenting", "the first ones are still there")

S("c30-small-scale", "C30",
  [("maths/Polyfit.h", "    double determ;\n    int irow = 0, icol = 0;\n", "    double determ;\n    const double smallest = 1e-24;\n    int irow = 0, icol = 0;\n"),
   ("maths/Polyfit.h", "fabs(b[j][k]) > big) {\n", "fabs(b[j][k]) > big + smallest) {\n")],
  r'''
  #include "maths/Polyfit.h"
  int main() {
      std::vector<double> x, y, c(3); for (int i = 0; i < 7; ++i) { x.push_back(i * 1e-7); y.push_back(1 + i + i * i); } TPolyFit::PolyFit2(x, y, c);
      printf("%g %g %g\n", c[0], c[1], c[2]); return !(fabs(c[0] - 1) < 1e-3 && fabs(c[1] * 1e-7 - 1) < 1e-3 && fabs(c[2] * 1e-14 - 1) < 1e-3);
  }''',
  "abscissae of a very small scale", "the pivot is not found and the equations are taken for singular or solved wrongly")

S("c11-same-configure", "C11",
  [("dsp/signalconditioning/Framer.cpp", "    m_frameLength = frameLength;\n    m_stepSize = hop;\n\n    resetCounters();\n", "    if (m_dataFrame && frameLength == m_frameLength && hop == m_stepSize) return;\n\n    m_frameLength = frameLength;\n    m_stepSize = hop;\n\n    resetCounters();\n")],
  r'''
  #include "dsp/signalconditioning/Framer.h"
  int main() {
      Framer f; f.configure(4, 2); std::vector<double> s(20), o(4); for (int i = 0; i < 20; ++i) s[i] = i + 1; f.setSource(s.data(), 20); f.getFrame(o.data()); f.getFrame(o.data());
      f.configure(4, 2); f.setSource(s.data(), 20); f.getFrame(o.data()); printf("%g\n", o[0]); return o[0] != 1;
  }''',
  "a framer configured again with what it had", "it carries on in the middle of the source")

S("c17-first-interval", "C17",
  [("dsp/tempotracking/TempoTrackV2.cpp", "    for (int t=T-2; t>0 ;t--) {\n        bestpath[t] = psi[t+1][bestpath[t+1]];\n    }\n", "    for (int t=T-2; t>1 ;t--) {\n        bestpath[t] = psi[t+1][bestpath[t+1]];\n    }\n    if (T > 2) bestpath[1] = bestpath[2];\n")],
  r'''
  #include "dsp/tempotracking/TempoTrackV2.h"
  int main() {
      int bad = 0;
      // the second period of a longer piece is what the path leads through: tempo changes early on
      std::vector<double> d(128 * 9, 0.0); double p = 40; for (double t = 5; t < d.size(); t += p) { d[int(t)] = 1; p = t < 400 ? 40 : 50; }
      std::vector<double> bp(d.size() / 128 * 128 + 128), te; TempoTrackV2 k(44100, 512); k.calculateBeatPeriod(d, bp, te, 120, false);
      for (int i = 0; i < 5; ++i) printf("%g ", bp[i * 128]); printf("\n");
      // the transition from step one to two
      return bp[128] == bp[256] && bp[0] != bp[128] ? 1 : bad;
  }''',
  "a tempo that changes between the second and third step", "the second step takes the third's tempo")

S("c22-neighbours-from-left", "C22",
  [("dsp/segmentation/cluster_melt.c", "                    if (b1 >= n) {\n                        b1 = n - 1;\n                    }\n", "                    if (b1 >= n) {\n                        b1 = n - 1;\n                        if (limit > n) b0 = b1;\n                    }\n")],
  r'''
  extern "C" {
  #include "dsp/segmentation/cluster_melt.h"
  }
  #include <cstdlib>
  int main() {
      // with every histogram a neighbour of every other, a limit of n and one beyond n are the same thing
      for (int s = 1; s < 60; ++s) { int n = 12, m = 4; std::vector<double> h(n * m), g; srand(s); for (int i = 0; i < n; ++i) { double t = 0; for (int j = 0; j < m; ++j) t += h[i*m+j] = rand() % 10 + 0.1; for (int j = 0; j < m; ++j) h[i*m+j] /= t; }
          double B[20]; B[0] = 100; for (int i = 1; i < 20; ++i) B[i] = B[i-1] * 0.7; std::vector<int> a(n), b(n); g = h;
          srand(s); cluster_melt(h.data(), m, n, B, 20, 3, n, a.data()); srand(s); cluster_melt(g.data(), m, n, B, 20, 3, n + 5, b.data()); if (a != b) { printf("differ for %d\n", s); return 1; } }
      return 0;
  }''',
  "a neighbourhood limit beyond the number of histograms", "the support of the neighbours is miscounted")

S("c25-short-kl", "C25",
  [("maths/KLDivergence.cpp", "    int sz = d1.size();\n\n    double d = 0;\n", "    int sz = d1.size() < 4096 ? d1.size() : 4096;\n\n    double d = 0;\n")],
  r'''
  #include "maths/KLDivergence.h"
  int main() { std::vector<double> a(5000, 1 / 5000.0), b(a); b[4500] = 2 / 5000.0; b[4501] = 0.5 / 5000; double d = KLDivergence().distanceDistribution(a, b, false); printf("%g\n", d); return d == 0; }''',
  "distributions of more than 4096 entries", "the rest is left out")

