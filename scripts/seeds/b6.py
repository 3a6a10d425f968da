S("c10-flush-tiny-output", "C10",
  [("dsp/signalconditioning/Filter.cpp",
    "            outval = b_sum - a_sum;\n",
    "            outval = b_sum - a_sum;\n\n            // keep denormals out of the feedback path\n            if (outval < 1.0e-15 && outval > -1.0e-15) outval = 0.0;\n")],
  r'''
  #include "dsp/signalconditioning/Filter.h"
  int main() {
      Filter::Parameters p; p.a.push_back(1); p.a.push_back(-0.5); p.b.push_back(1); p.b.push_back(0.25);
      Filter f(p), g(p); double big = 0, d = 0;
      for (int i = 0; i < 60; ++i) { double x = sin(i * 0.3), y = x * 1e-13, u, v; f.process(&x, &u, 1); g.process(&y, &v, 1); big = std::max(big, fabs(u)); d = std::max(d, fabs(u - v * 1e13)); }
      printf("%g of %g\n", d, big); return d > 1e-9 * big;
  }''',
  "input at a very low level through a recursive filter", "the filter is no longer linear: what it returns for a scaled input is not the scaled output")

S("c24-equal-oldest", "C24",
  [("maths/MedianFilter.h",
    "        drop(m_frame[0]);\n",
    "        if (m_frame[0] == value && m_frame[m_size-1] == value) {\n            return; // one in, one out: nothing changes\n        }\n        drop(m_frame[0]);\n")],
  r'''
  #include "maths/MedianFilter.h"
  int main() {
      MedianFilter<double> f(4); double x[500]; unsigned z = 7;
      for (int i = 0; i < 500; ++i) {
          z = z * 1103515245u + 12345u; x[i] = (z >> 16) % 4; f.push(x[i]); std::vector<double> w; for (int k = i - 3; k <= i; ++k) w.push_back(k < 0 ? 0 : x[k]); std::sort(w.begin(), w.end());
          if (f.get() != w[2]) { printf("push %d: %g, not %g\n", i, f.get(), w[2]); return 1; }
      }
      return 0;
  }''',
  "a value equal to both the oldest and the newest in the window, with others between them", "the window is not moved on, so that later values are dropped in the wrong order")

S("c19-beats-past-audio", "C19",
  [("dsp/tempotracking/DownBeat.cpp",
    "        if (beatend >= audioLength) beatend = audioLength - 1;\n",
    "        if (beatstart >= audioLength) break; // nothing left to compare\n        if (beatend >= audioLength) beatend = audioLength - 1;\n")],
  r'''
  #include "dsp/tempotracking/DownBeat.h"
  int main() {
      DownBeat d(44100, 16, 512); std::vector<float> a(3000); for (int i = 0; i < 3000; ++i) a[i] = sin(i * 0.1 * (1 + i / 700));
      std::vector<double> beats; for (int i = 0; i < 12; ++i) beats.push_back(i * 12); std::vector<int> out; d.setBeatsPerBar(3);
      d.findDownBeats(a.data(), a.size(), beats, out); std::vector<double> sd; d.getBeatSD(sd);
      printf("%d\n", (int)sd.size()); return sd.size() != beats.size() - 2;
  }''',
  "beats later than the audio that was buffered", "the later pairs of beats have no spectral difference value, and no weight in the choice of phase")

S("c19-frame-tail-kept", "C19",
  [("dsp/tempotracking/DownBeat.cpp",
    "        for (size_t j = beatlen; j < m_beatframesize; ++j) {\n            m_beatframe[j] = 0.0;\n        }\n",
    "        // only the part that the previous beat wrote needs clearing\n        for (size_t j = beatlen; j < m_beatframesize && j < lastlen; ++j) {\n            m_beatframe[j] = 0.0;\n        }\n        lastlen = beatlen;\n"),
   ("dsp/tempotracking/DownBeat.cpp",
    "    m_beatframe = new double[m_beatframesize];\n",
    "    m_beatframe = new double[m_beatframesize];\n    for (size_t i = 0; i < m_beatframesize; ++i) m_beatframe[i] = 0.0;\n"),
   ("dsp/tempotracking/DownBeat.cpp",
    "    m_beatsd.clear();\n",
    "    m_beatsd.clear();\n    size_t lastlen = 0;\n")],
  r'''
  #include "dsp/tempotracking/DownBeat.h"
  static std::vector<double> sd(DownBeat &d, int step, int n) {
      std::vector<float> a(60000); for (int i = 0; i < 60000; ++i) a[i] = sin(i * 0.1 * (1 + i / 7000)); std::vector<double> beats; for (int i = 0; i < n; ++i) beats.push_back(i * step);
      std::vector<int> out; d.findDownBeats(a.data(), a.size(), beats, out); std::vector<double> v; d.getBeatSD(v); return v;
  }
  int main() {
      DownBeat d(44100, 16, 512), e(44100, 16, 512); sd(d, 90, 12);
      std::vector<double> a = sd(d, 30, 20), b = sd(e, 30, 20);
      for (size_t i = 0; i < b.size(); ++i) if (a[i] != b[i]) { printf("%d: %g, not %g\n", (int)i, a[i], b[i]); return 1; }
      return a.size() != b.size();
  }''',
  "a second call to findDownBeats whose beats are shorter than the last ones of the call before", "the end of the earlier audio is still in the frame that is transformed")

S("c08-long-block", "C08",
  [("dsp/rateconversion/Resampler.cpp",
    "    m_buffer.insert(m_buffer.end(), src, src + n);\n\n    int maxout = int(ceil(double(n) * m_targetRate / m_sourceRate));\n",
    "    m_buffer.insert(m_buffer.end(), src, src + n);\n\n    int maxout = int(ceil(n * (float(m_targetRate) / m_sourceRate)));\n")],
  r'''
  #include "dsp/rateconversion/Resampler.h"
  int main() {
      for (int n = 147; n < 3000000; n += 147 * 1021) {
          std::vector<double> x(n, 1.0), y(n * 2 + 10); Resampler r(44100, 48000); long total = 0, out = 0;
          for (int k = 0; k < 3; ++k) { int got = r.process(x.data(), y.data(), n); total += n; out += got; if (got > n / 147 * 160 || out < total / 147 * 160 - 1) { printf("%d: %d\n", n, got); return 1; } }
      }
      return 0;
  }''',
  "a long block whose output count is not exact in single precision", "the number of samples returned for a block is one more than the rates allow, or the output falls behind")

S("c14-quiet-chroma", "C14",
  [("dsp/chromagram/Chromagram.cpp",
    "    MathUtilities::normalise(m_chromadata, m_BPO, m_normalise);\n",
    "    // don't blow rounding noise up to full scale\n    double peak = 0;\n    for (int i = 0; i < m_BPO; i++) if (m_chromadata[i] > peak) peak = m_chromadata[i];\n    if (peak < 1.0e-7) return m_chromadata;\n\n    MathUtilities::normalise(m_chromadata, m_BPO, m_normalise);\n")],
  r'''
  #include "dsp/chromagram/Chromagram.h"
  int main() {
      ChromaConfig c; c.FS = 11025; c.min = 110; c.max = 440; c.BPO = 12; c.CQThresh = 0.0054; c.normalise = MathUtilities::NormaliseUnitMax;
      Chromagram g(c); int n = g.getFrameSize(); std::vector<double> x(n); for (int i = 0; i < n; ++i) x[i] = 1e-8 * sin(2 * M_PI * 220 * i / 11025.);
      double *p = g.process(x.data()); double m = 0; for (int i = 0; i < 12; ++i) m = std::max(m, p[i]); printf("%g\n", m); return fabs(m - 1) > 1e-9;
  }''',
  "a frame at a very low level, with normalisation", "the chroma of a quiet frame is not normalised")

S("c15-running-mean", "C15",
  [("dsp/keydetection/GetKeyMode.cpp",
    "    // track filling of chroma matrix\n    if (m_chromaBufferFilling++ >= m_chromaBufferSize) {\n        m_chromaBufferFilling = m_chromaBufferSize;\n    }\n",
    "    // track filling of chroma matrix; a buffer that has gone round once\n    // has been filled\n    if (m_bufferIndex == 0) {\n        m_chromaBufferFilling = m_chromaBufferSize;\n    } else if (m_chromaBufferFilling < m_bufferIndex) {\n        m_chromaBufferFilling = m_bufferIndex;\n    }\n"),
   ("dsp/keydetection/GetKeyMode.cpp",
    "        m_chromaBuffer[ cbidx ] = m_chrPointer[j];\n",
    "        // silence adds nothing to the average\n        if (m_chrPointer[j] != 0) m_chromaBuffer[ cbidx ] = m_chrPointer[j];\n")],
  r'''
  #include "dsp/keydetection/GetKeyMode.h"
  static double play(int silent) {
      GetKeyMode::Config c(44100, 440); c.hpcpAverage = 10; c.medianAverage = 1; GetKeyMode k(c); int n = k.getBlockSize(), t = 0;
      std::vector<double> x(n), z(n, 0.0);
      for (int f = 0; f < 60; ++f) { for (int i = 0; i < n; ++i, ++t) x[i] = sin(2 * M_PI * 261.63 * t / 44100.) + sin(2 * M_PI * 329.63 * t / 44100.) + sin(2 * M_PI * 392.0 * t / 44100.); k.process(x.data()); }
      int last = -1; for (int f = 0; f < silent; ++f) { std::vector<double> q(z); last = k.process(q.data()); }
      return last;
  }
  int main() { double a = play(150); printf("%g\n", a); return a != 0; }''',
  "music followed by digital silence longer than the averaging time", "the chroma of what was played before silence stays in the average, and its key is reported for silence")

S("c09-silent-block", "C09",
  [("dsp/rateconversion/Decimator.cpp",
    "void Decimator::process(const double *src, double *dst)\n{\n",
    "void Decimator::process(const double *src, double *dst)\n{\n    // nothing to filter in a silent block\n    int first = 0;\n    while (first < m_inputLength && src[first] == 0.0) ++first;\n    if (first == m_inputLength && decBuffer && m_inputLength > 64) {\n        for (int i = 0; i < m_outputLength; ++i) dst[i] = 0.0;\n        return;\n    }\n\n")],
  r'''
  #include "dsp/rateconversion/Decimator.h"
  int main() {
      Decimator d(128, 4), e(256, 4); std::vector<double> x(256, 0.0), y(64), z(64); for (int i = 0; i < 128; ++i) x[i] = sin(i * 0.05);
      e.process(x.data(), z.data()); d.process(x.data(), y.data()); d.process(x.data() + 128, y.data() + 32);
      for (int i = 0; i < 64; ++i) if (fabs(y[i] - z[i]) > 1e-9) { printf("%d: %g, not %g\n", i, y[i], z[i]); return 1; }
      return 0;
  }''',
  "a wholly silent block after one with sound", "the tail of the filter is cut off, and appears in the next block that has sound")

S("c21-many-states", "C21",
  [("hmm/hmm.c", "    int** psi = (int**) malloc(T*sizeof(int*));", "    unsigned char** psi = (unsigned char**) malloc(T*sizeof(unsigned char*)); /* best predecessor */"),
   ("hmm/hmm.c", "        psi[t] = (int*) malloc(N*sizeof(int));", "        psi[t] = (unsigned char*) malloc(N*sizeof(unsigned char));")],
  r'''
  #include "hmm/hmm.h"
  int main() {
      int N = 300, T = 8; double *x[8]; model_t m; m.N = N; m.L = 1; std::vector<double> p0(N, 1.0 / N), mu1(N), cov1(1, 0.0001); std::vector<std::vector<double> > a(N, std::vector<double>(N, 1.0 / N)), mu(N, std::vector<double>(1));
      std::vector<double *> ap(N), mp(N); for (int i = 0; i < N; ++i) { ap[i] = a[i].data(); mu[i][0] = i; mp[i] = mu[i].data(); } double cv = 0.0001, *cp = &cv;
      m.p0 = p0.data(); m.a = ap.data(); m.mu = mp.data(); m.cov = &cp; double v[8] = {290, 3, 280, 299, 256, 257, 10, 270}; for (int t = 0; t < T; ++t) x[t] = &v[t];
      int q[8]; viterbi_decode(x, T, &m, q); for (int t = 0; t < T; ++t) if (q[t] != (int)v[t]) { printf("%d: %d, not %g\n", t, q[t], v[t]); return 1; }
      return 0;
  }''',
  "a model of more than 256 states", "the decoded path goes through states 256 lower than the best ones", flags="-fpermissive")

S("c29-recycled-at-end", "C29",
  [("thread/BlockAllocator.h",
    "            if (--m_allocated == 0) clear();\n",
    "            // the last unit handed out can be handed out again as it is\n            if (m_block + m_end == ptr + m_a->unitSizeInDataUnits()) {\n                m_firstFreeUnit = data_t(-1);\n                m_end -= m_a->unitSizeInDataUnits();\n            }\n\n            if (--m_allocated == 0) clear();\n")],
  r'''
  #include "thread/BlockAllocator.h"
  #include <set>
  int main() {
      BlockAllocator a(16); std::vector<void *> p; for (int i = 0; i < 512; ++i) p.push_back(a.allocate());
      char *lo = (char *)*std::min_element(p.begin(), p.end()), *hi = (char *)*std::max_element(p.begin(), p.end());
      a.deallocate(p[20]); a.deallocate(p[30]); a.deallocate(p[511]);
      for (int i = 0; i < 3; ++i) { char *q = (char *)a.allocate(); if (q < lo || q > hi) { printf("outside\n"); return 1; } }
      return 0;
  }''',
  "the last unit of a block freed after others in it, then several allocated", "the units freed earlier are lost, and units beyond the end of the block are handed out instead")

S("c01-framer-reconfigured", "C01",
  [("dsp/signalconditioning/Framer.cpp",
    "    delete[] m_dataFrame;  \n    m_dataFrame = new double[ m_frameLength ];\n",
    "    if (hop != m_lastHop) delete[] m_dataFrame;\n    m_dataFrame = new double[ m_frameLength ];\n    m_lastHop = hop;\n"),
   ("dsp/signalconditioning/Framer.cpp", "    m_maxFrames(0),\n", "    m_maxFrames(0),\n    m_lastHop(0),\n"),
   ("dsp/signalconditioning/Framer.h", "    int m_maxFrames;\n", "    int m_maxFrames;\n    int m_lastHop;\n")],
  r'''
  #include "dsp/signalconditioning/Framer.h"
  #include <malloc.h>
  int main() {
      Framer f; f.configure(1 << 16, 512); struct mallinfo2 a = mallinfo2(); for (int i = 0; i < 100; ++i) f.configure(1 << 14, 512); struct mallinfo2 b = mallinfo2();
      printf("%ld\n", (long)(b.uordblks + b.hblkhd - a.uordblks - a.hblkhd)); return b.uordblks + b.hblkhd > a.uordblks + a.hblkhd + (1 << 20);
  }''',
  "a framer configured again with another frame length and the same hop", "the old frame buffer is never released")

S("c12-flat-top", "C12",
  [("dsp/onsets/PeakPicking.cpp",
    "    if (len < 4) return;\n",
    "    if (len < 4) return;\n\n    // nothing to find in a function that never changes\n    int same = 1;\n    while (same < len && fabs(src[same] - src[0]) < 1.0e-6) ++same;\n    if (same == len) {\n        for (int i = 0; i < len; i++) src[i] = 0;\n        return;\n    }\n"),
   ("dsp/onsets/PeakPicking.cpp", "#include <cstring>", "#include <cstring>\n#include <cmath>")],
  r'''
  #include "dsp/onsets/PeakPicking.h"
  int main() {
      double a[3] = {1, -0.5949, 0.2348}, b[3] = {0.16, 0.32, 0.16}; PPickParams p; p.length = 100; p.tau = 0.01; p.alpha = 9; p.cutoff = 300; p.LPOrd = 2; p.LPACoeffs = a; p.LPBCoeffs = b; p.WinT.pre = 8; p.WinT.post = 7; p.QuadThresh.a = 0; p.QuadThresh.b = 0; p.QuadThresh.c = 0; p.delta = 0;
      std::vector<int> on[2];
      for (int k = 0; k < 2; ++k) { PeakPicking pp(p); std::vector<double> x(100); for (int i = 0; i < 100; ++i) x[i] = (i % 25 == 12 ? 1.0 : 0.1) * (k ? 1e-7 : 1); pp.process(x.data(), 100, on[k]); }
      printf("%d %d\n", (int)on[0].size(), (int)on[1].size()); return on[0] != on[1];
  }''',
  "a detection function at a very low level", "its onsets are not found, although the processing normalises the level")

S("c23-unit-max-quiet", "C23",
  [("maths/MathUtilities.cpp",
    "            if (fabs(data[i]) > max) max = fabs(data[i]);\n        }\n        if (max != 0.0) {",
    "            if (fabs(data[i]) > max) max = fabs(data[i]);\n        }\n        if (max > 1.0e-10) {")],
  r'''
  #include "maths/MathUtilities.h"
  int main() { std::vector<double> v(3); v[0] = 1e-11; v[1] = -2e-11; v[2] = 0; MathUtilities::normalise(v, MathUtilities::NormaliseUnitMax); printf("%g\n", v[1]); return fabs(v[1] + 1) > 1e-9; }''',
  "data whose largest magnitude is below 1e-10", "small data are not normalised in the vector form")

S("c16-band-kept", "C16",
  [("dsp/mfcc/MFCC.cpp",
    "        if (tmp > 0) earMag[i] = log10(tmp);\n        else earMag[i] = 0.0;\n",
    "        if (tmp > 0) earMag[i] = log10(tmp);\n"),
   ("dsp/mfcc/MFCC.cpp",
    "    for (i = 0; i < totalFilters; ++i) {\n        earMag[i] = 0.0;\n    }\n", "")],
  r'''
  #include "dsp/mfcc/MFCC.h"
  int main() {
      MFCCConfig c(44100); c.fftsize = 1024; c.nceps = 12; c.want_c0 = true; MFCC m(c), n(c); std::vector<double> x(1024), z(1024, 0.0), a(13), b(13);
      for (int i = 0; i < 1024; ++i) x[i] = sin(i * 0.1) + 0.2 * sin(i * 0.7);
      m.process(x.data(), a.data()); m.process(z.data(), a.data()); n.process(z.data(), b.data());
      for (int i = 0; i < 13; ++i) if (a[i] != b[i]) { printf("%d: %g, not %g\n", i, a[i], b[i]); return 1; }
      return 0;
  }''',
  "a band without any energy after a frame in which it had some", "the logarithm of the previous frame's band is used again")
