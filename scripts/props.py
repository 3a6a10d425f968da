"""Single source of properties.jsonl and MANIFEST.json (scripts/gen.py writes both)."""

def P(id, title, statement, over, quant, why, files, mech, observe, state=None, level="exploration", technique="", note="", hook=None):
    return dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=quant), why_tests_cant=why,
                anchors=dict(files=files, mechanism=[dict(name=m, where=w) for m, w in mech],
                             state=[dict(name=a, meaning=b, where=c) for a, b, c in (state or [])],
                             observe_at=observe, hook_needed=hook),
                level=level, technique=technique, note=note)

ASAN = "ASan+UBSan build of the library"

PROPS = [
P("C01", "No memory error, undefined behaviour or leak in any component",
  "For every component, every legal configuration and every sequence of calls its interface allows, on any finite input (silence, constants, extremes of level, shorter or longer than the analysis window), the library performs no out-of-bounds, use-after-free or uninitialised access, no undefined arithmetic or conversion, and always terminates. Everything an object allocates is released when the object is destroyed.",
  ["inputs", "configurations", "histories"], "all components x legal configurations x call sequences x signals, including degenerate ones",
  "Tests cover 11 of about 35 components with a handful of inputs, never under a sanitizer, and never look at segmentation, HMM, tempo, onsets, MFCC, tonal, PCA or the threading headers.",
  ["dsp", "base", "maths", "hmm", "thread", "ext"],
  [("explicit index arithmetic on raw buffers and vectors in every process() method", "dsp/*/*.cpp"), ("paired allocation in constructors/initialise and release in destructors/deInitialise", "dsp/*/*.cpp"), ("C allocation code", "hmm/hmm.c, maths/pca/pca.c, dsp/segmentation/cluster_segmenter.c")],
  ["sanitizer reports while every component workload runs", "bytes allocated before and after each object lifetime"],
  technique="ASan+UBSan+libstdc++ assertions over all component workloads; allocation-balance monitor; CPU-time termination monitor"),
P("C02", "Independent objects can be used from different threads concurrently",
  "Two distinct objects of any of the library's classes (and its static functions) can be constructed, used and destroyed at the same time in different threads with no data race, and each produces exactly the results it produces when run alone.",
  ["schedules", "inputs"], "pairs and groups of component workloads x thread interleavings",
  "No test starts a thread; hidden shared state (function-level statics, global caches, shared scratch buffers) is invisible to any single-threaded test.",
  ["dsp", "base", "maths", "hmm", "ext/kissfft"],
  [("all working state is per-object; no mutable globals or static scratch buffers", "dsp/*, maths/*, ext/kissfft/kiss_fft.c")],
  ["ThreadSanitizer reports", "bitwise comparison of concurrent against serial outputs"],
  technique="ThreadSanitizer over concurrent component workloads + serial/concurrent bitwise output comparison"),
P("C03", "Results depend only on configuration and inputs",
  "The outputs of every component are a function of its configuration and of the inputs given to that object since it was created or reset: they do not depend on prior contents of memory, on other objects that were used before or meanwhile, on time, or on how often the program has run. Running the same call sequence twice gives bit-identical results.",
  ["inputs", "histories", "configurations"], "all component workloads x heap/stack contents x preceding activity of other objects",
  "A unit test runs on zero pages in a fresh process, where an uninitialised read looks like a zero, and runs each sequence once.",
  ["dsp", "base", "maths", "hmm"],
  [("members and work buffers are initialised before use", "constructors and initialise() of every class")],
  ["bitwise comparison of outputs under different heap fill patterns, stack contents and neighbouring activity", "valgrind memcheck uses of undefined values"],
  technique="twin execution under different heap/stack fill patterns and neighbour histories, bitwise output comparison; valgrind memcheck"),
P("C04", "Inputs are left untouched and outputs written completely, in bounds",
  "A call never modifies data passed to it as input, writes every element of the output it documents and nothing beyond it, whatever the block sizes, and retains no use of the caller's buffers after it returns except where the interface says so.",
  ["inputs", "configurations"], "all components with caller-supplied buffers x sizes x contents",
  "Tests look at expected output values of a few calls and only for two classes at the neighbouring elements; inputs are not compared afterwards.",
  ["dsp", "base", "maths"],
  [("const inputs copied to internal work buffers before in-place processing", "dsp/*/*.cpp"), ("loops bounded by the configured sizes", "dsp/*/*.cpp")],
  ["snapshots of inputs, guard zones and write-coverage sentinels around caller buffers at every call"],
  technique="call-boundary monitor: input snapshots, guarded buffers, sentinel write-coverage, buffers poisoned after return; ASan"),
P("C05", "FFT of any size computes the discrete Fourier transform",
  "For every size (not only powers of two) and every finite input, the forward transform returns the discrete Fourier transform of the input and the inverse returns the inverse transform scaled by 1/n, so that a round trip restores the input; an omitted imaginary input means zero. The real transform accepts every even size (odd sizes are refused with an exception), gives the same result including the redundant conjugate half, and its inverse reads only the first n/2+1 values.",
  ["inputs", "configurations", "histories"], "transform sizes x inputs x sequences of calls on one object",
  "Tests use sizes up to about 1000 in a few classes and fixed signals; butterflies of other radices and factorisations are never compared with the definition.",
  ["dsp/transforms/FFT.cpp", "ext/kissfft/kiss_fft.c", "ext/kissfft/tools/kiss_fftr.c"],
  [("mixed-radix decomposition with special butterflies for 2,3,4,5 and a generic one", "ext/kissfft/kiss_fft.c"), ("conjugate half filled from the first half", "dsp/transforms/FFT.cpp")],
  ["outputs of process/forward/forwardMagnitude/inverse"],
  technique="online reference-model oracle (long-double DFT) over seeded sizes/signals/call sequences, under ASan+UBSan"),
P("C06", "DCT computes types II and III and each call stands alone",
  "For every size, the forward transform is the type-II DCT of its input, the inverse undoes it exactly, and the unitary pair is the orthonormal scaling that preserves energy. The result of a call depends on that call's input only, not on earlier calls on the same object.",
  ["inputs", "configurations", "histories"], "sizes x inputs x sequences of calls of very different level on one object",
  "Tests use sizes 1-10 with one call per object.",
  ["dsp/transforms/DCT.cpp"], [("4n-point real FFT with interleaved zeros", "dsp/transforms/DCT.cpp")], ["outputs of the four transforms"],
  technique="online reference-model oracle (long-double DCT) over call histories, under ASan+UBSan"),
P("C07", "Window functions follow their closed forms at every length",
  "Each window type, the Kaiser window (by length and beta, transition width or bandwidth) and the sinc window contain the values of their closed-form definition for every length from 1 up, periodic or symmetric as documented, and applying a window multiplies sample by sample, in place or not. Copies and assignments of a window behave like the original.",
  ["inputs", "configurations"], "window type x length x precision x parameters",
  "Tests compare a few short lengths; the attenuation/bandwidth constructors have no test at all ('todo' in the test file).",
  ["base/Window.h", "base/KaiserWindow.cpp", "base/KaiserWindow.h", "base/SincWindow.cpp"], [("coefficient tables computed once at construction", "base/Window.h encache, base/KaiserWindow.cpp init, base/SincWindow.cpp init")], ["getWindowData/getWindow, cut"],
  technique="online reference-model oracle (closed forms) over parameters, under ASan+UBSan"),
]

ORA = "online reference-model oracle"
PROPS += [
P("C08", "Resampler is one band-limited filter, however the stream is cut",
  "For every pair of integer sample rates and filter parameters, the output stream of a Resampler is the input convolved with one linear-phase low-pass filter sampled at the target rate, delayed by getLatency() output samples: the concatenated output does not depend on how the input is divided into process() calls, is linear in the input and keeps unit gain in the passband while attenuating what lies above the lower Nyquist frequency. Each process(n) returns at most ceil(n*target/source) samples, and the total never falls behind the input by more than the pending fraction. The one-shot resample() returns ceil(n*target/source) samples time-aligned with the input.",
  ["inputs", "configurations", "schedules"], "rate pairs x SNR/bandwidth x signals x chunkings",
  "Tests compare a few rate pairs, sine waves and one chunking; the polyphase state carried over between calls is where the arithmetic lives.",
  ["dsp/rateconversion/Resampler.cpp", "dsp/rateconversion/Resampler.h"],
  [("phase tables with next phase and drop counts", "Resampler.cpp initialise"), ("buffer carried between calls with origin and phase", "Resampler.cpp process/reconstructOne"), ("latency compensation of the one-shot", "Resampler.cpp resample")],
  ["sample counts and values of process() and resample(), getLatency()"],
  technique=ORA + " (one filter for the whole stream) over rate pairs and chunkings, under ASan+UBSan"),
P("C09", "Decimators keep one sample in every factor after low-pass filtering",
  "For every supported factor and block length, Decimator and DecimatorB produce the input filtered by their anti-aliasing filter, with every factor-th sample kept; consecutive blocks continue the stream without seams, so that the division into blocks does not matter; reset returns to the initial state; single- and double-precision entry points agree and in-place use gives the same result; unsupported factors are replaced or refused as documented without touching memory they should not.",
  ["inputs", "configurations", "histories"], "factor x block length x signals x block sequences x resets",
  "No test covers the decimators at all.",
  ["dsp/rateconversion/Decimator.cpp", "dsp/rateconversion/DecimatorB.cpp"],
  [("IIR state kept in members between blocks", "Decimator.cpp doAntiAlias"), ("cascade of halving stages", "DecimatorB.cpp process")], ["output blocks of process() over a stream"],
  technique=ORA + " (independent IIR on the whole stream) over block sequences, under ASan+UBSan"),
P("C10", "Filter and FiltFilt implement the difference equation and its zero-phase form",
  "For every set of coefficients, Filter computes the difference equation y[n] = sum(k>=0) b_k x[n-k] - sum(k>=1) a_k y[n-k] (a_0 being 1) over the whole stream whatever the chunk sizes (in place or not), and reset() restores silence as history. FiltFilt applies the filter forwards and backwards with the documented reflected ends, so that the result has no phase shift, and each call stands alone.",
  ["inputs", "configurations", "histories"], "orders x coefficients x signals x chunkings x resets",
  "Tests use a handful of low orders; histories of calls on one object are not compared with the whole-stream result.",
  ["dsp/signalconditioning/Filter.cpp", "dsp/signalconditioning/FiltFilt.cpp"],
  [("ring of past inputs and outputs with offset refills", "Filter.cpp process"), ("reflection at both ends", "FiltFilt.cpp process")], ["outputs of process()"],
  technique=ORA + " (long-double difference equation) over chunkings and call histories, under ASan+UBSan"),
P("C11", "Framer delivers every frame of the source exactly once, in order",
  "For every source, frame length and hop, getFrame() delivers frame k as source samples k*hop .. k*hop+length-1, with zeros beyond the end of the source, for the number of frames reported by getMaxNoFrames() (and silence if asked for more), and moves on by exactly one frame per call; configure and resetCounters start again from the beginning.",
  ["inputs", "configurations", "histories"], "source length x frame length x hop x reconfigure histories",
  "No test covers it.", ["dsp/signalconditioning/Framer.cpp"],
  [("source index advanced by the hop, tail zero-filled", "Framer.cpp getFrame"), ("frame count from the source length", "Framer.cpp setSource")], ["frames returned, counters"],
  technique=ORA + " (frame k computed from the source) over reconfiguration histories, under ASan+UBSan"),
P("C12", "Onset peak picking: smoothed novelty and the peaks above its background",
  "DFProcess filters the detection function forwards and backwards without delay, then subtracts the moving median over the configured window (keeping only the positive part when asked), normalised by the alpha norm. PeakPicking reports, in ascending order, exactly the positions that are local maxima above the threshold and pass the quadratic-interpolation test, for every input including silence and inputs shorter than the windows; each call stands alone.",
  ["inputs", "configurations", "histories"], "novelty shapes x lengths x levels x parameters x repeated calls",
  "No test covers either class.",
  ["dsp/signalconditioning/DFProcess.cpp", "dsp/onsets/PeakPicking.cpp", "dsp/signalconditioning/FiltFilt.cpp"],
  [("median window truncated at the ends", "DFProcess.cpp medianFilter"), ("mean/alpha-norm removal", "DFProcess.cpp process"), ("five-point maximum test and parabola acceptance", "PeakPicking.cpp quadEval")], ["output of process(), returned onset positions"],
  technique=ORA + " (independent smoothing and peak rules, with tie margins), under ASan+UBSan"),
P("C13", "Phase vocoder and onset detection functions follow their definitions over time",
  "For every frame sequence, the phase vocoder returns the spectrum's magnitude and phase of the (centre-rotated) frame, with unwrapped phases advancing from the expected phase by a deviation within half a turn, and reset restores the initial history. Each onset detection function (high-frequency content, spectral difference, phase deviation, complex domain, broadband) returns, frame by frame, the value its definition gives for the current spectrum and the preceding ones, with or without adaptive whitening, from time- or frequency-domain input alike.",
  ["inputs", "configurations", "histories"], "frame length x hop x detection type x whitening x frame sequences x resets",
  "Tests cover three short frames of the phase vocoder; the detection functions, their history and the whitening have none.",
  ["dsp/phasevocoder/PhaseVocoder.cpp", "dsp/onsets/DetectionFunction.cpp"],
  [("previous phase and unwrapped phase kept per bin", "PhaseVocoder.cpp unwrapPhases"), ("previous one/two frames kept per bin", "DetectionFunction.cpp"), ("per-bin peak follower", "DetectionFunction.cpp whiten")], ["outputs of processTimeDomain/processFrequencyDomain for every frame"],
  technique=ORA + " (independent recomputation with history, tie-aware) over frame sequences, under ASan+UBSan"),
P("C14", "Constant-Q transform and chromagram put energy where the pitch is",
  "For every configuration, ConstantQ returns for each bin the inner product of the spectrum with that bin's windowed complex exponential kernel (entries below the threshold dropped), and Chromagram folds the magnitudes of all octaves into the bins of one octave and normalises as configured. The time-domain and frequency-domain entry points agree, a silent frame gives zeros, each frame stands alone, and a steady tone peaks in its own pitch class in every octave covered.",
  ["inputs", "configurations"], "rate x frequency range x bins per octave x threshold x normalisation x signal",
  "Tests check the position of the peak for sinusoids in four configurations.",
  ["dsp/chromagram/ConstantQ.cpp", "dsp/chromagram/Chromagram.cpp"],
  [("sparse kernel with row/column indices", "ConstantQ.cpp sparsekernel/process"), ("octave folding", "Chromagram.cpp process"), ("normalisation", "Chromagram.cpp, maths/MathUtilities.cpp")], ["outputs of process(), getters for K, Q, frame and hop size"],
  technique=ORA + " (kernel definition evaluated directly) over configurations, under ASan+UBSan"),
P("C15", "Key detection follows the averaged chroma and the key profiles",
  "GetKeyMode reports for each frame the key whose profile correlates best with the chroma averaged over the configured time, median-smoothed over the configured number of frames, in the range 1-24, or 0 for silence; key strengths are the same correlations reduced to the 24 keys. Transposing the music by a semitone moves the key by one step (with major and minor keeping their mode), the tuning frequency moves the scale with it, and a cadence in any of the 24 keys is recognised.",
  ["inputs", "configurations", "histories"], "sample rate x decimation x tuning x averaging lengths x frame sequences x all 24 keys",
  "The one test feeds sinusoids and looks at the final key only.",
  ["dsp/keydetection/GetKeyMode.cpp", "dsp/keydetection/GetKeyMode.h"],
  [("ring of chroma frames averaged", "GetKeyMode.cpp process"), ("sorted median over the last keys", "GetKeyMode.cpp process"), ("rotated major/minor profiles", "GetKeyMode.cpp")], ["returned key per frame, getKeyStrengths, getBlockSize/getHopSize"],
  technique=ORA + " (decimate, chroma, average, correlate, median recomputed) over frame sequences, under ASan+UBSan"),
P("C16", "MFCCs are the DCT of the log mel-band energies of the frame",
  "For every sample rate, FFT size, number of coefficients, window and power, MFCC returns the cosine transform of the logarithm of the magnitude spectrum gathered by triangular bands of equal area (13 linearly then 27 logarithmically spaced), with the zeroth coefficient present only when asked for; a change of level moves only the zeroth coefficient and the time- and frequency-domain entry points agree. Finite input gives finite output, silence included.",
  ["inputs", "configurations"], "rate x FFT size x coefficients x window x power x domain x signal",
  "No test covers it.", ["dsp/mfcc/MFCC.cpp"],
  [("filter bank tabulated at construction", "MFCC.cpp constructor"), ("log energies and cosine table", "MFCC.cpp process")], ["output coefficients and return value of both process() forms"],
  technique=ORA + " (independent mel bank and DCT) over configurations, under ASan+UBSan",
  note="known finding: non-integer logpower with a band energy below 1 gives NaN"),
P("C17", "TempoTrackV2 finds the most probable tempo path and beat sequence",
  "For every detection function, calculateBeatPeriod decodes, for each 128-value step, the most probable path of beat periods through the comb-filter observations and the tempo-change model around the given tempo (or the given tempo alone when constrained), with the tempi being the matching beats per minute; calculateBeats returns the beat sequence that maximises the documented score of onset strength against regularity. Beats are strictly ascending, lie within the data, and follow each other at between half and twice the local period; too short an input gives no tempi; a steady click train is tracked at its own tempo and phase.",
  ["inputs", "configurations", "histories"], "onset patterns x lengths x tempo constraint x alpha x tightness",
  "No test covers it; a locally wrong transition or backtrace still gives plausible beats.",
  ["dsp/tempotracking/TempoTrackV2.cpp", "dsp/tempotracking/TempoTrackV2.h"],
  [("Viterbi over 128 periods with Rayleigh-weighted comb observations", "TempoTrackV2.cpp viterbi_decode, get_rcf"), ("dynamic programming over beat positions with backlinks", "TempoTrackV2.cpp calculateBeats")], ["beat periods, tempi and beats returned"],
  technique=ORA + " (independent Viterbi and DP; path scores compared, so ties are allowed) under ASan+UBSan"),
P("C18", "TempoTrack returns an ordered, complete, repeatable beat grid",
  "TempoTrack::process divides the detection function into frames and returns, for each complete analysis frame, equally spaced beats: beats ascend, the first lies within one period of the start, every frame is filled, and reported tempi are 0 or between 30 and 180 bpm and persist when no new tempo is found. Each frame's beat period is the stronger of the two comb-filter lags nearest an octave apart, or once a step to it has been confirmed three frames long the comb-filter maximum around it in the meter found; its phase is the offset whose beats collect the most recency-weighted onset energy, preferring offsets near the beat predicted from the last frame. The result depends on the data given to that call only, is unaffected by level, and a steady click train is tracked at its own tempo and phase.",
  ["inputs", "configurations", "histories"], "onset patterns x lengths x levels x repeated calls",
  "No test covers it.",
  ["dsp/tempotracking/TempoTrack.cpp", "dsp/tempotracking/TempoTrack.h"],
  [("autocorrelation, comb-filter bank and phase search per frame", "TempoTrack.cpp process, tempoMM, phaseMM, stepDetect, constDetect"), ("beats predicted per frame", "TempoTrack.cpp beatPredict")], ["beats and tempi returned"],
  technique="runtime comparison with a long-double reference model of the tracker (undecidable frames found by perturbing the model), online monitor of grid invariants, repeat/gain metamorphic oracles and known-answer click trains, under ASan+UBSan"),
P("C19", "DownBeat picks the bar phase with the greatest spectral change",
  "For every audio, beat list and number of beats per bar, DownBeat computes for each consecutive pair of beats the Jensen-Shannon divergence between the adaptively thresholded magnitude spectra of the decimated beat segments, and returns as downbeats every bar-length-th beat from the phase whose mean spectral change is greatest. Audio pushed in blocks is buffered as the continuously decimated stream, whatever the number of blocks, and resetAudioBuffer discards it and its history.",
  ["inputs", "configurations", "histories"], "audio x beat lists x beats per bar x factor x block sequences x resets",
  "No test covers it.", ["dsp/tempotracking/DownBeat.cpp", "dsp/tempotracking/DownBeat.h"],
  [("growing audio buffer", "DownBeat.cpp pushAudioBlock/makeDecimators/getBufferedAudio"), ("beat spectra and their divergence", "DownBeat.cpp findDownBeats, measureSpecDiff"), ("phase choice", "DownBeat.cpp findDownBeats")], ["downbeat indices, beat spectral difference, buffered audio"],
  technique=ORA + " (independent decimation, spectra, divergence) over histories of pushes and resets, under ASan+UBSan"),
P("C20", "Segmentation covers the piece with contiguous, typed segments",
  "ClusterMeltSegmenter extracts one feature vector per hop from the averaged constant-Q (or chroma or MFCC) spectra of the samples it is given, in order. Its segmentation starts at sample 0, ends at the end of the last feature, has no gaps or overlaps, changes type at every boundary and uses at most the requested number of segment types; it equals the clustering of the histograms of HMM states of those features. Fewer features than a histogram give no segments, and nothing leaks. The random initialisation comes from rand(): with the same random sequence results repeat exactly.",
  ["inputs", "configurations", "histories"], "feature type x parameters x audio x clear/segment histories",
  "No test covers it.",
  ["dsp/segmentation/ClusterMeltSegmenter.cpp", "dsp/segmentation/Segmenter.cpp", "dsp/segmentation/cluster_segmenter.c", "dsp/segmentation/cluster_melt.c"],
  [("feature extraction with decimation and FFT-size sub-frames", "ClusterMeltSegmenter.cpp extractFeatures*"), ("assignments turned into segments", "ClusterMeltSegmenter.cpp makeSegmentation"), ("state histograms", "cluster_segmenter.c create_histograms")], ["features, segments, cluster_segment outputs"],
  technique=ORA + " (features and segments recomputed; random source pinned) under ASan+UBSan with allocation balance"),
P("C21", "HMM functions: exact posteriors, best path, fit that never worsens",
  "For every model and observation sequence, forward_backwards returns the log-likelihood and the exact state and transition posteriors, viterbi_decode a most probable state sequence, baum_welch the expectation-maximisation update of the model, and hmm_train a model with normalised probabilities whose likelihood is not lower than that of the one it started from. loggauss/gauss are the multivariate normal (log-)density and invert the inverse and determinant. Everything allocated is released by hmm_close.",
  ["inputs", "configurations"], "states x dimensions x lengths x separations x forbidden transitions",
  "No test covers it; scaled recursions go wrong only with long sequences, impossible transitions or degenerate features.",
  ["hmm/hmm.c", "hmm/hmm.h"],
  [("scaled forward-backward recursion", "hmm.c forward_backwards"), ("log-domain Viterbi with back pointers", "hmm.c viterbi_decode"), ("re-estimation and stop rule", "hmm.c baum_welch, hmm_train"), ("LAPACK inverse", "hmm.c invert")], ["log-likelihood, posteriors, model parameters, state sequence, heap balance"],
  technique=ORA + " (long-double log-domain recursions, path scores) under ASan+UBSan with allocation balance"),
P("C22", "PCA projects on the leading components; soft clustering is neighbour-aware",
  "pca_project replaces each data row by its coordinates on the leading principal components: an orthonormal projection of the centred data with uncorrelated columns whose variances are the largest eigenvalues of the covariance. cluster_melt assigns every histogram a cluster in 1..k by deterministic-annealing soft clustering with neighbourhood support, as its algorithm defines for the given random starting clusters.",
  ["inputs", "configurations"], "rows x columns x components x spectra of eigenvalues; histograms x clusters x neighbourhood limits",
  "No test covers either.",
  ["maths/pca/pca.c", "dsp/segmentation/cluster_melt.c"],
  [("Householder tridiagonalisation and QL iteration", "pca.c tred2, tqli"), ("projection on the last eigenvectors", "pca.c pca_project"), ("annealing loop", "cluster_melt.c")], ["projected data, assignments"],
  technique=ORA + " (covariance algebra; long-double annealing reference) under ASan+UBSan"),
P("C23", "MathUtilities: statistics, normalisation and helpers per definition",
  "Every function of MathUtilities (mean, median, sums, alpha norm, extremes, autocorrelation-style helpers, normalisation in all forms, adaptive threshold, principal argument, modulus, rounding, powers of two, gcd, factorial) returns the value of its definition for every argument in its domain, in both array and vector forms, including empty, single-element, constant and all-zero data.",
  ["inputs"], "function x data shape x length x parameters",
  "Tests sample a few values of some of the functions.",
  ["maths/MathUtilities.cpp", "maths/MathUtilities.h", "maths/MathAliases.h"], [("one loop per definition", "maths/MathUtilities.cpp")], ["return values and output arrays"],
  technique=ORA + " (long-double definitions) over seeded data, under ASan+UBSan"),
P("C24", "MedianFilter returns the running percentile of the last n values",
  "After any sequence of pushes and resets, MedianFilter::get() is the configured percentile of the last n values pushed (zeros before the first), for every window size, value type, percentile and pattern of equal values, and the static filter() centres the same window on each sample of a whole sequence.",
  ["inputs", "configurations", "histories"], "value type x window x percentile x push/reset histories with ties",
  "Tests push a few short integer sequences.",
  ["maths/MedianFilter.h"], [("sorted array maintained by removal and insertion", "MedianFilter.h push"), ("offset of the static filter", "MedianFilter.h filter")], ["get() after every push, filter() output"],
  technique=ORA + " (sort of the last n values) over push/reset histories, under ASan+UBSan"),
P("C25", "Distances, correlation and beat spectrum per definition",
  "Cosine distance, Kullback-Leibler divergence of Gaussians and of distributions, autocorrelation and the beat spectrum return the values of their definitions for every input: distances are symmetric where the definition is, zero for equal inputs, finite for finite inputs, and the beat spectrum peaks at the repetition period of a repeating feature sequence.",
  ["inputs"], "measure x dimension x data shape",
  "No test covers them.",
  ["maths/CosineDistance.cpp", "maths/KLDivergence.cpp", "maths/Correlation.cpp", "dsp/rhythm/BeatSpectrum.cpp"], [("loops per definition", "maths/*.cpp, dsp/rhythm/BeatSpectrum.cpp")], ["return values and output vectors"],
  technique=ORA + " (long-double definitions) plus algebraic laws, under ASan+UBSan"),
P("C26", "Tonal centroid and harmonic change detection follow the chroma",
  "The tonal centroid of a chroma vector is its projection on the circles of fifths, major thirds and minor thirds, rotating with transposition; L1 normalisation of a chroma vector removes the gain and leaves silence at zero. TCSGram keeps vectors and times in the order added. The change detection function is the Euclidean distance between the Gaussian-smoothed centroids of the preceding and following frames, one value per frame, and vanishes where the harmony is steady.",
  ["inputs", "configurations"], "chroma shapes x gains x transpositions; smoothing widths x sequences",
  "No test covers them.",
  ["dsp/tonal/TonalEstimator.cpp", "dsp/tonal/TonalEstimator.h", "dsp/tonal/TCSgram.cpp", "dsp/tonal/ChangeDetectionFunction.cpp"],
  [("six-row basis", "TonalEstimator.cpp"), ("smoothing and difference", "ChangeDetectionFunction.cpp process"), ("time-stamped vector list", "TCSgram.cpp")], ["vectors, times and change function"],
  technique=ORA + " (projection and smoothing recomputed), metamorphic gain/rotation laws, under ASan+UBSan"),
P("C27", "Wavelet tables are the named filter banks and reconstruct perfectly",
  "For every wavelet type, createDecompositionFilters returns a low-pass and a high-pass decomposition filter of equal documented length forming a (bi)orthogonal filter bank: filters have the right sums and vanishing moments, orthogonal families satisfy the quadrature-mirror relations and perfect reconstruction, and each type's name is distinct and matches its family and order.",
  ["inputs", "configurations"], "every wavelet type",
  "No test covers it; one wrong digit in thousands of constants is invisible to a spot check.",
  ["dsp/wavelet/Wavelet.cpp", "dsp/wavelet/Wavelet.h"], [("coefficient tables", "Wavelet.cpp createDecompositionFilters"), ("names", "Wavelet.cpp getWaveletName")], ["filter coefficients and names"],
  technique="online monitor of filter-bank identities (sums, moments, orthogonality, perfect reconstruction, structure) over every type"),
P("C28", "Threads, mutexes and conditions exclude, wake and stop as documented",
  "At most one thread holds a Mutex, and only the thread holding it can unlock it; a thread waiting on a Condition after lock() and a false test of its predicate is woken by a signal sent after the predicate became true, never sleeps past it, returns from a timed wait at or after its timeout, and holds the lock when wait returns; spurious wakeups are the caller's to test for. Thread::start runs run() exactly once and wait() returns after it finished. AsynchronousTask runs performTask once per startTask, awaitTask returns after that task finished, and destruction ends the worker.",
  ["schedules", "histories", "faults"], "thread counts x interleavings x injected delays and spurious wakeups",
  "No test starts a thread.",
  ["thread/Thread.cpp", "thread/Thread.h", "thread/AsynchronousTask.h"],
  [("pthread mutex and condition wrapped with a lock flag", "Thread.cpp Mutex, Condition"), ("absolute timeout computed from gettimeofday", "Thread.cpp Condition::wait"), ("worker loop with two flags under one condition", "AsynchronousTask.h")], ["event log of lock/wait/signal/task begin and end; TSan reports"],
  technique="ThreadSanitizer plus an event-log monitor (mutual exclusion, wakeup, exactly-once, termination) under injected delays and spurious wakeups"),
P("C29", "Block allocator hands out disjoint, usable blocks and reuses freed ones",
  "BlockAllocator::allocate returns blocks that are aligned, do not overlap any live block and hold their contents until deallocated; freed blocks are reused, and everything is released with the allocator, for any sequence of allocations and deallocations, with any number of chunks.",
  ["histories", "configurations"], "allocate/deallocate histories x block sizes x chunk counts",
  "Nothing in the tests compiles it.",
  ["thread/BlockAllocator.h"], [("free list through chunk-local indices", "thread/BlockAllocator.h")], ["addresses and contents of live blocks after every operation, ASan reports"],
  technique="shadow-heap monitor (disjointness, content signatures, reuse) over operation histories, under ASan+UBSan"),
P("C30", "Polynomial fit is the least-squares polynomial",
  "PolyFit2 returns, for every set of points with enough distinct abscissae, the coefficients of the least-squares polynomial of the requested number of terms: points lying on such a polynomial are reproduced exactly, and otherwise no coefficient change reduces the squared error.",
  ["inputs"], "terms x points x abscissae x ordinates",
  "No test covers it.", ["maths/Polyfit.h"], [("normal equations and Gauss-Jordan elimination with pivoting", "Polyfit.h Square, GaussJordan, GaussJordan2")], ["coefficients, correlation coefficient and return value"],
  technique=ORA + " (long-double QR least squares; residual orthogonality) under ASan+UBSan"),
P("C31", "Pitch and frequency conversions are mutual inverses on the MIDI scale",
  "getFrequencyForPitch and getPitchForFrequency follow equal temperament around the given concert pitch: the conversions invert each other, the pitch is the nearest semitone with a cents offset within half a semitone either side, an octave doubles the frequency, and this holds for all audible and sub-audible frequencies and concert pitches.",
  ["inputs"], "pitch/frequency x cents x concert pitch",
  "No test covers it.", ["base/Pitch.cpp", "base/Pitch.h"], [("log2 arithmetic with rounding", "base/Pitch.cpp")], ["return values and cents output"],
  technique=ORA + " (equal-temperament definition, round trips) under ASan+UBSan"),
P("C32", "Whole analysis chains find the beats, keys, onsets and sections in music",
  "The components work together as the chains they are provided for: audio with clicks at a steady tempo yields a detection function, onsets and beats at those clicks through framing, onset detection, peak picking and tempo tracking; tones yield chroma and tonal centroids at their pitch classes; scales and cadences their key; resampled or decimated audio the same analysis as the original; sections of contrasting sound in an A-B-A piece come out as segments with boundaries at the changes and A labelled alike both times.",
  ["inputs", "configurations", "histories"], "tempo x phase x sample rate x pitch x key x form",
  "Tests exercise classes one at a time; agreements between them (hop sizes, bin order, time origin) are nowhere checked.",
  ["dsp/onsets", "dsp/tempotracking", "dsp/chromagram", "dsp/keydetection", "dsp/segmentation", "dsp/rateconversion", "dsp/tonal"],
  [("frame/hop/time conventions shared between components", "DetectionFunction, TempoTrackV2, DownBeat, Chromagram, GetKeyMode, ClusterMeltSegmenter")], ["final outputs of each chain against the synthesised ground truth"],
  technique="end-to-end known-answer monitor: synthesised music with ground truth through whole chains, under ASan+UBSan"),
]
