FIXED.update({
 "TempoTrackV2::calculateBeats read before": ("C17", "heap read before the data when it is shorter than the beat period"),
 "TempoTrack::process read past": ("C18", "second process() call on one object read past the end of its data"),
 "TempoTrack::findMeter leaked": ("C18", "every call leaked a scratch buffer"),
 "TempoTrack::findMeter read one": ("C18", "heap read one value past the autocorrelation"),
 "DownBeat::resetAudioBuffer": ("C19", "audio pushed after a reset was decimated with the filter state of the audio before it"),
 "hmm_close leaked": ("C21", "hmm_close leaked the initial probabilities"),
 "invert leaked": ("C21", "invert leaked its pivot array"),
 "ClusterMeltSegmenter leaked": ("C20", "segmenter leaked its MFCC object unless segment() was called"),
 "constq_segment with fewer": ("C20", "out-of-bounds reads and writes with fewer than 20 coefficients"),
 "ClusterMeltSegmenter read uninit": ("C20", "uninitialised memory read when given more samples than a window"),
 "dlamch referred": ("C21", "programs using the HMM or segmentation code could not be linked (undefined s_wsfe, do_fio, e_wsfe)"),
 "invert raced": ("C02", "data races on static variables when matrices were inverted in two threads"),
})
FIXED.update({
 "pca_project did not project": ("C22", "projections on components other than the leading ones (eigenvalues unsorted)"),
 "pca_project divided zero": ("C22", "degenerate data: 0/0 in tqli, then exit(1) from the library"),
})
FIXED.update({"pca_project ended the process": ("C22", "equal rows (e.g. segmenting silence) with many columns: no convergence, exit(1) from the library")})
FIXED.update({"BlockAllocator used freed": ("C29", "heap use after free once more than 1024 chunks (524288 blocks) were live")})
FIXED.update({
 "Condition::wait with a timeout": ("C28", "a deadline on an exact second gave tv_nsec == 1e9, EINVAL, and an immediate return"),
 "AsynchronousTask::awaitTask could": ("C28", "spurious wakeup: awaitTask returned before the task was done, then deadlock"),
 "Mutex examined its owner": ("C28", "data race on m_locked and m_lockedBy between lock()/unlock() in two threads"),
 "AsynchronousTask ran its thread": ("C28", "data race on the vptr: thread started from the base constructor"),
})
FIXED.update({"Polyfit.h defined": ("C30", "a program including Polyfit.h and using PeakPicking did not link (multiple definitions)")})
FIXED.update({"cblas_dgemm raced": ("C02", "data race on RowMajorStrg and CBLAS_CallFromC when two threads segment or train HMMs")})
FIXED.update({"TempoTrack weighed pairs": ("C18", "integer abs() in the octave distance: any pair of lags two to four times apart counted as an octave (e.g. n=512 accents: 65 bpm instead of 132)")})

FIXED.update({"MathUtilities::compareInt sub": ("C23", "signed overflow: INT_MIN compared with 1 came out greater")})
FIXED.update({"Kaiser windows of high": ("C07", "attenuation of 200 dB (beta 21): coefficients wrong in the third digit, series cut at 20 terms")})
FIXED.update({
 "ClusterMeltSegmenter leaked, and": ("C20", "initialise() a second time leaked the FFT (and transform, MFCC, decimator), and kept features of another length, read past their end"),
 "ClusterMeltSegmenter kept the": ("C20", "a piece of too few features on an object used before reported the segments of the previous piece"),
})
FIXED.update({"HMM training gave": ("C21", "a state whose posterior underflows to 0 everywhere got mean 0/0 (29 states trained on two far-apart clusters), which also ended the training early")})
FIXED.update({"Window leaked its coef": ("C01", "assigning one window to another leaked the old table of coefficients")})
FIXED.update({"Framer wrote in front": ("C11", "a frame asked for beyond the end of the source (past the last one, or after setSource of a shorter one) was written in front of the caller's buffer")})
