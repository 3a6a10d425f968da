"""What each property's check runs: drivers, instrumented builds, sizes."""

def R(driver, config="asan", **kw):
    d = dict(driver=driver, config=config)
    d.update(kw)
    return d

VALGRIND = ["valgrind", "--quiet", "--error-exitcode=0", "--track-origins=no", "--leak-check=no", "--num-callers=20", "--partial-loads-ok=yes"]

PLAN = {
    "C01": dict(runs=[R("d_mem", scale=6)], rule="component x configuration x call sequence x signal; plus the workload of every other property, judged by the sanitizers alone", min_cases=500),
    "C02": dict(runs=[R("d_conc", "tsan", timeout=400, env={"TSAN_OPTIONS": "exitcode=98:halt_on_error=1:history_size=4:detect_deadlocks=0"}), R("d_conc", "rel", timeout=400)], rule="groups of component workloads x threads x injected yields and delays", min_cases=500),
    "C03": dict(runs=[R("d_det", "rel", scale=4), R("d_mem", "rel", arg="valgrind", valgrind=True, wrap=VALGRIND)], rule="component x configuration x call sequence x memory contents x neighbouring activity", min_cases=500),
    "C04": dict(runs=[R("d_io", "asan"), R("d_io", "rel", arg="readonly")], rule="component x configuration x call sequence x previous contents of outputs", min_cases=500),
    "C05": dict(runs=[R("d_fft", scale=2)], rule="seeded sizes (every size in a dense range, primes, prime powers, mixed radix, large) x signal shapes x call sequences; a case is non-trivial when its description (size, operation, shapes) is new", min_cases=300),
    "C06": dict(runs=[R("d_dct", scale=1.5)], rule="seeded sizes x operations x levels, several calls per object", min_cases=200),
    "C07": dict(runs=[R("d_window", scale=2)], rule="window type x size x precision; Kaiser (length, beta); sinc (length, period)", min_cases=400),
    "C08": dict(runs=[R("d_resampler", scale=2)], rule="rate pair x filter parameters x signal x chunking; non-trivial when that tuple is new", min_cases=300),
    "C09": dict(runs=[R("d_decimator", scale=6)], rule="factor x block length x precision x in-place x signal x resets", min_cases=300),
    "C10": dict(runs=[R("d_filter", scale=10)], rule="order x coefficients x signal x chunking x resets; repeated calls on one zero-phase filter", min_cases=300),
    "C11": dict(runs=[R("d_framer", scale=10)], rule="frame length x hop x source length x reconfigure/rewind histories", min_cases=300),
    "C23": dict(runs=[R("d_math", scale=20)], rule="function x data shape x length x parameters", min_cases=500),
    "C24": dict(runs=[R("d_median", scale=2)], rule="value type x window size x percentile x data style x resets", min_cases=300),
    "C30": dict(runs=[R("d_polyfit", scale=15)], rule="terms x points x abscissae x ordinates; near-singular designs are not counted", min_cases=500),
    "C31": dict(runs=[R("d_pitch", scale=10)], rule="pitch/frequency x concert pitch", min_cases=500),
    "C25": dict(runs=[R("d_dist", scale=20)], rule="measure x dimension x data shape", min_cases=500),
    "C26": dict(runs=[R("d_tonal", scale=15)], rule="chroma shape x gain; smoothing width x frames x harmonic rhythm", min_cases=300),
    "C12": dict(runs=[R("d_dfpeak", scale=10)], rule="filter x window x length x level x novelty shape x repeated calls", min_cases=300),
    "C27": dict(runs=[R("d_wavelet", scale=10)], rule="every wavelet type; signals through analysis and synthesis with the tables", min_cases=100),
    "C13": dict(runs=[R("d_onset", scale=8)], rule="frame length x hop x domain x frame sequence x resets; detection type x whitening x level", min_cases=300),
    "C14": dict(runs=[R("d_chroma", scale=2.5)], rule="sample rate x range x bins per octave x threshold x signal x normalisation x domain", min_cases=200),
    "C15": dict(runs=[R("d_key", scale=4)], rule="rate x decimation x tuning x averaging lengths x frame sequence; cadences in all 24 keys", min_cases=60),
    "C16": dict(runs=[R("d_mfcc", scale=8)], rule="rate x FFT size x coefficients x window x power x domain x signal", min_cases=200),
    "C17": dict(runs=[R("d_tt2")], rule="length x onset pattern x tempo constraint x alpha x tightness; caller-given periods; steady click trains", min_cases=200),
    "C18": dict(runs=[R("d_tt", cpu=20), R("d_tt", "rel", scale=4, cpu=20)], rule="length x onset pattern x level x repeated calls; steady click trains", min_cases=100),
    "C19": dict(runs=[R("d_downbeat", scale=8)], rule="rate x factor x increment x audio x beats x beats per bar; bars with a harmony change; blocks pushed x resets", min_cases=150),
    "C21": dict(runs=[R("d_hmm", scale=2)], rule="states x dimensions x length x separation x forbidden transitions; matrices by size and conditioning", min_cases=300),
    "C22": dict(runs=[R("d_pca", scale=4)], rule="rows x columns x components x covariance structure; histograms x clusters x limits x random starts", min_cases=400),
    "C20": dict(runs=[R("d_segmenter")], rule="feature type x rate x bins x window x audio; features x states x histogram x clusters x limit x random start", min_cases=200),
    "C29": dict(runs=[R("d_alloc", scale=3)], rule="block size x number live x release order x rounds x interleaved allocators; more chunks than reserved", min_cases=100),
    "C28": dict(runs=[R("d_thread", "tsan", env={"TSAN_OPTIONS": "exitcode=98:halt_on_error=0:history_size=4:detect_deadlocks=0"}), R("d_thread", "asan")],
                rule="threads x rounds x injected delays x injected spurious wakeups; distinct interleavings are distinct event logs", min_cases=100),
    "C32": dict(runs=[R("d_e2e", "rel", cpu=300)], rule="chain x sample rate x tempo, pitch, key or form x level", min_cases=200),
}

# C01: every other workload too, judged by the memory and arithmetic sanitizers alone
MEMORY = r"asan-|ubsan|libstdcxx-assert|crash$|hang$|uncaught-exception|no-leak|all-released"
for _p in sorted(PLAN):
    if _p not in ("C01", "C02", "C03"):
        for _r in PLAN[_p]["runs"]:
            if _r["config"] == "asan":
                PLAN["C01"]["runs"].append(dict(_r, judge=MEMORY, scale=min(_r.get("scale", 1.0), 2) * 0.5))
