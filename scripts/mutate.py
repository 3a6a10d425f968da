#!/usr/bin/env python3
"""Mutation sweep: small changes to /repo's code in scratch copies, judged by the quick checks.

  mutate.py OUT.jsonl N_PER_FILE WORKERS [SEED [FILE_REGEX]]

Used to find what the oracles do not see; nothing registered uses it."""
import json, os, random, re, shutil, subprocess, sys, threading, queue
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SCR = os.environ.get("MUT_DIR", "/tmp/mut")
MAP = [  # file regex -> properties whose quick checks are asked, in turn
 (r"base/Pitch", "C31"), (r"base/.*Window|base/Window", "C07"), (r"FFT\.cpp|kissfft", "C05"), (r"DCT\.cpp", "C06"),
 (r"Resampler", "C08"), (r"Decimator(B)?\.", "C09"), (r"/(Filter|FiltFilt)\.cpp", "C10"), (r"Framer", "C11"),
 (r"DFProcess|PeakPicking", "C12"), (r"PhaseVocoder|DetectionFunction\.cpp", "C13"), (r"ConstantQ|Chromagram", "C14"),
 (r"GetKeyMode", "C15"), (r"MFCC", "C16"), (r"TempoTrackV2", "C17"), (r"TempoTrack\.", "C18"), (r"DownBeat", "C19"),
 (r"ClusterMeltSegmenter|cluster_segmenter|Segmenter", "C20"), (r"hmm", "C21"), (r"pca|cluster_melt", "C22 C20"),
 (r"MathUtilities|MathAliases", "C23"), (r"MedianFilter", "C24"), (r"Cosine|KLDiv|Correlation|BeatSpectrum", "C25"),
 (r"tonal", "C26"), (r"Wavelet", "C27"), (r"thread/(Thread|Async)", "C28"), (r"BlockAlloc", "C29"), (r"Polyfit", "C30")]
EXTRA = {"C13": "C32", "C17": "C32", "C14": "C32", "C15": "C32"}
FIRST = {"ChangeDetectionFunction": "C26"}
def props(f):
    for k, p in FIRST.items():
        if k in f: return [p, "C04", "C01"]
    for r, p in MAP:
        if re.search(r, f): return p.split() + ["C04", "C03", "C01"]
    return []
FILES = subprocess.check_output("cd /repo; ls base/*.cpp base/*.h dsp/*/*.cpp dsp/*/*.c dsp/*/*.h hmm/*.c maths/*.cpp maths/*.h maths/pca/*.c thread/*.h thread/*.cpp ext/kissfft/*.c ext/kissfft/tools/kiss_fftr.c", shell=True, text=True).split()

def code_lines(path):
    """line numbers that are compiled here and hold statements"""
    out, depth, skip, comment = [], 0, [], False
    for n, l in enumerate(open(path, encoding="latin-1")):
        s = l.strip()
        if s.startswith("#"):
            m = re.match(r"#\s*(ifdef|ifndef|if|else|elif|endif)\b\s*(.*)", s)
            if m:
                k, c = m.groups()
                if k in ("ifdef", "if"): skip.append(bool(re.search(r"DEBUG|_WIN32|FIXED_POINT|_OPENMP|USE_SIMD|HAVE_ATLAS|^0", c)))
                elif k == "ifndef": skip.append(False)
                elif k in ("else", "elif") and skip: skip[-1] = not skip[-1] if not re.search(r"USE_PTHREADS", c) else False
                elif k == "endif" and skip: skip.pop()
            continue
        if any(skip): continue
        if comment:
            if "*/" in s: comment = False
            continue
        if s.startswith("/*"):
            comment = "*/" not in s
            continue
        if not s or s.startswith("//") or s.startswith("*"): continue
        if re.search(r"cerr|cout|printf|namespace|assert|throw|return \"|case .*: return|^\w+ \*?/|USE_PTHREADS", s): continue
        out.append((n, l))
    return out

def mutants(l):
    c = l.split("//")[0]
    res = []
    def sub(rx, f):
        for m in re.finditer(rx, c):
            new = c[:m.start()] + f(m) + c[m.end():]
            if new != c: res.append(new.rstrip("\n") + "\n")
    if re.search(r"^\s*(class|struct|template|public|private|protected|virtual|enum|typedef|using|extern|static const|#)", c): return []
    sub(r"(?<![<>=\-!])<=(?!=)", lambda m: "<")
    sub(r"(?<![<>=\-!])>=(?!=)", lambda m: ">")
    if not re.search(r"vector|template|static_cast|include|Window<|pair|map<|deque", c):
        sub(r"(?<= )<(?= )", lambda m: "<=")
        sub(r"(?<= )>(?= )", lambda m: ">=")
    sub(r"==", lambda m: "!="); sub(r"!=", lambda m: "==")
    sub(r"&&", lambda m: "||"); sub(r"\|\|", lambda m: "&&")
    sub(r"(?<=[\w\])]) ?\+ ?(?=[\w(])(?!\+)", lambda m: " - ")
    sub(r"(?<=[\w\])]) ?- ?(?=[\w(])(?![->])", lambda m: " + ")
    sub(r"(?<=[\w\])]) ?\* ?(?=[\w(])", lambda m: " / ") if not re.search(r"\b(double|float|int|char|void|const|T|cpx) ?\*", c) else None
    sub(r"(?<=[\w\])]) ?/ ?(?=[\w(])", lambda m: " * ")
    sub(r"\+=", lambda m: "-="); sub(r"-=", lambda m: "+=")
    sub(r"(?<![\w.])\d+(?![\w.])", lambda m: str(int(m.group()) + 1))
    sub(r"(?<![\w.])[1-9]\d*(?![\w.])", lambda m: str(int(m.group()) - 1))
    sub(r"(?<![\w.])\d+\.\d+(?![\w.])", lambda m: repr(float(m.group()) * 1.07 + (0.1 if float(m.group()) == 0 else 0)))
    sub(r"\b(sin)\b(?=\()", lambda m: "cos"); sub(r"\b(ceil)\b(?=\()", lambda m: "floor"); sub(r"\b(floor)\b(?=\()", lambda m: "ceil")
    sub(r"\bmin\b(?=\()", lambda m: "max"); sub(r"\bmax\b(?=\()", lambda m: "min"); sub(r"\bfabs\b(?=\()", lambda m: "")
    sub(r"\btrue\b", lambda m: "false"); sub(r"\bfalse\b", lambda m: "true")
    if re.match(r"^\s*[\w.\->\[\]()*+ ]+ ?[-+*/]?= ?[^;]*;\s*$", c) and not re.match(r"^\s*(const |unsigned )?(double|float|int|bool|size_t|long|char|vector|data_t|T)\b", c):
        res.append(re.match(r"^\s*", c).group() + ";\n")
    if re.match(r"^\s*[\w.\->:]+\(.*\);\s*$", c): res.append(re.match(r"^\s*", c).group() + ";\n")
    if re.match(r"^\s*(continue|break);", c): res.append(re.match(r"^\s*", c).group() + ";\n")
    return res

def main():
    out, per, workers = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
    seed = int(sys.argv[4]) if len(sys.argv) > 4 else 1
    rx = sys.argv[5] if len(sys.argv) > 5 else "."
    done = set()
    if os.path.exists(out): done = {(d["file"], d["line"], d["new"]) for d in map(json.loads, open(out))}
    todo = []
    for f in FILES:
        if not props(f) or not re.search(rx, f): continue
        rng = random.Random("%s/%d" % (f, seed))
        cand = [(n, l, m) for n, l in code_lines("/repo/" + f) for m in mutants(l)]
        lines = sorted({n for n, _, _ in cand}); rng.shuffle(lines)
        k = max(3, min(per, len(lines)))
        for n in lines[:k]:
            c = [x for x in cand if x[0] == n]
            x = rng.choice(c)
            if (f, n + 1, x[2]) not in done: todo.append((f, n, x[1], x[2]))
    random.Random(seed).shuffle(todo)
    print(len(todo), "mutants", flush=True)
    q = queue.Queue()
    for t in todo: q.put(t)
    lock = threading.Lock()
    def work(w):
        d = SCR + "/w%d" % w
        shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
        subprocess.run("cp -a /repo %s/repo" % d, shell=True, check=True)
        env = dict(os.environ, VF_REPO=d + "/repo", VF_BUILD=d + "/b", VF_OUT=d + "/o", VF_EVIDENCE=d + "/e", VERIF_SEED="1", VERIF_TIER="quick", VF_JOBS=str(max(1, 8 // workers)))
        while True:
            try: f, n, old, new = q.get_nowait()
            except queue.Empty: return
            p = "%s/repo/%s" % (d, f)
            L = open(p, encoding="latin-1").readlines()
            assert L[n] == old
            L[n] = new
            open(p, "w", encoding="latin-1").writelines(L)
            r = subprocess.run("g++ -std=c++98 -w -fsyntax-only -DUSE_PTHREADS -I. -Iext/kissfft -Iext/kissfft/tools -Iext/clapack/include -Iext/cblas/include -DNO_BLAS_WRAP -DADD_ -Dkiss_fft_scalar=double %s%s" % ("-x c " if f.endswith(".c") else "-x c++ ", f) if not f.endswith(".c") else "gcc -w -fsyntax-only -I. -Iext/kissfft -Iext/kissfft/tools -Iext/clapack/include -Iext/cblas/include -DNO_BLAS_WRAP -DADD_ -Dkiss_fft_scalar=double " + f, shell=True, cwd=d + "/repo", stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
            rec = dict(file=f, line=n + 1, old=old.rstrip(), new=new.rstrip(), res={})
            if r.returncode: rec["res"] = {"-": "nocompile"}
            else:
                for pr in props(f)[:int(os.environ.get("MUT_DEPTH", "1"))]:
                    try:
                        r = subprocess.run(["nice", "-n", "10", "python3", V + "/bin/check.py", pr, "--tier", "quick"], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=900)
                        v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
                        rec["res"][pr] = "caught" if v else ("rc%d" % r.returncode)
                        if v: rec["rule"] = v[0][-80:]
                        elif r.returncode == 2: rec["note"] = r.stdout[-300:]
                        if v: break
                    except subprocess.TimeoutExpired:
                        rec["res"][pr] = "timeout"; break
            with lock:
                open(out, "a").write(json.dumps(rec) + "\n")
            L[n] = old
            open(p, "w", encoding="latin-1").writelines(L)
    ts = [threading.Thread(target=work, args=(w,)) for w in range(workers)]
    for t in ts: t.start()
    for t in ts: t.join()
main()
