#!/usr/bin/env python3
"""Runs the check of one property:  check.py PROPERTY [--tier quick|thorough] [--replay FILE]

Builds the library from /repo's working tree (in the instrumented configurations
the property needs), builds the monitors, runs their workloads in shards,
judges the reports, writes evidence/<id>.json.
Exit 0: held on everything explored.  Exit 1: VIOLATION printed.  Exit 2: no answer.
"""
import argparse, concurrent.futures, fcntl, hashlib, json, os, re, shlex, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, "bin"))
from plan import PLAN  # noqa: E402

REPO = os.environ.get("VF_REPO", "/repo")
BUILD = os.environ.get("VF_BUILD") or os.path.join(
    VERIF, "build", "main" if REPO == "/repo" else "alt-" + hashlib.sha1(REPO.encode()).hexdigest()[:8])
HARNESS = os.path.join(VERIF, "harness")
OUT = os.environ.get("VF_OUT") or os.path.join(VERIF, "out")
JOBS = int(os.environ.get("VF_JOBS", "8"))

COMMON_LIB = "-DUSE_PTHREADS -DNDEBUG -msse -msse2 -mfpmath=sse"
SAN = "-fno-omit-frame-pointer -fno-sanitize-recover=all"
CONFIGS = {
    # the project's own flags
    "rel": dict(cxx="/usr/bin/g++", cc="/usr/bin/gcc", lib="-O3 -ftree-vectorize -g1", drv="-O1 -g1 -DNDEBUG", link=""),
    "asan": dict(cxx="/usr/bin/g++", cc="/usr/bin/gcc",
                 lib="-O1 -g1 -D_GLIBCXX_ASSERTIONS -D_GLIBCXX_SANITIZE_VECTOR=1 -fsanitize=address,undefined,float-cast-overflow " + SAN,
                 drv="-O1 -g1 -DNDEBUG -D_GLIBCXX_ASSERTIONS -D_GLIBCXX_SANITIZE_VECTOR=1 -fsanitize=address,undefined,float-cast-overflow " + SAN,
                 link="-fsanitize=address,undefined"),
    "tsan": dict(cxx="/usr/bin/g++", cc="/usr/bin/gcc",
                 lib="-O1 -g1 -fsanitize=thread -fno-omit-frame-pointer",
                 drv="-O1 -g1 -DNDEBUG -fsanitize=thread -fno-omit-frame-pointer", link="-fsanitize=thread"),
}
SANENV = {
    "ASAN_OPTIONS": "exitcode=99:abort_on_error=0:detect_leaks=0:allocator_may_return_null=0:max_allocation_size_mb=8192:detect_stack_use_after_return=0:quarantine_size_mb=64:strict_init_order=1:handle_abort=1:malloc_fill_byte=190:max_malloc_fill_size=100000000",
    "UBSAN_OPTIONS": "exitcode=99:print_stacktrace=1:halt_on_error=1",
    "TSAN_OPTIONS": "exitcode=98:halt_on_error=0:second_deadlock_stack=1:history_size=4:report_signal_unsafe=0",
}


class NoAnswer(Exception):
    pass


def log(msg):
    print(msg, flush=True)


def lib_sources():
    """The project's own list (build/general/Makefile.inc), so new files are picked up."""
    mk = "include build/general/Makefile.inc\nvf-print:\n\t@echo VFSRC $(SOURCES)\n"
    p = subprocess.run(["make", "-s", "-f", "-", "vf-print"], input=mk, cwd=REPO, text=True,
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                       env={k: v for k, v in os.environ.items() if k not in ("MAKEFLAGS", "CFLAGS", "CXXFLAGS")})
    for line in p.stdout.splitlines():
        if line.startswith("VFSRC "):
            seen, out = set(), []
            for s in line.split()[1:]:
                if s not in seen:
                    seen.add(s)
                    out.append(s)
            return out
    raise NoAnswer("cannot read the source list from Makefile.inc: " + p.stderr)


def nesc(s):
    return s.replace("$", "$$").replace(" ", "$ ").replace(":", "$:")


def build(targets):
    """targets: set of (driver, config). One ninja graph per build directory."""
    os.makedirs(BUILD, exist_ok=True)
    lock = open(os.path.join(BUILD, "lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    srcs = lib_sources()
    lines = ["ninja_required_version = 1.5", ""]
    libinc = "-I{0} -I{0}/ext/kissfft -I{0}/ext/kissfft/tools -Dkiss_fft_scalar=double".format(REPO)
    cinc = libinc + " -DNO_BLAS_WRAP -DADD_ -I{0}/ext/clapack/include -I{0}/ext/cblas/include".format(REPO)
    lines += ["rule cxx", "  command = $cxx -MMD -MF $out.d $flags -c $in -o $out", "  depfile = $out.d", "  deps = gcc",
              "rule ar", "  command = rm -f $out && ar rcs $out $in",
              "rule link", "  command = $cxx $flags $in -o $out $libs", ""]
    need = {}
    for d, c in targets:
        need.setdefault(c, set()).add(d)
    for c, drivers in need.items():
        cf = CONFIGS[c]
        bd = os.path.join(BUILD, c)
        objs = []
        for s in srcs:
            o = os.path.join(bd, "lib", s.replace("/", "_") + ".o")
            cpp = s.endswith((".cpp", ".cc", ".cxx"))
            fl = (COMMON_LIB + " " + cf["lib"] + " " + ("" if s.startswith("ext/") else os.environ.get("VF_LIBFLAGS", "")) + " -w " + ("-std=c++98 " + libinc if cpp else cinc))
            lines += ["build %s: cxx %s" % (nesc(o), nesc(os.path.join(REPO, s))),
                      "  cxx = " + (cf["cxx"] if cpp else cf["cc"]), "  flags = " + fl]
            objs.append(o)
        a = os.path.join(bd, "libqm.a")
        lines += ["build %s: ar %s" % (nesc(a), " ".join(map(nesc, objs)))]
        common = []
        for s in ("vf.cpp",):
            o = os.path.join(bd, "h", s + ".o")
            lines += ["build %s: cxx %s" % (nesc(o), nesc(os.path.join(HARNESS, s))),
                      "  cxx = " + cf["cxx"], "  flags = -std=gnu++17 -Wall -w -I%s %s" % (HARNESS, cf["drv"])]
            common.append(o)
        for d in sorted(drivers):
            o = os.path.join(bd, "h", d + ".o")
            e = os.path.join(bd, d)
            extra = []
            for x in EXTRA_OBJS.get(d, []):
                xo = os.path.join(bd, "h", x + ".o")
                if ("X", c, x) not in extra_done:
                    extra_done.add(("X", c, x))
                    lines += ["build %s: cxx %s" % (nesc(xo), nesc(os.path.join(HARNESS, x))),
                              "  cxx = " + cf["cxx"],
                              "  flags = -std=gnu++17 -w -DUSE_PTHREADS -I%s %s %s" % (HARNESS, cinc, cf["drv"])]
                extra.append(xo)
            lines += ["build %s: cxx %s" % (nesc(o), nesc(os.path.join(HARNESS, d + ".cpp"))),
                      "  cxx = " + cf["cxx"],
                      "  flags = -std=gnu++17 -w -DUSE_PTHREADS -I%s %s %s" % (HARNESS, cinc, cf["drv"]),
                      "build %s: link %s" % (nesc(e), " ".join(map(nesc, [o] + extra + common + [a]))),
                      "  cxx = " + cf["cxx"], "  flags = " + cf["link"] + " " + LINK_FLAGS.get(d, ""), "  libs = -lpthread -ldl -lm"]
    extra_done.clear()
    nf = os.path.join(BUILD, "build-%s.ninja" % hashlib.sha1(repr(sorted(targets)).encode()).hexdigest()[:8])
    text = "\n".join(lines) + "\n"
    if not os.path.exists(nf) or open(nf).read() != text:
        open(nf, "w").write(text)
    wanted = [os.path.join(BUILD, c, d) for d, c in sorted(targets)]
    p = subprocess.run(["ninja", "-j", str(JOBS), "-C", BUILD, "-f", nf] + wanted,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    fcntl.flock(lock, fcntl.LOCK_UN)
    if p.returncode != 0:
        errs = [l[:400] for l in p.stdout.splitlines() if re.search(r"error|undefined reference|FAILED|No such", l) and "-MMD" not in l]
        raise NoAnswer("build failed:\n" + "\n".join(errs[:25] or [p.stdout[-1500:]]))


EXTRA_OBJS = {"d_mem": ["scen.cpp"], "d_conc": ["scen.cpp"], "d_det": ["scen.cpp", "fill.cpp"], "d_io": ["scen.cpp"]}
LINK_FLAGS = {d: "-Wl,--allow-multiple-definition" for d in ("d_mem", "d_conc", "d_det", "d_io")}
LINK_FLAGS.update({"d_thread": " ".join("-Wl,--wrap=" + f for f in (
    "pthread_cond_wait", "pthread_cond_timedwait", "pthread_cond_signal", "pthread_mutex_lock", "pthread_mutex_unlock", "pthread_mutex_trylock", "gettimeofday"))})
extra_done = set()


# ------------------------------------------------------------------ running
class Result:
    def __init__(self):
        self.cases = 0
        self.rules = {}
        self.groups = {}
        self.counters = {}
        self.maxima = {}
        self.distinct = set()
        self.observed = set()
        self.samples = []
        self.violations = []   # dicts: rule, case, desc, msg, run, shard, log
        self.notes = []
        self.unanswered = []

    def merge_json(self, j, run, part):
        for k, (e, f) in j["rules"].items():
            if run.get("judge") and not re.match(run["judge"], k):
                continue
            a = self.rules.setdefault(k, [0, 0])
            a[0] += e
            a[1] += f
        for k, v in j["groups"].items():
            self.groups[k] = self.groups.get(k, 0) + v
            self.cases += v
        for k, v in j["counters"].items():
            self.counters[k] = self.counters.get(k, 0) + v
        for k, v in j["maxima"].items():
            self.maxima[k] = max(self.maxima.get(k, -1e308), v)
        self.distinct.update((run["driver"], d) for d in j["distinct"])
        self.observed.update(j["observed"])
        self.samples += j["samples"]
        for v in j["violations"]:
            v = dict(v, run=run, part=part)
            # a workload borrowed from another property is judged by this property's oracles only
            if not run.get("judge") or re.match(run["judge"], v["rule"]):
                self.violations.append(v)


def san_summary(text):
    """One key and a short text for a sanitizer or crash report."""
    fr = []
    for m in re.finditer(r"#\d+ (?:0x[0-9a-f]+ in )?(.+?) (/\S+?):(\d+)", text):
        if m.group(2).startswith(REPO + "/"):
            fr.append((re.sub(r"\(.*", "", m.group(1)), os.path.relpath(m.group(2), REPO), m.group(3)))
    where = fr[0][0] if fr else "?"
    loc = "%s:%s" % (fr[0][1], fr[0][2]) if fr else ""
    m = re.search(r"Assertion '(.*)' failed", text)
    if m:
        return "libstdcxx-assert", "%s in %s %s" % (m.group(1), where, loc)
    m = re.search(r"ERROR: AddressSanitizer: ([\w-]+)", text)
    if m:
        return "asan-%s" % m.group(1), "%s in %s %s" % (m.group(1), where, loc)
    m = re.search(r"runtime error: (.*)", text)
    if m:
        f = re.search(r"(\S+?):(\d+):\d+: runtime error", text)
        l2 = os.path.relpath(f.group(1), REPO) + ":" + f.group(2) if f and f.group(1).startswith("/") else loc
        return "ubsan", "%s in %s %s" % (m.group(1), where, l2)
    m = re.search(r"WARNING: ThreadSanitizer: (.*?) \(pid", text)
    if m:
        return "tsan-" + m.group(1).replace(" ", "-"), "%s in %s %s" % (m.group(1), where, loc)
    m = re.search(r"terminate called after throwing an instance of '(.*)'", text)
    if m:
        return "uncaught-exception", m.group(1)
    return "crash", "abnormal termination"


def run_one(run, part, nparts, tier, seed, tag, only=None, timeout=None):
    exe = os.path.join(BUILD, run["config"], run["driver"])
    wd = os.path.join(OUT, "run", tag)
    os.makedirs(wd, exist_ok=True)
    base = os.path.join(wd, "%s-%s%s-%d%s" % (run["driver"], run["config"], "-" + re.sub(r"\W", "_", run["arg"]) if run.get("arg") else "", part, "-solo" if only else ""))
    js, prog, err = base + ".json", base + ".progress", base + ".log"
    for f in (js, prog, err):
        if os.path.exists(f):
            os.unlink(f)
    cmd = list(run.get("wrap", [])) + [exe, "--seed", str(seed), "--out", js, "--progress", prog, "--cpu", str(run.get("cpu", 60)),
                                       "--scale", str(run.get("scale", 1.0))]
    if tier == "thorough":
        cmd.append("--thorough")
    if run.get("arg"):
        cmd += ["--arg", run["arg"]]
    if only:
        cmd += ["--only", only]
    else:
        cmd += ["--part", "%d/%d" % (part, nparts)]
    env = dict(os.environ)
    env.update(SANENV)
    env.update(run.get("env", {}))
    env["LC_ALL"] = "C"
    env.pop("LD_PRELOAD", None)
    if run.get("preload"):
        env["LD_PRELOAD"] = run["preload"]
    to = timeout or run.get("timeout", 600 if tier == "quick" else 3000)
    with open(err, "w") as ef:
        try:
            p = subprocess.run(cmd, stdout=ef, stderr=subprocess.STDOUT, env=env, timeout=to, cwd=wd)
            rc = p.returncode
        except subprocess.TimeoutExpired:
            rc = "timeout"
    case = ""
    if os.path.exists(prog):
        case = open(prog, errors="replace").read().strip()
    text = open(err, errors="replace").read()
    j = None
    if rc in (0, 9, 98) and os.path.exists(js):
        try:
            j = json.load(open(js))
        except ValueError:
            j = None
    return rc, j, case, text, cmd


def run_all(prop, plan, tier, seed):
    res = Result()
    tag = prop + ("" if REPO == "/repo" else "-alt")
    tag += "-" + hashlib.sha1(BUILD.encode()).hexdigest()[:6]
    shutil.rmtree(os.path.join(OUT, "run", tag), ignore_errors=True)
    jobs = []
    for run in plan["runs"]:
        n = run.get("shards", JOBS)
        if tier == "thorough" and "thorough_only" not in run and run.get("quick_only"):
            continue
        if tier == "quick" and run.get("thorough_only"):
            continue
        for part in range(n):
            jobs.append((run, part, n))
    with concurrent.futures.ThreadPoolExecutor(JOBS) as ex:
        futs = [(r, p, n, ex.submit(run_one, r, p, n, tier, seed, tag)) for r, p, n in jobs]
        for run, part, n, f in futs:
            rc, j, case, text, cmd = f.result()
            try:
                judge(res, run, part, n, tier, seed, tag, rc, j, case, text)
            except NoAnswer as e:
                res.unanswered.append(str(e))
    # a shard without an answer matters only when no other shard reports a violation
    if res.unanswered and not any(not match_known(prop, v, load_known()) for v in res.violations):
        raise NoAnswer("; ".join(res.unanswered[:3]))
    res.notes += res.unanswered
    return res


def judge(res, run, part, n, tier, seed, tag, rc, j, case, text):
    if j is not None and rc in (0, 9, 98):
        res.merge_json(j, run, part)
        if rc == 98 or "WARNING: ThreadSanitizer" in text:
            for blk in re.split(r"={18,}", text):
                if "WARNING: ThreadSanitizer" in blk:
                    k, m = san_summary(blk)
                    res.violations.append(dict(rule=k, case="%s shard %d/%d" % (run["driver"], part, n), desc="", msg=m, run=run,
                                               part=part, log=blk[:6000]))
        if run.get("valgrind"):
            judge_valgrind(res, run, part, text)
        return
    if run.get("valgrind"):
        judge_valgrind(res, run, part, text)
    has_case = re.match(r"^\S+:\d+$", case or "")
    if rc == 77 or "VF-CPU-LIMIT" in text:
        if has_case:
            rc2, j2, c2, t2, _ = run_one(run, part, n, tier, seed, tag, only=case)
            if rc2 == 77 or "VF-CPU-LIMIT" in t2:
                res.violations.append(dict(rule="hang", case=case, desc="", run=run, part=part, log=t2[-3000:],
                                           msg="did not finish within %s s of CPU time, twice" % run.get("cpu", 60)))
                return
        raise NoAnswer("CPU limit hit once in %s %s, not reproduced" % (run["driver"], case))
    if rc == "timeout":
        if "WARNING: ThreadSanitizer" in text:
            k, m = san_summary(text)
            res.violations.append(dict(rule=k, case=case, desc="", msg=m, run=run, part=part, log=text[:8000]))
            return
        raise NoAnswer("wall-clock limit in %s shard %d (case %s)" % (run["driver"], part, case))
    if rc == 3:
        raise NoAnswer("harness error in %s: %s" % (run["driver"], text[-2000:]))
    if rc in (-9, 137):
        rc2, j2, c2, t2, _ = run_one(run, part, n, tier, seed, tag)
        if j2 is not None:
            judge(res, run, part, n, tier, seed, tag, rc2, j2, c2, t2)
            return
        raise NoAnswer("killed twice: %s shard %d case %s" % (run["driver"], part, case))
    key, msg = san_summary(text)
    if key == "crash":
        # no report: reproduce before believing it
        rc2, j2, c2, t2, _ = run_one(run, part, n, tier, seed, tag, only=case if has_case else None)
        if j2 is not None:
            rc3, j3, c3, t3, _ = run_one(run, part, n, tier, seed, tag)
            if j3 is not None:
                judge(res, run, part, n, tier, seed, tag, rc3, j3, c3, t3)
                return
            text = t3
        msg = "process ended with %s" % rc
    if j is None and key.startswith("tsan-"):
        res.notes.append("tsan run ended early: %s" % rc)
    res.violations.append(dict(rule=key, case=case, desc="", msg=msg, run=run, part=part, log=text[-8000:]))


def judge_valgrind(res, run, part, text):
    for m in re.finditer(r"^==\d+== (Conditional jump.*|Use of uninit.*|Invalid (?:read|write).*|Syscall param.*|Invalid free.*|Mismatched free.*)\n((?:==\d+==    (?:at|by) .*\n)+)", text, re.M):
        st = m.group(2)
        fr = re.findall(r"(?:at|by) 0x[0-9A-F]+: (.+?) \((\S+?):(\d+)\)", st)
        where = next(("%s (%s:%s)" % f for f in fr if f[1].endswith((".cpp", ".c", ".h")) and not f[1].startswith(("d_", "vf"))), "?")
        res.violations.append(dict(rule="valgrind-" + re.sub(r"[^a-z]+", "-", m.group(1).lower())[:40], case="%s shard %d" % (run["driver"], part),
                                   desc="", msg=m.group(1) + " at " + where, run=run, part=part, log=m.group(0)[:4000]))


# ---------------------------------------------------------------- verdicts
def load_known():
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p))["findings"] if not str(k.get("status", "")).startswith("fixed")]


def match_known(prop, v, known):
    for k in known:
        if k["property"] != prop:
            continue
        if k["rule"] == v["rule"] and re.search(k["match"], v.get("desc", "") + " | " + v["msg"]):
            return k
    return None


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    tier = a.tier
    plan = PLAN[a.prop]
    t0 = time.time()
    try:
        if a.replay:
            r = json.load(open(a.replay))
            build({(r["run"]["driver"], r["run"]["config"])})
            rc, j, case, text, cmd = run_one(r["run"], r.get("part", 0), r["run"].get("shards", JOBS), r["tier"], r["seed"], "replay",
                                             only=r["case"] if re.match(r"^\S+:\d+$", r["case"]) else None)
            log(" ".join(map(shlex.quote, cmd)))
            log(text[-6000:])
            if j:
                for v in j["violations"]:
                    log("  %s %s: %s [%s]" % (v["rule"], v["case"], v["msg"], v["desc"]))
            log("exit %s" % rc)
            return 0 if rc == 0 else 1
        runs = [r for r in plan["runs"] if not (tier == "quick" and r.get("thorough_only"))]
        build({(r["driver"], r["config"]) for r in runs})
        tb = time.time() - t0
        res = run_all(a.prop, plan, tier, seed)
    except NoAnswer as e:
        log("NO ANSWER property=%s: %s" % (a.prop, e))
        return 2
    known = load_known()
    bad, seen_known = [], {}
    for v in res.violations:
        k = match_known(a.prop, v, known)
        if k:
            seen_known.setdefault(k["what"], 0)
            seen_known[k["what"]] += 1
        else:
            bad.append(v)
    for w in seen_known:
        log("KNOWN-FINDING: property=%s %s" % (a.prop, w))
    need = plan.get("min_cases", 1)
    if not bad and res.cases < need:
        log("NO ANSWER property=%s: only %d cases observed" % (a.prop, res.cases))
        return 2
    evals = sum(r[0] for r in res.rules.values())
    for rule in plan.get("must_rules", []):
        if not bad and res.rules.get(rule, [0])[0] == 0:
            log("NO ANSWER property=%s: oracle %s was never evaluated" % (a.prop, rule))
            return 2
    ev = {
        "property": a.prop, "tier": tier, "seed": seed, "level": plan.get("level", "exploration"),
        "coverage": {
            "evaluations": res.cases,
            "distinct_nontrivial": len(res.distinct),
            "rule": plan["rule"],
            "oracle_decisions": evals,
            "decisions_by_oracle": {k: v[0] for k, v in sorted(res.rules.items())},
            "cases_by_group": dict(sorted(res.groups.items())),
            "distinct_observations": len(res.observed),
            "counters": dict(sorted(res.counters.items())),
            "maxima": dict(sorted(res.maxima.items())),
            "builds": sorted({r["config"] + ":" + r["driver"] for r in plan["runs"] if not (tier == "quick" and r.get("thorough_only"))}),
            "known_findings_seen": seen_known,
            "build_s": round(tb, 1),
            "samples": res.samples[:60],
        },
        "assumptions": plan.get("assumptions", []),
        "wall_s": round(time.time() - t0, 1),
        "violations": len(bad),
    }
    evdir = os.environ.get("VF_EVIDENCE") or os.path.join(VERIF, "evidence")
    if REPO == "/repo" or os.environ.get("VF_EVIDENCE"):
        os.makedirs(evdir, exist_ok=True)
        json.dump(ev, open(os.path.join(evdir, a.prop + ".json"), "w"), indent=1)
    for n in res.notes:
        log("note: " + n)
    log("%s %s seed=%d: %d cases, %d distinct, %d oracle decisions, %d violations, %.1fs (build %.1fs)" %
        (a.prop, tier, seed, res.cases, len(res.distinct), evals, len(bad), time.time() - t0, tb))
    if bad:
        rd = os.path.join(OUT, "replay")
        os.makedirs(rd, exist_ok=True)
        shown = {}
        for i, v in enumerate(bad):
            key = v["rule"]
            shown[key] = shown.get(key, 0) + 1
            if shown[key] > 3:
                continue
            path = os.path.join(rd, "%s-%s-%d.json" % (a.prop, re.sub(r"\W+", "_", key)[:40], shown[key]))
            json.dump(dict(property=a.prop, tier=tier, seed=seed, rule=v["rule"], case=v["case"], desc=v.get("desc", ""), msg=v["msg"],
                           part=v.get("part", 0), run=v["run"], log=v.get("log", "")), open(path, "w"), indent=1)
            log("  %s at %s: %s [%s]" % (v["rule"], v["case"], v["msg"], v.get("desc", "")[:300]))
            log("VIOLATION property=%s replay=%s" % (a.prop, path))
        return 1
    return 0


if __name__ == "__main__":
    sys.exit(main())
