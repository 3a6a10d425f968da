#!/usr/bin/env python3
"""Behaviour-preserving edits: applies those of scripts/refactorings/*.py in a scratch copy of /repo and runs the quick
checks, which have to stay quiet.   refactor.py [SET...] [--checks C01,C02]
Nothing here is used by the registered checks."""
import glob, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SETS = {}
def R(name, file, old, new): SETS.setdefault(name, []).append((file, old, new))
for f in sorted(glob.glob(V + "/scripts/refactorings/*.py")): exec(open(f).read())
a = sys.argv[1:]
checks = ["C%02d" % i for i in range(1, 33)]
if "--checks" in a: i = a.index("--checks"); checks = a[i + 1].split(","); del a[i:i + 2]
names = a or sorted(SETS)
d = "/tmp/refac/tree"
shutil.rmtree("/tmp/refac", ignore_errors=True); os.makedirs("/tmp/refac")
subprocess.check_call(["cp", "-a", "/repo", d])
subprocess.check_call(["git", "-C", d, "checkout", "-q", "--", "."])
for n in names:
    for f, old, new in SETS[n]:
        p = os.path.join(d, f); t = open(p, encoding="latin-1").read()
        assert t.count(old) == 1, (n, f, t.count(old), old[:60])
        open(p, "w", encoding="latin-1").write(t.replace(old, new))
r = subprocess.run("make -j8 -C %s -f build/linux/Makefile.linux64 libqm-dsp.a" % d, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True, errors="replace")
if r.returncode: print(r.stdout[-3000:]); sys.exit(2)
T = "test-mathutilities test-window test-filter test-filtfilt test-fft test-dct test-pvoc test-resampler test-medianfilter test-getkeymode test-chromagram".split()
r = subprocess.run("rm -f tests/test-*; make -j8 -C tests %s && cd tests && for t in %s; do ./$t || exit 1; done" % (" ".join(T), " ".join(T)), shell=True, cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True, errors="replace")
if r.returncode: print("tests fail", r.stdout[-2500:]); sys.exit(2)
for c in checks:
    env = dict(os.environ, VF_REPO=d, VF_BUILD="/tmp/refac/b", VF_OUT="/tmp/refac/o", VF_EVIDENCE="/tmp/refac/e", VERIF_TIER="quick")
    r = subprocess.run([sys.executable, V + "/bin/check.py", c], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True, errors="replace")
    print(c, "rc=%d" % r.returncode, flush=True)
    if r.returncode: print("\n".join(l[:220] for l in r.stdout.strip().split("\n")[-14:]), flush=True)
