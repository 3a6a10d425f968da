#!/usr/bin/env python3
"""Plants the bugs described in scripts/seeds/*.py, confirms each in a scratch
copy of /repo, and runs the checks against it.

  seed.py make [ID...]     write seeded/ID/ for the specs that confirm
  seed.py check [ID...]    run the property's quick check against each
  seed.py check --all ID.. run every quick check against each

Nothing here is used by the registered checks."""
import glob, json, os, shutil, subprocess, sys, tempfile, textwrap, concurrent.futures as cf

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SCR = "/tmp/vseed"
DEMO_SH = """#!/bin/bash
# usage: demo.sh, with cwd at the built repository; exit 0 when the property holds
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
g++ -std=c++11 -O1 -w %(flags)s -DUSE_PTHREADS -Dkiss_fft_scalar=double -I. -Iinclude -Iext/kissfft -Iext/kissfft/tools -Iext/cblas/include -Iext/clapack/include "$d/demo.cpp" libqm-dsp.a -lpthread -o "$t/demo" || exit 2
timeout 120 "$t/demo"
"""

PRELUDE = "#include <cstdio>\n#include <cstdlib>\n#include <cmath>\n#include <vector>\n#include <string>\n#include <algorithm>\n"

class Spec: pass
SPECS = {}
def S(id, prop, edits, demo, needs, what, flags=""):
    s = Spec()
    s.id, s.prop, s.edits, s.demo, s.needs, s.what, s.flags = id, prop, edits, demo, needs, what, flags
    assert id not in SPECS, id
    SPECS[id] = s

def load():
    for f in sorted(glob.glob(os.path.join(V, "scripts/seeds/*.py"))):
        exec(compile(open(f).read(), f, "exec"), {"S": S})

def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True, errors="replace", **kw)

TESTS = "test-mathutilities test-window test-filter test-filtfilt test-fft test-dct test-pvoc test-resampler test-medianfilter test-getkeymode test-chromagram".split()

def clone(name):
    d = os.path.join(SCR, name)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(SCR, exist_ok=True)
    sh("cp -a /repo %s" % d)
    return d

def build(d):
    r = sh("make -j4 -C %s -f build/linux/Makefile.linux64 CC='gcc -MMD -MP' CXX='g++ -MMD -MP' -f /opt/vp/extra.mk libqm-dsp.a" % d)
    return r.returncode == 0, r.stdout

def tests(d):
    sh("rm -f %s/tests/test-*" % d)
    r = sh("make -j4 -C %s/tests CC='gcc -MMD -MP' CXX='g++ -MMD -MP' %s" % (d, " ".join(TESTS)))
    if r.returncode: return False, r.stdout[-2000:]
    bad = []
    for t in TESTS:
        r = sh("timeout 120 ./%s" % t, cwd=d + "/tests")
        if r.returncode: bad.append(t + ": " + r.stdout[-500:])
    return not bad, "\n".join(bad)

def apply_edits(s, d):
    for f, old, new in s.edits:
        p = os.path.join(d, f)
        t = open(p, encoding="latin-1").read()
        if t.count(old) != 1:
            return "%s: %d matches of %r" % (f, t.count(old), old[:80])
        open(p, "w", encoding="latin-1").write(t.replace(old, new))
        os.utime(p)
    return None

def original_lines_only(s):
    """every removed line must be a line of the original repository"""
    base = sh("git -C /repo log --format=%h --grep='^base' -1").stdout.strip() or sh("git -C /repo rev-list --max-parents=0 HEAD").stdout.strip()
    for f, old, new in s.edits:
        orig = sh("git -C /repo show %s:%s" % (base, f)).stdout.split("\n")
        ol, nl = old.split("\n"), new.split("\n")
        import difflib
        removed = [l[2:] for l in difflib.ndiff(ol, nl) if l.startswith("- ")]
        for l in removed:
            if l.strip() and not any(l.strip() in o for o in orig):
                return "line not in the original: %r" % l
    return None

def make(s):
    e = original_lines_only(s)
    if e: return s.id, "REFUSED " + e
    d = clone("m-" + s.id)
    try:
        out = os.path.join(d, "seed"); os.makedirs(out)
        open(out + "/demo.cpp", "w").write(PRELUDE + textwrap.dedent(s.demo).lstrip("\n"))
        open(out + "/demo.sh", "w").write(DEMO_SH % dict(flags=s.flags)); os.chmod(out + "/demo.sh", 0o755)
        ok, o = build(d)
        if not ok: return s.id, "clean build failed " + o[-500:]
        r = sh("timeout 280 bash seed/demo.sh", cwd=d)
        if r.returncode: return s.id, "demo fails on clean tree rc=%d: %s" % (r.returncode, r.stdout[-1500:])
        e = apply_edits(s, d)
        if e: return s.id, e
        ok, o = build(d)
        if not ok: return s.id, "does not build " + o[-1500:]
        ok, o = tests(d)
        if not ok: return s.id, "tests fail: " + o[-700:]
        r = sh("timeout 280 bash seed/demo.sh", cwd=d)
        if r.returncode == 0: return s.id, "demo passes with the change"
        msg = r.stdout.strip()[-160:]
        diff = sh("git -C %s diff -- . ':!seed'" % d).stdout
        dst = os.path.join(V, "seeded", s.id)
        shutil.rmtree(dst, ignore_errors=True); os.makedirs(dst)
        enc = open(dst + "/patch.diff", "wb")
        enc.write(subprocess.run(["git", "-C", d, "diff"] , stdout=subprocess.PIPE).stdout); enc.close()
        shutil.copy(out + "/demo.cpp", dst); shutil.copy(out + "/demo.sh", dst)
        json.dump(dict(property=s.prop, needs=s.needs, what_it_breaks=s.what), open(dst + "/meta.json", "w"), indent=1)
        return s.id, "OK (%s)" % msg
    finally:
        shutil.rmtree(d, ignore_errors=True)

def check(s, props, slot):
    """run quick checks against a scratch copy with the patch"""
    d = os.path.join(SCR, "c-%d" % slot)
    if not os.path.isdir(d): clone("c-%d" % slot)
    sh("git -C %s checkout -- ." % d)
    r = sh("git -C %s apply %s/seeded/%s/patch.diff" % (d, V, s.id))
    if r.returncode: return s.id, {"apply": r.stdout}
    res = {}
    for p in props:
        env = dict(os.environ, VF_REPO=d, VF_BUILD=SCR + "/b-%d" % slot, VF_OUT=SCR + "/o-%d" % slot, VF_EVIDENCE=SCR + "/e-%d" % slot, VERIF_SEED=os.environ.get("VERIF_SEED", "1"), VERIF_TIER="quick")
        r = sh("timeout 900 python3 %s/bin/check.py %s --tier quick" % (V, p), env=env)
        v = [l for l in r.stdout.split("\n") if l.startswith("VIOLATION")]
        res[p] = "%s rc=%d %s" % ("CAUGHT" if r.returncode == 1 and v else "missed", r.returncode, (r.stdout.strip().split("\n") or [""])[-1][:150] if not v else v[0][:150])
    sh("git -C %s checkout -- ." % d)
    return s.id, res

def main():
    load()
    a = sys.argv[1:]
    cmd = a.pop(0)
    allp = "--all" in a
    a = [x for x in a if not x.startswith("--")]
    ids = a or sorted(SPECS)
    os.makedirs(SCR, exist_ok=True)
    if cmd == "make":
        with cf.ThreadPoolExecutor(6) as ex:
            for i, m in ex.map(lambda i: make(SPECS[i]), ids): print(i, m, flush=True)
    else:
        rp = os.path.join(V, "scripts/seed_results.json")
        res = json.load(open(rp)) if os.path.exists(rp) else {}
        ids = [i for i in ids if os.path.isdir(os.path.join(V, "seeded", i))]
        plist = [l["id"] for l in map(json.loads, open(V + "/properties.jsonl"))]
        for i in ids:
            _, r = check(SPECS[i], plist if allp else [SPECS[i].prop], 0)
            print(i, r, flush=True)
            res.setdefault(i, {}).update({p: m.split()[0] for p, m in r.items()})
        json.dump(res, open(rp, "w"), indent=1, sort_keys=True)
main()
