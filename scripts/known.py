#!/usr/bin/env python3
"""Writes known_findings.json: live findings, and one 'fixed' line per fix: commit in /repo."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
LIVE = [
 dict(property="C16", rule="finite-fractional-power-quiet", match=r"power=(0\.5|1\.5|2\.7) quiet",
      what="MFCC with a non-integer logpower returns NaN when a log10 band energy is negative (pow of a negative base)"),
]
# subject of the fix commit -> (property, what failed)
FIXED = {
 "DCT::forward must not": ("C06", "forward() after inverse() on the same object gave a different result than on a fresh one"),
 "Kaiser window of length 1": ("C07", "length-1 Kaiser window was NaN"),
 "Filter with one denominator": ("C10", "heap write past the history buffer with a single denominator coefficient"),
 "FiltFilt started each call": ("C10", "second process() call on a zero-phase filter gave a different result than the first"),
 "DecimatorB divided": ("C09", "factor 0 divided by zero before the validity check"),
 "Pitch::getPitchForFrequency": ("C31", "frequencies below MIDI pitch 0 rounded towards zero, wrong pitch and cents"),
 "TCSGram converted": ("C26", "uninitialised frame duration converted to long"),
 "DFProcess median window": ("C12", "heap read past the data when the median window exceeds the data length"),
 "DFProcess returned NaN": ("C12", "silent detection function gave NaN"),
 "ConstantQ interleaved process() wrote": ("C14", "one value written past the interleaved output"),
 "ConstantQ took the address": ("C14", "undefined element access with an empty kernel"),
 "ConstantQ interleaved process() read": ("C14", "interleaved process() disagreed with the split one (spectrum one bin off)"),
 "ConstantQ::sparsekernel leaked": ("C14", "second sparsekernel() leaked the first kernel"),
 "GetKeyMode with a zero": ("C15", "heap overflow with an averaging time of 0"),
 "GetKeyMode reported a key": ("C15", "silence reported as key 13 instead of 0 (none)"),
 "GetKeyMode::getKeyStrengths": ("C15", "uninitialised strengths before the first process()"),
}
exec(open(os.path.join(V, "scripts", "fixed_extra.py")).read()) if os.path.exists(os.path.join(V, "scripts", "fixed_extra.py")) else None
log = subprocess.check_output(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], text=True).splitlines()
out = list(LIVE)
for l in log:
    h, s = l.split(" ", 1)
    if not s.startswith("fix: "):
        continue
    k = [k for k in FIXED if s[5:].startswith(k)]
    k = sorted(k, key=len)[-1:]          # the most specific
    assert len(k) == 1, s
    p, w = FIXED[k[0]]
    out.append(dict(status="fixed: property=%s %s %s" % (p, h, w), property=p, commit=h, what=w))
json.dump({"findings": out}, open(os.path.join(V, "known_findings.json"), "w"), indent=1)
