#!/usr/bin/env python3
"""Checks that the toolchain the monitors need is there. Checks build what they need themselves."""
import shutil, sys
missing = [t for t in ("/usr/bin/g++", "/usr/bin/gcc", "ninja", "make", "valgrind", "ar") if not shutil.which(t)]
if missing:
    print("missing tools: " + " ".join(missing))
    sys.exit(1)
print("toolchain present")
