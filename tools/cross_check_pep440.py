#!/usr/bin/env python3-vt
"""Development aid: compares the harness's PEP 440 model with pypa/packaging.
Usage: target/debug/harness helper pep440-cases 20000 | python3-vt tools/cross_check_pep440.py"""
import sys
from collections import Counter
from packaging.version import Version
from packaging.specifiers import SpecifierSet, InvalidSpecifier
diff = Counter(); ex = {}; n = 0
for line in sys.stdin:
    c, s, want, d, cmp = line.rstrip("\n").split("\t")
    n += 1
    a, b = Version(c), Version(d)
    got = "Less" if a < b else "Greater" if a > b else "Equal"
    if got != cmp:
        print("ORDER", c, d, got, cmp)
    try:
        r = SpecifierSet(s).contains(c, prereleases=True)
    except InvalidSpecifier:
        diff["invalid " + s[:2]] += 1; ex.setdefault("invalid " + s[:2], []).append(s); continue
    if str(r).lower() != want:
        k = f"{s[:2]} packaging={r}"
        diff[k] += 1; ex.setdefault(k, []).append((c, s))
print(n, diff)
for k, v in ex.items(): print(k, v[:12])
