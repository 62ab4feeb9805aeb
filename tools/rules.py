#!/usr/bin/env python3
# Prints the sub-checks with their rules, for DESIGN.md.
import re, glob, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for f in sorted(glob.glob(here + '/harness/src/props/c*.rs')):
    s = open(f).read()
    for m in re.finditer(r'name:\s*"([^"]+)",(.*?)rule:\s*"((?:[^"\\]|\\.)*)",\s*quick:\s*([0-9_]+)', s, re.S):
        rule = re.sub(r'\\\n\s*', '', m.group(3))
        print(f'* **{os.path.basename(f)[:3].upper()}/{m.group(1)}** ({m.group(4).replace("_", " ")} cases in the quick tier): {rule}')
