#!/usr/bin/env python3
"""rewrite section 8 of DESIGN.md from /verif/seeded"""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for f in sorted(glob.glob(f"{V}/seeded/*/meta.json")):
    m = json.load(open(f)); rows.append((m["property"], os.path.basename(os.path.dirname(f)), m["needs"].replace("|", "\\|"), m["what_it_breaks"].replace("|", "\\|")))
rows.sort()
t = open(f"{V}/DESIGN.md").read().split("\n## 8.")[0].rstrip() + f"""

## 8. Planted bugs

{len(rows)} changes, in `seeded/` (built and validated by `tools/seed.py` from `tools/seeds/*.py`: each builds, passes the stable
tests, and its demonstration passes without and fails with it).  `tools/trybug.sh ID` runs the check of the property named in
the table against a scratch copy with the change; **every one of them is reported by that check, with a failing input replayed on
the real code**.  In most cases the verifier also names the failed obligation; where the change uses something outside the
verifier's subset (`take`, `strip_prefix`, `unsafe` UTF-8 conversion, `is_subnormal`, …) the functions concerned become undecided and
the search decides alone.  Other properties whose contracts contain the changed function may report it too (the round trips
C27/C28 for most changes of a reader or writer).

| property | change | needs | what it breaks |
|---|---|---|---|
""" + "\n".join(f"| {p} | {i} | {n} | {b} |" for p, i, n, b in rows) + "\n"
open(f"{V}/DESIGN.md", "w").write(t)
