#!/usr/bin/env python3
"""Builds the library (all flavours in use) and every explorer once."""
import os, sys, concurrent.futures as cf
H = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, H)
import build as B
from checks import CHECKS


def one(job):
    p, r = job
    B.build([os.path.join(H, s) for s in r["src"]], flavour=r.get("flavour", "asan"), cif=r.get("cif", False),
            extra_flags=r.get("flags", ()), libs=r.get("libs", ()), edits=r.get("edits"))
    print("built", p, r["src"][0], flush=True)


# one explorer per flavour first, which builds the library; then the others in parallel
first, rest, seen, srcs = [], [], set(), set()
for p, C in sorted(CHECKS.items()):
    for r in C["runs"]:
        k = (r.get("flavour", "asan"), r.get("cif", False), str(r.get("edits")))
        (rest if k in seen else first).append((p, r))
        seen.add(k)
for j in first:
    one(j)
with cf.ThreadPoolExecutor(max_workers=6) as ex:
    list(ex.map(one, rest))
