#!/usr/bin/env python3
"""Development helper: given a compiled harness object and a directory of
compiled repository objects, print the minimal list of repository sources the
harness needs to link (transitive closure over undefined symbols)."""
import glob, os, subprocess, sys

def nm(o):
    d, u = set(), set()
    for l in subprocess.run(["nm", o], capture_output=True, text=True).stdout.splitlines():
        p = l.split()
        if len(p) == 2 and p[0] in "Uw":
            if p[0] == "U":
                u.add(p[1])
        elif len(p) == 3:
            d.add((p[2], p[1]))
    return d, u

import re
STD = re.compile(r"^_Z(N[KV]*)?S[tabsiod]|^_ZT[ISV]S|^_ZNK?9__gnu_cxx|^_ZGVNSt")
def main():
    odir, roots = sys.argv[1], sys.argv[2:]
    objs = {o: nm(o) for o in glob.glob(odir + "/*.o")}
    strong, weak = {}, {}
    for o, (d, u) in objs.items():
        for s, t in d:
            if t in "TDBR":
                strong.setdefault(s, o)
            elif t in "VWu":
                weak.setdefault(s, []).append(o)
    have, need, inc = set(), set(), []
    todo = []
    for r in roots:
        d, u = nm(r)
        have |= {s for s, _ in d}
        need |= {x for x in u if not STD.match(x)}
    missing = set()
    while True:
        m = [s for s in need if s not in have and s in strong]
        if not m:
            m = [s for s in need if s not in have and s in weak]
            if not m:
                break
            s = m[0]
            o = weak[s][0]
        else:
            s = m[0]
            o = strong[s]
        inc.append((o, s))
        d, u = objs[o]
        have |= {x for x, _ in d}
        need |= {x for x in u if not STD.match(x)}
    for o, s in sorted(inc):
        why = subprocess.run(["c++filt", s], capture_output=True, text=True).stdout.strip()
        print(os.path.basename(o).replace(".cpp.o", ".cpp"), "<-", why[:110])

main()
