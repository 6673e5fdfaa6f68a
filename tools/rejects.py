#!/usr/bin/env python3
"""Development aid: prints the shortest histories of a file that GuardTrace did not accept.
rejects.py FILE TLC-OUTPUT [N]"""
import json, re, sys
acc = set(map(int, re.findall(r'<<"ACC", (\d+)>>', open(sys.argv[2]).read())))
L = open(sys.argv[1]).read().splitlines()
rej = sorted((len(l), n) for n, l in enumerate(L, 1) if n not in acc)
print(len(rej), "of", len(L), "rejected")
for _, n in rej[: int(sys.argv[3]) if len(sys.argv) > 3 else 2]:
    h = json.loads(L[n - 1])
    print("history", n, "program", h["p"], "nk", h["nk"], "ev", h["ev"])
    for e in h["t"]:
        print("   ", " ".join("%s=%s" % kv for kv in e.items() if kv[0] in ("e", "c", "r") or kv[1] not in (0, [])))
