#!/usr/bin/env python3
"""replay.py FILE -- run a recorded violation natively against /repo's tree."""
import json, sys
import check
d = json.load(open(sys.argv[1]))
nat = check.Native(check.build_all(("native",))["native"])
params = ",".join(map(str, d["params"])) or "-"
r = nat.one(d["harness"], params, d["inputs_hex"] or "-")
print("%s(%s) on inputs [%s]: %s %s" % (d["harness"], params, d["inputs_hex"], r[0], r[1]))
if d["native_outcome"][0] == "valgrind":
    print(nat.valgrind(d["harness"], params, d["inputs_hex"] or "-")[1])
sys.exit(0 if r[0] in ("ok", "xpanic") else 1)
