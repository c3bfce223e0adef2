#!/usr/bin/env python3
"""Shows the rejected steps of a replay file in short form."""
import json, sys


def val(w):
    return "%x" % sum(x << (12 * i) for i, x in enumerate(w)) if isinstance(w, list) else str(w)


def prog(v):
    _, t, n, steps = v["event"]
    s = {}
    k = v["item"]
    for ins, out, ch in steps[:k]:
        for c in ch:
            s[(c[0], c[1])] = c[2]
    ins, out, ch = steps[k]
    op, d, a, b, m, imm = ins
    print("  %s x %d step %d: %s" % (t, n, k, ins))
    for nm, key in (("D", ("v", d)), ("A", ("v", a)), ("B", ("v", b)), ("MD", ("m", (d - 1) % 3 + 1)), ("MA", ("m", (a - 1) % 3 + 1)), ("K", ("m", m))):
        print("    before %s=%s%d: %s" % (nm, key[0], key[1], [val(x) for x in s.get(key, [0])]))
    for c in ch:
        print("    after  %s%d: %s" % (c[0], c[1], [val(x) for x in c[2]]))
    if out:
        print("    out", [val(x) for x in out])
    print("    program:", " ".join(" ".join(str(y) for y in x[0]) + ";" for x in steps[max(0, k - 12):k + 1]))


for v in json.load(open(sys.argv[1]))["violations"]:
    if v.get("event", [""])[0] == "prog":
        print(v["count_in_group"], v["where"], v.get("driver", "")[-60:])
        prog(v)
    else:
        print(v["count_in_group"], v.get("op") or v["kind"], v["where"][:90], str(v.get("tuple") or v.get("event") or v.get("message"))[:300])
