"""Witness programs.  A witness file may contain blocks `#ifdef FAIL_x ... #endif`: the file without
any FAIL_ macro must build, and with each FAIL_x defined it must be rejected."""
import os, re
from . import build
def jobs(spec, tier, tmp):
    out = []
    for w in spec["wit"]:
        src = os.path.join(build.VERIF, "witness", w[0]); opts = w[1] if len(w) > 1 else {}
        stds = opts.get("std", ["c++17", "c++20"]); comps = opts.get("comp", ["clang", "gcc"])
        defss = opts.get("defs", [[]])
        text = open(src).read()
        fails = sorted(set(re.findall(r"^\s*#\s*ifdef\s+(FAIL_\w+)", text, re.M)))
        for c in comps:
            for s in stds:
                for d in ([] if opts.get("headers") else defss): out.append((src, c, s, tuple(d), "ok", "witness/" + w[0], w[0]))
                if opts.get("headers"):
                    for h in sorted(os.listdir(os.path.join(build.REPO, "include", "NazaraUtils"))):
                        if h.endswith(".hpp"): out.append((src, c, s, ("-DNZ_HEADER=<NazaraUtils/%s>" % h,), "ok", "include/NazaraUtils/" + h, w[0]))
                    continue
                for f in fails: out.append((src, c, s, ("-D" + f,), "fail", "witness/%s:%s" % (w[0], f), w[0]))
    return out
