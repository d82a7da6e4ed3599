"""Runs the analyses of one property, writes its evidence and prints the verdict."""
import sys, os, json, time, tempfile, shutil, multiprocessing as mp, traceback, subprocess, re, signal, pickle, select
from . import build
CONFIGS = {"20n": ("c++20", ["-DNDEBUG"]), "20a": ("c++20", []), "17a": ("c++17", []), "17n": ("c++17", ["-DNDEBUG"])}

def ai_compile(job):
    src, cfg, extra, out = job
    std, fl = CONFIGS[cfg]
    try:
        build.compile_ll(src, out, std=std, flags=fl + list(extra)); return (job, None)
    except build.BuildError as e: return (job, str(e))

class HardLimit(BaseException): pass
def ai_entry(job):
    ll, entry, cfg, tmo, seed, rel = job
    from .llvmc import Module
    from .machine import Machine
    from .models import Models
    t = time.time()
    key = ll
    if key not in _mods: _mods[key] = Module(ll)
    m = Machine(_mods[key], Models(), seed); m.deadline = t + tmo
    err = None
    def onalarm(*a): raise HardLimit()
    signal.signal(signal.SIGALRM, onalarm); signal.setitimer(signal.ITIMER_REAL, tmo * 1.3)
    try: m.run_entry(entry)
    except HardLimit: m.viol = []; m.und = {(("", "analysis", "?"), "time budget"): []}; m.obl[(entry, "analysis", "?")] = "undecided"
    except Exception: err = traceback.format_exc()[-2500:]
    finally: signal.setitimer(signal.ITIMER_REAL, 0)
    repo = [f for f in m.fnseen if f.startswith("Nz::") or " Nz::" in f]
    return dict(entry=entry, cfg=cfg, unit=rel, err=err, viol=m.viol, und=[(k[1], k[2], w, st) for (k, w), st in m.und.items()],
                obl=[(k[1], k[2], v) for k, v in m.obl.items()], fns=repo, steps=m.nsteps, ends=m.ends, loops=m.loopstats, wall=time.time() - t)
_mods = {}
def fork_each(jobs, n, end, got):
    """every scenario in a process of its own (the parsed modules are inherited), at most n at once, until end[0]"""
    sys.stdout.flush(); sys.stderr.flush()
    todo = list(reversed(jobs)); run = {}
    while todo or run:
        while todo and len(run) < n and time.time() < end[0]:
            job = todo.pop(); r, w = os.pipe(); pid = os.fork()
            if pid == 0:
                code = 1
                try:
                    os.close(r)
                    for fd in run: os.close(fd)
                    data = pickle.dumps(ai_entry(job))
                    with os.fdopen(w, "wb") as f: f.write(data)
                    code = 0
                finally: os._exit(code)
            os.close(w); run[r] = [pid, bytearray()]
        left = end[0] - time.time()
        if left <= 0 or not run: break
        for fd in select.select(list(run), [], [], min(left, 5))[0]:
            d = os.read(fd, 1 << 20)
            if d: run[fd][1].extend(d); continue
            pid, buf = run.pop(fd); os.close(fd); os.waitpid(pid, 0)
            if buf: got(pickle.loads(bytes(buf)))
    for fd, (pid, buf) in run.items():
        os.kill(pid, signal.SIGKILL); os.waitpid(pid, 0); os.close(fd)

def inline_header(err):
    return [l for l in err.splitlines() if "error" in l][:6]

def run_ai(spec, tier, seed, tmp, res):
    units = spec["ai"]
    jobs = []
    for u in units:
        src, cfgs = u[0], u[1] if tier == "quick" else sorted(set(u[1]) | set(u[2] if len(u) > 2 and u[2] else CONFIGS))
        extra = u[3] if len(u) > 3 else []
        for c in cfgs:
            jobs.append((os.path.join(build.VERIF, "drivers", src), c, tuple(extra), os.path.join(tmp, "%s.%s.%d.ll" % (src.replace("/", "_"), c, len(jobs)))))
    with mp.Pool(8) as pool: comp = pool.map(ai_compile, jobs, 1)
    ents = []
    from .llvmc import Module
    tmo = 100 if tier == "quick" else 600
    for (src, cfg, extra, out), err in comp:
        rel = os.path.relpath(src, build.VERIF) + "".join(" " + x for x in extra)
        res["units"].append("%s [%s]" % (rel, cfg))
        if err:
            # a scenario of valid library use does not compile any more
            lines = inline_header(err)
            if any("stub" in x for x in extra):
                # the stand-in may lack what the code now uses: nothing is decided (C01 compiles the header against the real library)
                res["pending"].append((rel, cfg, "the stand-in does not provide: " + (lines[0] if lines else err[:200]))); res["stub"] = True
                continue
            inrepo = any("NazaraUtils/" in l for l in err.splitlines() if "error" in l or "note" in l) or any("nazara" in l.lower() for l in err.splitlines())
            if inrepo:
                res["viol"].append(dict(entry=rel + " [" + cfg + "]", kind="ill-formed", site=lines[0][:200] if lines else "?", msg="valid use of the library does not compile: " + (lines[0] if lines else err[:300]), witness=None, stack=[err[:3000]], events=[]))
            else: res["errors"].append("cannot compile %s: %s" % (rel, err[:3000]))
            continue
        m = _mods[out] = Module(out)
        names = [f for f in m.fnptr if f.startswith("d_") and not m.L.LLVMIsDeclaration(m.fnptr[f])]
        if not names: res["errors"].append("no scenario in " + rel)
        for n in names: ents.append((out, n, cfg, tmo, seed, rel))
    end = [res["t0"] + (760 if tier == "quick" else 840)]; pend = {(e[5], e[2], e[1]) for e in ents}
    assert len(pend) == len(ents)
    def got(r):
        pend.discard((r["unit"], r["cfg"], r["entry"]))
        res["entries"].append(r)
        for v in r["viol"]:
            v["cfg"] = r["cfg"]; v["unit"] = r["unit"]; res["viol"].append(v)
            if not known_of(v, res["known"]): end[0] = min(end[0], time.time() + 10)   # one is enough: collect what is nearly there
        if r["err"]: res["errors_soft"].append("%s: %s" % (r["entry"], r["err"]))
        if not r["err"] and not r["viol"] and not r["und"] and not r["ends"] and not r["obl"]:
            res["errors"].append("scenario %s is vacuous" % r["entry"])
    fork_each(ents, 8, end, got)
    res["pending"] += sorted(pend)

# ------------------------------------------------------------------ compile-time witnesses
COMPILERS = [("clang", build.CLANG), ("gcc", "/usr/bin/g++")]
def wit_job(job):
    src, comp, std, defs, expect, tag, cid = job
    exe = dict(COMPILERS)[comp]
    cmd = [exe, "-std=" + std, "-fsyntax-only", "-w", "-I", build.REPO + "/include", "-I", build.VERIF + "/drivers", "-x", "c++", src] + list(defs)
    if comp == "clang": cmd += ["-ferror-limit=40", "-fconstexpr-steps=100000000"]
    else: cmd += ["-fmax-errors=40", "-fconstexpr-ops-limit=1000000000"]
    r = subprocess.run(cmd, capture_output=True, text=True)
    return job, r.returncode, r.stderr
def run_wit(spec, tier, seed, tmp, res):
    """witness programs: those that must build, and variants (one macro each) that must be rejected"""
    from . import witness
    jobs = witness.jobs(spec, tier, tmp)
    with mp.Pool(8) as pool:
        for job, rc, err in pool.imap_unordered(wit_job, jobs, 1):
            src, comp, std, defs, expect, tag, cid = job
            res["wit"].append((tag, comp, std, expect, rc == 0))
            name = "%s [%s %s %s]" % (tag, comp, std, " ".join(defs))
            if expect == "ok" and rc:
                errs = [l for l in err.splitlines() if re.search(r"\berror\b", l)]
                msg = errs[0] if errs else err[:300]
                # prefer the witness line that instantiates the failing construct
                loc = [l for l in err.splitlines() if os.path.basename(src) in l]
                res["viol"].append(dict(entry=tag, kind="witness", site=(loc[0] if loc else msg)[:300], msg="a witness program is rejected: " + msg[:400], witness=name, stack=[err[:4000]], events=[], cfg=comp + " " + std, unit=tag))
            elif expect == "fail" and not rc:
                res["viol"].append(dict(entry=tag, kind="witness", site=" ".join(defs), msg="a program that must be rejected compiles: %s" % name, witness=name, stack=[], events=[], cfg=comp + " " + std, unit=tag))

def known_of(v, known):
    for k in known:
        if k["entry"] == v["entry"] and k["kind"] == v["kind"].split(":")[0] and k["msg"] in v["msg"]: return k
def vkey(v): return (v["entry"], v["kind"], v["msg"])
def main(here, argv):
    from .spec import SPEC
    pid = argv[0]; tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in argv: tier = argv[argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    spec = SPEC[pid]; t0 = time.time()
    kf = os.path.join(here, "known-findings.json"); known = []
    if os.path.exists(kf): known = [k for k in json.load(open(kf))["findings"] if k["property"] == pid]
    res = dict(t0=t0, known=known, pending=[], units=[], entries=[], viol=[], errors=[], errors_soft=[], wit=[], lint=[])
    os.makedirs(os.path.join(here, "evidence"), exist_ok=True)
    tmp = tempfile.mkdtemp(prefix="nzsa_")
    try:
        if "ai" in spec: run_ai(spec, tier, seed, tmp, res)
        if "wit" in spec: run_wit(spec, tier, seed, tmp, res)
        if "lint" in spec:
            from . import coexist
            coexist.run(spec, tier, seed, tmp, res)
    finally: shutil.rmtree(tmp, ignore_errors=True)
    new = []; hit = []
    for v in res["viol"]:
        k = known_of(v, known)
        if k is None: new.append(v)
        elif k not in hit: hit.append(k)
    allo = [(e["unit"], e["cfg"], e["entry"]) + tuple(o) for e in res["entries"] for o in e["obl"]]
    ok = sum(1 for o in allo if o[-1] == "ok"); und = [o for o in allo if o[-1] == "undecided"]
    wok = sum(1 for w in res["wit"] if (w[3] == "ok") == w[4])
    lob = sum(l[2] for l in res["lint"]); lbad = sum(l[3] for l in res["lint"])
    nob = len(allo) + len(res["wit"]) + lob; ndis = ok + wok + lob - lbad
    cov = dict(obligations=nob, discharged=ndis, checker_cmd="python3 check.py %s" % pid,
               trusted_base=["clang/LLVM 18 front end (source to IR)", "the abstract interpreter in nzsa/ and its models of the allocation, exception and probe primitives"] if "ai" in spec else ["gcc 13 and clang 18 type checkers"],
               explanation=spec.get("explain", ""),
               units=res["units"], scenarios=len(res["entries"]),
               functions_analysed=len({f for e in res["entries"] for f in e["fns"]}),
               abstract_steps=sum(e["steps"] for e in res["entries"]), inductive_loops=sum(e["loops"]["inductive"] for e in res["entries"]), unrolled_iterations=sum(e["loops"]["unrolled"] for e in res["entries"]),
               undecided=[dict(unit=e["unit"], cfg=e["cfg"], entry=e["entry"], kind=u[0], where=u[1], why=u[2][:300]) for e in res["entries"] for u in e["und"]][:60],
               not_reached=["%s [%s] %s" % x for x in res["pending"]][:60],
               internal=[x[:600] for x in res["errors_soft"]][:10],
               sites=sorted({o[4] for o in allo if "NazaraUtils" in o[4]})[:400],
               functions=sorted({f[:160] for e in res["entries"] for f in e["fns"]})[:300])
    if res["lint"]:
        rules = {}
        for r, tag, n, b in res["lint"]: rules.setdefault(r, [0, 0]); rules[r][0] += n; rules[r][1] += 1
        cov["rules"] = {r: dict(constructs_examined=n, units=u) for r, (n, u) in sorted(rules.items())}
        cov["trusted_base"] = ["clang 18's syntax tree, IR linkages and preprocessor; gcc 13's and clang 18's layouts", "the rules of nzsa/coexist.py"]
    if res["wit"]:
        cov["witness_programs"] = len(res["wit"]); cov["must_build"] = sum(1 for w in res["wit"] if w[3] == "ok"); cov["must_be_rejected"] = sum(1 for w in res["wit"] if w[3] == "fail")
    ev = dict(property=pid, tier=tier, seed=seed, level=spec["level"], coverage=cov, assumptions=spec.get("assume", []), wall_s=round(time.time() - t0, 2), violations=len(new))
    evp = os.path.join(here, "evidence", pid + ".json")
    json.dump(ev, open(evp, "w"), indent=1)
    print("%s: %d scenarios, %d witness programs, %d obligations, %d discharged, %d undecided, %.1fs" % (pid, len(res["entries"]), len(res["wit"]) + len({l[1] for l in res["lint"]}), nob, ndis, len(und), time.time() - t0))
    for e in res["entries"]:
        for u in e["und"]: print("UNDECIDED %s [%s] %s at %s: %s" % (e["entry"], e["cfg"], u[0], u[1], u[2][:200]))
    for x in res["pending"]: print("NOT REACHED %s [%s] %s" % x)
    for e in res["errors_soft"]: print("INTERNAL " + e[:1500])
    for k in hit: print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    if new:
        rp = os.path.join(here, "evidence", pid + ".violations.json")
        json.dump(new, open(rp, "w"), indent=1, default=str)
        for v in new[:10]:
            print("  %s: %s: %s" % (v["site"], v["kind"], v["msg"]))
            print("    scenario %s  witness %s" % (v["entry"], v["witness"]))
            for l in v["stack"][:8]: print("      " + l[:300])
            if v.get("calls"): print("    library functions on this path: " + ", ".join(v["calls"][-14:]))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        return 1
    if res["errors"]:
        for e in res["errors"]: print("ERROR " + e[:2000])
        return 2
    if (nob == 0 or ndis == 0) and not res.get("stub"):
        print("ERROR nothing was analysed"); return 2
    return 0
