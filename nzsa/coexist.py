"""Rules on the headers as a whole: definitions that may appear in several translation units, code run at startup,
global state, names and macros that leak, diagnostics left changed, inclusion order, layouts per configuration.
The facts come from clang's syntax tree (clang-query), the IR it generates, the preprocessor and both compilers."""
import os, re, subprocess, multiprocessing as mp
from . import build
QUERY = next((p for p in ("/usr/bin/clang-query", "/usr/lib/llvm-18/bin/clang-query", "/usr/bin/clang-query-18") if os.path.exists(p)), None)
HERE = 'isExpansionInFileMatching("include/NazaraUtils/")'
TU = "hasParent(translationUnitDecl())"
OWN = "^::([Nn]z|[Nn]azara|NAZARA)"
SYNC = 'hasType(hasUnqualifiedDesugaredType(recordType(hasDeclaration(cxxRecordDecl(matchesName("^::std::(__1::)?(atomic|atomic_flag|mutex|shared_mutex|recursive_mutex|once_flag)$"))))))'
# (rule, matcher of the violations, matcher of everything the rule looks at)
AST = [
 ("only names of the library are declared in the global namespace", 'namedDecl(%s, %s, unless(namespaceDecl()), unless(usingDirectiveDecl()), unless(matchesName("%s")))' % (TU, HERE, OWN), "decl(%s, %s)" % (TU, HERE)),
 ("the namespaces opened are the library's own, or std", 'namespaceDecl(%s, %s, unless(matchesName("%s")), unless(hasName("::std")))' % (TU, HERE, OWN), "namespaceDecl(%s, %s)" % (TU, HERE)),
 ("namespace std only receives specialisations, and swap", 'decl(hasParent(namespaceDecl(hasName("::std"))), %s, unless(classTemplatePartialSpecializationDecl()), unless(classTemplateSpecializationDecl()), unless(namedDecl(hasName("swap"))))' % HERE, 'decl(hasParent(namespaceDecl(hasName("::std"))), %s)' % HERE),
 ("no global state: variables of static storage are constant, thread-local or synchronised", 'varDecl(%s, hasGlobalStorage(), unless(isConstexpr()), unless(hasType(isConstQualified())), unless(hasType(referenceType())), unless(hasThreadStorageDuration()), unless(%s))' % (HERE, SYNC), "varDecl(%s, hasGlobalStorage())" % HERE),
 ("a using directive in the global namespace only names a namespace of the library", 'usingDirectiveDecl(%s, %s)' % (HERE, TU), 'usingDirectiveDecl(%s)' % HERE),
 ("no using directive at namespace scope names std", 'usingDirectiveDecl(%s, unless(hasAncestor(functionDecl())))' % HERE, 'usingDirectiveDecl(%s)' % HERE),
]
NOTE = re.compile(r"^(\S*?NazaraUtils/[\w.]+):(\d+):\d+: note: \"\w+\" binds here")
def headers():
    d = os.path.join(build.REPO, "include", "NazaraUtils")
    return sorted(h for h in os.listdir(d) if h.endswith(".hpp"))
def inc(hs): return "".join("#include <NazaraUtils/%s>\n" % h for h in hs)
def short(p): return re.sub(r"^.*include/(NazaraUtils/)", r"\1", p)
class Fail(Exception): pass

def ast_job(job):
    src, std, fl = job
    q = src + "." + std + ".q"
    with open(q, "w") as f:
        f.write("set output diag\nset bind-root true\n")
        for r, bad, every in AST: f.write("match %s\nmatch %s\n" % (bad, every))
    r = subprocess.run([QUERY, "-f", q, src, "--", "-std=" + std, "-w", "-x", "c++", "-I" + build.REPO + "/include"] + fl, capture_output=True, text=True)
    out = r.stdout; err = r.stderr
    if re.search(r"error:", err): return ("build", next(l for l in err.splitlines() if "error:" in l), err[:3000])
    parts = re.split(r"^(\d+) match(?:es)?\.$", out, flags=re.M)
    if len(parts) < 4 * len(AST) + 1: return ("internal", "clang-query: " + (err or out)[-1500:], "")
    res = []
    for k, (rule, bad, every) in enumerate(AST):
        hits = []
        for l in parts[4 * k].splitlines():
            m = NOTE.match(l)
            if m: hits.append((m.group(1), int(m.group(2))))
        n = int(parts[4 * k + 3])
        res.append((rule, sorted(set(hits)), n, int(parts[4 * k + 1])))
    return ("ok", res, None)

def ir_job(job):
    """linkage of everything the headers define, code run at startup"""
    src, std, fl, out = job
    cmd = [build.CLANG, "-std=" + std, "-g", "-O0", "-w", "-S", "-emit-llvm", "-I", build.REPO + "/include", "-I", build.VERIF + "/drivers", src, "-o", out] + fl
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode: return ("build", next((l for l in r.stderr.splitlines() if "error" in l), r.stderr[:300]), r.stderr[:3000])
    files = {}; sp = {}; gv = {}; gve = {}; defs = []; glob = []; ctors = {}; body = None
    for l in open(out):
        if body is not None:
            if l[0] == "}": body = None
            else: ctors[body].update(re.findall(r'@("[^"]*"|[\w.$]+)', l))
            continue
        if l[0] == "!":
            m = re.match(r'!(\d+) = !DIFile\(filename: "([^"]*)"', l)
            if m: files[m.group(1)] = m.group(2); continue
            m = re.match(r'!(\d+) = (?:distinct )?!DISubprogram\((.*)\)', l)
            if m: sp[m.group(1)] = field(m.group(2)); continue
            m = re.match(r'!(\d+) = (?:distinct )?!DIGlobalVariable\((.*)\)', l)
            if m: gv[m.group(1)] = field(m.group(2)); continue
            m = re.match(r'!(\d+) = !DIGlobalVariableExpression\(var: !(\d+)', l)
            if m: gve[m.group(1)] = m.group(2)
        elif l.startswith("define"):
            m = re.search(r"@(__cxx_global_var_init[\w.$]*)\(", l)
            if m: body = m.group(1); ctors[body] = set(); continue
            m = re.match(r'define ((?:\w+ )*?)[^@]*@("[^"]*"|[\w.$]+)\(.*!dbg !(\d+)', l)
            if m: defs.append((l.split(" @")[0], m.group(2), m.group(3)))
        elif l[0] == "@":
            m = re.match(r'@("[^"]*"|[\w.$]+) = (.*)', l)
            if m: glob.append((m.group(1), m.group(2)))
    return ("ok", (files, sp, gv, gve, defs, glob, ctors), None)
def field(s):
    f = re.search(r"\bfile: !(\d+)", s); l = re.search(r"\bline: (\d+)", s); n = re.search(r'name: "((?:[^"\\]|\\.)*)"', s); fl = re.search(r"flags: ([\w| ]+)", s)
    return (f.group(1) if f else None, int(l.group(1)) if l else 0, n.group(1) if n else "", fl.group(1) if fl else "")
WEAK = ("linkonce_odr", "weak_odr", "linkonce", "weak", "internal", "private", "available_externally")

PREFIX = re.compile(r"(?i)_*(nazara|nz)")
def pp_job(job):
    src, std, comp = job
    exe = {"clang": build.CLANG, "gcc": "/usr/bin/g++"}[comp]
    r = subprocess.run([exe, "-std=" + std, "-w", "-I", build.REPO + "/include", "-dD", "-E", "-x", "c++", src], capture_output=True, text=True)
    if r.returncode: return ("build", next((l for l in r.stderr.splitlines() if "error" in l), r.stderr[:300]), r.stderr[:3000])
    cur = ""; line = 0; bad = []; n = 0; stack = []   # stack: one list of pushes per file being read
    macros = {}   # defined by the header and not undefined again
    for l in r.stdout.splitlines():
        m = re.match(r'# (\d+) "([^"]*)"((?: \d+)*)', l)
        if m:
            nf = m.group(2); flags = m.group(3).split()
            if "1" in flags: stack.append((nf, []))
            elif "2" in flags and stack:
                f, ps = stack.pop()
                if "NazaraUtils/" in f:
                    n += 1
                    for k in ps: bad.append(("the diagnostic and packing state is left as it was found", f, k, "a push without its pop"))
            cur = nf; line = int(m.group(1)) - 1; continue
        line += 1
        if "NazaraUtils/" not in cur: continue
        m = re.match(r"#\s*(define|undef)\s+(\w+)", l)
        if m:
            n += 1
            if m.group(1) == "define": macros[m.group(2)] = (cur, line)
            elif m.group(2) in macros: del macros[m.group(2)]
            elif not PREFIX.match(m.group(2)): bad.append(("macros carry the library's prefix", cur, line, "undef %s" % m.group(2)))
            continue
        m = re.match(r"#\s*pragma\s+(.*)", l)
        if m:
            p = m.group(1)
            if re.search(r"\bpush\b", p):
                if stack: stack[-1][1].append(line)
            elif re.search(r"\bpop\b", p):
                n += 1
                if stack and stack[-1][1]: stack[-1][1].pop()
                else: bad.append(("the diagnostic and packing state is left as it was found", cur, line, "a pop without its push"))
            elif re.search(r"diagnostic\s+(ignored|warning|error)|^pack\b|optimize|push_options|target|visibility|float_control|STDC", p):
                n += 1
                if not (stack and stack[-1][1]): bad.append(("the diagnostic and packing state is left as it was found", cur, line, "changed outside any push: " + p))
    bad += [("macros carry the library's prefix", f, k, "define " + x) for x, (f, k) in macros.items() if not PREFIX.match(x)]
    return ("ok", (bad, n), None)

def syn_job(job):
    src, std, comp, fl, what = job
    exe = {"clang": build.CLANG, "gcc": "/usr/bin/g++"}[comp]
    r = subprocess.run([exe, "-std=" + std, "-w", "-fsyntax-only", "-I", build.REPO + "/include", "-x", "c++", src] + fl, capture_output=True, text=True)
    if r.returncode: return ("build", next((l for l in r.stderr.splitlines() if "error" in l), r.stderr[:300]), r.stderr[:3000])
    return ("ok", None, None)
def lay_job(job):
    src, std, comp, fl = job
    exe = {"clang": build.CLANG, "gcc": "/usr/bin/g++"}[comp]
    r = subprocess.run([exe, "-std=" + std, "-w", "-S", "-O0", "-I", build.REPO + "/include", "-x", "c++", src, "-o", "-"] + fl, capture_output=True, text=True)
    if r.returncode: return ("build", next((l for l in r.stderr.splitlines() if "error" in l), r.stderr[:300]), r.stderr[:3000])
    return ("ok", dict((a, int(b)) for a, b in re.findall(r"^((?:size|align)_\w+):\s*\n\s*\.quad\s+(\d+)", r.stdout, re.M)), None)

def call(j): return j[0](j[1])
def run(spec, tier, seed, tmp, res):
    hs = headers()
    def put(name, text):
        p = os.path.join(tmp, name)
        with open(p, "w") as f: f.write(text)
        return p
    every = put("all.cpp", inc(hs)); back = put("back.cpp", inc(reversed(hs))); twice = put("twice.cpp", inc(hs) + inc(hs) + inc(reversed(hs)))
    inst = os.path.join(build.VERIF, "witness", "C01_instantiate.cpp"); lay = os.path.join(build.VERIF, "witness", "C09_layout.cpp")
    stds = ["c++17", "c++20"]; jobs = []; kinds = []
    def add(kind, f, j, tag): jobs.append((f, j)); kinds.append((kind, tag))
    for s in stds:
        for fl in ([], ["-DNAZARA_DEBUG"]) if tier == "quick" else ([], ["-DNDEBUG"], ["-DNAZARA_DEBUG"], ["-DNAZARA_BIG_ENDIAN"]): add("ast", ast_job, (every, s, fl), "all headers [clang %s %s]" % (s, " ".join(fl)))
        for nm, src in (("all headers", every), ("witness/C01_instantiate.cpp", inst)):
            for fl in ([], ["-DNDEBUG"]): add("ir", ir_job, (src, s, fl, os.path.join(tmp, "ir%d.ll" % len(jobs))), "%s [clang %s %s]" % (nm, s, " ".join(fl)))
        for c in ("clang", "gcc"):
            for h in hs: add("pp", pp_job, (put("one_%s.cpp" % h, inc([h])), s, c), "%s [%s %s]" % (h, c, s))
            for nm, src in (("in order", every), ("in reverse order", back), ("several times", twice)): add("syn", syn_job, (src, s, c, [], nm), "all headers %s [%s %s]" % (nm, c, s))
        if tier != "quick":
            for h in hs:
                for h2 in hs:
                    if h != h2: add("syn", syn_job, (put("two_%s_%s.cpp" % (h, h2), inc([h, h2])), s, "clang", [], ""), "%s then %s [%s]" % (h, h2, s))
        for c in ("clang", "gcc"):
            for fl in ([], ["-DNDEBUG"], ["-DNAZARA_DEBUG"], ["-DNDEBUG", "-DNAZARA_ENABLE_ASSERTS"], ["-DNAZARA_NO_ASSERT"]): add("lay", lay_job, (lay, s, c, fl), "%s %s %s" % (c, s, " ".join(fl)))
    def viol(tag, rule, site, msg, stack=()):
        res["viol"].append(dict(entry=tag, kind="lint", site=site, msg=rule + ": " + msg, witness=None, stack=list(stack), events=[], cfg="", unit=tag))
    def check(rule, tag, n, bad):
        res["lint"].append((rule, tag, n, len(bad)))
        for f, l, what in bad: viol(tag, rule, "%s:%d" % (short(f), l), what)
    layouts = {}
    with mp.Pool(8) as pool: outs = pool.map(call, jobs, 1)
    for (kind, tag), (st, x, more) in zip(kinds, outs):
        if st == "internal": res["errors"].append(x); continue
        if st == "build":
            if kind == "syn" or kind == "pp" or "NazaraUtils" in (x + more): viol(tag, "the headers can be included together, in any order and several times", x[:250], "the program does not compile", [more]); res["lint"].append(("inclusion", tag, 1, 1))
            else: res["errors"].append("%s: %s" % (tag, x))
            continue
        if kind == "ast":
            for k, (rule, hits, n, nbad) in enumerate(x):
                bad = []
                for f, l in hits:
                    text = source(f, l)
                    if "names std" in rule and not re.search(r"\busing\s+namespace\s+(::\s*)?std\b", text): continue
                    if "using directive in the global" in rule and re.search(r"\busing\s+namespace\s+(::\s*)?Nz(Detail)?\s*::", text): continue
                    bad.append((f, l, text.strip()[:120]))
                if nbad and not hits: res["errors"].append("clang-query's matches have no location"); continue
                check(rule, tag, n, bad)
        elif kind == "ir":
            files, sp, gv, gve, defs, glob, ctors = x; nf = ng = 0; bad = []; badv = []; here = {}
            for head, name, d in defs:
                f = sp.get(d)
                if not f or "NazaraUtils/" not in files.get(f[0], ""): continue
                nf += 1
                if not any(w in head.split() for w in WEAK): bad.append((files[f[0]], f[1], "%s is defined in a header but is neither inline nor a template" % (f[2] or name)))
            for name, text in glob:
                m = re.findall(r"!dbg !(\d+)", text)
                for d in m:
                    v = gv.get(gve.get(d))
                    if not v or "NazaraUtils/" not in files.get(v[0], ""): continue
                    ng += 1; here[name] = (files[v[0]], v[1], v[2] or name)
                    if not any(w in text.split() for w in WEAK) and not text.startswith("external"): badv.append((files[v[0]], v[1], "%s is defined in a header but is not inline" % (v[2] or name)))
            check("functions defined in headers may be defined in several translation units", tag, nf, bad)
            check("variables defined in headers may be defined in several translation units", tag, ng, badv)
            if tag.startswith("all headers"):
                start = sorted({here[n] for i in ctors.values() for n in i if n in here})
                check("including the headers runs no code at startup", tag, max(1, ng), [(f, l, "%s is initialised by code that runs before main" % n) for f, l, n in start])
        elif kind == "pp":
            bad, n = x
            for rule in ("macros carry the library's prefix", "the diagnostic and packing state is left as it was found"): check(rule, tag, max(1, n), [(f, l, w) for r, f, l, w in bad if r == rule])
        elif kind == "syn": check("the headers can be included together, in any order and several times", tag, 1, [])
        elif kind == "lay": layouts[tag] = x
    if layouts:
        names = sorted({n for t in layouts.values() for n in t})
        if len(names) < 20: res["errors"].append("no layouts found")
        for n in names:
            groups = {}; bad = []   # one per compiler and language version: what may be linked together
            for t, d in layouts.items(): groups.setdefault(tuple(t.split()[:2]), {}).setdefault(d.get(n), []).append(t)
            for vals in groups.values():
                if len(vals) > 1: bad.append(("include/NazaraUtils/", 0, "%s is %s" % (n, "; ".join("%s in [%s]" % (v, ", ".join(ts[:3])) for v, ts in vals.items()))))
            check("the layout of a type does not depend on the build configuration", n, len(layouts), bad)
def source(f, l):
    try: return open(f).read().split("\n")[l - 1]
    except (OSError, IndexError): return ""
