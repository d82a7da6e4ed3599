import os, subprocess, tempfile, hashlib, sys
CLANG = next(p for p in ("/usr/bin/clang++-18", "/usr/lib/llvm-18/bin/clang++", "/usr/bin/clang++") if os.path.exists(p))
OPT = "/usr/lib/llvm-18/bin/opt"
REPO = os.environ.get("NZ_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
class BuildError(Exception): pass
def compile_ll(src, out, std="c++20", flags=(), passes="sroa"):
    cmd = [CLANG, "-std=" + std, "-O1", "-g1", "-fno-vectorize", "-fno-builtin-std", "-Xclang", "-disable-llvm-passes", "-ffp-contract=off", "-w",
           "-I", REPO + "/include", "-I", VERIF + "/drivers", "-S", "-emit-llvm", src, "-o", out + ".0"] + [f.replace("{VERIF}", VERIF) for f in flags]
    cmd.remove("-fno-builtin-std")
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode: raise BuildError(r.stderr[-6000:])
    r = subprocess.run([OPT, "-S", "-passes=" + passes, out + ".0", "-o", out], capture_output=True, text=True)
    if r.returncode: raise BuildError(r.stderr[-3000:])
    os.unlink(out + ".0")
    return out
