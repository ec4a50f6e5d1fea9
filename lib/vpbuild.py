"""Builds the encoding (LLVM bitcode) and the native replay binaries from /repo's working tree."""
import glob, os, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
SYMX = os.path.join(VERIF, "build", "symx")
CFLAGS = ["-std=gnu11", "-w", "-g"]
# what gcc only warns about must not stop the encoding
CLANG = ["-Wno-error=implicit-function-declaration", "-Wno-error=implicit-int", "-Wno-error=int-conversion", "-Wno-error=incompatible-function-pointer-types"]
WRAPS = ["malloc", "calloc", "realloc", "free", "strdup", "strndup", "exit", "abort", "regcomp", "regfree", "rand",
         "pthread_mutex_lock", "pthread_mutex_unlock", "pthread_mutex_init", "pthread_mutex_destroy"]
# the semantic analyser is reached through lib/vp_sql.c, which first binds placeholder literals to symbolic values
WRAPS += ["semantic_analyse", "yy_scan_string"]

class BuildError(Exception):
    pass

def sh(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)
    if p.returncode:
        raise BuildError("%s\n%s" % (" ".join(cmd), p.stdout[-3000:]))
    return p.stdout

def build_engine():
    """Compiles the engine when it is missing or older than its sources."""
    src = [os.path.join(VERIF, "engine", f) for f in ("symx.cpp", "exts.h", "expr.h")]
    os.makedirs(os.path.dirname(SYMX), exist_ok=True)
    if os.path.exists(SYMX) and all(os.path.getmtime(SYMX) >= os.path.getmtime(f) for f in src):
        return
    cxx = sh(["llvm-config-18", "--cxxflags"]).split()
    cxx = [f for f in cxx if not f.startswith("-std=") and f != "-fno-exceptions"]
    ld = sh(["llvm-config-18", "--ldflags", "--libs", "core", "irreader", "support"]).split()
    tmp = SYMX + ".%d" % os.getpid()
    sh(["g++", "-std=c++17", "-O2", "-w", "-fexceptions"] + cxx + ["-fno-rtti", src[0], "-o", tmp] + ld + ["-lz3"])
    os.replace(tmp, SYMX)

def repo_sources(out):
    """Sources of the library: every .c below src except the command-line main, plus the generated lexer and parser."""
    os.makedirs(out, exist_ok=True)
    P = os.path.join(REPO, "src", "parser")
    sh(["bison", "-d", "-o", os.path.join(out, "midorisql.tab.c"), os.path.join(P, "midorisql.y")])
    sh(["flex", "--header-file=" + os.path.join(out, "midorisql.yy.h"), "-o", os.path.join(out, "midorisql.yy.c"), os.path.join(P, "midorisql.l")])
    fs = [f for f in sorted(glob.glob(os.path.join(REPO, "src", "**", "*.c"), recursive=True)) if "/src/main/" not in f]
    return fs + [os.path.join(out, "midorisql.tab.c"), os.path.join(out, "midorisql.yy.c")]

def incs(out):
    return ["-I" + os.path.join(REPO, "include"), "-I" + out, "-I" + os.path.join(VERIF, "lib"), "-I" + os.path.join(VERIF, "harness")]

def obj(f, out, suf):
    return os.path.join(out, os.path.relpath(f, "/").replace("/", "_") + suf)

PASSES = "sroa,mem2reg,simplifycfg<no-switch-to-lookup;no-hoist-common-insts;no-sink-common-insts;bonus-inst-threshold=1>"

def bc_one(f, out, defs=()):
    o = obj(f, out, ".bc")
    sh(["clang-18"] + CFLAGS + CLANG + list(defs) + ["-O0", "-Xclang", "-disable-O0-optnone", "-fno-discard-value-names", "-U_FORTIFY_SOURCE"] + incs(out) + ["-c", "-emit-llvm", f, "-o", o])
    return o

def build_lib_bc(out, rename=True):
    fs = repo_sources(out)
    with ThreadPoolExecutor(8) as ex:
        bcs = list(ex.map(lambda f: bc_one(f, out), fs))
    lib = os.path.join(out, "lib.bc")
    sh(["llvm-link-18"] + bcs + ["-o", lib])
    return lib

def build_harness_bc(lib, harness, out, defs=(), extra=()):
    fs = [harness, os.path.join(VERIF, "lib", "vp_libc.c"), os.path.join(VERIF, "lib", "vp_sql.c")] + list(extra)
    tag = os.path.splitext(os.path.basename(harness))[0] + "".join(c if c.isalnum() else "_" for c in "".join(defs))
    d = os.path.join(out, "h_" + tag)
    os.makedirs(d, exist_ok=True)
    for g in glob.glob(os.path.join(out, "*.h")):
        shutil.copy(g, d)
    bcs = [bc_one(f, d, defs) for f in fs]
    linked, final = os.path.join(d, "l.bc"), os.path.join(d, "h.bc")
    sh(["llvm-link-18", lib] + bcs + ["-o", linked])
    sh(["opt-18", "-passes=" + PASSES, linked, "-o", final])
    return final

def build_native(harness, out, defs=(), extra=(), san=True):
    """Replay binary: the real sources plus the same harness, natively, under ASan (or plain for valgrind)."""
    d = os.path.join(out, "native_%s_%s_%s" % (os.path.splitext(os.path.basename(harness))[0], "san" if san else "plain", abs(hash(tuple(defs)))))
    exe = os.path.join(d, "replay")
    if os.path.exists(exe):
        return exe
    os.makedirs(d, exist_ok=True)
    fs = repo_sources(d) + [harness, os.path.join(VERIF, "lib", "vp_native.c"), os.path.join(VERIF, "lib", "vp_sql.c")] + list(extra)
    flags = CFLAGS + ["-O1", "-fno-omit-frame-pointer"] + (["-fsanitize=address", "-fsanitize=bounds,integer-divide-by-zero,null", "-fno-sanitize-recover=all"] if san else [])
    def one(f):
        o = obj(f, d, ".o")
        mine = f.startswith(VERIF + "/lib/vp_native")
        sh(["gcc"] + flags + ([] if mine else list(defs)) + incs(d) + ["-c", f, "-o", o])
        return o
    with ThreadPoolExecutor(8) as ex:
        os_ = list(ex.map(one, fs))
    sh(["gcc"] + flags + os_ + ["-o", exe, "-lm", "-lpthread"] + ["-Wl,--wrap=" + w for w in WRAPS])
    return exe
