#!/usr/bin/env python3
"""Builds the simulator for one or more variants from /repo's working tree.

Objects are cached under /verif/build keyed by the hash of their preprocessed text and flags, so that a
check recompiles exactly what a change to /repo affects.
"""
import hashlib, os, subprocess, sys, concurrent.futures as cf, re, fcntl, shutil, time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("TOYWASM_SRC", "/repo")
BUILD = os.environ.get("SIM_BUILD", os.path.join(VERIF, "build"))
CC = "clang"
HOOK = "TOYWASM_ENABLE_SIM_HOOKS"

BASE_ON = """TOYWASM_USE_SEPARATE_EXECUTE TOYWASM_PROCESS_INSN_WITH_SWITCH TOYWASM_USE_SHORT_ENUMS
TOYWASM_SORT_EXPORTS TOYWASM_USE_JUMP_BINARY_SEARCH TOYWASM_USE_LOCALS_FAST_PATH TOYWASM_USE_LOCALS_CACHE
TOYWASM_USE_SEPARATE_LOCALS TOYWASM_USE_SMALL_CELLS TOYWASM_USE_RESULTTYPE_CELLIDX TOYWASM_USE_LOCALTYPE_CELLIDX
TOYWASM_ENABLE_HEAP_TRACKING TOYWASM_ENABLE_HEAP_TRACKING_PEAK TOYWASM_ENABLE_WRITER TOYWASM_ENABLE_WASM_SIMD
TOYWASM_ENABLE_WASM_EXCEPTION_HANDLING TOYWASM_ENABLE_WASM_EXTENDED_CONST TOYWASM_ENABLE_WASM_MULTI_MEMORY
TOYWASM_ENABLE_WASM_TAILCALL TOYWASM_ENABLE_WASM_THREADS TOYWASM_ENABLE_WASM_CUSTOM_PAGE_SIZES
TOYWASM_ENABLE_WASM_NAME_SECTION TOYWASM_ENABLE_WASI TOYWASM_ENABLE_WASI_THREADS TOYWASM_ENABLE_DYLD
TOYWASM_ENABLE_DYLD_DLFCN""".split()

# variant: (options added, options removed, extra cflags)
VARIANTS = {
    # assertions on, one instruction per loop iteration
    "dbg": ([], [], []),
    # as shipped: assertions off, tail-call threaded interpreter
    "rel": (["TOYWASM_USE_TAILCALL"], [], ["-DNDEBUG"]),
    # user-level scheduler instead of pthreads
    "usched": (["TOYWASM_USE_USER_SCHED"], [], []),
    # shared memory allocated at its maximum up front; no optimised representations
    "prealloc": (["TOYWASM_PREALLOC_SHARED_MEMORY", "TOYWASM_USE_JUMP_CACHE"],
                 ["TOYWASM_USE_SEPARATE_EXECUTE", "TOYWASM_PROCESS_INSN_WITH_SWITCH", "TOYWASM_USE_LOCALS_CACHE",
                  "TOYWASM_USE_SEPARATE_LOCALS", "TOYWASM_USE_RESULTTYPE_CELLIDX",
                  "TOYWASM_USE_LOCALTYPE_CELLIDX", "TOYWASM_USE_LOCALS_FAST_PATH"], []),
}
HOT = {"exec.c", "insn.c"}
INSTR = ["-fsanitize=address", "-fsanitize-coverage=trace-pc-guard,trace-loads,trace-stores"]
COMMON = ["-std=gnu11", "-g1", "-O1", "-fno-omit-frame-pointer", "-fshort-enums", "-w",
          "-ftrivial-auto-var-init=pattern"]


def sh(cmd, **kw):
    return subprocess.run(cmd, check=True, stdout=subprocess.PIPE, stderr=subprocess.PIPE, **kw)


def sources(variant):
    """The source list, read from the CMake files so that added files are picked up."""
    on = options(variant)
    out = []

    def from_cmake(d, names):
        txt = open(os.path.join(REPO, d, "CMakeLists.txt")).read()
        for m in re.finditer(r'"([a-z0-9_]+\.c)"', txt):
            out.append(os.path.join(d, m.group(1)))
    for d in ("lib", "libwasi", "libwasi_threads", "libdyld"):
        from_cmake(d, None)
    txt = open(os.path.join(REPO, "CMakeLists.txt")).read()
    m = re.search(r"set\(cli_sources(.*?)\)", txt, re.S)
    out += re.findall(r'"(cli/[a-z0-9_]+\.c)"', m.group(1))
    drop = "lib/lock.c" if "TOYWASM_USE_USER_SCHED" in on else "lib/usched.c"
    res = []
    for s in out:
        if s == drop or s in res or not os.path.exists(os.path.join(REPO, s)):
            continue
        res.append(s)
    return res


def options(variant):
    add, rem, _ = VARIANTS[variant]
    return [o for o in BASE_ON if o not in rem] + add


def gen_config(variant, d):
    on = set(options(variant))
    vals = {"TOYWASM_JUMP_CACHE2_SIZE": "4", "TOYWASM_EXCEPTION_MAX_CELLS": "4", "TOYWASM_VERSION": "sim"}

    def conv(name):
        t = open(os.path.join(REPO, "lib", name + ".in")).read()
        def cmd(m):
            n, rest = m.group(1), m.group(2)
            if n in on or n == "TOYWASM_VERSION":
                return "#define %s%s" % (n, rest)
            return "/* #undef %s */" % n
        t = re.sub(r"#cmakedefine (\w+)(.*)", cmd, t)
        t = re.sub(r"@(\w+)@", lambda m: vals.get(m.group(1), "ON" if m.group(1) in on else "OFF"), t)
        p = os.path.join(d, name)
        if not os.path.exists(p) or open(p).read() != t:
            open(p, "w").write(t)
    os.makedirs(d, exist_ok=True)
    for n in ("toywasm_config.h", "toywasm_config.c", "toywasm_version.h"):
        conv(n)
    if not os.path.exists(os.path.join(d, "wasi_littlefs_config.h")):
        open(os.path.join(d, "wasi_littlefs_config.h"), "w").write("")


def redefs():
    """libc symbols that toywasm objects must reach through the simulator."""
    names = [l.strip() for l in open(os.path.join(HERE, "redirect.txt")) if l.strip() and not l.startswith("#")]
    return names


# allocations on behalf of memory contexts are counted separately
CHARGED = ("malloc", "calloc", "realloc", "free")


def compile_one(src, flags, out_cache, redef, hot):
    charged = src.endswith("/lib/mem.c")
    pre = subprocess.run([CC, "-E", "-P"] + flags + [src], stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if pre.returncode != 0:
        raise RuntimeError("preprocess %s failed:\n%s" % (src, pre.stderr.decode()[-3000:]))
    h = hashlib.sha256(pre.stdout + b"\0" + " ".join(f for f in flags if not f.startswith("-I")).encode() + b"\0" + " ".join(redef).encode() + (b"H" if hot else b"N") + (b"C" if charged else b"")
                       + os.path.basename(src).encode()).hexdigest()[:24]
    obj = os.path.join(out_cache, h + ".o")
    if os.path.exists(obj):
        os.utime(obj)
        return obj
    tmp = obj + ".%d.%s.tmp.o" % (os.getpid(), os.path.basename(src))
    r = subprocess.run([CC, "-c", "-o", tmp] + flags + [src], stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if r.returncode != 0:
        raise RuntimeError("compile %s failed:\n%s" % (src, r.stderr.decode()[-3000:]))
    if redef:
        args = []
        for n in redef:
            args += ["--redefine-sym", "%s=sim_%s%s" % (n, "mem_" if charged and n in CHARGED else "", n)]
        for n in ("__assert_fail",):
            args += ["--redefine-sym", "%s=sim%s" % (n, n)]
        if hot:
            for k in ("load", "store"):
                for n in (1, 2, 4, 8, 16):
                    args += ["--redefine-sym", "__sanitizer_cov_%s%d=simhot_cov_%s%d" % (k, n, k, n)]
        sh(["objcopy"] + args + [tmp])
    os.rename(tmp, obj)
    return obj


def build(variants, jobs=8, verbose=False):
    os.makedirs(BUILD, exist_ok=True)
    lock = open(os.path.join(BUILD, ".lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    cache = os.path.join(BUILD, "obj")
    os.makedirs(cache, exist_ok=True)
    redef = redefs()
    tasks = []
    bins = {}
    with cf.ThreadPoolExecutor(jobs) as ex:
        for v in variants:
            d = os.path.join(BUILD, v)
            gen_config(v, d)
            inc = ["-I" + d] + ["-I" + os.path.join(REPO, x) for x in ("lib", "libwasi", "libwasi_threads", "libdyld", "cli")]
            fl = COMMON + VARIANTS[v][2] + ["-D" + HOOK] + inc
            objs = []
            srcs = [os.path.join(REPO, s) for s in sources(v)] + [os.path.join(d, "toywasm_config.c")]
            srcs.sort(key=lambda s: 0 if os.path.basename(s) in HOT else 1)
            for s in srcs:
                f = fl + INSTR
                if s.endswith("cli/main.c"):
                    f = f + ["-Dmain=toywasm_cli_main"]
                objs.append(ex.submit(compile_one, s, f, cache, redef, os.path.basename(s) in HOT))
            hfl = [x for x in COMMON if x != "-DNDEBUG"] + ["-D" + HOOK, "-DSIM_VARIANT=\"%s\"" % v, "-fsanitize=address", "-Wall", "-I" + HERE] + inc
            if v == "usched":
                hfl.append("-DSIM_USCHED")
            for s in sorted(os.listdir(HERE)):
                if s.endswith(".c") or s.endswith(".S"):
                    objs.append(ex.submit(compile_one, os.path.join(HERE, s), hfl, cache, [], False))
            tasks.append((v, objs))
        for v, objs in tasks:
            files = [o.result() for o in objs]
            key = hashlib.sha256("\0".join(files).encode()).hexdigest()[:20]
            exe = os.path.join(BUILD, v, "sim-" + key)
            if os.path.exists(exe):
                os.utime(exe)
            else:
                r = subprocess.run([CC, "-fsanitize=address", "-fuse-ld=lld", "-o", exe + ".tmp"] + files + ["-lm", "-lpthread"],
                                   stdout=subprocess.PIPE, stderr=subprocess.PIPE)
                if r.returncode != 0:
                    raise RuntimeError("link %s failed:\n%s" % (v, r.stderr.decode()[-6000:]))
                os.rename(exe + ".tmp", exe)
                old = [os.path.join(BUILD, v, f) for f in os.listdir(os.path.join(BUILD, v)) if f.startswith("sim-")]
                for f in sorted(old, key=os.path.getmtime)[:-3]:
                    os.unlink(f)
            bins[v] = exe
    # bound the cache
    ents = sorted((os.path.getmtime(os.path.join(cache, f)), f) for f in os.listdir(cache))
    for _, f in ents[:-1500]:
        os.unlink(os.path.join(cache, f))
    fcntl.flock(lock, fcntl.LOCK_UN)
    return bins


if __name__ == "__main__":
    t = time.time()
    try:
        b = build(sys.argv[1:] or list(VARIANTS))
    except RuntimeError as e:
        print(e)
        sys.exit(2)
    for v, p in b.items():
        print(v, p)
    print("%.1fs" % (time.time() - t))
