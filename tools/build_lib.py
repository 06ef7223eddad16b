#!/usr/bin/env python3
"""Build e-antic's libraries and the verification harness from /repo's working tree.

usage: build_lib.py KIND...   with KIND in: asan (static objects + harness), plain (shared libs for Python), tsan, fuzz

Output goes to /verif/build/<content hash>/<kind>/ -- the key is a hash of every
source that is compiled, so a stale product can never be used.  Prints the
directory of each kind, one per line.  Exit 0 ok; exit 3 when /repo does not
compile (that is a broken tree, not a verdict on a property).
"""
import hashlib, os, re, shutil, subprocess, sys, time, fcntl
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("EANTIC_REPO", "/repo")
LIB = os.path.join(REPO, "libeantic")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
HARNESS = os.path.join(VERIF, "harness")

SAN = ["-fsanitize=address,undefined", "-fno-sanitize-recover=undefined", "-fno-omit-frame-pointer"]
KINDS = {
    "asan": dict(cc="clang", cxx="clang++", flags=["-O1", "-g1"] + SAN, ld=SAN),
    "plain": dict(cc="gcc", cxx="g++", flags=["-O2", "-fPIC"], ld=[]),
    "vg": dict(cc="clang", cxx="clang++", flags=["-O0", "-g1"], ld=[]),
    "tsan": dict(cc="clang", cxx="clang++", flags=["-O1", "-g1", "-fsanitize=thread", "-fno-omit-frame-pointer"], ld=["-fsanitize=thread"]),
    "fuzz": dict(cc="clang", cxx="clang++", flags=["-O1", "-g1", "-fsanitize=fuzzer-no-link"] + SAN, ld=["-fsanitize=fuzzer"] + SAN),
}
COMMON = ["-w", "-DBUILD_LIBEANTIC", "-DHAVE_CONFIG_H"]
CXXSTD = ["-std=gnu++14"]
LDLIBS = ["-lflint", "-lmpfr", "-lgmpxx", "-lgmp", "-lm", "-lpthread"]

def sources():
    def from_am(path, ext):
        text = open(path).read().replace("\\\n", " ")
        out = []
        for m in re.finditer(r"^\s*libeantic(?:xx)?_la_SOURCES\s*\+?=(.*)$", text, re.M):
            out += [w for w in m.group(1).split() if w.endswith(ext)]
        return out
    c = [os.path.join(LIB, "src", f) for f in from_am(os.path.join(LIB, "src/Makefile.am"), ".c")]
    cxx = [os.path.join(LIB, "srcxx", f) for f in from_am(os.path.join(LIB, "srcxx/Makefile.am"), ".cpp")]
    # the FLINT < 3 compatibility sources are not part of a FLINT 3 build
    c = [f for f in c if "/upstream/" not in f]
    c = list(dict.fromkeys(os.path.normpath(f) for f in c))
    return c, list(dict.fromkeys(cxx))

def tree_hash():
    h = hashlib.sha256()
    roots = [os.path.join(LIB, d) for d in ("src", "srcxx", "e-antic", "upstream")] + [HARNESS, os.path.join(VERIF, "tools", "build_lib.py")]
    files = []
    for r in roots:
        if os.path.isfile(r):
            files.append(r)
        for d, dn, fn in os.walk(r, followlinks=False):
            dn.sort()
            files += [os.path.join(d, f) for f in fn if f.endswith((".c", ".cpp", ".h", ".hpp", ".in", ".am"))]
    for f in sorted(f for f in files if os.path.exists(f)):
        h.update(f.encode()); h.update(b"\0"); h.update(open(f, "rb").read()); h.update(b"\0")
    return h.hexdigest()[:20]

HDR = None
def header_hash():
    global HDR
    if HDR is None:
        h = hashlib.sha256()
        for r in (LIB, HARNESS):
            fs = []
            for d, dn, fn in os.walk(r, followlinks=False):
                fs += [os.path.join(d, f) for f in fn if f.endswith((".h", ".hpp", ".in"))]
            for f in sorted(fs):
                if os.path.exists(f):
                    h.update(f.encode()); h.update(open(f, "rb").read())
        h.update(open(os.path.abspath(__file__), "rb").read())
        HDR = h.digest()
    return HDR

def compile_one(cmd, kind, log):
    """Compile through a content-addressed object cache (source, all headers, flags)."""
    src, out = cmd[-3], cmd[-1]
    cache = os.path.join(BUILD, "objcache")
    os.makedirs(cache, exist_ok=True)
    key = hashlib.sha256(header_hash() + open(src, "rb").read() + "\0".join([kind] + [c for c in cmd[:-1] if "/include" not in c]).encode()).hexdigest()[:32]
    c = os.path.join(cache, key + ".o")
    if os.path.exists(c):
        os.utime(c)
        shutil.copyfile(c, out)
        return 0
    rc = run(cmd, log)
    if rc == 0:
        shutil.copyfile(out, c + ".tmp%d" % os.getpid() + os.path.basename(out)[-20:])
        os.replace(c + ".tmp%d" % os.getpid() + os.path.basename(out)[-20:], c)
    return rc

def run(cmd, log):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        log.append(" ".join(cmd) + "\n" + p.stdout)
    return p.returncode

def generate_headers(inc, libdir):
    os.makedirs(os.path.join(inc, "e-antic"), exist_ok=True)
    src = open(os.path.join(LIB, "e-antic/local.h.in")).read()
    src = re.sub(r"@libdir@", libdir, src)
    open(os.path.join(inc, "e-antic/local.h"), "w").write(src)
    defs = "HAVE_BOOST_LEXICAL_CAST_HPP HAVE_CXX14 HAVE_DLFCN_H HAVE_FLINT_FLINT_H HAVE_FLINT_FMPQ_H HAVE_FLINT_FMPZ_H HAVE_INTTYPES_H HAVE_LIBFLINT HAVE_LIBGMP HAVE_LIBMPFR HAVE_STDINT_H HAVE_STDIO_H HAVE_STDLIB_H HAVE_STRINGS_H HAVE_STRING_H HAVE_SYS_STAT_H HAVE_SYS_TYPES_H HAVE_UNISTD_H STDC_HEADERS".split()
    with open(os.path.join(inc, "e-antic/config.generated.h"), "w") as f:
        for d in defs:
            f.write("#define %s 1\n" % d)
        f.write('#define PACKAGE "libeantic"\n#define PACKAGE_VERSION "2.0.2"\n#define VERSION "2.0.2"\n')

def build(kind, base):
    k = KINDS[kind]
    out = os.path.join(base, kind)
    if os.path.exists(os.path.join(out, "DONE")):
        return out
    os.makedirs(out, exist_ok=True)
    inc = os.path.join(out, "include")
    generate_headers(inc, out)
    c, cxx = sources()
    incs = ["-I" + os.path.join(inc, "e-antic"), "-I" + inc, "-I" + LIB]
    log, objs, jobs = [], [], []
    def obj(f, tag):
        o = os.path.join(out, tag + "_" + os.path.relpath(f, "/").replace("/", "_") + ".o")
        return o
    hobjs = []
    for f in cxx:
        o = obj(f, "x"); objs.append(o)
        jobs.append([k["cxx"]] + CXXSTD + k["flags"] + COMMON + incs + ["-c", f, "-o", o])
    if kind in ("asan", "fuzz", "tsan", "vg"):
        hs = sorted(f for f in os.listdir(HARNESS) if f.endswith(".cpp"))
        for f in hs:
            if kind == "tsan" and not f.startswith("tsan_") and f not in ("engine.cpp", "main.cpp", "oracle.cpp", "gen.cpp", "ops.cpp", "fmpz_alloc.cpp"): continue
            if kind != "tsan" and f.startswith("tsan_"): continue
            if f.startswith("fuzz_") and kind != "fuzz": continue
            if f == "main.cpp" and kind == "fuzz": continue
            p = os.path.join(HARNESS, f)
            o = obj(p, "h"); hobjs.append(o)
            # this file writes machine code: ThreadSanitizer has no shadow for that memory
            kf = [x for x in k["flags"] if not (f == "fmpz_alloc.cpp" and x == "-fsanitize=thread") and x != "-fsanitize=fuzzer-no-link"]
            jobs.append([k["cxx"], "-std=gnu++17"] + kf + COMMON + incs + ["-I" + HARNESS, "-c", p, "-o", o])
    for f in c:
        o = obj(f, "c"); objs.append(o)
        jobs.append([k["cc"]] + k["flags"] + COMMON + incs + ["-c", f, "-o", o])
    with ThreadPoolExecutor(os.cpu_count() or 8) as ex:
        rcs = list(ex.map(lambda j: compile_one(j, kind, log), jobs))
    if any(rcs):
        sys.stderr.write("\n".join(log)[:8000] + "\n")
        sys.exit(3)
    if kind == "plain":
        cobjs = [o for o in objs if os.path.basename(o).startswith("c_")]
        xobjs = [o for o in objs if os.path.basename(o).startswith("x_")]
        rc = run([k["cc"], "-shared", "-Wl,-soname,libeantic.so"] + cobjs + ["-o", os.path.join(out, "libeantic.so")] + LDLIBS, log)
        rc |= run([k["cxx"], "-shared", "-Wl,-soname,libeanticxx.so"] + xobjs + ["-o", os.path.join(out, "libeanticxx.so"), "-L" + out, "-leantic"] + LDLIBS, log)
        if rc:
            sys.stderr.write("\n".join(log)[:8000] + "\n"); sys.exit(3)
    else:
        # no archive: object order does not matter and nothing is dropped
        rc = run([k["cxx"]] + k["ld"] + hobjs + objs + ["-o", os.path.join(out, "pbt")] + LDLIBS, log)
        if rc:
            sys.stderr.write("\n".join(log)[:8000] + "\n"); sys.exit(3)
    for o in objs + hobjs:
        if kind != "asan" or True:
            try: os.unlink(o)
            except OSError: pass
    open(os.path.join(out, "DONE"), "w").write("ok\n")
    return out

def main():
    os.makedirs(BUILD, exist_ok=True)
    lock = open(os.path.join(BUILD, ".lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    h = tree_hash()
    base = os.path.join(BUILD, h)
    os.makedirs(base, exist_ok=True)
    os.utime(base)
    cache = os.path.join(BUILD, "objcache")
    if os.path.isdir(cache):
        objs = sorted((os.path.join(cache, f) for f in os.listdir(cache)), key=os.path.getmtime)
        total = sum(os.path.getsize(f) for f in objs)
        while objs and total > 1500e6:
            total -= os.path.getsize(objs[0]); os.unlink(objs.pop(0))
    # keep the three most recent builds only
    old = sorted((d for d in os.listdir(BUILD) if re.fullmatch(r"[0-9a-f]{20}", d)), key=lambda d: os.path.getmtime(os.path.join(BUILD, d)))
    for d in old[:-3]:
        shutil.rmtree(os.path.join(BUILD, d), ignore_errors=True)
    for kind in sys.argv[1:]:
        print(build(kind, base))

main()
