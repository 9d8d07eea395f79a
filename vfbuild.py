#!/usr/bin/env python3
"""Builds the library from /repo's working tree in several configurations, plus the harness.

Everything goes to /verif/build (git-ignored), keyed by the content that was built."""
import concurrent.futures as cf
import fcntl
import hashlib
import os
import shutil
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
SRC = os.path.join(VERIF, "src")

# name -> (configure options, extra shim defines)
CONFIGS = {
    "default": ([], ["-DVF_ARC_MAX=UINT32_MAX", "-DVF_ASSERTS=0"]),
    "wide": (["--with-clabel=uint64_t", "--with-typelabel=int", "--with-pointindex=uint64_t", "--with-arcindex=uint64_t"], ["-DVF_ARC_MAX=UINT64_MAX", "-DVF_ASSERTS=0"]),
    "intmin": (["--with-clabel=int", "--with-clabel-na=min", "--with-typelabel=int", "--with-pointindex=int", "--enable-assert"], ["-DVF_ARC_MAX=UINT32_MAX", "-DVF_ASSERTS=1"]),
    "intneg": (["--with-clabel=int", "--with-clabel-na=-1", "--with-typelabel=int", "--with-pointindex=int", "--with-arcindex=uint64_t", "--enable-assert"], ["-DVF_ARC_MAX=UINT64_MAX", "-DVF_ASSERTS=1"]),
    "mixed": (["--with-clabel=int", "--with-clabel-na=max", "--with-pointindex=uint64_t"], ["-DVF_ARC_MAX=UINT32_MAX", "-DVF_ASSERTS=0"]),
}
# contents of uninitialised automatic variables
INIT = {"default": "pattern", "wide": "zero", "intmin": "zero", "intneg": "pattern", "mixed": "zero"}
COPY = ["configure", "dist_info", "LICENSE", "README.md", "doxyrefs.bib", "examples", "include", "src", "templates"]

SAN_GCC = ["-fsanitize=address,undefined", "-fno-sanitize=vla-bound,pointer-overflow", "-fno-sanitize-recover=all"]
SAN_CLANG = ["-fsanitize=address,undefined", "-fno-sanitize=vla-bound,pointer-overflow,function", "-fno-sanitize-recover=all", "-fsanitize-coverage=inline-8bit-counters,pc-table,trace-cmp"]


class BuildError(Exception):
    pass


def run(cmd, cwd=None, env=None, timeout=600):
    p = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=timeout)
    if p.returncode != 0:
        raise BuildError("%s\n%s" % (" ".join(cmd), p.stdout[-4000:]))
    return p.stdout


def hash_tree(h, root, rel):
    p = os.path.join(root, rel)
    if os.path.isdir(p):
        for f in sorted(os.listdir(p)):
            if f.endswith(".o") or f == "__pycache__":
                continue
            hash_tree(h, root, os.path.join(rel, f))
    elif os.path.exists(p):
        h.update(rel.encode() + b"\0")
        with open(p, "rb") as f:
            h.update(f.read())
        h.update(b"\0")


def key():
    h = hashlib.sha256()
    for r in COPY:
        hash_tree(h, REPO, r)
    hash_tree(h, VERIF, "src")
    with open(os.path.abspath(__file__), "rb") as f:
        h.update(f.read())
    return h.hexdigest()[:20]


def prepare_tree(d):
    tree = os.path.join(d, "tree")
    os.makedirs(tree)
    for r in COPY:
        s = os.path.join(REPO, r)
        if os.path.isdir(s):
            shutil.copytree(s, os.path.join(tree, r))
        elif os.path.exists(s):
            shutil.copy2(s, os.path.join(tree, r))
    for dp, _, fs in os.walk(tree):
        for f in fs:
            if f.endswith(".o"):
                os.unlink(os.path.join(dp, f))
    for f in ("include/scclust.h", "src/scclust_types.h"):
        p = os.path.join(tree, f)
        if os.path.exists(p):
            os.unlink(p)
    bindir = os.path.join(d, "bin")
    os.makedirs(bindir)
    with open(os.path.join(bindir, "ed"), "w") as f:
        f.write("#!/bin/sh\nsed 's/^q$/Q/' | /usr/bin/ed \"$@\"\n")
    os.chmod(os.path.join(bindir, "ed"), 0o755)
    return tree, bindir


def build_config(d, tree, bindir, name, kind):
    """kind: 'gcc' (checks) or 'fuzz' (clang with coverage)."""
    opts, defs = CONFIGS[name]
    out = os.path.join(d, "lib_%s_%s" % (kind, name))
    os.makedirs(out)
    env = dict(os.environ, PATH=bindir + ":" + os.environ["PATH"], LC_ALL="C.UTF-8")
    run(["sh", os.path.join(tree, "configure"), "-q"] + opts, cwd=out, env=env)
    cc, cxx = ("gcc", "g++") if kind == "gcc" else ("clang", "clang++")
    san = SAN_GCC if kind == "gcc" else SAN_CLANG
    common = ["-g1", "-O1", "-fPIC", "-fno-omit-frame-pointer", "-ftrivial-auto-var-init=" + INIT[name]] + san
    # only the library; the documentation and examples targets need other tools
    run(["make", "-j8", "lib/libscclust.a", "CC=" + cc, "CFLAGS=-std=c99 -w " + " ".join(common)], cwd=out, env=env)
    inc = ["-I" + SRC, "-I" + os.path.join(out, "include"), "-I" + os.path.join(out, "src")]
    xtra = [] if "--enable-assert" in opts else ["-DNDEBUG"]
    objs = []
    run([cc, "-std=c99", "-w", "-c"] + common + inc + [os.path.join(SRC, "alloc_wrap.c"), "-o", os.path.join(out, "alloc_wrap.o")])
    objs.append(os.path.join(out, "alloc_wrap.o"))
    have = []
    try:
        run([cc, "-std=gnu99", "-w", "-c"] + xtra + common + inc + [os.path.join(SRC, "shim_internal.c"), "-o", os.path.join(out, "shim_internal.o")])
        have = ["-DVF_HAVE_INTERNAL"]
    except BuildError as e:
        sys.stderr.write("note: internal entry points not available in %s: %s\n" % (name, str(e)[-600:]))
    so = os.path.join(d, "libvf_%s_%s.so" % (kind, name))
    # the ANN back end of the examples, with ANN itself as a shared library of the system
    ann = []
    try:
        os.makedirs(os.path.join(out, "ann", "include"))
        os.symlink("/usr/include/ANN", os.path.join(out, "ann", "include", "ANN"))
        run([cxx, "-std=c++11", "-w", "-c"] + xtra + common + ["-I" + out, "-I" + os.path.join(out, "ann"), os.path.join(tree, "examples", "ann", "ann_wrapper.cpp"), "-o", os.path.join(out, "ann_wrapper.o")])
        ann = ["-DVF_HAVE_ANN"]
    except (BuildError, OSError) as e:
        sys.stderr.write("note: ANN back end not available in %s: %s\n" % (name, str(e)[-600:]))

    def link(have, ann):
        o = list(objs)
        if ann:
            o.append(os.path.join(out, "ann_wrapper.o"))
        if have:
            o.append(os.path.join(out, "shim_internal.o"))
        run([cxx, "-std=c++17", "-w", "-c"] + common + inc + defs + have + ann + ["-DVF_NAME=\"%s\"" % name, os.path.join(SRC, "shim.cpp"), "-o", os.path.join(out, "shim.o")])
        o.append(os.path.join(out, "shim.o"))
        wl = ["-Wl,--wrap=malloc,--wrap=calloc,--wrap=realloc,--wrap=free", "-Wl,--wrap=_Znam,--wrap=_ZdaPv", "-Wl,-Bsymbolic"]
        if kind == "gcc":
            wl.append("-Wl,-z,defs")
        run([cxx, "-shared"] + common + wl + o + ["-Wl,--whole-archive", os.path.join(out, "lib", "libscclust.a"), "-Wl,--no-whole-archive"] + (["-lann"] if ann else []) + ["-lm", "-o", so + ".tmp"])
        os.rename(so + ".tmp", so)

    for h, a in [(have, ann), (have, []), ([], ann), ([], [])]:
        try:
            link(h, a)
            break
        except BuildError:
            if not h and not a:
                raise
            sys.stderr.write("note: %s does not link in %s\n" % (" ".join(h + a), name))
    shutil.rmtree(out)
    return so


HARNESS = ["core.cpp", "props_a.cpp", "props_b.cpp", "props_c.cpp", "props_d.cpp", "props_table.cpp"]


def build_harness(d, kind, pool):
    out = os.path.join(d, "h_" + kind)
    os.makedirs(out)
    srcs = [s for s in HARNESS if os.path.exists(os.path.join(SRC, s))]
    if kind == "gcc":
        cxx, fl, ld = "g++", ["-O1", "-g1"], ["-fsanitize=address"]
    else:
        cxx, fl, ld = "clang++", ["-O1", "-g1", "-DVF_FUZZ", "-Wno-unused-function"], ["-fsanitize=fuzzer,address,undefined", "-shared-libasan"]
        ld = ["-fsanitize=fuzzer,address,undefined", "-rdynamic"]
    futs = []
    for s in srcs:
        o = os.path.join(out, s[:-4] + ".o")
        futs.append((o, pool.submit(run, [cxx, "-std=c++17", "-Wall", "-Wextra", "-c"] + fl + ["-I" + SRC, os.path.join(SRC, s), "-o", o])))
    return out, cxx, ld, futs


def link_harness(d, kind, h):
    out, cxx, ld, futs = h
    objs = []
    for o, f in futs:
        t = f.result()
        if t.strip():
            sys.stderr.write(t)
        objs.append(o)
    exe = os.path.join(d, "harness_" + kind)
    run([cxx] + ld + objs + ["-ldl", "-o", exe + ".tmp"])
    os.rename(exe + ".tmp", exe)
    shutil.rmtree(out)
    return exe


def build(kind="gcc", configs=None):
    """Returns (directory, harness path, {config: so path})."""
    configs = list(configs or CONFIGS)
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, ".lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        k = key()
        d = os.path.join(BUILD, kind + "_" + k)
        done = os.path.join(d, "done")
        names = {c: os.path.join(d, "libvf_%s_%s.so" % (kind, c)) for c in configs}
        exe = os.path.join(d, "harness_" + kind)
        if os.path.exists(done) and all(os.path.exists(p) for p in list(names.values()) + [exe]):
            os.utime(d)
            return d, exe, names
        # keep a few recent builds only
        old = sorted((os.path.getmtime(os.path.join(BUILD, x)), x) for x in os.listdir(BUILD) if os.path.isdir(os.path.join(BUILD, x)))
        for t, x in old[:-3]:
            if time.time() - t > 3600:
                shutil.rmtree(os.path.join(BUILD, x), ignore_errors=True)
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        tree, bindir = prepare_tree(d)
        with cf.ThreadPoolExecutor(8) as pool:
            h = build_harness(d, kind, pool)
            futs = {c: pool.submit(build_config, d, tree, bindir, c, kind) for c in configs}
            for c in configs:
                futs[c].result()
            link_harness(d, kind, h)
        shutil.rmtree(tree)
        open(done, "w").close()
        return d, exe, names


if __name__ == "__main__":
    t0 = time.time()
    try:
        print(build(sys.argv[1] if len(sys.argv) > 1 else "gcc"))
    except BuildError as e:
        print("build failed:", e)
        sys.exit(2)
    print("%.1f s" % (time.time() - t0))
