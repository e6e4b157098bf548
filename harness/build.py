#!/usr/bin/env python3
"""Builds a harness binary from /repo's current working tree.

  build.py OUTDIR VARIANT BINARY SOURCE...

VARIANT: asan | plain | tsan.  Library objects come from /repo/lib (the list in
lib/Makefile.am), with tool/constraints_polylib.c in place of the assert(0)
stubs of libpluto_dummy.c, and the stand-ins for what the sandbox lacks.
Objects are cached under OUTDIR by a hash of everything that goes into them, so
a changed source file is always recompiled.
"""
import hashlib, os, re, subprocess, sys, glob
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get("PLUTO_REPO", "/repo")
HERE = os.path.dirname(os.path.abspath(__file__))


def fail(msg):
    sys.stderr.write("build: %s\n" % msg)
    sys.exit(2)


def lib_sources():
    txt = open(REPO + "/lib/Makefile.am").read().replace("\\\n", " ")
    m = re.search(r"^libpluto_la_SOURCES\s*=(.*)$", txt, re.M)
    if not m:
        fail("no libpluto_la_SOURCES")
    return [f for f in m.group(1).split() if f.endswith((".c", ".cpp"))]


def main():
    out, variant, binary = sys.argv[1:4]
    srcs = sys.argv[4:]
    os.makedirs(out + "/gen", exist_ok=True)
    ver = re.search(r"^AC_INIT\(\[pluto\],\[([^]]*)\]", open(REPO + "/configure.ac").read(), re.M)

    def write(path, text):
        if not os.path.exists(path) or open(path).read() != text:
            open(path, "w").write(text)

    write(out + "/gen/version.h", '#define PLUTO_VERSION "%s"\n' % (ver.group(1) if ver else "?"))
    flags = ["-g1", "-fPIC", "-w", "-DGLPK", "-DLIB_PLUTO", "-DSCOPLIB_INT_T_IS_LONGLONG",
             "-DCLOOG_INT_GMP", "-I" + REPO + "/include", "-I" + REPO + "/lib",
             "-I" + out + "/gen", "-I" + HERE, "-include", HERE + "/absent_isl.h"]
    san = []
    if variant == "asan":
        flags += ["-O1", "-fno-omit-frame-pointer"]
        san = ["-fsanitize=address", "-D_GLIBCXX_ASSERTIONS"]
    elif variant == "ubsan":
        flags += ["-O1", "-fno-omit-frame-pointer"]
        san = ["-fsanitize=address,undefined", "-fno-sanitize-recover=undefined",
               "-D_GLIBCXX_ASSERTIONS"]
    elif variant == "dbg":
        flags += ["-O0", "-g3"]
    elif variant == "cov":  # development: which lines the checks reach
        flags += ["-O0", "-DPBT_COV"]
        san = ["--coverage"]
    elif variant == "tsan":
        flags += ["-O1"]
        san = ["-fsanitize=thread"]
    else:
        flags += ["-O1", "-D_GLIBCXX_ASSERTIONS"]
    jobs = []
    for f in lib_sources():
        if f == "libpluto_dummy.c":
            continue
        p = REPO + "/lib/" + f
        jobs.append((p, san))
    jobs.append((REPO + "/tool/constraints_polylib.c", san + ["-I" + REPO + "/tool"]))
    jobs.append((HERE + "/standins.c", []))
    jobs.append((HERE + "/standins_pip.c", san))
    for s in srcs:
        jobs.append((HERE + "/" + s, san))
    hdr = hashlib.sha256()
    for h in sorted(glob.glob(REPO + "/lib/*.h") + glob.glob(REPO + "/include/pluto/*.h") +
                    glob.glob(REPO + "/tool/*.h") + glob.glob(HERE + "/*.h*") + glob.glob(HERE + "/*/*.h") +
                    [out + "/gen/version.h"]):
        hdr.update(h.encode() + b"\0" + open(h, "rb").read())
    hdr = hdr.hexdigest()

    def compile(job):
        p, extra = job
        cxx = p.endswith(".cpp")
        cmd = ["g++", "-std=c++17"] if cxx else ["gcc"]
        cmd += flags + extra + ["-c", p]
        key = hashlib.sha256((hdr + " ".join(cmd)).encode() + open(p, "rb").read()).hexdigest()[:24]
        o = "%s/%s-%s.o" % (out, os.path.basename(p), key)
        if not os.path.exists(o):
            tmp = "%s.%d.tmp" % (o, os.getpid())
            r = subprocess.run(cmd + ["-o", tmp], capture_output=True, text=True)
            if r.returncode:
                return None, "%s\n%s" % (" ".join(cmd), r.stderr[-3000:])
            os.rename(tmp, o)
        return o, None

    with ThreadPoolExecutor(8) as ex:
        res = list(ex.map(compile, jobs))
    for o, e in res:
        if e:
            fail("cannot compile:\n" + e)
    objs = [o for o, _ in res]
    link = ["g++"] + [s for s in san if s.startswith(("-f", "--"))] + objs + \
        ["-o", binary + ".%d.tmp" % os.getpid(), "-lisl", "-lgmp", "-lglpk", "-lpolylib64", "-lgomp", "-lm", "-lpthread"]
    r = subprocess.run(link, capture_output=True, text=True)
    if r.returncode:
        fail("cannot link:\n" + r.stderr[-3000:])
    os.rename(binary + ".%d.tmp" % os.getpid(), binary)


if __name__ == "__main__":
    main()
