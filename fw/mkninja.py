#!/usr/bin/env python3
"""Generate build.ninja for an out-of-tree, instrumented build of /repo.

The list of library sources is taken from /repo/Makefile.am, so a change that
adds or moves a source file is picked up without touching this file.  All
generated inputs (maxima, flex, cpp, cblas_order.h) are regenerated in the
build directory from the files under version control; nothing that a previous
in-tree build left in /repo is used.

usage: mkninja.py BUILDDIR VARIANT        VARIANT: asan | plain | sched
"""
import os, re, sys, glob

REPO = os.environ.get("AMINO_REPO", "/repo")
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)


def sources(var):
    """Concatenate every `var =`/`var +=` of Makefile.am (all conditionals on)."""
    txt = open(os.path.join(REPO, "Makefile.am")).read().replace("\\\n", " ")
    out = []
    for m in re.finditer(r"^%s\s*\+?=(.*)$" % re.escape(var), txt, re.M):
        out += m.group(1).split()
    return out


def main():
    bdir, variant = sys.argv[1], sys.argv[2]
    os.makedirs(os.path.join(bdir, "gen", "mac"), exist_ok=True)
    os.makedirs(os.path.join(bdir, "gen", "amino"), exist_ok=True)

    san = {
        "asan": "-O1 -g -fno-omit-frame-pointer -fsanitize=address",
        "plain": "-O1 -g",
        "sched": "-O1 -g",
    }[variant]
    inc = f"-I{bdir}/gen -I{HERE} -I{REPO}/include -I{bdir}/gen/mac -I{REPO}/src"
    cpp = f"-DHAVE_CONFIG_H {inc}"
    L = []
    w = L.append
    w(f"builddir = {bdir}")
    w(f"cpp = {cpp}")
    w(f"san = {san} -fPIC -w")
    w("rule cc\n  command = gcc $cpp $san $xf -MMD -MF $out.d -c $in -o $out\n  depfile = $out.d\n  deps = gcc")
    w("rule cxx\n  command = g++ $cpp $san $xf -MMD -MF $out.d -c $in -o $out\n  depfile = $out.d\n  deps = gcc")
    w(f"rule fc\n  command = gfortran -ffree-line-length-none $san -J{bdir}/gen -I{bdir}/gen -c $in -o $out")
    w("rule fpp\n  command = cpp $cpp -x c $in -o $out -MMD -MF $out.d -MT $out\n  depfile = $out.d\n  deps = gcc")
    w(f"rule vscc\n  command = clang $cpp -O1 -g -w -fPIC -fsanitize=thread -fexceptions -std=gnu11 -include {VERIF}/harness/vsched_pre.h $xf -MMD -MF $out.d -c $in -o $out\n  depfile = $out.d\n  deps = gcc")
    w("rule cp\n  command = cp $in $out")
    w("rule flex\n  command = flex -t $in > $out")
    w(f"rule maxima\n  command = cd {bdir}/gen/mac && rm -f $o && HOME={bdir}/gen maxima --very-quiet -b $m >/dev/null 2>&1; test -s $o")
    w("rule ar\n  command = rm -f $out && ar crs $out $in")
    w("rule solink\n  command = g++ $san -shared -o $out -Wl,--whole-archive $in -Wl,--no-whole-archive $libs")
    w("rule pluglink\n  command = g++ $san -shared -o $out $in")
    w("rule link\n  command = g++ $san $lf -o $out $in $libs")

    # generated inputs
    w(f"build {bdir}/gen/amino/cblas_order.h: cp {HERE}/cblas_order.h")
    for f in glob.glob(REPO + "/src/mac/*.mac"):
        w(f"build {bdir}/gen/mac/{os.path.basename(f)}: cp {f}")
    w(f"build {bdir}/gen/mac/euler.f: maxima {bdir}/gen/mac/euler77.mac | {bdir}/gen/mac/amino.mac\n  m = euler77.mac\n  o = euler.f")
    w(f"build {bdir}/gen/mac/aa_ls_se3.f90: maxima {bdir}/gen/mac/ls.mac | {bdir}/gen/mac/amino.mac {bdir}/gen/mac/euler.f\n  m = ls.mac\n  o = aa_ls_se3.f90")
    w(f"build {bdir}/gen/wavefront.c: flex {REPO}/src/wavefront/wavefront.l")
    w(f"build {bdir}/gen/mtl.c: flex {REPO}/src/wavefront/mtl.l")
    fsrc = []
    for f in glob.glob(REPO + "/src/*.F90"):
        w(f"build {bdir}/gen/{os.path.basename(f)}: cp {f}")
        fsrc.append(f"{bdir}/gen/{os.path.basename(f)}")
    fsrc = " ".join(fsrc)
    w(f"build {bdir}/gen/mem_mod.f90: fpp {bdir}/gen/mem_mod.F90 | {fsrc}")
    w(f"build {bdir}/gen/la_mod.f90: fpp {bdir}/gen/la_mod.F90 | {fsrc} {bdir}/gen/mac/aa_ls_se3.f90")
    w(f"build {bdir}/gen/tf_mod.f90: fpp {bdir}/gen/tff.F90 | {fsrc}")
    w(f"build {bdir}/obj/mem_mod.o: fc {bdir}/gen/mem_mod.f90")
    w(f"build {bdir}/obj/la_mod.o: fc {bdir}/gen/la_mod.f90 | {bdir}/obj/mem_mod.o")
    w(f"build {bdir}/obj/tf_mod.o: fc {bdir}/gen/tf_mod.f90 | {bdir}/obj/la_mod.o")
    w(f"build {bdir}/obj/euler.o: fc {bdir}/gen/mac/euler.f")

    gen_dep = f"{bdir}/gen/amino/cblas_order.h"

    def obj(src, xf=""):
        name = src.replace("/", "_")
        o = f"{bdir}/obj/{name}.o"
        path = src if src.startswith("/") else f"{REPO}/{src}"
        rule = "cc" if src.endswith(".c") else "cxx"
        w(f"build {o}: {rule} {path} || {gen_dep}\n  xf = {xf}")
        return o

    objs = []
    for s in dict.fromkeys(sources("libamino_la_SOURCES")):
        if s == "euler.c" or s.endswith(".f") or "$(" in s or s.endswith(".h"):
            continue
        objs.append(obj(s, "-std=c++14 -I/usr/include/eigen3" if s.endswith(".cpp") else ""))
    for g in ("wavefront", "mtl"):
        w(f"build {bdir}/obj/{g}.lex.o: cc {bdir}/gen/{g}.c || {gen_dep}\n  xf = -I{REPO}/src/wavefront")
        objs.append(f"{bdir}/obj/{g}.lex.o")
    objs += [f"{bdir}/obj/{x}.o" for x in ("mem_mod", "la_mod", "tf_mod", "euler")]
    w(f"build {bdir}/libamino.a: ar {' '.join(objs)}")
    w(f"build lib: phony {bdir}/libamino.a")

    cl = [obj(s, "-std=c++14 -I/usr/include/eigen3")
          for s in dict.fromkeys(sources("libamino_collision_la_SOURCES")) if s.endswith((".c", ".cpp"))]
    w(f"build {bdir}/libamino-collision.a: ar {' '.join(cl)}")
    pl = [obj(s, "-std=c++14 -I/usr/include/ompl-1.5 -I/usr/include/eigen3")
          for s in dict.fromkeys(sources("libamino_planning_la_SOURCES")) if s.endswith((".c", ".cpp"))]
    w(f"build {bdir}/libamino-planning.a: ar {' '.join(pl)}")

    base = "-lnlopt -lglpk -llpsolve55_pic -lClp -lCoinUtils -lm -llapack -lblas -lcolamd -loctomap -loctomath -lgfortran -lquadmath -lpthread -ldl"
    w(f"build {bdir}/libamino.so: solink {bdir}/libamino.a\n  libs = {base}")
    w(f"build {bdir}/libamino-collision.so: solink {bdir}/libamino-collision.a | {bdir}/libamino.so\n  libs = -L{bdir} -lamino -lfcl -lccd {base}")

    w(f"build {bdir}/libamino-planning.so: solink {bdir}/libamino-planning.a | {bdir}/libamino.so {bdir}/libamino-collision.so\n  libs = -L{bdir} -lamino-collision -lamino -lompl -lode -lfcl -lccd -lboost_serialization -lboost_filesystem -lboost_system {base}")

    # Python harnesses: a script that runs one against the libraries above and the repository's Python sources
    if variant == "asan":
        os.makedirs(os.path.join(bdir, "pystub"), exist_ok=True)
        w(f"build {bdir}/obj/gl_stub.o: cc {VERIF}/harness/py/gl_stub.c\n  xf =")
        w(f"build {bdir}/pystub/libamino-gl.so: solink {bdir}/obj/gl_stub.o\n  libs =")
        for h in sorted(glob.glob(VERIF + "/harness/*.py")):
            n = os.path.basename(h)[:-3]
            os.makedirs(os.path.join(bdir, "bin"), exist_ok=True)
            sh = os.path.join(bdir, "gen", n + ".sh")
            txt = ("#!/bin/sh\nB=$(cd \"$(dirname \"$0\")/..\" && pwd)\n"
                   f"export LD_LIBRARY_PATH=\"$B/pystub:$B\" PYTHONPATH=\"{HERE}:{REPO}/python\" PYTHONMALLOC=malloc PYTHONDONTWRITEBYTECODE=1 MC_REPO=\"{REPO}\"\n"
                   "export ASAN_OPTIONS=detect_leaks=0:max_free_fill_size=65536:free_fill_byte=255:malloc_fill_byte=254:max_malloc_fill_size=65536:abort_on_error=0:allocator_may_return_null=1\n"
                   "export LD_PRELOAD=\"$(gcc -print-file-name=libasan.so) $(gcc -print-file-name=libstdc++.so)\"\n"
                   f"exec {sys.executable} \"{h}\" \"$@\"\n")
            if not os.path.exists(sh) or open(sh).read() != txt:
                open(sh, "w").write(txt)
                os.chmod(sh, 0o755)
            w(f"build {bdir}/bin/{n}: cp {sh} | {bdir}/libamino.so {bdir}/libamino-collision.so {bdir}/libamino-planning.so {bdir}/pystub/libamino-gl.so")

    # compiled scenes: shared objects loaded at run time
    for x in "ab":
        w(f"build {bdir}/obj/plugin-{x}.o: cc {VERIF}/harness/plugins/plug.c || {gen_dep}\n  xf = -fPIC -DPLUG_{x.upper()}")
        w(f"build {bdir}/plugin-{x}.so: pluglink {bdir}/obj/plugin-{x}.o")

    # framework + harnesses
    w(f"build {bdir}/obj/mc.o: cxx {HERE}/mc.cpp\n  xf = -std=c++17")
    mc = f"{bdir}/obj/mc.o"
    for h in sorted(glob.glob(VERIF + "/harness/*.cpp") + glob.glob(VERIF + "/harness/*.c")):
        txt = open(h).read()
        n = os.path.basename(h).rsplit(".", 1)[0]
        if re.search(r"^// *NOBUILD", txt, re.M):
            continue
        m = re.search(r"^// *LIBS:(.*)$", txt, re.M)
        libs = m.group(1).split() if m else []
        m = re.search(r"^// *XF:(.*)$", txt, re.M)
        xf = m.group(1).strip().replace("@REPO@", REPO) if m else ""
        m = re.search(r"^// *VARIANT:(.*)$", txt, re.M)
        hv = m.group(1).split() if m else ["asan"]
        if variant not in hv:
            continue
        m = re.search(r"^// *EXTRA:(.*)$", txt, re.M)
        extra = []
        for e in (m.group(1).split() if m else []):
            f, _, fl = e.partition("?")
            f = f.replace("@REPO@", REPO)
            eo = f"{bdir}/obj/{n}.{os.path.basename(f)}.o"
            rule = "cc" if f.endswith(".c") else "cxx"
            if "CLANG" in fl.split(","):
                rule, fl = "vscc", ",".join(x for x in fl.split(",") if x != "CLANG")
            path = f if f.startswith("/") else f"{VERIF}/harness/{f}"
            w(f"build {eo}: {rule} {path} || {gen_dep}\n  xf = {fl.replace(',', ' ')} -I{REPO}/src -I{REPO}/src/rx")
            extra.append(eo)
        o = f"{bdir}/obj/h_{n}.o"
        rule = "cc" if h.endswith(".c") else "cxx -std=c++17".split()[0]
        w(f"build {o}: {rule} {h} || {gen_dep}\n  xf = -std=c++17 -I/usr/include/eigen3 -I{VERIF}/harness {xf}")
        ars, ll = [], ""
        if "planning" in libs:
            ars.append(f"{bdir}/libamino-planning.a")
            ll += " -lompl -lode -lboost_serialization -lboost_filesystem -lboost_system"
        if "collision" in libs or "planning" in libs:
            ars.append(f"{bdir}/libamino-collision.a")
            ll += " -lfcl -lccd"
        if "nolib" not in libs:
            ars.append(f"{bdir}/libamino.a")
        deps = ""
        if "plugins" in libs:
            ll += " -rdynamic"
            deps = f" | {bdir}/plugin-a.so {bdir}/plugin-b.so"
        w(f"build {bdir}/bin/{n}: link {o} {mc} {' '.join(extra)} {' '.join(ars)}{deps}\n  libs = {ll} {base}")
    w(f"default {bdir}/libamino.a")
    open(os.path.join(bdir, "build.ninja"), "w").write("\n".join(L) + "\n")


main()
