"""Builds eckit's libraries from /repo's working tree (instrumented) and the harnesses, in /verif/.build."""
import hashlib
import json
import os
import shutil
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
BUILD = os.path.join(VERIF, ".build")

VARIANTS = {
    # memory errors become visible failures; trace-pc feeds the coverage guidance
    "asan": "-O1 -g1 -fsanitize=address -fno-omit-frame-pointer -fsanitize-coverage=trace-pc",
    # data races
    "tsan": "-O1 -g1 -fsanitize=thread -fno-omit-frame-pointer",
}
ALL_LIBS = ["eckit", "eckit_option", "eckit_codec", "eckit_linalg", "eckit_maths", "eckit_geometry", "eckit_sql", "eckit_web",
            "eckit_cmd", "eckit_mpi", "eckit_distributed", "eckit_spec", "eckit_geo"]


class BuildError(Exception):
    pass


def env():
    e = dict(os.environ)
    e.update(CC="/usr/bin/gcc", CXX="/usr/bin/g++", LC_ALL="C.UTF-8", PATH="/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin")
    e.pop("CXXFLAGS", None), e.pop("CFLAGS", None), e.pop("LDFLAGS", None)
    e["CCACHE_DIR"] = os.path.join(BUILD, "ccache")
    e["CCACHE_MAXSIZE"] = "3G"
    e["CCACHE_NOHASHDIR"] = "1"
    return e


def run(cmd, log, cwd=None):
    with open(log, "w") as f:
        r = subprocess.run(cmd, cwd=cwd, env=env(), stdout=f, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL)
    if r.returncode != 0:
        with open(log, errors="replace") as f:
            t = f.read()
        errs = [l for l in t.splitlines() if "error" in l.lower()][:15]
        raise BuildError("%s failed:\n%s\n%s" % (" ".join(cmd[:6]), "\n".join(errs), t[-1500:]))


def fingerprint():
    """content hash of everything the build reads from /repo"""
    res = {}
    roots = ["src", "cmake", "share", "regressions", "CMakeLists.txt", "VERSION", "eckit-import.cmake.in", "project_summary.cmake"]
    for r in roots:
        p = os.path.join(REPO, r)
        if os.path.isfile(p):
            files = [p]
        else:
            files = [os.path.join(d, f) for d, _, fs in os.walk(p) for f in fs]
        for f in files:
            if os.path.islink(f) and not os.path.exists(f):
                continue
            with open(f, "rb") as fh:
                res[os.path.relpath(f, REPO)] = hashlib.sha1(fh.read()).hexdigest()
    return res


def configure(variant):
    b = os.path.join(BUILD, variant)
    if os.path.exists(os.path.join(b, "build.ninja")):
        return b
    os.makedirs(b, exist_ok=True)
    flags = VARIANTS[variant]
    link = ""
    if "trace-pc" in flags:
        # the harness defines the real callback; this one lets configure-time test programs and the tools link
        stub = os.path.join(b, "covstub")
        os.makedirs(stub, exist_ok=True)
        with open(stub + "/stub.c", "w") as f:
            f.write("__attribute__((weak)) void __sanitizer_cov_trace_pc(void) {}\n")
        run(["gcc", "-shared", "-fPIC", "-O1", stub + "/stub.c", "-o", stub + "/libcovstub.so"], os.path.join(BUILD, "stub.log"))
        link = "-L%s -Wl,--no-as-needed -lcovstub -Wl,-rpath,%s" % (stub, stub)
    cmd = ["cmake", "-S", REPO, "-B", b, "-G", "Ninja", "-DCMAKE_BUILD_TYPE=None",
           "-DCMAKE_C_COMPILER=/usr/bin/gcc", "-DCMAKE_CXX_COMPILER=/usr/bin/g++",
           "-DCMAKE_C_FLAGS=-w " + flags, "-DCMAKE_CXX_FLAGS=-w " + flags,
           "-DCMAKE_EXE_LINKER_FLAGS=" + link, "-DCMAKE_SHARED_LINKER_FLAGS=" + link,
           "-DENABLE_TESTS=OFF", "-DENABLE_EXPERIMENTAL=ON", "-DENABLE_PROJ=ON", "-DENABLE_SSL=ON", "-DENABLE_OMP=ON",
           "-DENABLE_CONVEX_HULL=ON", "-DENABLE_PYTHON=OFF", "-DENABLE_EXTRA_TESTS=OFF", "-DENABLE_AEC=OFF",
           "-DENABLE_BUILD_TOOLS=OFF", "-DENABLE_WARNINGS=OFF"]
    if os.path.isdir("/opt/vp/cmake"):
        cmd.append("-DCMAKE_MODULE_PATH=/opt/vp/cmake")
    if shutil.which("ccache"):
        cmd += ["-DCMAKE_CXX_COMPILER_LAUNCHER=ccache", "-DCMAKE_C_COMPILER_LAUNCHER=ccache"]
    try:
        run(cmd, os.path.join(BUILD, "configure-%s.log" % variant))
    except BuildError:
        shutil.rmtree(b, ignore_errors=True)
        raise
    return b


def build_libs(variant, libs):
    """Brings the given libraries up to date with /repo's current content. Returns the build directory."""
    os.makedirs(BUILD, exist_ok=True)
    b = configure(variant)
    state_file = os.path.join(BUILD, "state-%s.json" % variant)
    new = fingerprint()
    old = None
    if os.path.exists(state_file):
        with open(state_file) as f:
            old = json.load(f)
    if old is not None:
        changed = [p for p in set(new) | set(old["files"]) if new.get(p) != old["files"].get(p)]
        # ninja goes by time stamps: a file of other content that does not look newer would be missed
        stale = [p for p in changed if p in new and os.stat(os.path.join(REPO, p)).st_mtime <= old["time"] + 2]
        gone = [p for p in changed if p not in new]
        if stale or gone:
            subprocess.run(["ninja", "-C", b, "-t", "clean"], env=env(), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    t = time.time()
    run(["ninja", "-C", b] + list(libs), os.path.join(BUILD, "ninja-%s.log" % variant))
    with open(state_file, "w") as f:
        json.dump({"files": new, "time": t}, f)
    return b


def build_harness(variant, name, libs, src=None, extra=(), syslibs=(), libs_ready=False, fp=None):
    b = os.path.join(BUILD, variant) if libs_ready else build_libs(variant, libs)
    hd = os.path.join(BUILD, "h-" + variant)
    os.makedirs(hd, exist_ok=True)
    san = VARIANTS[variant]
    nocov = san.replace("-fsanitize-coverage=trace-pc", "")
    exe = os.path.join(hd, name)
    src = src or os.path.join(VERIF, "harness", name + ".cc")
    ccache = "ccache " if shutil.which("ccache") else ""
    inc = "-I%s/src -I%s/src -I%s/lib -I%s/src/eckit/io/fam/openfam_mock -I/usr/include/eigen3" % (REPO, b, VERIF, REPO)
    nin = os.path.join(hd, name + ".ninja")
    text = """
builddir = {hd}/.{name}
rule cxx
  command = {ccache}g++ -std=gnu++17 -w {flags} {inc} -MMD -MF $out.d -c $in -o $out
  depfile = $out.d
  deps = gcc
rule link
  command = g++ {nocov} -rdynamic $in -o $out -L{b}/lib {libs} -Wl,--no-as-needed -Wl,-rpath,{b}/lib -Wl,--unresolved-symbols=ignore-in-shared-libs {sys} -lpthread -ldl
build {hd}/{name}.d/pbt.o: cxx {verif}/lib/pbt.cc
  flags = {nocov}
build {hd}/{name}.d/h.o: cxx {src}
  flags = {flags} {extra}
build {exe}: link {hd}/{name}.d/h.o {hd}/{name}.d/pbt.o | {deps}
default {exe}
""".format(hd=hd, name=name, ccache=ccache, inc=inc, nocov=nocov, b=b, libs=" ".join("-l" + l for l in libs), verif=VERIF, src=src,
           flags=san, exe=exe, extra=" ".join(extra), sys=" ".join("-l" + l for l in syslibs),
           deps=" ".join("%s/lib/lib%s.so" % (b, l) for l in libs))
    text = text.replace("  command = %sg++ -std=gnu++17 -w %s" % (ccache, san), "  command = %sg++ -std=gnu++17 -w $flags" % ccache)
    old = open(nin).read() if os.path.exists(nin) else None
    if old != text:
        with open(nin, "w") as f:
            f.write(text)
    # headers by content: see build_libs
    mark = os.path.join(hd, name + ".fp")
    fp = fp or hashlib.sha1(json.dumps(fingerprint(), sort_keys=True).encode()).hexdigest()
    if (open(mark).read() if os.path.exists(mark) else "") != fp and os.path.exists(os.path.join(hd, name + ".d", "h.o")):
        os.unlink(os.path.join(hd, name + ".d", "h.o"))
    run(["ninja", "-f", nin], os.path.join(BUILD, "harness-%s.log" % name))
    with open(mark, "w") as f:
        f.write(fp)
    return exe


if __name__ == "__main__":
    t = time.time()
    sys.path.insert(0, VERIF)
    from checks import CHECKS
    variants = sorted({c.get("variant", "asan") for c in CHECKS.values()})
    for v in variants:
        libs = sorted({l for c in CHECKS.values() if c.get("variant", "asan") == v for l in c["libs"]})
        build_libs(v, libs)
        print("libraries (%s) %.0f s" % (v, time.time() - t), flush=True)
    from concurrent.futures import ThreadPoolExecutor
    fp = hashlib.sha1(json.dumps(fingerprint(), sort_keys=True).encode()).hexdigest()

    def one(k):
        c = CHECKS[k]
        build_harness(c.get("variant", "asan"), c["harness"], c["libs"], extra=c.get("cxxflags", ()), syslibs=c.get("syslibs", ()), libs_ready=True, fp=fp)
    names = {}
    for k, c in CHECKS.items():
        if "harness" in c:
            names.setdefault((c.get("variant", "asan"), c["harness"]), k)
    with ThreadPoolExecutor(6) as ex:
        list(ex.map(one, names.values()))
    print("harnesses %.0f s" % (time.time() - t))
