#!/usr/bin/env python3
"""plant.py ID... : tries the planted bugs seeded/ID in a scratch copy of /repo (bind-mounted over /repo in a namespace of its own):
builds, runs the demo without and with the patch, the stable tests and the check of its property with it. plant.py --nocheck / --notest skip parts.
plant.make(...) writes seeded/ID from edits."""
import json, os, subprocess, sys, tempfile
V = "/verif"
COPY = "/tmp/plant"
DEMO = """#!/bin/bash
# builds and runs demo.cc against the build of the current directory
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d /tmp/demo.XXXXXX)
trap 'rm -rf "$t"' EXIT
r=$PWD
g++ -std=c++17 -O1 -w -I"$r/src" -I"$r/_build/src" "$d/demo.cc" -o "$t/demo" -L"$r/_build/lib" %s -Wl,-rpath,"$r/_build/lib" -lpthread || exit 3
mkdir "$t/w" && cd "$t/w" && HOME="$t/w" TMPDIR="$t/w" ECKIT_EXCEPTION_IS_SILENT=1 timeout 120 "$t/demo" 
"""


def sync():
    if not os.path.exists(COPY + "/.git"):
        subprocess.check_call(["cp", "-a", "/repo", COPY])
    subprocess.check_call(["rsync", "-a", "--delete", "/verif/", "/tmp/plantv/"])
    subprocess.check_call(f"git -C {COPY} checkout -q -- . && git -C {COPY} fetch -q /repo HEAD && git -C {COPY} reset -q --hard FETCH_HEAD", shell=True)


def make(pid, edits, prop, needs, breaks, demo, libs="-leckit"):
    """edits: [(file, old, new)], each old must occur exactly once"""
    import difflib
    diff = ""
    for f in dict.fromkeys(e[0] for e in edits):
        was = now = subprocess.check_output(["git", "-C", "/repo", "show", "HEAD:" + f], text=True)
        for _, old, new in (e for e in edits if e[0] == f):
            assert now.count(old) == 1, (f, now.count(old), old)
            now = now.replace(old, new)
        diff += f"diff --git a/{f} b/{f}\n" + "".join(difflib.unified_diff(was.splitlines(True), now.splitlines(True), "a/" + f, "b/" + f))
    d = f"{V}/seeded/{pid}"
    os.makedirs(d, exist_ok=True)
    open(d + "/patch.diff", "w").write(diff)
    open(d + "/demo.cc", "w").write(demo)
    open(d + "/demo.sh", "w").write(DEMO % libs)
    os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)


def ns(cmd, **kw):
    return subprocess.run(["unshare", "-Urm", "bash", "-c", f"mount --bind {COPY} /repo && mount --bind /tmp/plantv /verif && cd /repo && {cmd}"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def main():
    args = sys.argv[1:]
    nocheck, notest = "--nocheck" in args, "--notest" in args
    ids = [a for a in args if not a.startswith("--")]
    global lock
    lock = open("/tmp/plant.lock", "w")
    import fcntl
    fcntl.flock(lock, fcntl.LOCK_EX)
    sync()
    r = ns("bash /opt/vp/build.sh")
    if r.returncode:
        print(r.stdout[-2000:]); sys.exit(1)
    caught = json.load(open(V + "/design/caught.json")) if os.path.exists(V + "/design/caught.json") else {}
    good = {}
    for i in ids:
        r = ns(f"bash {V}/seeded/{i}/demo.sh")
        good[i] = r.returncode == 0
        if r.returncode: print(i, "demo fails on the unchanged tree:", r.returncode, r.stdout[-1500:])
    for i in ids:
        if not good[i]: continue
        d = f"{V}/seeded/{i}"
        prop = json.load(open(d + "/meta.json"))["property"]
        r = ns(f"git apply {d}/patch.diff")
        if r.returncode: print(i, "does not apply", r.stdout); continue
        r = ns("bash /opt/vp/build.sh")
        msg = []
        if r.returncode: msg.append("DOES NOT BUILD " + r.stdout[-1500:])
        else:
            r = ns(f"bash {d}/demo.sh")
            msg.append("demo ok(%d)" % r.returncode if r.returncode else "DEMO PASSES WITH THE PATCH")
            if r.returncode in (2, 3): msg.append("demo odd: " + r.stdout[-1000:])
            if not notest and r.returncode:
                with tempfile.NamedTemporaryFile(suffix=".json", dir="/tmp") as t:
                    ns(f"bash /opt/vp/test.sh {t.name}")
                    r = subprocess.run([sys.executable, V + "/stable.py", t.name], stdout=subprocess.PIPE, text=True)
                    msg.append("tests ok" if r.returncode == 0 else "TESTS FAIL " + r.stdout)
            if not nocheck:
                r = ns(f"cd {V} && VERIF_SEED=1 VERIF_TIER=quick timeout 900 python3 check.py {prop} quick")
                hit = r.returncode == 1 and f"VIOLATION property={prop}" in r.stdout
                f = [l for l in r.stdout.splitlines() if l.startswith("FAILURE")]
                msg.append(("caught: " + (f[0][:200] if f else "")) if hit else f"MISSED (exit {r.returncode}) " + r.stdout[-300:])
                caught[i] = prop if hit else "missed"
        print(i, "|", " | ".join(msg), flush=True)
        ns("git checkout -q -- .")
    json.dump(caught, open(V + "/design/caught.json", "w"), indent=1, sort_keys=True)


if __name__ == "__main__":
    main()
