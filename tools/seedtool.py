#!/usr/bin/env python3
"""Planted bugs: write one (new) and confirm one (verify).

new ID PROPERTY SPEC.py   SPEC.py defines EDITS=[(file, old, new)], NEEDS, BREAKS, SOURCES (repo sources the demo links, "all" or
                          list), DEMO (C++ text; main returns non-zero when the behaviour is wrong), optional FLAGS, SHIM, HELPERS
verify ID [--nocheck]     applies it to /repo, builds, tests, runs demo and check, undoes it, runs the demo again
"""
import json, os, shutil, subprocess, sys, glob
ROOT = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
SEED = os.path.join(ROOT, "seeded")
REPO = "/repo"

DEMO_SH = r'''#!/bin/bash
# Builds a small program from the sources in the current directory and the stand-in library beside this script.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
w=$(mktemp -d)
trap 'rm -rf "$w"' EXIT
flags="-std=c++17 -O1 -w @FLAGS@ -DSHOW_TIMER_INFORMATION -I$here -I$here/shim -I$here/shim/serial -I$repo/src -I$repo/src/maxwell -I/usr/include/eigen3"
srcs="@SOURCES@"
if [ "$srcs" = all ]; then
  srcs=$(cd "$repo/src" && find components mfemExtension evolution driver solver math -name '*.cpp' | grep -v -e _IBFI -e SIBCPole)
fi
{
  for s in $srcs; do echo "$repo/src/$s $w/$(echo "$s" | tr / _).o"; done
  for s in "$here"/shim/*.cpp "$here/demo.cpp"; do [ -e "$s" ] && echo "$s $w/$(basename "$s").o"; done
} > "$w/list"
xargs -a "$w/list" -P 8 -L 1 sh -c 'clang++ '"$flags"' -c "$0" -o "$1"' || exit 3
clang++ -o "$w/demo" "$w"/*.o -lpthread || exit 3
mkdir "$w/run" && cd "$w/run" || exit 3
ulimit -c 0
timeout 200 "$w/demo" > "$w/out" 2>&1
rc=$?
tail -n 5 "$w/out"
exit $rc
'''

def sh(cmd, **k):
    return subprocess.run(cmd, shell=isinstance(cmd, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **k)

def new(sid, prop, spec):
    g = {}
    exec(open(spec).read(), g)
    d = os.path.join(SEED, sid)
    os.makedirs(d, exist_ok=True)
    assert sh("git -C /repo status --porcelain").stdout.strip() == "", "dirty /repo"
    try:
        for f, a, b in g["EDITS"]:
            p = os.path.join(REPO, f)
            s = open(p).read()
            if s.count(a) != 1:
                raise SystemExit("%s: %d matches of %r" % (f, s.count(a), a))
            open(p, "w").write(s.replace(a, b))
        diff = sh("git -C /repo diff").stdout
    finally:
        sh("git -C /repo checkout -- .")
    open(os.path.join(d, "patch.diff"), "w").write(diff)
    json.dump({"property": prop, "needs": g["NEEDS"], "what_it_breaks": g["BREAKS"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
    src = g["SOURCES"]
    text = DEMO_SH.replace("@SOURCES@", src if isinstance(src, str) else " ".join(src)).replace("@FLAGS@", g.get("FLAGS", ""))
    open(os.path.join(d, "demo.sh"), "w").write(text)
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    open(os.path.join(d, "demo.cpp"), "w").write(g["DEMO"])
    if g.get("HELPERS"):
        for h in ("common.hpp", "em.hpp", "case.hpp", "surf.hpp"):
            shutil.copy(os.path.join(ROOT, "harness", h), d)
    sd = os.path.join(d, "shim")
    if os.path.exists(sd):
        shutil.rmtree(sd)
    if g.get("SHIM", True):
        shutil.copytree(os.path.join(ROOT, "shim"), sd)
    else:
        os.makedirs(sd)
        shutil.copytree(os.path.join(ROOT, "shim", "serial"), os.path.join(sd, "serial"))

def demo(sid):
    r = sh(["bash", os.path.join(SEED, sid, "demo.sh")], cwd=REPO, timeout=290)
    return r.returncode, r.stdout

def verify(sid, check=True):
    meta = json.load(open(os.path.join(SEED, sid, "meta.json")))
    patch = os.path.abspath(os.path.join(SEED, sid, "patch.diff"))
    if sh("git -C /repo status --porcelain").stdout.strip():
        raise SystemExit("dirty /repo")
    clean, o0 = demo(sid)
    try:
        r = sh(["git", "-C", REPO, "apply", patch])
        if r.returncode:
            raise SystemExit("does not apply: " + r.stdout)
        b = sh("bash /opt/vp/build.sh")
        t = sh("bash /opt/vp/test.sh /tmp/seed-test.json")
        tj = json.load(open("/tmp/seed-test.json"))
        bad, o1 = demo(sid)
        c = sh([sys.executable, os.path.join(ROOT, "check.py"), meta["property"]]) if check else None
    finally:
        sh("git -C /repo checkout -- .")
        sh("bash /opt/vp/build.sh")
    caught = c is not None and c.returncode == 1 and ("VIOLATION property=" + meta["property"]) in c.stdout
    npass, nfail = len(tj.get("passed", [])), len(tj.get("failed", []))
    print("%s %s demo clean=%d patched=%d build=%d tests=%d/%d failed=%d caught=%s" % (sid, meta["property"], clean, bad, b.returncode, npass, npass + nfail, nfail, caught), flush=True)
    if clean != 0 or bad == 0:
        print(o0[-1500:], "\n---\n", o1[-1500:])
    if c is not None and not caught:
        print(c.stdout[-1500:])
    elif c is not None:
        print("   ", [l for l in c.stdout.splitlines() if l.startswith("  ")][:2])

if __name__ == "__main__":
    if sys.argv[1] == "new":
        new(*sys.argv[2:5])
    else:
        for s in [a for a in sys.argv[2:] if not a.startswith("--")]:
            verify(s, "--nocheck" not in sys.argv)
