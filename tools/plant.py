#!/usr/bin/env python3
"""Keeps planted bugs: plant.py BUGS.py [id...]

BUGS.py defines BUGS: id -> dict(property, file, edits=[(old, new), ...] or edits=[(file, old, new)...],
needs, breaks, demo=C++ source). Each is confirmed in a scratch copy of /repo (builds, stable tests pass,
demo ok without and failing with the change) and written to /verif/seeded/<id>/.
plant.py --check id...   runs the bug's own check against it in the scratch copy.
plant.py --refresh id... regenerates patch.diff against HEAD by 3-way apply
"""
import json, os, subprocess, sys, shutil, runpy
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "/tmp/plant"
R = S + "/repo"
LIBS = ("-Wl,-Bstatic -lst -lhttp_parser -Wl,-Bdynamic -lrtmp -lpthread -lsrt -lssl -lcrypto -lavformat -lavcodec "
        "-lavdevice -lavfilter -lavutil -lswresample -lswscale -ldl")
DEMO = '''#!/bin/bash
# builds demo.cpp against the objects of the tree in the current directory and runs it in a scratch directory
D=$(cd "$(dirname "$0")" && pwd)
R=$PWD
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
INC=$(find "$R/src" -type d | sed 's/^/-I/')
g++ -std=gnu++17 -w -g -pthread $INC -isystem /opt/vp/compat %s "$D/demo.cpp" $(find "$R/_build/CMakeFiles/vp_objs.dir" -name '*.o') -o "$T/demo" \\
    %s || exit 3
cd "$T" && timeout 120 ./demo %s
'''

def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)

def scratch():
    os.makedirs(S, exist_ok=True)
    if not os.path.isdir(R):
        sh("cp -a /repo %s && rm -rf %s/_build" % (R, R))
    sh("cd %s && git fetch -q /repo HEAD && git checkout -q -f FETCH_HEAD && git checkout -q -- . " % R)
    for f in ("build.sh", "test.sh"):
        t = open("/opt/vp/" + f).read().replace("/repo", R).replace("/opt/vp/build.sh", S + "/build.sh")
        open(S + "/" + f, "w").write(t)

def build():
    r = sh("bash %s/build.sh" % S)
    return r.returncode == 0, r.stdout[-3000:]

def tests():
    sh("bash %s/test.sh %s/o.json" % (S, S))
    b = json.load(open("/opt/vp/BASELINE.json"))["stable"]
    return sorted(set(b) - set(json.load(open(S + "/o.json"))["passed"]))

def demo(d):
    r = sh("bash %s/demo.sh" % d, cwd=R)
    return r.returncode, r.stdout[-1500:]

def reset():
    sh("git -C %s checkout -q -- ." % R)

def original_lines(patch_dir):
    """the removed lines must be lines of the original repository"""
    base = "be5f7d6"
    bad = []
    f = None
    for l in open(patch_dir + "/patch.diff"):
        if l.startswith("+++ b/"):
            f = l[6:].strip()
        elif l.startswith("-") and not l.startswith("---") and l[1:].strip():
            r = subprocess.run(["git", "-C", R, "show", "%s:%s" % (base, f)], stdout=subprocess.PIPE, text=True).stdout
            if l[1:].rstrip("\n") not in r.split("\n"):
                bad.append(l.rstrip())
    return bad

def main():
    args = sys.argv[1:]
    if args[0] == "--check":
        scratch()
        for i in args[1:] or sorted(os.listdir(V + "/seeded")):
            d = V + "/seeded/" + i
            m = json.load(open(d + "/meta.json"))
            reset()
            r = sh("git -C %s apply %s/patch.diff" % (R, d))
            if r.returncode:
                print(i, "DOES NOT APPLY"); continue
            r = sh("VERIF_REPO=%s VERIF_BUILD=%s/vbuild python3 %s/run.py %s --seed 1" % (R, S, V, m["property"]))
            print(i, m["property"], "caught" if r.returncode == 1 and "VIOLATION property=" + m["property"] in r.stdout else "MISSED rc=%d" % r.returncode,
                  r.stdout.strip().splitlines()[-1][:150], flush=True)
        reset()
        return
    bugs = runpy.run_path(args[0])["BUGS"]
    want = args[1:] or list(bugs)
    scratch()
    base_built = False
    for i in want:
        b = bugs[i]
        d = V + "/seeded/" + i
        reset()
        if os.path.isdir(d):
            shutil.rmtree(d)
        os.makedirs(d)
        open(d + "/demo.cpp", "w").write(b["demo"])
        open(d + "/demo.sh", "w").write(b.get("demo_sh") or DEMO % (b.get("cxxflags", ""), LIBS, b.get("demo_args", "")))
        for n, t in b.get("files", {}).items():
            open(d + "/" + n, "w").write(t)
        json.dump(dict(property=b["property"], needs=b["needs"], what_it_breaks=b["breaks"]), open(d + "/meta.json", "w"), indent=1)
        build()
        rc0, o0 = demo(d)
        for e in b["edits"]:
            f, old, new = e if len(e) == 3 else (b["file"],) + tuple(e)
            p = R + "/src/" + f
            t = open(p, newline="").read()
            assert t.count(old) == 1, (i, f, t.count(old), old)
            open(p, "w", newline="").write(t.replace(old, new))
        open(d + "/patch.diff", "wb").write(subprocess.run(["git", "-C", R, "diff"], stdout=subprocess.PIPE).stdout)
        ok, o = build()
        miss = tests() if ok else ["-"]
        rc1, o1 = demo(d) if ok else (None, o)
        good = rc0 == 0 and ok and not miss and rc1 not in (0, 3, None)
        r = sh("VERIF_REPO=%s VERIF_BUILD=%s/vbuild python3 %s/run.py %s --seed 1" % (R, S, V, b["property"]))
        caught = r.returncode == 1 and "VIOLATION property=" + b["property"] in r.stdout
        print(i, b["property"], "GOOD" if good else "BAD", "base demo", rc0, "build", ok, "missing", miss, "demo", rc1, "|",
              "caught" if caught else "MISSED", r.stdout.strip().splitlines()[-1][:160], flush=True)
        for l in original_lines(d):
            print("   not an original line:", l)
        if not good:
            print("  base:", o0[-500:], "\n  patched:", o1[-800:])
    reset()

main()
