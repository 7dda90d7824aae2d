#!/usr/bin/env python3
"""Build the harness of one property from /repo's working tree and run it.

usage: run.py PROPERTY [--tier quick|thorough] [--seed N]
       run.py --build-only            (setup: compiles everything)
       run.py PROPERTY --replay FILE
Exit: 0 held on everything explored, 1 violation (VIOLATION line printed), 2/3 the check itself failed.
"""
import argparse, fcntl, glob, json, os, re, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))

# sources that need the patched librtmp of an empty submodule (see /opt/vp/sps_hook.cmake), or have a main()
EXCLUDE = {
    "src/avformat/sps_avformat_librtmp.cpp", "src/avformat/sps_avformat_rtmpdec.cpp",
    "src/avformat/sps_avformat_rtmpenc.cpp", "src/install/sps_install_avformat.cpp",
    "src/install/sps_install_url_protocols.cpp", "src/io/url/sps_io_url_rtmp.cpp",
    "src/io/url/sps_io_url_rtmp_ffmpeg.cpp", "src/install/sps_install.cpp",
    "src/install/sps_install_modules.cpp", "src/main/sps_main_sps.cpp",
}
EXCLUDE_DIRS = ("src/module/rtmp/",)
# of these, what RTMP sessions need: compiled against rtmpshim/, for the harnesses that name it
RTMP = ["src/avformat/sps_avformat_librtmp.cpp", "src/avformat/sps_avformat_librtmp_packet.cpp", "src/avformat/sps_avformat_rtmpdec.cpp", "src/avformat/sps_avformat_rtmpenc.cpp",
        "src/io/url/sps_io_url_rtmp.cpp", "src/io/url/sps_io_url_rtmp_ffmpeg.cpp", "src/module/rtmp/"]

LIBS = "-Wl,--wrap=st_thread_create -Wl,--as-needed -Wl,-Bstatic -lst -lhttp_parser -Wl,-Bdynamic -lrtmp -lpthread -lsrt -lssl -lcrypto " \
       "-lavformat -lavcodec -lavdevice -lavfilter -lavutil -lswresample -lswscale -ldl"
SAN = "-fsanitize=address -fno-omit-frame-pointer"
BASE = "-w -g1 -O1 -pthread -DSPS_VERIF=1"


def harness_of(prop):
    for f in sorted(glob.glob(os.path.join(VERIF, "harness", "*.cpp"))):
        m = re.search(r"^// PROPERTIES: (.*)$", open(f).read(), re.M)
        if m and prop in m.group(1).split():
            return os.path.splitext(os.path.basename(f))[0]
    return None


def write_if_changed(path, text):
    try:
        if open(path).read() == text:
            return
    except OSError:
        pass
    with open(path, "w") as f:
        f.write(text)


def gen_ninja():
    os.makedirs(os.path.join(BUILD, "gen"), exist_ok=True)
    write_if_changed(os.path.join(BUILD, "gen", "sps_auto_header.hpp"),
                     '#ifndef SPS_AUTO_HEADER\n#define SPS_AUTO_HEADER\n#define GIT_VERSION "verif"\n'
                     '#define GIT_BRANCH "verif"\n#define SRT_ENABLED\n#define OPENSSL_ENABLED\n'
                     '#define FFMPEG_ENABLED\n#endif\n')
    srcs = []
    dirs = []
    for root, ds, fs in os.walk(os.path.join(REPO, "src")):
        ds.sort()
        dirs.append(root)
        for f in sorted(fs):
            if f.endswith((".cpp", ".cc", ".c")):
                rel = os.path.relpath(os.path.join(root, f), REPO)
                if rel in EXCLUDE or rel.startswith(EXCLUDE_DIRS):
                    continue
                srcs.append(rel)
    inc = " ".join(["-I" + os.path.join(BUILD, "gen")] + ["-I" + d for d in sorted(dirs)] +
                   ["-isystem /opt/vp/compat", "-I" + os.path.join(VERIF, "engine"), "-I" + os.path.join(VERIF, "harness")])
    n = ["builddir = " + BUILD,
         "rule cxx\n  command = g++ $std %s %s %s -MD -MF $out.d -c $in -o $out\n  depfile = $out.d\n  deps = gcc\n  description = CXX $in" % (BASE, SAN, inc),
         "rule ar\n  command = rm -f $out && ar crs $out $in\n  description = AR $out",
         "rule link\n  command = g++ %s %s $in -o $out %s\n  description = LINK $out" % (BASE, SAN, "$libs")]
    objs = []
    for s in srcs:
        o = os.path.join(BUILD, "obj", s + ".o")
        objs.append(o)
        n.append("build %s: cxx %s\n  std = -std=gnu++14" % (o, os.path.join(REPO, s)))
    lib = os.path.join(BUILD, "libsps.a")
    n.append("build %s: ar %s" % (lib, " ".join(objs)))
    eng = os.path.join(BUILD, "obj", "pbt.o")
    n.append("build %s: cxx %s\n  std = -std=gnu++17" % (eng, os.path.join(VERIF, "engine", "pbt.cpp")))
    wrap = os.path.join(BUILD, "obj", "stwrap.o")
    n.append("build %s: cxx %s\n  std = -std=gnu++17" % (wrap, os.path.join(VERIF, "engine", "stwrap.cpp")))
    shim = "-I" + os.path.join(VERIF, "rtmpshim")
    robjs = []
    for root, ds, fs in os.walk(os.path.join(REPO, "src")):
        for f in sorted(fs):
            rel = os.path.relpath(os.path.join(root, f), REPO)
            if f.endswith(".cpp") and any(rel == r or (r.endswith("/") and rel.startswith(r)) for r in RTMP):
                o = os.path.join(BUILD, "obj", "rtmp", rel + ".o")
                robjs.append(o)
                n.append("build %s: cxx %s\n  std = -std=gnu++14 %s" % (o, os.path.join(REPO, rel), shim))
    o = os.path.join(BUILD, "obj", "rtmpshim.o")
    robjs.append(o)
    n.append("build %s: cxx %s\n  std = -std=gnu++17 %s" % (o, os.path.join(VERIF, "rtmpshim", "rtmpshim.cpp"), shim))
    rlib = os.path.join(BUILD, "libspsrtmp.a")
    n.append("build %s: ar %s" % (rlib, " ".join(robjs)))
    targets = []
    for f in sorted(glob.glob(os.path.join(VERIF, "harness", "*.cpp"))):
        name = os.path.splitext(os.path.basename(f))[0]
        o = os.path.join(BUILD, "obj", "h_" + name + ".o")
        b = os.path.join(BUILD, "bin", name)
        rtmp = "// RTMPSHIM" in open(f).read()
        n.append("build %s: cxx %s\n  std = -std=gnu++17 %s" % (o, f, shim if rtmp else ""))
        n.append("build %s: link %s %s %s %s %s\n  libs = %s" % (b, o, eng, wrap, rlib if rtmp else "", lib, LIBS))
        targets.append(b)
    n.append("build all: phony " + " ".join(targets))
    n.append("default all")
    write_if_changed(os.path.join(BUILD, "build.ninja"), "\n".join(n) + "\n")


def build(target=None):
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, ".lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        gen_ninja()
        cmd = ["ninja", "-C", BUILD, "-f", os.path.join(BUILD, "build.ninja")]
        if target:
            cmd.append(os.path.join(BUILD, "bin", target))
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            sys.stdout.write(r.stdout[-6000:])
            print("build failed")
            return False
    return True


def known_findings(prop):
    out = []
    try:
        for line in open(os.path.join(VERIF, "KNOWN_FINDINGS.txt")):
            m = re.match(r"known: property=(\S+) (.*)", line.strip())
            if m and m.group(1) == prop:
                out.append(m.group(2))
    except OSError:
        pass
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=None, choices=["quick", "thorough"])
    ap.add_argument("--seed", type=int, default=None)
    ap.add_argument("--cases", default=None)
    ap.add_argument("--seconds", default=None)
    ap.add_argument("--replay")
    ap.add_argument("--build-only", action="store_true")
    a = ap.parse_args()
    if a.build_only:
        sys.exit(0 if build() else 2)
    if not a.prop:
        ap.error("property?")
    tier = a.tier or os.environ.get("VERIF_TIER") or "quick"
    seed = a.seed if a.seed is not None else int(os.environ.get("VERIF_SEED") or 1)
    name = harness_of(a.prop)
    if not name:
        print("no harness for", a.prop)
        sys.exit(2)
    t0 = time.time()
    if not build(name):
        sys.exit(2)
    t1 = time.time()
    binary = os.path.join(BUILD, "bin", name)
    env = dict(os.environ)
    env.pop("ASAN_OPTIONS", None)
    if a.replay:
        sys.exit(subprocess.run([binary, "--prop", a.prop, "--replay", a.replay, "--show"], env=env).returncode)
    outf = os.path.join(BUILD, "result.%s.%d.json" % (a.prop, os.getpid()))
    cmd = [binary, "--prop", a.prop, "--tier", tier, "--seed", str(seed), "--out", outf,
           "--replays", os.path.join(VERIF, "replays")]
    if a.cases:
        cmd += ["--cases", a.cases]
    if a.seconds:
        cmd += ["--seconds", a.seconds]
    rc = subprocess.run(cmd, env=env).returncode
    if rc not in (0, 1) or not os.path.exists(outf):
        print("harness failed: exit", rc)
        sys.exit(3)
    res = json.load(open(outf))
    os.unlink(outf)
    cov = {"evaluations": res["evaluations"], "distinct_nontrivial": res["distinct_nontrivial"], "rule": res["rule"],
           "samples": res["samples"], "classes": res["classes"], "discarded": res["discarded"],
           "planned": res["planned"], "unconfirmed": res["unconfirmed"]}
    kf = known_findings(a.prop)
    ev = {"property": a.prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
          "wall_s": round(time.time() - t0, 2), "violations": 1 if res["violated"] else 0,
          "assumptions": res["assumptions"]}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", a.prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    print("%s %s seed=%d: %d cases (%d planned), %d distinct non-trivial, build %.1fs, run %.1fs" % (
        a.prop, tier, seed, res["evaluations"], res["planned"], res["distinct_nontrivial"], t1 - t0, res["wall_s"]))
    if res["violated"]:
        print("message: " + res["message"])
        if res["case"]:
            print("case: " + res["case"])
        print("VIOLATION property=%s replay=%s" % (a.prop, res["replay"]))
        sys.exit(1)
    for k in kf:
        print("KNOWN-FINDING: property=%s %s" % (a.prop, k))
    if res["evaluations"] < min(res["planned"], 50) or res["distinct_nontrivial"] < 2:
        print("too little was explored")
        sys.exit(3)
    sys.exit(0)


main()
