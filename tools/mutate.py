#!/usr/bin/env python3
"""Mutation campaign: small changes of the sources in scratch copies, run against the checks of the properties anchored there.

usage: mutate.py OUT.jsonl [--per-file N] [--seed N] [--jobs J] [--props P01,P02] [file...]
Appends one line per mutant: file, line, old, new, result (killed by ID / survived / build / equivalent object code).
Nothing here is used by the registered checks.
"""
import argparse, glob, json, os, queue, random, re, shutil, subprocess, threading, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ap = argparse.ArgumentParser()
ap.add_argument("out"); ap.add_argument("--per-file", type=int, default=12); ap.add_argument("--seed", type=int, default=1)
ap.add_argument("--jobs", type=int, default=4); ap.add_argument("--props"); ap.add_argument("--seconds", default="25"); ap.add_argument("--workers", type=int, default=2)
ap.add_argument("files", nargs="*")
A = ap.parse_args()

def mapping():
    m = {}
    for l in open(V + "/properties.jsonl"):
        d = json.loads(l)
        for f in re.findall(r"src/[\w/]+\.[ch]pp", json.dumps(d)):
            m.setdefault(f, []).append(d["id"])
    return {f: sorted(set(p)) for f, p in m.items()}

def harness_of(prop):
    for f in glob.glob(V + "/harness/*.cpp"):
        m = re.search(r"^// PROPERTIES: (.*)$", open(f).read(), re.M)
        if m and prop in m.group(1).split(): return os.path.splitext(os.path.basename(f))[0]

def mutants(text):
    out = []
    lines = text.split("\n")
    depth = 0; comment = False
    for i, l in enumerate(lines):
        s = l.strip()
        if comment:
            if "*/" in s: comment = False
            continue
        if s.startswith("/*"):
            if "*/" not in s: comment = True
            continue
        if not s or s.startswith(("//", "#", "sp_", "\"", "namespace", "using", "public", "private", "protected", "case ", "default")): continue
        if not l.startswith((" ", "\t")): continue
        code = l.split("//")[0]
        def add(new, kind):
            if new != l: out.append((i, new, kind))
        for a, b in ((" <= ", " < "), (" < ", " <= "), (" >= ", " > "), (" > ", " >= "), (" == ", " != "), (" != ", " == "), (" && ", " || "), (" || ", " && "),
                     (" + ", " - "), (" - ", " + "), ("++", "--"), (" += ", " -= "), (" -= ", " += "), (" << ", " >> "), (" >> ", " << "), (" & ", " | "), ("true", "false"), ("false", "true")):
            for m in re.finditer(re.escape(a), code):
                if "<<" in a and "sp_" in l: continue
                add(l[:m.start()] + b + l[m.end():], "op")
        for m in re.finditer(r"(?<![\w.])(0x[0-9a-fA-F]+|\d+)(?![\w.])", code):
            if m.start() and code[m.start() - 1] in "\"'%": continue
            v = int(m.group(1), 0)
            for d in (1, -1):
                if v + d >= 0: add(l[:m.start()] + str(v + d) + l[m.end():], "const")
        m = re.match(r"^(\s*)(?:\} else )?if \((.*)\) \{$", l)
        if m:
            j = l.index("if (")
            add(l[:j] + "if (!(" + m.group(2) + ")) {", "negate")
            add(l[:j] + "if (false && (" + m.group(2) + ")) {", "never")
            add(l[:j] + "if (true || (" + m.group(2) + ")) {", "always")
        if re.match(r"^\s*[\w\->\.\[\]\*\(\)]+(\s*[-+|&]?=\s*[^=].*|\(.*\)|\+\+|--);\s*$", l) and not re.match(r"^\s*(return|delete|auto|int|size_t|error_t|std::)\b", l) and "sp_" not in s[:4]:
            prev = lines[i - 1].strip()
            if prev.endswith((";", "{", "}", "")) :
                add(re.match(r"\s*", l).group(0) + ";", "delete")
        if re.match(r"^\s*(break|continue);\s*$", l): add(l.replace("break", "CONT").replace("continue", "break").replace("CONT", "continue"), "loop")
    return lines, out

def main():
    m = mapping()
    files = A.files or sorted(m)
    rnd = random.Random(A.seed)
    jobs = queue.Queue()
    n = 0
    todo = []
    for f in files:
        props = A.props.split(",") if A.props else m.get(f, [])
        if not props or not os.path.exists("/repo/" + f): continue
        lines, ms = mutants(open("/repo/" + f).read())
        by = {}
        for x in ms: by.setdefault(x[0], []).append(x)
        # spread over the lines
        pick = []
        ls = list(by); rnd.shuffle(ls)
        while len(pick) < min(A.per_file, len(ms)):
            for k in ls:
                if by[k] and len(pick) < A.per_file: pick.append(by[k].pop(rnd.randrange(len(by[k]))))
            if not any(by.values()): break
        for x in pick: todo.append((f, lines, x, props))
    rnd.shuffle(todo)
    for t in todo: jobs.put(t)
    lock = threading.Lock()
    total = jobs.qsize()
    print(total, "mutants", flush=True)
    stat = {"done": 0}
    def work(w):
        R = "/tmp/mut/w%d/repo" % w; B = "/tmp/mut/w%d/build" % w
        shutil.rmtree("/tmp/mut/w%d" % w, ignore_errors=True)
        os.makedirs("/tmp/mut/w%d" % w)
        subprocess.run("git clone -q /repo " + R, shell=True, check=True)
        env = dict(os.environ, VERIF_REPO=R, VERIF_BUILD=B)
        subprocess.run(["python3", V + "/run.py", "--build-only"], env=env, stdout=subprocess.DEVNULL)
        while True:
            try: f, lines, (i, new, kind), props = jobs.get_nowait()
            except queue.Empty: return
            t = lines[:]; old = t[i]; t[i] = new
            p = os.path.join(R, f)
            open(p, "w").write("\n".join(t))
            t0 = time.time(); res = "survived"; msg = ""
            hs = []
            for pr in props:
                h = harness_of(pr)
                if h not in hs:
                    b = subprocess.run(["ninja", "-j", "2", "-C", B, "-f", B + "/build.ninja", B + "/bin/" + h], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
                    if b.returncode: res = "build"; break
                    hs.append(h)
                o = "/tmp/mut/w%d/out.json" % w
                if os.path.exists(o): os.unlink(o)
                try:
                    r = subprocess.run([B + "/bin/" + h, "--prop", pr, "--seed", "1", "--out", o, "--replays", "/tmp/mut/w%d/rp" % w, "--workers", str(A.workers), "--shrink", "0", "--seconds", A.seconds], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=240)
                    rc = r.returncode
                except subprocess.TimeoutExpired: rc = "timeout"
                if rc != 0:
                    res = "killed" if rc == 1 else "odd:%s" % rc; msg = pr
                    try: msg += " " + json.load(open(o))["message"][:160]
                    except Exception: pass
                    break
            open(p, "w").write("\n".join(lines))
            with lock:
                stat["done"] += 1; stat[res] = stat.get(res, 0) + 1
                open(A.out, "a").write(json.dumps(dict(file=f, line=i + 1, old=old.strip(), new=new.strip(), kind=kind, res=res, by=msg, props=props, s=round(time.time() - t0, 1))) + "\n")
                if stat["done"] % 20 == 0: print(stat, flush=True)
    ts = [threading.Thread(target=work, args=(w,)) for w in range(A.jobs)]
    for t in ts: t.start()
    for t in ts: t.join()
    print(stat)
main()
