#!/usr/bin/env python3
"""Builds the simulator from /repo's working tree into /verif/build (git-ignored).

Every source of /repo/src and /repo/app is compiled from its current contents; objects are cached by the
hash of everything that can influence them. Usage: build.py plain|asan  -> prints the path of the binary."""
import sys, os, hashlib, subprocess, concurrent.futures as cf, glob, fcntl
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("VSIM_REPO", "/repo")
OUT = os.environ.get("VSIM_BUILD", os.path.join(VERIF, "build"))
WRAPS = ("fopen fopen64 fclose popen pclose malloc calloc realloc free strdup unlink remove rename access "
         "fileno tmpfile system freopen time clock rand random getpid").split()
CXX, CC = "/usr/bin/g++", "/usr/bin/gcc"

def sh(cmd):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise RuntimeError(" ".join(cmd) + "\n" + r.stdout[-6000:])
    return r.stdout

def digest(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode()); h.update(b"\0")
    return h.hexdigest()[:24]

def read(p):
    with open(p, "rb") as f: return f.read()

def build(variant):
    os.makedirs(os.path.join(OUT, "obj"), exist_ok=True)
    srcs = sorted(glob.glob(REPO + "/src/*.c") + glob.glob(REPO + "/src/*.cc"))
    apps = sorted(glob.glob(REPO + "/app/*.cc"))
    hdr = b"".join(p.encode() + b"\0" + read(p) for p in
                   sorted(glob.glob(REPO + "/src/*.h") + glob.glob(REPO + "/src/*.hh") +
                          glob.glob(REPO + "/app/*.h") + glob.glob(REPO + "/app/*.hh")))
    simhdr = b"".join(read(p) for p in sorted(glob.glob(HERE + "/*.h")))
    self_src = read(os.path.abspath(__file__))
    common = ["-O1", "-w", "-fno-pie", "-DNDEBUG"] + os.environ.get("VSIM_CXX", "").split()
    san = ["-fsanitize=address", "-fno-omit-frame-pointer", "-g1"] if variant == "asan" else []
    cov = ["-fsanitize-coverage=trace-pc"]
    jobs = []
    def job(src, lang, flags, extra=b"", app=None):
        key = digest(src, read(src), " ".join(flags), extra, self_src, app or "")
        obj = os.path.join(OUT, "obj", key + ".o")
        jobs.append((src, lang, flags, obj, app))
        return obj
    objs = []
    inc = ["-I" + REPO + "/src"]
    for s in srcs:
        c = s.endswith(".c")
        objs.append(job(s, CC if c else CXX, common + san + cov + inc + ([] if c else ["-std=gnu++11"]), hdr))
    for s in apps:
        name = os.path.splitext(os.path.basename(s))[0]
        objs.append(job(s, CXX, common + san + cov + inc + ["-std=gnu++11"], hdr, name))
    simsan = (san + ["-DSIM_ASAN"]) if variant == "asan" else []
    for s in sorted(glob.glob(HERE + "/*.cc")):
        base = os.path.basename(s)
        if base.startswith("lib_"):   # uses the library's headers: instrumented like the library
            objs.append(job(s, CXX, common + simsan + cov + inc + ["-I" + HERE, "-std=gnu++17"], hdr + simhdr))
        else:
            objs.append(job(s, CXX, common + simsan + ["-I" + HERE, "-std=gnu++17"], simhdr))
    def compile_one(j):
        src, lang, flags, obj, app = j
        if os.path.exists(obj): return
        tmp = obj + ".%d.tmp.o" % os.getpid()
        sh([lang] + flags + ["-c", src, "-o", tmp])
        if app:
            # keep other globals of a program private, so that programs may define what they like
            loc = []
            for l in sh(["nm", "--defined-only", tmp]).splitlines():
                f = l.split()
                if len(f) == 3 and f[1] in "TDBRCG" and f[2] != "main": loc += ["--localize-symbol=" + f[2]]
            sh(["objcopy"] + loc + ["--redefine-sym", "main=app_main_" + app, tmp])
        os.replace(tmp, obj)
    with cf.ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as ex:
        # big template sources first
        jobs.sort(key=lambda j: -sum(k in j[0] for k in ("counts2kn", "varigram", "Varigram", "InterKn", "lib_")))
        for j, f in [(j, ex.submit(compile_one, j)) for j in jobs]:
            try: f.result()
            except RuntimeError as e:
                # a workload that no longer fits the library's interface is left out: only its own checks fail
                if not os.path.basename(j[0]).startswith("lib_"): raise
                sys.stderr.write("LEFT OUT " + j[0] + "\n" + str(e) + "\n")
                objs.remove(j[3])
    key = digest(*sorted(objs), variant, self_src)
    exe = os.path.join(OUT, "vsim-%s-%s" % (variant, key))
    if not os.path.exists(exe):
        tmp = exe + ".%d.tmp" % os.getpid()
        sh([CXX, "-no-pie"] + san + objs + ["-Wl," + ",".join("--wrap=" + w for w in WRAPS), "-o", tmp])
        os.replace(tmp, exe)
    # drop what earlier trees left behind
    keep = set(objs) | {exe}
    for p in glob.glob(os.path.join(OUT, "obj", "*.o")) + glob.glob(os.path.join(OUT, "vsim-" + variant + "-*")):
        if p not in keep and os.path.getmtime(p) < os.path.getmtime(exe) - 86400 and not p.endswith(".tmp"):
            try: os.unlink(p)
            except OSError: pass
    return exe

def locked_build(variant):
    os.makedirs(OUT, exist_ok=True)
    with open(os.path.join(OUT, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        return build(variant)

if __name__ == "__main__":
    try:
        print(locked_build(sys.argv[1] if len(sys.argv) > 1 else "plain"))
    except RuntimeError as e:
        sys.stderr.write("BUILD FAILED\n" + str(e) + "\n"); sys.exit(2)
