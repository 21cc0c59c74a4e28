#!/usr/bin/env python3
"""Builds the simulator and the engine (from /repo's working tree) into /verif/build/<hash>."""
import hashlib, os, subprocess, sys, shutil, tempfile, fcntl
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("PTN_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
GUARD = "PTN_ENGINE_SIM"


def engine_sources():
    out = []
    for d, dirs, files in os.walk(os.path.join(REPO, "PTN_Engine")):
        dirs.sort()
        for f in sorted(files):
            if f.endswith((".cpp", ".cc", ".cxx")):
                out.append(os.path.join(d, f))
    return out


def engine_files():
    out = []
    for d, dirs, files in os.walk(os.path.join(REPO, "PTN_Engine")):
        dirs.sort()
        for f in sorted(files):
            out.append(os.path.join(d, f))
    return out


def includes():
    inc = [REPO, os.path.join(REPO, "PTN_Engine")]
    for d, dirs, files in os.walk(os.path.join(REPO, "PTN_Engine")):
        dirs.sort()
        if os.path.basename(d) in ("include", "src"):
            inc.append(d)
    return ["-I" + i for i in inc]


def digest(paths, extra=""):
    h = hashlib.sha256(extra.encode())
    for p in paths:
        h.update(p.encode() + b"\0")
        with open(p, "rb") as f:
            h.update(f.read())
        h.update(b"\0")
    return h.hexdigest()[:20]


def run(cmd):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise RuntimeError(" ".join(cmd) + "\n" + r.stdout)


def build(verbose=False):
    os.makedirs(BUILD, exist_ok=True)
    simdir = os.path.join(VERIF, "sim")
    simfiles = [os.path.join(simdir, f) for f in sorted(os.listdir(simdir)) if f.endswith((".h", ".cpp"))]
    key = digest(engine_files() + simfiles + [os.path.abspath(__file__)])
    out = os.path.join(BUILD, key)
    exe = os.path.join(out, "sim")
    if os.path.exists(os.path.join(out, "done")):
        return exe
    with open(os.path.join(BUILD, ".lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        if os.path.exists(os.path.join(out, "done")):
            return exe
        # keep only a few old builds
        old = sorted((d for d in os.listdir(BUILD) if os.path.isdir(os.path.join(BUILD, d))),
                     key=lambda d: os.path.getmtime(os.path.join(BUILD, d)))
        for d in old[:-4]:
            shutil.rmtree(os.path.join(BUILD, d), ignore_errors=True)
        shutil.rmtree(out, ignore_errors=True)
        os.makedirs(out)
        inc = includes()
        eng = ["g++", "-std=gnu++20", "-O1", "-g1", "-fsanitize=thread", "-fPIC", "-fno-omit-frame-pointer", "-w",
               "-D_EXPORTING", "-DNDEBUG", "-D_GLIBCXX_EXTERN_TEMPLATE=0", "-D" + GUARD] + inc + ["-c"]
        har = ["g++", "-std=gnu++20", "-O2", "-g1", "-fno-builtin-memcpy", "-w"] + inc + ["-c"]
        harp = ["g++", "-std=gnu++20", "-O1", "-g1", "-w"] + inc + ["-c"]
        jobs, objs = [], []
        for f in ("profiles.cpp", "main.cpp", "rt.cpp"):
            o = os.path.join(out, "h_" + f + ".o")
            jobs.append((har if f == "rt.cpp" else harp) + [os.path.join(simdir, f), "-o", o])
        for i, f in enumerate(engine_sources()):
            o = os.path.join(out, "e%03d.o" % i)
            objs.append(o)
            jobs.append(eng + [f, "-o", o])
        with ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as ex:
            list(ex.map(run, jobs))
        so = os.path.join(out, "libptnsim.so")
        wraps = ["-Wl,--wrap=" + f for f in ("memcpy", "memmove", "memset", "memcmp")]
        run(["g++", "-shared", "-o", so] + objs + ["-Wl,-Bsymbolic", "-Wl,-z,now"] + wraps + ["-lpugixml"])
        run(["g++", "-no-pie", "-rdynamic", "-o", exe] +
            [os.path.join(out, "h_" + f + ".o") for f in ("rt.cpp", "profiles.cpp", "main.cpp")] +
            ["-L" + out, "-Wl,-rpath," + out, "-lptnsim", "-ldl", "-lpthread"])
        for f in os.listdir(out):
            if f.endswith(".o"):
                os.unlink(os.path.join(out, f))
        open(os.path.join(out, "done"), "w").close()
    return exe


if __name__ == "__main__":
    try:
        print(build(True))
    except RuntimeError as e:
        print(e, file=sys.stderr)
        sys.exit(2)
