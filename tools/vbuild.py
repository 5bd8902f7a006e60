#!/usr/bin/env python3
"""Incremental builder for the harnesses: compiles /repo's working tree straight from its sources into
/verif/build. An object is reused only if its command line and the content of every file it
was compiled from (repo + verif files, from -MMD) are unchanged, so a check always sees the
current tree. Nothing is written to /repo."""
import hashlib, json, os, subprocess, sys, glob, fcntl
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
CXX = "/usr/bin/g++"
GUARD = "ERICWTOOLS_VERIF_TRACE"
BASE = ["-DERICWTOOLS_VERSION=\"verif\"", "-DFMT_SHARED", "-DHAVE_EMBREE4", "-DLINUX", "-DUSE_PTHREADS",
        "-D" + GUARD, "-I" + VERIF + "/shim", "-I" + REPO + "/include", "-I" + REPO,
        "-O2", "-DNDEBUG", "-std=gnu++20", "-w", "-fno-diagnostics-color"]
LIBS = ["-ltbb", "-ltbbmalloc", "-l:libfmt.so.9.1.0", "-llua5.4", "-lm", "-lpthread"]
EXTRA = {  # per-directory flags
    "maputil": ["-DUSE_LUA", "-I/usr/include/lua5.4", "-include", "fstream"],
    "light": ["-DHAVE_EMBREE", "-include", "fstream", "-include", "cstddef", "-include", "stdexcept"],
}

class BuildError(Exception):
    pass

def fhash(path, memo={}):
    try:
        st = os.stat(path)
    except OSError:
        return "missing"
    k = (path, st.st_mtime_ns, st.st_size, st.st_ino)
    if k not in memo:
        with open(path, "rb") as f:
            memo[k] = hashlib.sha256(f.read()).hexdigest()
    return memo[k]

def compile_one(src, flags, tag):
    rel = src.replace(REPO + "/", "repo/").replace(VERIF + "/", "verif/").strip("/").replace("/", "__")
    obj = os.path.join(BUILD, "obj", tag, rel + ".o")
    os.makedirs(os.path.dirname(obj), exist_ok=True)
    cmd = [CXX] + flags + ["-c", src, "-o", obj, "-MMD", "-MF", obj + ".d"]
    side = obj + ".json"
    try:
        with open(side) as f:
            s = json.load(f)
        if s["cmd"] == cmd and os.path.exists(obj) and all(fhash(d) == h for d, h in s["deps"].items()):
            return obj, False
    except (OSError, ValueError, KeyError):
        pass
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode != 0:
        raise BuildError("compile failed: %s\n%s" % (src, r.stderr[-4000:]))
    with open(obj + ".d") as f:
        txt = f.read().replace("\\\n", " ")
    deps = txt.split(":", 1)[1].split()
    deps = [os.path.abspath(d) for d in deps]
    deps = {d: fhash(d) for d in deps if d.startswith(REPO) or d.startswith(VERIF)}
    deps[src] = fhash(src)
    with open(side, "w") as f:
        json.dump({"cmd": cmd, "deps": deps}, f)
    return obj, True

def sources(d, exclude=()):
    return sorted(s for s in glob.glob("%s/%s/*.cc" % (REPO, d))
                  if os.path.basename(s) not in ("main.cc",) and os.path.basename(s) not in exclude)

GROUPS = {
    "common": lambda: sources("common"),
    "vis": lambda: sources("vis"),
    "qbsp": lambda: sources("qbsp"),
    "bsputil": lambda: sources("bsputil"),
    "maputil": lambda: sources("maputil"),
    "light": lambda: sources("light"),
    "lightcore": lambda: sources("light", ("bounce.cc", "entities.cc", "light.cc", "ltface.cc", "trace_embree.cc")),
}

# program -> (harness sources, groups, extra libs)
PROGRAMS = json.load(open(os.path.join(VERIF, "tools", "programs.json")))

def shim():
    """the preloaded library of harness/vshim.c"""
    src = os.path.join(VERIF, "harness", "vshim.c")
    os.makedirs(BUILD, exist_ok=True)
    out = os.path.join(BUILD, "vshim-%s.so" % fhash(src)[:12])
    with open(os.path.join(BUILD, ".lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        if not os.path.exists(out):
            r = subprocess.run(["/usr/bin/gcc", "-O1", "-shared", "-fPIC", "-w", "-o", out + ".tmp", src, "-ldl"], capture_output=True, text=True)
            if r.returncode:
                raise BuildError(r.stderr[-3000:])
            os.rename(out + ".tmp", out)
    return out

def build(names, variant="std"):
    """build the named programs; returns {name: path}"""
    os.makedirs(BUILD, exist_ok=True)
    vflags = {"std": [], "asan": ["-fsanitize=address", "-fno-omit-frame-pointer", "-g1"], "tsan": ["-fsanitize=thread", "-fno-omit-frame-pointer", "-g1"]}[variant]
    tag = variant
    with open(os.path.join(BUILD, ".lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        jobs = {}
        for n in names:
            p = PROGRAMS[n]
            for g in p["groups"]:
                for s in GROUPS[g]():
                    d = s[len(REPO) + 1:].split("/")[0]
                    jobs[s] = BASE + EXTRA.get(d, []) + vflags
            for s in p["sources"]:
                s = s.replace("$REPO", REPO)
                if not s.startswith("/"):
                    s = os.path.join(VERIF, "harness", s)
                jobs[s] = BASE + p.get("flags", []) + vflags
        order = sorted(jobs, key=lambda s: -os.path.getsize(s))
        with ThreadPoolExecutor(os.cpu_count() or 4) as ex:
            res = dict(zip(order, ex.map(lambda s: compile_one(s, jobs[s], tag), order)))
        out = {}
        links = []
        for n in names:
            p = PROGRAMS[n]
            objs = []
            for s in p["sources"]:
                s = s.replace("$REPO", REPO)
                if not s.startswith("/"):
                    s = os.path.join(VERIF, "harness", s)
                objs.append(res[s])
            for g in p["groups"]:
                for s in GROUPS[g]():
                    objs.append(res[s])
            exe = os.path.join(BUILD, tag, n)
            os.makedirs(os.path.dirname(exe), exist_ok=True)
            out[n] = exe
            sig = [fhash(o) for o, _ in objs]
            side = exe + ".json"
            try:
                if os.path.exists(exe) and json.load(open(side)) == sig:
                    continue
            except (OSError, ValueError):
                pass
            links.append((n, exe, [o for o, _ in objs], sig, side, p))
        def link(t):
            n, exe, objs, sig, side, p = t
            cmd = [CXX] + vflags + objs + ["-o", exe] + p.get("libs", []) + LIBS
            r = subprocess.run(cmd, capture_output=True, text=True)
            if r.returncode != 0:
                raise BuildError("link failed: %s\n%s" % (n, r.stderr[-4000:]))
            json.dump(sig, open(side, "w"))
        with ThreadPoolExecutor(os.cpu_count() or 4) as ex:
            list(ex.map(link, links))
        return out

if __name__ == "__main__":
    variant = "std"
    names = sys.argv[1:]
    if names and names[0].startswith("--variant="):
        variant = names.pop(0).split("=")[1]
    try:
        for n, p in build(names or sorted(PROGRAMS), variant).items():
            print(n, p)
        if not names:
            # what the checks also run with sanitizers
            for v, ns in (("asan", ["enttext", "fsearch", "prtload", "bspconv"]), ("tsan", ["vis", "progress"])):
                for n, p in build(ns, v).items():
                    print(n, p)
    except BuildError as e:
        print(e, file=sys.stderr)
        sys.exit(2)
