#!/usr/bin/env python3
"""Builds /verif/build/mfsim from /repo's working tree and /verif/sim.

Objects are cached by content: first by the contents of the files a previous
compilation of the same translation unit read, then by its preprocessed text
(comments and line numbers do not count), so that only what really changed is
compiled again."""
import concurrent.futures as cf
import fcntl
import hashlib
import json
import os
import re
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("MFSIM_REPO", "/repo")
OUT = os.path.join(VERIF, "build")
CXX = "clang++"
I = "/usr/lib/x86_64-linux-gnu/openmpi/include"
FLAGS = ["-DNDEBUG", "-std=c++17", "-w", "-fno-color-diagnostics", "-gline-tables-only",
         "-isystem", "/opt/vp/compat/include",
         "-include", "boost/container_hash/hash.hpp",
         "-include", "deal.II/base/multithread_info.h",
         "-include", "deal.II/distributed/tria_base.h",
         "-include", "deal.II/lac/vector.h",
         "-I" + os.path.join(VERIF, "sim/overlay"),
         "-I" + os.path.join(REPO, "include"),
         "-I" + os.path.join(VERIF, "sim"),
         "-isystem", I, "-isystem", I + "/openmpi"]
for d in ("petsc", "trilinos", "hdf5/openmpi", "scotch", "suitesparse",
          "opencascade", "slepc"):
    FLAGS += ["-isystem", "/usr/include/" + d]
PLAIN = ["-std=c++17", "-w", "-fno-color-diagnostics", "-gline-tables-only",
         "-I" + os.path.join(VERIF, "sim"), "-isystem", I, "-isystem", I + "/openmpi"]
COV = ["-fsanitize-coverage=trace-pc-guard"]


class BuildError(Exception):
    pass


def sha(b):
    return hashlib.sha256(b).hexdigest()[:32]


def file_sha(p, memo={}):
    try:
        st = os.stat(p)
    except OSError:
        return "missing"
    k = (p, st.st_mtime_ns, st.st_size, st.st_ino)
    if k not in memo:
        with open(p, "rb") as f:
            memo[k] = sha(f.read())
    return memo[k]


def parse_deps(path):
    t = open(path).read().replace("\\\n", " ").split(":", 1)[1].split()
    return sorted(x for x in set(t)
                  if x.startswith(REPO + "/") or x.startswith(VERIF + "/"))


def compile_one(src, flags, tag):
    obj_dir = os.path.join(OUT, "obj")
    ident = sha((src + "\0" + "\0".join(flags)).encode())
    idx = os.path.join(obj_dir, ident + ".idx")
    known = {}
    try:
        known = json.load(open(idx))
    except (OSError, ValueError):
        pass
    for entry in known.get("entries", []):
        if all(file_sha(p) == h for p, h in entry["deps"]) and \
                os.path.exists(os.path.join(obj_dir, entry["obj"])):
            return os.path.join(obj_dir, entry["obj"]), "cached"
    dep = os.path.join(obj_dir, "%s.%d.d" % (ident, os.getpid()))
    pp = subprocess.run([CXX] + flags + ["-E", "-P", "-MD", "-MF", dep, "-MT", "x",
                                         src], capture_output=True)
    if pp.returncode:
        raise BuildError("%s\n%s" % (src, pp.stderr.decode(errors="replace")[-4000:]))
    deps = [[p, file_sha(p)] for p in parse_deps(dep)]
    os.unlink(dep)
    obj = "%s-%s.o" % (tag, sha(ident.encode() + pp.stdout))
    how = "preprocessed"
    if not os.path.exists(os.path.join(obj_dir, obj)):
        tmp = os.path.join(obj_dir, "%s.%d.tmp" % (obj, os.getpid()))
        r = subprocess.run([CXX] + flags + ["-c", src, "-o", tmp],
                           capture_output=True)
        if r.returncode:
            raise BuildError("%s\n%s" % (src, r.stderr.decode(errors="replace")[-6000:]))
        os.rename(tmp, os.path.join(obj_dir, obj))
        how = "compiled"
    entries = [{"deps": deps, "obj": obj}] + known.get("entries", [])
    for e in entries[12:]:
        if e["obj"] not in [x["obj"] for x in entries[:12]]:
            try:
                os.unlink(os.path.join(obj_dir, e["obj"]))
            except OSError:
                pass
    with open(idx + ".tmp", "w") as f:
        json.dump({"src": src, "entries": entries[:12]}, f)
    os.rename(idx + ".tmp", idx)
    return os.path.join(obj_dir, obj), how


def sources():
    out = []
    for d in ("source/common", "source/dealii"):
        for f in sorted(os.listdir(os.path.join(REPO, d))):
            if f.endswith(".cc"):
                out.append((os.path.join(REPO, d, f), FLAGS + ["-O0"] + COV, "mfmg_" + f[:-3]))
    for f in sorted(os.listdir(os.path.join(VERIF, "sim"))):
        if f.endswith(".cc"):
            opt = ["-O2"] if f in ("oracle.cc", "core.cc", "mpi.cc") else ["-O1"]
            # the header-only parts of the code under test live in these
            cov = COV if f in ("scen.cc", "scen_lanczos.cc") else []
            fl = PLAIN if f in ("core.cc", "mpi.cc", "sched.cc", "oracle.cc") else FLAGS
            out.append((os.path.join(VERIF, "sim", f), fl + opt + cov, "sim_" + f[:-3]))
    slow = ["amge_host", "scen", "scen_alg", "problem", "dealii_hierarchy_helpers",
            "dealii_matrix_free_hierarchy_helpers"]
    out.sort(key=lambda x: next((i for i, s in enumerate(slow)
                                 if x[2].endswith("_" + s)), 99))
    return out


def link_exe(exe, objs, link):
    """clang and gcc mangle a few deal.II templates differently: where a symbol
    is missing under clang's name, jump to the one gcc exported."""
    ld = ["-fuse-ld=gold"] if os.path.exists("/usr/bin/ld.gold") else []
    cmd = [CXX] + ld + ["-rdynamic", "-Wl,--no-demangle", "-Wl,--warn-unresolved-symbols"]
    tramp = os.path.join(OUT, "trampolines.s")

    def missing(stderr):
        return sorted(set(re.findall(r"undefined reference to [`']([^']+)'", stderr)))

    def run(extra):
        r = subprocess.run(cmd + objs + extra + link + ["-ldl", "-lpthread", "-o", exe],
                           capture_output=True, text=True)
        if r.returncode:
            raise BuildError("link\n" + r.stderr[-6000:])
        return missing(r.stderr)

    first = [tramp] if os.path.exists(tramp) else []
    try:
        m = run(first)
    except BuildError:
        m = run([])
        first = []
    if not m:
        return
    m = run([]) if first else m
    dl = next(x for x in link if "libdeal.ii" in x)
    names = subprocess.run("nm -D --defined-only %s | awk '{print $3}'" % dl,
                           shell=True, capture_output=True, text=True).stdout.split()
    fn = lambda n: re.sub(r"@.*", "", n)
    names = [fn(n) for n in names]
    dem = subprocess.run(["c++filt"], input="\n".join(names + m), capture_output=True,
                         text=True).stdout.split("\n")
    table = dict(zip(dem, names))
    with open(tramp, "w") as f:
        for i, x in enumerate(m):
            y = table.get(dem[len(names) + i])
            if y is None:
                raise BuildError("undefined symbol " + dem[len(names) + i])
            f.write(".text\n.globl %s\n.type %s,@function\n%s: jmp %s@PLT\n" % (x, x, x, y))
        f.write('.section .note.GNU-stack,"",@progbits\n')
    m = run([tramp])
    if m:
        raise BuildError("undefined symbols " + " ".join(m))


def build(verbose=False):
    os.makedirs(os.path.join(OUT, "obj"), exist_ok=True)
    lock = open(os.path.join(OUT, "lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    t0 = time.time()
    with cf.ThreadPoolExecutor(8) as ex:
        futs = [(s[2], ex.submit(compile_one, *s)) for s in sources()]
        objs, n = [], 0
        err = None
        for tag, f in futs:
            try:
                o, how = f.result()
                objs.append(o)
                if how == "compiled":
                    n += 1
                    if verbose:
                        print("compiled", tag, flush=True)
            except BuildError as e:
                err = err or e
        if err:
            raise err
    link = open(os.path.join(VERIF, "sim/link.txt")).read().split()
    key = sha("\n".join(objs + link).encode())
    exe = os.path.join(OUT, "mfsim-" + key)
    if not os.path.exists(exe):
        link_exe(exe + ".tmp", objs, link)
        os.rename(exe + ".tmp", exe)
        for f in sorted((os.path.join(OUT, f) for f in os.listdir(OUT)
                         if f.startswith("mfsim-")), key=os.path.getmtime)[:-6]:
            os.unlink(f)
    if verbose:
        print("built %s (%d compiled) in %.1f s" % (exe, n, time.time() - t0))
    return exe


if __name__ == "__main__":
    try:
        print(build(True))
    except BuildError as e:
        print("BUILD FAILED:", e)
        sys.exit(2)
