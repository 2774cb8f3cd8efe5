"""Builds the real code of /repo (current working tree) plus the drivers in
/verif/drivers, out of tree, into /verif/.cache. Compilation results are shared
through ccache, which keys on file contents, so a check after a source edit
recompiles exactly what the edit reaches."""
import os, subprocess, sys, hashlib, concurrent.futures, shutil, fcntl, threading

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
CACHE = os.path.join(VERIF, ".cache")
CXX = "g++-14"
JOBS = os.cpu_count() or 8

VARIANTS = {
    # functional drivers: library assertions on, moderate optimisation
    "plain": ["-O1", "-g1", "-D_GLIBCXX_ASSERTIONS"],
    # memory and UB monitors
    "asan": ["-O1", "-g1", "-D_GLIBCXX_ASSERTIONS", "-fsanitize=address,undefined,float-cast-overflow",
             "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"],
    # data-race monitor
    "tsan": ["-O1", "-g1", "-fsanitize=thread"],
}
COMMON = ["-std=c++23", "-w", "-I" + os.path.join(VERIF, "shim"), "-I" + REPO, "-I" + os.path.join(VERIF, "drivers"),
          "-I" + os.path.join(REPO, "examples")]


class BuildError(Exception):
    pass


def lib_sources():
    out = []
    for d, dirs, files in os.walk(os.path.join(REPO, "gcs")):
        if "lifetime_annotation_tests" in d:
            continue
        for f in files:
            if f.endswith(".cc") and not f.endswith("_test.cc"):
                out.append(os.path.relpath(os.path.join(d, f), REPO))
    return sorted(out)


def env():
    e = dict(os.environ)
    e["CCACHE_DIR"] = os.path.join(CACHE, "ccache")
    e["CCACHE_MAXSIZE"] = "6G"
    e["CCACHE_NOHASHDIR"] = "1"
    e["CCACHE_COMPRESSLEVEL"] = "1"
    e.pop("CCACHE_DISABLE", None)
    return e


def _have_ccache():
    return shutil.which("ccache") is not None


def compile_one(variant, src_abs, obj, extra=()):
    os.makedirs(os.path.dirname(obj), exist_ok=True)
    cmd = ([] if not _have_ccache() else ["ccache"]) + [CXX] + COMMON + VARIANTS[variant] + list(extra) + ["-c", src_abs, "-o", obj]
    r = subprocess.run(cmd, cwd=VERIF, env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    if r.returncode != 0:
        raise BuildError("compiling %s failed:\n%s" % (src_abs, r.stdout[-4000:]))
    return obj


def build(variant, drivers):
    """drivers: {name: (source path or list of them, relative to /verif or absolute, [extra flags][, library sources])}. Returns {name: exe}.
    A driver that names the library sources it needs is linked with those alone, so that it builds in seconds whatever
    changed; if that fails (the code was reorganised), it is linked with the whole library like the others."""
    try:
        return _build(variant, drivers, False)
    except BuildError:
        if all(len(d) > 2 for d in drivers.values()):
            return _build(variant, drivers, True)
        raise


def _build(variant, drivers, full):
    base = os.path.join(CACHE, variant)
    os.makedirs(base, exist_ok=True)
    lock = open(os.path.join(base, "lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        jobs = []
        libobjs = []
        part = None
        if not full and all(len(d) > 2 for d in drivers.values()):
            part = sorted(set(s for d in drivers.values() for s in d[2] if os.path.exists(os.path.join(REPO, s))))
        for s in (lib_sources() if part is None else part):
            o = os.path.join(base, "lib", s[:-3] + ".o")
            libobjs.append(o)
            jobs.append((os.path.join(REPO, s), o, ()))
        # biggest first would be nicer; sources are of comparable cost
        drvobjs = {}
        for name, d in drivers.items():
            srcs, extra = d[0], d[1]
            drvobjs[name] = []
            for src in ([srcs] if isinstance(srcs, str) else srcs):
                p = src if os.path.isabs(src) else os.path.join(VERIF, src)
                o = os.path.join(base, "drv", (name + "__" if extra else "") + p.strip("/").replace("/", "_")[:-3] + ".o")
                drvobjs[name].append(o)
                if (p, o, tuple(extra)) not in jobs:
                    jobs.insert(0, (p, o, tuple(extra)))
        with concurrent.futures.ThreadPoolExecutor(JOBS) as ex:
            futs = [ex.submit(compile_one, variant, s, o, x) for s, o, x in jobs]
            errs = []
            for f in futs:
                try:
                    f.result()
                except BuildError as e:
                    errs.append(str(e))
            if errs:
                raise BuildError("\n".join(errs[:3]))
        lib = os.path.join(base, "libgcs.a" if part is None else "libpart_%s.a" % "_".join(sorted(drivers)))
        tmp = lib + ".tmp"
        if os.path.exists(tmp):
            os.remove(tmp)
        if libobjs:
            r = subprocess.run(["ar", "rcs", tmp] + libobjs, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode:
                raise BuildError("ar failed: " + r.stdout)
            os.replace(tmp, lib)
        exes = {}

        def link(name):
            exe = os.path.join(base, "bin", name)
            os.makedirs(os.path.dirname(exe), exist_ok=True)
            cmd = [CXX] + VARIANTS[variant] + drvobjs[name] + ([lib] if libobjs else []) + ["-o", exe + ".tmp", "-lstdc++exp", "-pthread"]
            if shutil.which("ld.gold") and variant == "plain":
                cmd.append("-fuse-ld=gold")
            r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
            if r.returncode:
                raise BuildError("linking %s failed:\n%s" % (name, r.stdout[-4000:]))
            os.replace(exe + ".tmp", exe)
            return exe
        with concurrent.futures.ThreadPoolExecutor(JOBS) as ex:
            fs = {n: ex.submit(link, n) for n in drivers}
            for n, f in fs.items():
                exes[n] = f.result()
        return exes
    finally:
        fcntl.flock(lock, fcntl.LOCK_UN)
        lock.close()
