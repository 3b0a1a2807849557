"""Builds fl (and, on request, its companions) from /repo's *current* working
tree, in a scratch directory outside /repo.  Nothing in /repo is written.

The scratch directory is keyed by a hash of every source file that goes into
it, so a change of any byte means a new build; within one sandbox a second
check of the same tree reuses it.  Nothing depends on it being there."""
import fcntl, hashlib, os, shutil, subprocess, sys, time

REPO = os.environ.get("VERIF_REPO", "/repo")
CACHE = os.environ.get("VERIF_BUILD_CACHE", "/tmp/vossverif")
DIRS = ["src", "IDVII"]
KEEP = 3


class BuildError(Exception):
    pass


def base_env(root):
    return {
        "HOME": root, "USER": "root", "LOGNAME": "root", "LANG": "C.UTF-8",
        "PATH": root + "/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
        "CC": "gcc", "CXX": "g++", "CX": "g++", "TZ": "UTC",
    }


def _files():
    out = subprocess.run(["git", "-c", "safe.directory=*", "-C", REPO, "ls-files", "-z",
                          "-c", "-o", "--exclude-standard", "--"] + DIRS,
                         stdout=subprocess.PIPE, check=True).stdout
    fs = sorted(set(f for f in out.decode("utf-8", "surrogateescape").split("\0") if f))
    return [f for f in fs if os.path.lexists(os.path.join(REPO, f))]


def _hash(files):
    h = hashlib.sha256()
    for f in files:
        p = os.path.join(REPO, f)
        h.update(f.encode("utf-8", "surrogateescape") + b"\0")
        if os.path.islink(p):
            h.update(b"L" + os.readlink(p).encode())
        else:
            with open(p, "rb") as fp:
                h.update(hashlib.sha256(fp.read()).digest())
    return h.hexdigest()[:24]


def _run(cmd, cwd, env, log, what):
    r = subprocess.run(cmd, cwd=cwd, env=env, stdin=subprocess.DEVNULL,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    with open(log, "ab") as fp:
        fp.write(r.stdout)
    if r.returncode:
        raise BuildError("%s failed:\n%s" % (what, r.stdout.decode("utf-8", "replace")[-3000:]))


def _tcl():
    return subprocess.run(["pkg-config", "--cflags", "--libs", "tk"],
                          stdout=subprocess.PIPE).stdout.decode().strip()


def _fl_args(d, tcl, extra_debug=""):
    return ["CC=gcc", "CX=g++",
            "FL_OPTIONS=-D__STDC_LIMIT_MACROS -D __STDC_FORMAT_MACROS",
            "DEBUG_FLAG=-g -DDEBUG -DVOSS_TEST_GC" + extra_debug, "OPTIMIZATION_FLAG=",
            "COMPATIBILITY_FLAG=-std=gnu99",
            "BIN_DIR=" + d + "/bin", "LIB_DIR=" + d + "/vosslib",
            "YACC=bison", "LEX=flex -l", "ROOT_DIR=" + d, "VERSION_DATE=00/00/00",
            "PLUGIN_DIR=" + d + "/vosslib", "TCL_INCLUDE=" + tcl]


def build(parts=()):
    """Return (root dir, seconds).  parts: subset of {generics, yosys, yaccfl, functor}."""
    t0 = time.time()
    files = _files()
    key = _hash(files)
    os.makedirs(CACHE, exist_ok=True)
    d = os.path.join(CACHE, key)
    lock = open(os.path.join(CACHE, key + ".lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        if not os.path.exists(d + "/.ok"):
            for attempt in (0, 1):
                shutil.rmtree(d, ignore_errors=True)
                os.makedirs(d)
                _copy(files, d)
                try:
                    _build_fl(d)
                    break
                except BuildError:
                    if attempt:
                        raise
            open(d + "/.ok", "w").close()
        os.utime(d)
        for p in parts:
            if not os.path.exists(d + "/.ok." + p):
                globals()["_part_" + p](d)
                open(d + "/.ok." + p, "w").close()
        _prune(key)
    finally:
        lock.close()
    return d, time.time() - t0


def _prune(key):
    ents = []
    for n in os.listdir(CACHE):
        p = os.path.join(CACHE, n)
        if os.path.isdir(p) and n != key and len(n) == 24:
            ents.append((os.stat(p).st_mtime, p))
    ents.sort(reverse=True)
    for m, p in ents[KEEP:]:
        if time.time() - m > 3600:
            shutil.rmtree(p, ignore_errors=True)


def _copy(files, d):
    data = "\0".join(files).encode("utf-8", "surrogateescape")
    r = subprocess.run(["xargs", "-0", "cp", "-a", "--parents", "-t", d], cwd=REPO, input=data,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode:
        raise BuildError(r.stdout.decode("utf-8", "replace"))


def _build_fl(d):
    env = base_env(d)
    log = d + "/build.log"
    tcl = _tcl()
    src = d + "/src"
    mini = src + "/external/minisat"
    _run(["make", "-C", mini, "config", "prefix=" + mini, "CC=gcc", "CXX=g++"], src, env, log, "minisat config")
    ml = open(log + ".minisat", "wb")
    _run(["make", "-C", mini, "install-headers", "CC=gcc", "CXX=g++"], src, env, log, "minisat headers")
    # only the static library: the project's rule for the shared one races under -j
    mp = subprocess.Popen(["make", "-j6", "-C", mini, "lr", "CC=gcc", "CXX=g++"], cwd=src,
                          env=env, stdin=subprocess.DEVNULL, stdout=ml, stderr=subprocess.STDOUT)
    os.makedirs(d + "/bin", exist_ok=True)
    os.makedirs(d + "/vosslib", exist_ok=True)
    try:
        _run(["make", "-j8", "-C", "lib", "CC=gcc", "CX=g++", "DEBUG_FLAG=-g -DDEBUG", "OPTIMIZATION_FLAG=",
              "COMPATIBILITY_FLAG=-std=gnu99", "LIB_DIR=" + d + "/vosslib", "RANLIB=ranlib",
              "TCL_INCLUDE=" + tcl], src, env, log, "library")
        _run(["make", "-j8", "-C", "bin/fl", "libfl.so"] + _fl_args(d, tcl), src, env, log, "libfl.so")
        _run(["make", "-C", "bin/ignore_signals", "CC=gcc", "CX=g++"], src, env, log, "ignore_signals")
    finally:
        rc = mp.wait()
        ml.close()
    if rc:
        raise BuildError("minisat failed: " + open(log + ".minisat", errors="replace").read()[-2000:])
    os.makedirs(mini + "/lib", exist_ok=True)
    shutil.copy2(mini + "/build/release/lib/libminisat.a", mini + "/lib/libminisat.a")
    _run(["make", "-j8", "-C", "bin/fl"] + _fl_args(d, tcl), src, env, log, "fl")
    for f in ["fl", "libfl.so", "builtins.fl", "preamble.fl", "front_end.tcl", "utils.tcl", "prefs.tcl"]:
        shutil.copy2(src + "/bin/fl/" + f, d + "/bin/" + f)
    shutil.copy2(src + "/bin/ignore_signals/ignore_signals", d + "/bin/ignore_signals")
    for f in os.listdir(src + "/vosslib"):
        p = src + "/vosslib/" + f
        if os.path.isdir(p):
            shutil.copytree(p, d + "/vosslib/" + f, symlinks=True, dirs_exist_ok=True)
        else:
            shutil.copy2(p, d + "/vosslib/" + f)


def _part_generics(d):
    env = base_env(d)
    shutil.rmtree(d + "/IDVII/src/fl/design/generics", ignore_errors=True)
    _run(["make"], d + "/IDVII/src/fl/design", env, d + "/build.log", "generic pexlifs")


def _part_yosys(d):
    env = base_env(d)
    w = d + "/src/external/yosys/write_pexlif"
    _run(["make", "-C", w], d, env, d + "/build.log", "write_pexlif")
    shutil.copy2(w + "/write_pexlif.so", d + "/bin/write_pexlif.so")


def _part_yaccfl(d):
    env = base_env(d)
    _run(["make", "-C", "bin/yaccfl", "BIN_DIR=" + d + "/bin", "LIB_DIR=" + d + "/vosslib"],
         d + "/src", env, d + "/build.log", "yaccfl")


def _part_functor(d):
    env = base_env(d)
    _run(["make", "CC=gcc", "LINKFLAG=", "DEBUG_FLAG=-g -DDEBUG", "OPTIMIZATION_FLAG=",
          "COMPATIBILITY_FLAG=-std=gnu99", "TCL_INCLUDE=" + _tcl()],
         d + "/src/bin/functor", env, d + "/build.log", "functor")
    shutil.copy2(d + "/src/bin/functor/functor", d + "/bin/functor")


if __name__ == "__main__":
    print(build(sys.argv[1:]))
