"""Runs an fl program (a text of statements) in a fresh fl process."""
import os, re, resource, shutil, signal, subprocess, tempfile, threading

from . import build

SCRATCH = None


def scratch_root():
    global SCRATCH
    if SCRATCH is None:
        SCRATCH = tempfile.mkdtemp(prefix="vossrun.")
    return SCRATCH


class Result:
    __slots__ = ("out", "rc", "timeout", "overflow", "prelude_error", "kept", "extra")

    def __init__(self, out, rc, timeout, overflow=False):
        self.out, self.rc, self.timeout, self.overflow = out, rc, timeout, overflow
        self.prelude_error = None

    def crashed(self):
        return self.rc is not None and self.rc < 0 and not self.timeout


MAXOUT = 64 << 20


def run_fl(root, prog, cpu=120, wall=None, args=(), files=None, keep=None, mem=4 << 30, prefs=None, cwd=None,
           quit_=True, binary=None):
    """Returns Result.  The working directory is a fresh scratch directory."""
    d = tempfile.mkdtemp(dir=scratch_root())
    try:
        os.mkdir(d + "/tmp")
        os.mkdir(d + "/work")
        for name, txt in (files or {}).items():
            p = d + "/work/" + name
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, "wb") as fp:
                fp.write(txt if isinstance(txt, bytes) else txt.encode("latin-1"))
        env = build.base_env(root)
        env["HOME"] = d
        if prefs:
            with open(d + "/.vossrc", "w") as fp:
                for k, v in prefs.items():
                    fp.write("%s = %s\n" % (k, v))
        env["VWORK"] = d + "/work"
        if quit_:
            prog = prog + "\nquit;\n"
        data = prog.encode("latin-1") if isinstance(prog, str) else prog

        def limits():
            resource.setrlimit(resource.RLIMIT_CPU, (cpu, cpu + 5))
            resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            resource.setrlimit(resource.RLIMIT_FSIZE, (MAXOUT, MAXOUT))
            os.setsid()
        inp = open(d + "/in", "w+b")
        inp.write(data)
        inp.flush()
        inp.seek(0)
        outf = open(d + "/out", "w+b")
        p = subprocess.Popen([binary or root + "/bin/fl", "-noX", "-q", "-T", d + "/tmp"] + list(args),
                             stdin=inp, stdout=outf, stderr=subprocess.STDOUT,
                             cwd=cwd or d + "/work", env=env, preexec_fn=limits)
        to = False
        try:
            p.wait(timeout=wall or cpu * 4 + 60)
        except subprocess.TimeoutExpired:
            to = True
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except (ProcessLookupError, PermissionError):
            pass
        p.wait()
        rc = p.returncode
        if rc in (-signal.SIGXCPU,) or (rc == -signal.SIGKILL):
            to = True
        outf.seek(0)
        out = outf.read(MAXOUT).decode("latin-1")
        inp.close()
        outf.close()
        if keep:
            for k in list(keep):
                q = d + "/work/" + k
                keep[k] = open(q, "rb").read() if os.path.exists(q) else None
        return Result(out, rc, to, rc == -signal.SIGXFSZ)
    finally:
        shutil.rmtree(d, ignore_errors=True)


MARK = re.compile(r"@<(\d+)\.([A-Za-z0-9_]+)\|(.*?)\|>@", re.S)
END = re.compile(r"@<(\d+)\|END>@")


def parse(out):
    """-> ({case: {tag: value}}, set of ended cases)"""
    vals = {}
    for m in MARK.finditer(out):
        if m.group(3) == "%s":      # the echo of a rejected statement
            continue
        vals.setdefault(int(m.group(1)), {})[m.group(2)] = m.group(3)
    ended = set(int(m.group(1)) for m in END.finditer(out))
    return vals, ended


def raw_segment(out, idx):
    """the raw output of case idx"""
    b = out.find("@<%d|BEG>@" % idx)
    if b < 0:
        return ""
    e = out.find("@<%d|END>@" % idx, b)
    return out[b:e if e >= 0 else None]
