"""The property-based-testing engine.

A check module defines ID, RULE, GROUPS (list of Group), optionally PREAMBLE,
PARTS (build parts), ARGS.  A Group generates Cases from Choices.  Cases are
batched into one fl process each; a failure is re-run alone in a fresh process
three times, shrunk, and written as a replay file."""
import hashlib, json, multiprocessing as mp, os, re, sys, time, traceback

from . import build, flrun
from .choices import Choices, shrink, Exhausted

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ERR = object()     # expected: the expression raises / prints nothing


def oneline(s):
    """fl reads its standard input one line at a time, so a statement stays on one line"""
    return s.replace("\n", " ")


def prelude(s):
    """each statement of a preamble on one line; statements are separated by a line ending in ';'"""
    return re.sub(r"(?<!;)\n", " ", re.sub(r"(?m)[ \t]+$", "", s.strip() + "\n"))


PRELUDE_END = 'fprintf stdout "\\n@<PRELUDE>@\\n";\n'


class PreludeError(Exception):
    pass


class Case:
    """One generated case.

    prog    list of fl statements
    exprs   [(tag, fl string expression, expected)]: expected is a str, ERR or a
            predicate str -> bool/None/str
    judge   optional fn(vals, raw) -> None | message, after the exprs
    """
    def __init__(self):
        self.prog = []
        self.expect = []
        self.judges = []
        self.nontrivial = True
        self.labels = []
        self.key = None
        self.n = 0
        self.idx = None          # filled by the runner: text of markers

    def st(self, s):
        self.prog.append(s)

    def ask(self, expr, expected, note=None):
        """expr: fl expression of type string"""
        t = "q%d" % self.n
        self.n += 1
        self.prog.append(("ASK", t, expr))
        self.expect.append((t, expected, note or expr))
        return t

    def out(self, tag, expr):
        """emit a value for a judge"""
        self.prog.append(("ASK", tag, expr))

    def judge(self, fn):
        self.judges.append(fn)

    def label(self, l):
        self.labels.append(l)

    def text(self, i):
        out = ['fprintf stdout "\\n@<%d|BEG>@\\n";' % i]
        for p in self.prog:
            if isinstance(p, tuple):
                out.append('fprintf stdout "\\n@<%d.%s|%%s|>@\\n" (%s);' % (i, p[1], p[2]))
            else:
                out.append(oneline(p))
        out.append('fprintf stdout "\\n@<%d|END>@\\n";' % i)
        return "\n".join(out) + "\n"

    def body(self):
        return "\n".join(p if isinstance(p, str) else 'print ((%s)^"\\n");' % p[2] for p in self.prog)

    def verdict(self, vals, raw):
        for t, exp, note in self.expect:
            got = vals.get(t)
            if exp is ERR:
                if got is not None:
                    return "%s: expected an exception, got %r" % (note, got)
            elif callable(exp):
                if got is None:
                    return "%s: no value (%s)" % (note, errline(raw))
                r = exp(got)
                if r is not None and r is not True:
                    return "%s: got %r: %s" % (note, got, r if isinstance(r, str) else "predicate failed")
            elif got != exp:
                if got is None:
                    return "%s: expected %r, got no value (%s)" % (note, exp, errline(raw))
                return "%s: expected %r, got %r" % (note, exp, got)
        for j in self.judges:
            r = j(vals, raw)
            if r:
                return r
        return None


def errline(raw):
    ls = [l for l in raw.splitlines() if re.search(r"Failure|rror|exception|===|####", l)]
    return " / ".join(ls[:3])[:400]


class Group:
    """gen(ch) -> Case.  quick/thorough: number of cases; batch: cases per fl process."""
    def __init__(self, name, gen, quick, thorough, batch=40, preamble="", args=(), cpu=120, prefs=None,
                 runner=None, files=None):
        self.name, self.gen, self.quick, self.thorough, self.batch = name, gen, quick, thorough, batch
        self.preamble, self.args, self.cpu, self.prefs = preamble, tuple(args), cpu, prefs
        self.runner, self.files = runner, files


class Check:
    def __init__(self, mod):
        self.mod = mod
        self.id = mod.ID
        self.groups = mod.GROUPS
        self.preamble = getattr(mod, "PREAMBLE", "")


CHK = None
ROOT = None


def case_seed(seed, chk, group, i):
    return int.from_bytes(hashlib.sha256(("%d/%s/%s/%d" % (seed, chk, group, i)).encode()).digest()[:8], "big")


def gen_case(g, seed=None, prefix=None):
    ch = Choices(seed, prefix)
    c = g.gen(ch)
    c.choices = ch.rec
    return c


def run_cases(g, cases, cpu=None):
    """Run the cases in one process; -> (Result, vals, ended)"""
    if g.runner:
        return g.runner(ROOT, g, cases, cpu)
    prog = prelude(CHK.preamble) + prelude(g.preamble) + PRELUDE_END + "".join(c.text(i) for i, c in enumerate(cases))
    files = dict(g.files or {})
    for c in cases:
        files.update(getattr(c, "files", {}))
    r = flrun.run_fl(ROOT, prog, cpu=cpu or g.cpu, args=g.args, prefs=g.prefs, files=files)
    vals, ended = flrun.parse(r.out)
    pre, mid, post = r.out.partition("@<PRELUDE>@")
    r.prelude_error = None
    if re.search(r"=== ?Type error|#### ?Syntax error|Failure:", pre) or not mid:
        r.prelude_error = "the definitions the cases rely on are rejected: " + (errline(pre) or pre[-300:])
    return r, vals, ended


def describe_end(r):
    if r.timeout:
        return "fl did not finish within its CPU limit"
    if r.rc is not None and r.rc < 0:
        return "fl was killed by signal %d" % -r.rc
    return "fl stopped early (exit code %s): %s" % (r.rc, r.out[-300:].strip())


def judge_one(c, i, r, vals, ended):
    if getattr(r, "prelude_error", None):
        return r.prelude_error
    if i not in ended:
        return "%s; %s" % (describe_end(r), errline(flrun.raw_segment(r.out, i)))
    try:
        return c.verdict(vals.get(i, {}), flrun.raw_segment(r.out, i))
    except Exception as e:      # output of a shape the oracle cannot read
        return "malformed output (%s: %s)" % (type(e).__name__, e)


def _batch(a):
    """worker: -> stats dict"""
    gi, lo, hi, seed, deadline = a
    g = CHK.groups[gi]
    st = {"g": g.name, "n": 0, "nt": [], "labels": {}, "fails": [], "samples": [], "err": None, "skipped": 0}
    if time.time() > deadline:
        st["skipped"] = hi - lo
        return st
    tb = time.time()
    try:
        cases = []
        for i in range(lo, hi):
            c = gen_case(g, case_seed(seed, CHK.id, g.name, i))
            c.no = i
            cases.append(c)
        todo = list(range(len(cases)))
        guard = 0
        while todo:
            sub = [cases[k] for k in todo]
            r, vals, ended = run_cases(g, sub)
            rest = []
            for j, k in enumerate(todo):
                if j in ended:
                    m = judge_one(cases[k], j, r, vals, ended)
                    if m:
                        st["fails"].append((cases[k].no, m, [cases[x].no for x in todo[:j + 1]]))
                    st["n"] += 1
                    continue
                # the process ended inside this case
                st["fails"].append((cases[k].no, judge_one(cases[k], j, r, vals, ended), [cases[x].no for x in todo[:j + 1]]))
                st["n"] += 1
                rest = todo[j + 1:]
                break
            todo = rest
            guard += 1
            if guard > 4:
                break
        for c in cases:
            for l in c.labels:
                st["labels"][l] = st["labels"].get(l, 0) + 1
            if c.nontrivial:
                k = c.key if c.key is not None else c.body()
                st["nt"].append(hashlib.md5(repr(k).encode("utf-8", "replace")).hexdigest()[:16])
        for c in cases:
            if c.nontrivial:
                st["samples"].append(c.body()[:1200])
                break
    except Exception:
        st["err"] = traceback.format_exc()
    st["time"] = (round(time.time() - tb, 1), g.name, lo)
    return st


def load_known():
    p = VERIF + "/known_findings.json"
    if not os.path.exists(p):
        return []
    return json.load(open(p))


def known_match(pid, group, msg, body):
    for k in load_known():
        if k.get("status") == "fixed" or k["property"] != pid:
            continue
        if k.get("group") and k["group"] != group:
            continue
        if re.search(k["match"], (msg + "\n" + body), re.S):
            return k
    return None


def confirm(g, prefixes, tries=3):
    """all prefixes in one process; the last one must fail each time. -> msg or None"""
    msg = None
    for _ in range(tries):
        cases = [gen_case(g, prefix=p) for p in prefixes]
        r, vals, ended = run_cases(g, cases)
        m = judge_one(cases[-1], len(cases) - 1, r, vals, ended)
        if m is None:
            return None
        # a crash in an earlier case is that case's failure, not ours
        msg = m
    return msg


def investigate(g, seed, no, msg, hist):
    """-> dict describing a confirmed failure, or None"""
    chs = {}
    for i in set(hist) | {no}:
        chs[i] = gen_case(g, case_seed(seed, CHK.id, g.name, i)).choices
    alone = confirm(g, [chs[no]])
    slow = "CPU limit" in msg
    if alone is not None:
        best = chs[no]
        if not slow:
            t0 = time.time()

            def fails(c):
                if time.time() - t0 > 60:
                    return None
                try:
                    case = gen_case(g, prefix=c)
                except (Exhausted, Exception):
                    return None
                r, vals, ended = run_cases(g, [case])
                m = judge_one(case, 0, r, vals, ended)
                if m is None or "CPU limit" in m:
                    return None
                return case.choices
            best = shrink(chs[no], fails)
            if confirm(g, [best]) is None:
                best = chs[no]
        final = [best]
    else:
        cur = [chs[i] for i in hist]
        if confirm(g, cur, 2) is None:
            return None
        t0 = time.time()
        k = max(1, len(cur) // 2)
        while k >= 1 and time.time() - t0 < 90:
            i = 0
            while i < len(cur) - 1:
                j = min(i + k, len(cur) - 1)
                cand = cur[:i] + cur[j:]
                if len(cand) < len(cur) and confirm(g, cand, 1) is not None:
                    cur = cand
                else:
                    i = j
                if time.time() - t0 > 90:
                    break
            k //= 2
        final = cur
    m = confirm(g, final)
    if m is None:
        return None
    return {"group": g.name, "message": m, "choices": final,
            "program": [gen_case(g, prefix=p).body() for p in final]}


def write_replay(pid, f):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    h = hashlib.md5(json.dumps(f["choices"]).encode()).hexdigest()[:10]
    p = os.path.join(d, "%s-%s-%s.json" % (pid, f["group"], h))
    with open(p, "w") as fp:
        json.dump({"property": pid, **f}, fp, indent=1)
    return p


def main(mod, argv):
    global CHK, ROOT
    CHK = Check(mod)
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    tier = os.environ.get("VERIF_TIER", "quick")
    only = None
    scale = 1.0
    it = iter(argv)
    replay = None
    for a in it:
        if a == "--tier":
            tier = next(it)
        elif a == "--seed":
            seed = int(next(it))
        elif a == "--group":
            only = next(it).split(",")
        elif a == "--scale":
            scale = float(next(it))
        elif a == "--replay":
            replay = next(it)
        elif a == "--dump":
            only, k = next(it).split(":")
            g = [g for g in CHK.groups if g.name == only][0]
            print(prelude(CHK.preamble) + prelude(g.preamble))
            print(gen_case(g, case_seed(seed, CHK.id, g.name, int(k))).text(0))
            return 0
    if tier not in ("quick", "thorough"):
        tier = "quick"
    ROOT, bs = build.build(getattr(mod, "PARTS", ()))
    flrun.scratch_root()
    try:
        if hasattr(mod, "setup"):
            mod.setup(ROOT)
        if replay:
            f = json.load(open(replay))
            g = [g for g in CHK.groups if g.name == f["group"]][0]
            m = confirm(g, f["choices"])
            for p in f["choices"]:
                print(gen_case(g, prefix=p).body())
            print("REPLAY:", m or "passes")
            return 1 if m else 0
        return _main(t0, seed, tier, only, scale, bs)
    finally:
        import shutil
        shutil.rmtree(flrun.SCRATCH, ignore_errors=True)


def _main(t0, seed, tier, only, scale, bs):
    mod = CHK.mod
    wallcap = 420 if tier == "quick" else 7200
    deadline = t0 + wallcap
    jobs = []
    per_group = {}
    for gi, g in enumerate(CHK.groups):
        if only and g.name not in only:
            continue
        n = max(1, int((g.quick if tier == "quick" else g.thorough) * scale))
        per_group[g.name] = n
        for lo in range(0, n, g.batch):
            jobs.append((lo / n, gi, lo, min(n, lo + g.batch)))
    jobs.sort()
    jobs = [(gi, lo, hi, seed, deadline) for _, gi, lo, hi in jobs]
    # regressions: saved failing inputs, replayed first
    regress = []
    rp = VERIF + "/regress/%s.json" % CHK.id
    if os.path.exists(rp):
        for f in json.load(open(rp)):
            gs = [g for g in CHK.groups if g.name == f["group"]]
            if gs:
                regress.append((gs[0], f["choices"]))
    stats = {"evals": 0, "labels": {}, "groups": {}}
    nt = set()
    samples = []
    fails = []
    errs = []
    skipped = 0
    slowest = (0, "", 0)
    with mp.Pool(min(8, os.cpu_count() or 8)) as pool:
        for st in pool.imap_unordered(_batch, jobs, 1):
            if st["err"]:
                errs.append(st["err"])
                continue
            skipped += st["skipped"]
            slowest = max(slowest, st.get("time", (0, "", 0)))
            stats["evals"] += st["n"]
            gg = stats["groups"].setdefault(st["g"], [0, 0])
            gg[0] += st["n"]
            gg[1] += len(st["nt"])
            for l, c in st["labels"].items():
                k = st["g"] + "/" + l
                stats["labels"][k] = stats["labels"].get(k, 0) + c
            for k in st["nt"]:
                nt.add(st["g"] + k)
            if len(samples) < 40 and st["samples"]:
                if sum(1 for s in samples if s.startswith("[%s]" % st["g"])) < 2:
                    samples.append("[%s] %s" % (st["g"], st["samples"][0]))
            for f in st["fails"]:
                fails.append((st["g"],) + f)
            if len(fails) > 60:
                pool.terminate()
                break
    if errs:
        sys.stderr.write(errs[0])
        print("HARNESS-ERROR %d batches" % len(errs))
        return 2
    fails.sort(key=lambda f: (f[0], f[1]))
    byname = {g.name: g for g in CHK.groups}
    rc = 0
    violations = 0
    unrep = []
    seen_known = {}
    for g, p in regress:
        stats["evals"] += 1
        m = confirm(g, p)
        if m:
            k = known_match(CHK.id, g.name, m, gen_case(g, prefix=p[-1]).body())
            if k:
                seen_known[k["what"]] = seen_known.get(k["what"], 0) + 1
                continue
            f = {"group": g.name, "message": m, "choices": p, "program": [gen_case(g, prefix=x).body() for x in p]}
            violations += 1
            rc = 1
            print("  regression input fails [%s]: %s" % (g.name, m[:600]))
            print("VIOLATION property=%s replay=%s" % (CHK.id, write_replay(CHK.id, f)))
    done_groups = {}
    for gname, no, msg, hist in fails:
        g = byname[gname]
        body = gen_case(g, case_seed(seed, CHK.id, g.name, no)).body()
        k = known_match(CHK.id, gname, msg, body)
        if k:
            seen_known[k["what"]] = seen_known.get(k["what"], 0) + 1
            continue
        if done_groups.get(gname, 0) >= 1 or sum(1 for u in unrep if u.startswith("[" + gname)) >= 6:
            continue
        f = investigate(g, seed, no, msg, hist)
        if f is None:
            unrep.append("[%s] case %d: %s" % (gname, no, msg[:300]))
            continue
        k = known_match(CHK.id, gname, f["message"], "\n".join(f["program"]))
        if k:
            seen_known[k["what"]] = seen_known.get(k["what"], 0) + 1
            continue
        done_groups[gname] = done_groups.get(gname, 0) + 1
        violations += 1
        rc = 1
        rpath = write_replay(CHK.id, f)
        print("  [%s] %s" % (gname, f["message"][:1000]))
        print("  shrunk case:\n    " + "\n    ".join(f["program"][-1].splitlines()[:30]))
        print("VIOLATION property=%s replay=%s" % (CHK.id, rpath))
        if violations >= 3:
            break
    for k in load_known():
        if k["property"] == CHK.id and k.get("status") != "fixed":
            print("KNOWN-FINDING: property=%s %s (seen %d times in this run)" % (CHK.id, k["what"], seen_known.get(k["what"], 0)))
    wall = time.time() - t0
    ev = {"property": CHK.id, "tier": tier, "seed": seed, "level": "exploration",
          "coverage": {"evaluations": stats["evals"], "distinct_nontrivial": len(nt), "rule": mod.RULE,
                       "samples": samples[:12], "groups": {k: {"cases": v[0], "nontrivial": v[1]} for k, v in stats["groups"].items()},
                       "classes": dict(sorted(stats["labels"].items())), "skipped_by_wall_cap": skipped,
                       "known_finding_hits": seen_known, "excluded_unreproduced": unrep},
          "assumptions": getattr(mod, "ASSUMPTIONS", []), "wall_s": round(wall, 2), "violations": violations}
    os.makedirs(VERIF + "/evidence", exist_ok=True)
    if not only:
        with open(VERIF + "/evidence/%s.json" % CHK.id, "w") as fp:
            json.dump(ev, fp, indent=1)
    print("%s tier=%s seed=%d cases=%d nontrivial=%d failures=%d unreproduced=%d build=%.1fs wall=%.1fs" %
          (CHK.id, tier, seed, stats["evals"], len(nt), len(fails), len(unrep), bs, wall))
    print("  slowest batch: %.1fs %s from %d" % slowest)
    for u in unrep:
        print("  unreproduced: " + u)
    if only:
        for l, c in sorted(stats["labels"].items()):
            print("   ", l, c)
    return rc
