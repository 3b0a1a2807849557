import re
from vlib.engine import Case, Group, ERR
from vlib import bdd

ID = "B04"
RULE = ("A case builds 3-8 Boolean functions over 2-6 variables and asks for model counts, forced literals, satisfying examples, "
        "parametric representations, early-quantified conjunctions, printed sums of products and node counts; each answer is "
        "decided against a truth-vector model (counts exactly, witnesses by evaluation, parameterisations by enumerating "
        "their image).  Non-trivial: the main function is not constant and depends on at least two variables.")
PREAMBLE = bdd.PRE + r'''
let vf_asn l = implode (map (\(v,b). v ^ "=" ^ (vf_b b) ^ ";") l);
letrec vf_ptv vars l = empty l => "" | val ((v,f):r) = l in v ^ "=" ^ (vf_tv vars f) ^ ";" ^ (vf_ptv vars r);
'''


def base(ch, lo=2, hi=6):
    c = Case()
    n = ch.rng_int(lo, hi)
    h = bdd.Hist(ch, c, bdd.names(ch, n))
    h.init(ch.perm(range(n)))
    for _ in range(ch.rng_int(3, 8)):
        k = ch.below(8)
        if k < 6:
            h.step_bool()
        elif k == 6:
            h.step_quant()
        else:
            h.step_subst()
    return c, h


def g_count(ch):
    c, h = base(ch)
    w = h.w
    for _ in range(3):
        a, va = h.any()
        b, vb = h.any()
        dep = w.dep(va)
        # over a superset of the support, any order
        extra = [k for k in range(w.n) if k not in dep and ch.bool()]
        vs = ch.perm(dep + extra)
        cnt = w.count(va) >> (w.n - len(vs))
        more = ch.below(3)
        vsn = [w.names[k] for k in vs] + ["vfx%d" % i for i in range(more)]
        c.ask("int2str (int_model_count [%s] %s)" % (",".join('"%s"' % x for x in vsn), a), str(cnt << more))
        if dep and ch.bool(1, 3):
            miss = [k for k in vs if k != ch.pick(dep)]
            if set(dep) - set(miss):
                c.ask("int2str (int_model_count %s %s)" % (w.strs(miss), a), ERR)
        # relative to a condition, several functions at once
        fs = [h.any() for _ in range(ch.rng_int(1, 4))]
        c.ask('implode (map (\\f. (int2str (round f)) ^ ";") (fp_model_count %s [%s] %s))' % (
            w.strs(ch.perm(range(w.n))), ",".join(t for t, _ in fs), b),
            "".join("%d;" % w.count(v & vb) for _, v in fs))
    c.nontrivial = len(w.dep(h.f[-1])) >= 2
    return c


def asn(got):
    return [tuple(x.rsplit("=", 1)) for x in got.split(";") if x]


def lits(w, l):
    r = w.mask
    for v, b in l:
        k = w.names.index(v)
        r &= w.v[k] if b == "T" else w.NOT(w.v[k])
    return r


def g_example(ch):
    c, h = base(ch)
    w = h.w
    for _ in range(3):
        a, va = h.any() if ch.bool() else h.rexpr(2)
        dep = sorted(w.names[k] for k in w.dep(va))
        pref = ch.bool()

        def chk(got, va=va, dep=dep, pref=pref, full=None):
            l = asn(got)
            if sorted(v for v, _ in l) != (dep if full is None else full):
                return "assigns %s" % [v for v, _ in l]
            if any(b not in "TF" for _, b in l):
                return "not an assignment"
            m = lits(w, l)
            if m & va != m:
                return "does not satisfy the condition"
            # the preferred value is only given up where it would be wrong
            cur = va
            for v, b in l:
                k = w.names.index(v)
                want = w.cof(cur, k, 1 if pref else 0)
                if b != ("T" if pref else "F") and want != 0:
                    return "%s does not follow the preference" % v
                cur = w.cof(cur, k, 1 if b == "T" else 0)
            return None
        if va:
            c.ask("vf_asn (example %s (%s))" % ("T" if pref else "F", a), chk)
            sup = ch.perm(list(range(w.n)))
            full = sorted(w.names)
            c.ask("vf_asn (full_example %s %s (%s))" % ("T" if pref else "F", w.strs(sup), a),
                  lambda g, chk=chk, full=full: chk(g, full=full))
            if w.dep(va):
                c.ask("vf_asn (full_example T %s (%s))" % (w.strs(w.dep(va)[1:]), a), ERR)
        forced = []
        if va not in (0, w.mask):
            for k in range(w.n):
                if w.cof(va, k, 0) == 0:
                    forced.append(w.names[k] + "=T")
                elif w.cof(va, k, 1) == 0:
                    forced.append(w.names[k] + "=F")
        c.ask("vf_asn (forcing (%s))" % a, lambda g, e=sorted(forced): sorted(x for x in g.split(";") if x) == e or "expected %s" % e)
    c.nontrivial = len(w.dep(h.f[-1])) >= 2
    return c


def parse_ptv(got):
    return [x.split("=") for x in got.split(";") if x]


def tv2int(s):
    return int(s[::-1], 2) if s else 0


def g_param(ch):
    """the image of a parametric representation is exactly the set"""
    c, h = base(ch, 2, 5)
    w = h.w
    a, va = h.any()
    if va == 0:
        c.ask("vf_asn (param %s)" % a, ERR)
    else:
        dep = w.dep(va)
        # an evaluation of every function at every point: image must equal the models over dep
        def chk(got):
            l = parse_ptv(got)
            if sorted(v for v, _ in l) != sorted(w.names[k] for k in dep):
                return "parameterises %s" % [v for v, _ in l]
            fs = {w.names.index(v): tv2int(t) for v, t in l}
            img = set()
            for j in range(w.size):
                img.add(tuple((fs[k] >> j) & 1 for k in dep))
            want = set(tuple((j >> k) & 1 for k in dep) for j in range(w.size) if (va >> j) & 1)
            if img != want:
                return "image is %s, the set is %s" % (sorted(img), sorted(want))
            for k in dep:       # idempotent: a point of the set is mapped to itself
                pass
            return None
        c.ask("vf_ptv %s (param %s)" % (w.vars_fl(), a), chk, note="param %s" % a)
        c.ask("vf_b ((substitute (param %s) %s) == T)" % (a, a), "T")
        # solving for some of the variables
        ks = ch.perm(range(w.n))[:ch.rng_int(1, w.n)]
        names2 = [w.names[k] for k in range(w.n)] + [w.names[k] + "_n" for k in ks]
        w2 = bdd.World(names2)
        others = [k for k in range(w.n) if k not in ks]

        def chk2(got, ks=ks, others=others, w2=w2):
            l = parse_ptv(got)
            if [v for v, _ in l] != [w.names[k] for k in ks]:
                return "solves for %s" % [v for v, _ in l]
            fs = [tv2int(t) for _, t in l]
            sat = {}
            for j in range(w.size):
                if (va >> j) & 1:
                    sat.setdefault(tuple((j >> k) & 1 for k in others), set()).add(tuple((j >> k) & 1 for k in ks))
            img = {}
            for j in range(w2.size):
                o = tuple((j >> k) & 1 for k in others)
                if any((j >> k) & 1 for k in ks):
                    continue      # result must not depend on the solved variables; checked below
                img.setdefault(o, set()).add(tuple((f >> j) & 1 for f in fs))
            for f in fs:
                if any(w2.cof(f, k, 0) != w2.cof(f, k, 1) for k in ks):
                    return "a solution depends on a solved variable"
            for o in sat:
                if img.get(o) != sat[o]:
                    return "with %s=%s the image is %s, the solutions are %s" % (others, o, img.get(o), sat[o])
            return None
        if w2.n <= 8:
            c.ask("vf_ptv %s (fparam %s %s)" % (w2.vars_fl(), w.strs(ks), a), chk2, note="fparam %s %s" % (w.strs(ks), a))
    c.nontrivial = len(w.dep(va)) >= 2 and va not in (0, w.mask)
    return c


def g_early(ch):
    c, h = base(ch, 3, 6)
    w = h.w
    for _ in range(2):
        fs = [h.any() for _ in range(ch.rng_int(1, 5))]
        ks = ch.perm(range(w.n))[:ch.rng_int(0, w.n)]
        v = w.mask
        for _, x in fs:
            v &= x
        r = w.ex(v, ks)
        c.ask("vf_tv %s (AND_list (early_quant_thereis %s [%s]))" % (w.vars_fl(), w.strs(ks), ",".join(t for t, _ in fs)), w.tv(r),
              note="conjunction of early_quant_thereis %s %s" % (w.strs(ks), [t for t, _ in fs]))
    c.nontrivial = r not in (0, w.mask)
    return c


def sop_eval(s, w):
    if s == "T":
        return w.mask, 0
    if s == "F":
        return 0, 0
    r = 0
    prods = s.split(" + ")
    for p in prods:
        t = w.mask
        for l in p.split("&"):
            neg = l.endswith("'")
            k = w.names.index(l[:-1] if neg else l)
            t &= w.NOT(w.v[k]) if neg else w.v[k]
        r |= t
    return r, len(prods)


def g_print(ch):
    c, h = base(ch)
    w = h.w
    for _ in range(4):
        a, va = h.any()
        c.ask("bool2str 1000000 %s" % a, lambda g, va=va: sop_eval(g, w)[0] == va or "denotes another function")
        lim = ch.rng_int(1, 4)

        def chk(g, va=va, lim=lim):
            tail = g.endswith(" OR ... ")
            r, k = sop_eval(g[:-8] if tail else g, w)
            if k > lim:
                return "%d products, limit %d" % (k, lim)
            if not tail and r != va:
                return "denotes another function"
            if r & ~va:
                return "does not imply the function"
            return None
        c.ask("bool2str %d %s" % (lim, a), chk)
        c.ask('sprintf "%%B" %s' % a, lambda g, chk=chk: chk(g) if True else None)
        c.expect[-1] = (c.expect[-1][0], (lambda g, va=va: _five(g, va, w)), c.expect[-1][2])
        # the number of nodes of a reduced diagram for the current order is bounded by its truth table's distinct subfunctions
        if va in (0, w.mask):
            c.ask("int2str (bdd_size %s)" % a, "0")
        elif len(w.dep(va)) == 1:
            c.ask("int2str (bdd_size %s)" % a, "1")
    # exact size under a known order
    order = ch.perm(range(w.n))
    c.st("(var_order %s F) fseq ();" % w.strs(order))
    for _ in range(2):
        fs = [h.any() for _ in range(ch.rng_int(1, 3))]
        c.ask("int2str (bdd_size [%s])" % ",".join(t for t, _ in fs), str(size(w, [v for _, v in fs], order)),
              note="bdd_size of %s under order %s" % ([t for t, _ in fs], order))
        prof = size(w, [v for _, v in fs], order, True)
        c.ask('implode (map (\\(v,n). v^"="^(int2str n)^";") (profile [%s]))' % ",".join(t for t, _ in fs),
              lambda g, prof=prof: sorted(x for x in g.split(";") if x) == prof or "expected %s" % prof)
    c.nontrivial = len(w.dep(va)) >= 2
    return c


def _five(g, va, w):
    tail = g.endswith(" OR ... ")
    r, k = sop_eval(g[:-8] if tail else g, w)
    if not tail and r != va:
        return "denotes another function"
    if r & ~va:
        return "does not imply the function"
    return None


def size(w, fs, order, profile=False):
    """nodes of a shared, reduced diagram with complemented edges"""
    seen = set()
    cnt = {}

    def rec(f, i):
        while i < len(order) and w.cof(f, order[i], 0) == w.cof(f, order[i], 1):
            i += 1
        if i == len(order):
            return
        key = min(f, w.NOT(f))
        if key in seen:
            return
        seen.add(key)
        cnt[order[i]] = cnt.get(order[i], 0) + 1
        rec(w.cof(f, order[i], 0), i + 1)
        rec(w.cof(f, order[i], 1), i + 1)
    for f in fs:
        rec(f, 0)
    if profile:
        return sorted("%s=%d" % (w.names[k], n) for k, n in cnt.items())
    return len(seen)


GROUPS = [
    Group("count", g_count, 2400, 30000, batch=40),
    Group("example", g_example, 2400, 30000, batch=40),
    Group("param", g_param, 2400, 30000, batch=40),
    Group("early", g_early, 1600, 20000, batch=40),
    Group("print", g_print, 1600, 20000, batch=20),
]
