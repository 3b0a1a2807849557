from vlib.engine import Case, Group, ERR
from vlib import bdd
import re

ID = "B03"
RULE = ("A case is a history of 6-20 Boolean definitions (operators, quantifiers, substitutions) interleaved with events that "
        "must be invisible: installing variable orders, explicit reordering passes with their garbage collections, saving to a file and loading back, and (groups "
        "'pressure'/'auto') a node table so small that collections, table growth and automatic reordering happen during the "
        "operations.  Truth vectors (or sampled assignments and model counts), identity and supports are compared with a Python model "
        "after the events.  Non-trivial: at least one event happened while two non-constant functions were alive.")
PREAMBLE = bdd.PRE + r'''
let vf_order prev = implode (map (\s. s ^ ";") (var_order [] F));
'''


def event(ch, c, h, tag):
    w = h.w
    k = ch.below(6)
    if k < 2:
        ks = ch.perm(range(w.n))[:ch.rng_int(1, w.n)]
        c.st("(var_order %s F) fseq ();" % w.strs(ks))
        want = [w.names[x] for x in ks]
        c.ask('implode (map (\\s. s ^ ";") (var_order [] F))',
              lambda g, want=want, allv=list(w.names): check_order(g, want, allv), note="variable order after var_order %s" % want)
        c.label("var_order")
    elif k == 2:
        c.st("(bdd_reorder %d) fseq ();" % ch.rng_int(1, 2))
        c.label("reorder")
    elif k == 3:
        # save, then load into fresh names
        i = [ch.below(len(h.f)) for _ in range(ch.rng_int(1, 4))]
        if ch.bool(1, 6):
            i = []
        c.st('(bdd_save "%s.bdd" [%s]) fseq ();' % (tag, ",".join("f%d" % x for x in i)))
        if ch.bool():
            event(ch, c, h, tag + "x")
        c.st('let %s_l = bdd_load "%s.bdd";' % (tag, tag))
        c.st("%s_l fseq ();" % tag)
        c.ask("int2str (length %s_l)" % tag, str(len(i)))
        for j, x in enumerate(i):
            c.ask("vf_b ((el %d %s_l) == f%d)" % (j + 1, tag, x), "T", note="loaded function %d is the saved f%d" % (j, x))
        c.label("saveload")
    elif k == 4:
        # names go out of scope: garbage for the next collection
        c.st("let junk = map (\\i. bv_mul (bv_variable (sprintf \"%s_%%d[3:0]\" i)) (bv_variable \"%s[4:0]\")) (1 upto 3);" % (tag, tag))
        c.st("(length (depends junk)) fseq ();")
        c.st("let junk = ();")
        c.st("(bdd_reorder 1) fseq ();")
        c.label("garbage")
    else:
        # reorder in the middle of an evaluation
        (a, va), (b, vb) = h.any(), h.any()
        h.define("let x = (%s XOR %s) then (bdd_reorder 1) fseq (var_order %s F) fseq (x AND %s)" %
                 (a, b, w.strs(ch.perm(range(w.n))[:2]), a), (va ^ vb) & va)
        c.label("mid-eval")


def check_order(got, want, allv):
    g = [x for x in got.split(";") if x]
    if g[:len(want)] != want:
        return "the order does not start with the requested variables"
    if len(set(g)) != len(g):
        return "duplicate variables"
    if not set(allv) <= set(g):
        return "variables missing"
    return None


def hist(ch, nlo, nhi, steps, wide=False):
    c = Case()
    n = ch.rng_int(nlo, nhi)
    h = bdd.Hist(ch, c, bdd.names(ch, n))
    h.init(ch.perm(range(n)))
    for _ in range(ch.rng_int(2, 5)):
        h.step_bool()
    ev = 0
    alive = 0
    for s in range(steps):
        k = ch.below(10)
        if k < 4:
            h.step_bool()
        elif k < 6:
            h.step_quant()
        elif k < 7:
            h.step_subst()
        else:
            event(ch, c, h, "s%d" % s)
            ev += 1
            alive = max(alive, len(set(x for x in h.f[n:] if x not in (0, h.w.mask))))
    c.nontrivial = ev > 0 and alive >= 2
    return c, h


def g_hist(ch):
    c, h = hist(ch, 2, 6, ch.rng_int(4, 12))
    h.verify(ch.perm(range(h.w.n, len(h.f)))[:6])
    h.verify_canon(4)
    a, va = h.any()
    c.ask("vf_sl (depends %s)" % a, "".join(s + ";" for s in sorted(h.w.names[k] for k in h.w.dep(va))))
    return c


def asn_fl(w, j):
    return "[" + ",".join('"%s"' % w.names[k] for k in range(w.n) if (j >> k) & 1) + "]"


def sampled(ch, c, h, cnt):
    w = h.w
    for _ in range(cnt):
        i = ch.rng_int(w.n, len(h.f) - 1)
        js = [ch.below(w.size) for _ in range(20)]
        c.ask("vf_evs f%d [%s]" % (i, ",".join(asn_fl(w, j) for j in js)), "".join(str((h.f[i] >> j) & 1) for j in js))
        c.ask("int2str (int_model_count %s f%d)" % (w.vars_fl(), i), str(w.count(h.f[i])))


def dense(ch, h):
    """a random function of many nodes: a table look-up over about half of the variables, combined by XOR"""
    w = h.w
    n = w.n
    ks = ch.perm(range(n))[:min(n, ch.rng_int(5, 7))]
    t, v = None, None
    terms = []
    for _ in range(ch.rng_int(10, 24)):
        sub = ch.perm(range(n))[:ch.rng_int(3, 5)]
        tt, vv = [], w.mask
        for k in sub:
            if ch.bool():
                tt.append("fv%d" % k)
                vv &= w.v[k]
            else:
                tt.append("NOT fv%d" % k)
                vv &= w.NOT(w.v[k])
        terms.append(("(" + " AND ".join(tt) + ")", vv))
    t = " XOR ".join(x for x, _ in terms)
    v = 0
    for _, x in terms:
        v ^= x
    return h.define(t, v)


def g_auto(ch):
    return g_pressure(ch, 9, 11)


def g_pressure(ch, lo=11, hi=13):
    c = Case()
    n = ch.rng_int(lo, hi)
    h = bdd.Hist(ch, c, bdd.names(ch, n))
    h.init(ch.perm(range(n)))
    d = [dense(ch, h) for _ in range(ch.rng_int(4, 8))]
    for s in range(ch.rng_int(8, 20)):
        k = ch.below(12)
        if k < 3:
            i, j = ch.pick(d), ch.pick(d)
            op = ch.pick(["AND", "OR", "XOR"])
            r = {"AND": h.f[i] & h.f[j], "OR": h.f[i] | h.f[j], "XOR": h.f[i] ^ h.f[j]}[op]
            d.append(h.define("f%d %s f%d" % (i, op, j), r))
        elif k < 5:
            d.append(dense(ch, h))
        elif k < 8:
            h.step_bool()
        elif k < 10:
            h.step_quant()
        elif k == 10:
            h.step_subst()
        else:
            event(ch, c, h, "s%d" % s)
    sampled(ch, c, h, 5)
    for _ in range(4):
        (a, va), (b, vb) = h.any(), h.any()
        c.ask("vf_b (%s == %s)" % (a, b), "T" if va == vb else "F")
        c.ask("vf_b (((%s XOR %s) XOR %s) == %s)" % (a, b, b, a), "T")
    c.nontrivial = True
    return c


GROUPS = [
    Group("hist", g_hist, 800, 16000, batch=8),
    Group("small", g_hist, 600, 8000, batch=8, args=("-s", "12"),
          prefs={"DYNAMIC-ORDERING-THRESHOLD": "200", "MINIMUM-SIZE-FOR-DYNAMIC-ORDERING": "0"}),
    Group("pressure", g_pressure, 200, 3000, batch=4, args=("-s", "12"), prefs={"DYNAMIC-ORDERING": "NO"}),
    Group("auto", g_auto, 100, 2000, batch=3, args=("-s", "12"),
          prefs={"DYNAMIC-ORDERING-THRESHOLD": "50", "DYNAMIC-ORDERING": "YES"}),
]
