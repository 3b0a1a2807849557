from vlib.engine import Case, Group, ERR
from vlib import bdd

ID = "B01"
RULE = ("A case is a history of 4-14 Boolean definitions over 2-7 variables (operators, nested expressions, if-then-else, "
        "lists) whose truth vectors, dependencies and pairwise identity are compared with a Python truth-vector model; "
        "'wide' cases use 9-13 variables and compare sampled assignments.  Non-trivial: at least two "
        "non-constant results depend on three or more variables.")
PREAMBLE = bdd.PRE


def nontriv(h):
    return sum(1 for f in h.f[h.w.n:] if len(h.w.dep(f)) >= 3) >= 2


def g_ops(ch):
    c = Case()
    n = ch.rng_int(2, 6)
    h = bdd.Hist(ch, c, bdd.names(ch, n))
    h.init(ch.perm(range(n)))
    for _ in range(ch.rng_int(4, 12)):
        h.step_bool()
    h.verify(ch.perm(range(n, len(h.f)))[:4] + [len(h.f) - 1])
    h.verify_canon(6)
    a, va = h.any()
    c.ask("vf_sl (depends %s)" % a, "".join(s + ";" for s in sorted(h.w.names[k] for k in h.w.dep(va))))
    b, vb = h.any()
    c.ask("vf_sl (depends (%s,[%s,T]))" % (a, b),
          "".join(s + ";" for s in sorted(h.w.names[k] for k in set(h.w.dep(va)) | set(h.w.dep(vb)))))
    c.nontrivial = nontriv(h)
    return c


def asn_fl(w, j):
    return "[" + ",".join('"%s"' % w.names[k] for k in range(w.n) if (j >> k) & 1) + "]"


def g_wide(ch):
    """many variables: sampled assignments, exact identity against a rebuilt function"""
    c = Case()
    n = ch.rng_int(9, 13)
    h = bdd.Hist(ch, c, bdd.names(ch, n))
    h.init(ch.perm(range(n)))
    for _ in range(ch.rng_int(8, 20)):
        if ch.bool(1, 6):
            h.step_quant()
        elif ch.bool(1, 8):
            h.step_subst()
        else:
            h.step_bool()
    w = h.w
    for _ in range(3):
        i = ch.rng_int(n, len(h.f) - 1)
        js = [ch.below(w.size) for _ in range(24)]
        c.ask("vf_evs f%d [%s]" % (i, ",".join(asn_fl(w, j) for j in js)), "".join(str((h.f[i] >> j) & 1) for j in js))
        c.ask("int2str (int_model_count %s f%d)" % (w.vars_fl(), i), str(w.count(h.f[i])))
        # Shannon re-composition is the same function
        k = ch.below(n)
        c.ask('vf_b ((fv%d => (substitute [("%s",T)] f%d) | (substitute [("%s",F)] f%d)) == f%d)' %
              (k, w.names[k], i, w.names[k], i, i), "T")
    for _ in range(4):
        (a, va), (b, vb) = h.any(), h.any()
        c.ask("vf_b (%s == %s)" % (a, b), "T" if va == vb else "F")
        # De Morgan, absorption, distribution: different construction, same object
        d, vd = h.any()
        law = ch.below(5)
        t = ["(NOT (%s AND %s)) == ((NOT %s) OR (NOT %s))" % (a, b, a, b),
             "(%s AND (%s OR %s)) == ((%s AND %s) OR (%s AND %s))" % (a, b, d, a, b, a, d),
             "(%s XOR %s) == ((%s AND NOT %s) OR (%s AND NOT %s))" % (a, b, a, b, b, a),
             "(%s => %s | %s) == ((%s AND %s) OR ((NOT %s) AND %s))" % (a, b, d, a, b, a, d),
             "((%s XNOR %s) XOR %s) == (%s XNOR (%s XOR %s))" % (a, b, d, a, b, d)][law]
        c.ask("vf_b (%s)" % t, "T")
    c.nontrivial = nontriv(h)
    return c


def g_struct(ch):
    """=, == and if-then-else over structures of Booleans"""
    c = Case()
    n = ch.rng_int(2, 5)
    h = bdd.Hist(ch, c, bdd.names(ch, n))
    h.init()
    for _ in range(ch.rng_int(2, 6)):
        h.step_bool()
    w = h.w
    L = ch.rng_int(1, 4)
    for _ in range(3):
        xs = [h.rexpr(1) for _ in range(L)]
        ys = [h.rexpr(1) if ch.bool() else x for x in xs]
        cnd = h.rexpr(1)
        X = "[" + ",".join(t for t, _ in xs) + "]"
        Y = "[" + ",".join(t for t, _ in ys) + "]"
        eq = w.mask
        for (_, a), (_, b) in zip(xs, ys):
            eq &= w.NOT(a ^ b)
        c.ask("vf_tv %s (%s = %s)" % (w.vars_fl(), X, Y), w.tv(eq))
        c.ask("vf_tv %s (%s != %s)" % (w.vars_fl(), X, Y), w.tv(w.NOT(eq)))
        c.ask("vf_b (%s == %s)" % (X, Y), "T" if all(a[1] == b[1] for a, b in zip(xs, ys)) else "F")
        c.ask("vf_tv %s (%s = %s)" % (w.vars_fl(), X, "(%s:%s)" % (ys[0][0], Y)), w.tv(0))
        k = ch.below(L)
        r = w.ite(cnd[1], xs[k][1], ys[k][1])
        c.ask("vf_tv %s (el %d (%s => %s | %s))" % (w.vars_fl(), k + 1, cnd[0], X, Y), w.tv(r))
        c.ask("vf_tv %s (snd (%s => (1,%s) | (1,%s)))" % (w.vars_fl(), cnd[0], xs[k][0], ys[k][0]), w.tv(r))
        s = "snd (%s => (%d,T) | (%d,F))" % (cnd[0], 1, 2)
        if cnd[1] in (0, w.mask):
            c.ask("vf_b (%s)" % s, "T" if cnd[1] else "F")
        else:
            c.ask("vf_tv [] (%s)" % s, ERR)
        lim = ch.pick(["limitedAND", "limitedOR"])
        (a, va), (b, vb) = h.any(), h.any()
        c.ask("vf_tv %s (%s %s %s 100000)" % (w.vars_fl(), lim, a, b), w.tv(va & vb if lim == "limitedAND" else va | vb))
        # with a tight limit the result is either right or an exception
        rr = w.tv(va & vb if lim == "limitedAND" else va | vb)
        c.ask("(vf_tv %s (%s %s %s %d)) catch \"E\"" % (w.vars_fl(), lim, a, b, ch.rng_int(0, 6)),
              lambda g, rr=rr: g in ("E", rr))
    c.nontrivial = nontriv(h) or L > 1
    return c


GROUPS = [
    Group("ops", g_ops, 1600, 20000, batch=50),
    Group("wide", g_wide, 240, 3000, batch=10),
    Group("struct", g_struct, 500, 6000, batch=50),
]
