from vlib.engine import Case, Group, ERR
from vlib import bdd

ID = "B02"
RULE = ("A case is a history of 5-14 definitions over 2-6 variables that mixes Boolean operators with quantifiers (by name "
        "list, by variable expression, with binders), relational products, simultaneous substitution over structures, and "
        "current/next renaming; every result's truth vector is compared with a Python truth-vector model. "
        "Non-trivial: at least three quantifier/substitution results and one that is not constant.")
PREAMBLE = bdd.PRE


def g_quant(ch):
    c = Case()
    n = ch.rng_int(2, 6)
    h = bdd.Hist(ch, c, bdd.names(ch, n))
    h.init(ch.perm(range(n)))
    for _ in range(ch.rng_int(1, 3)):
        h.step_bool()
    q = []
    for _ in range(ch.rng_int(3, 9)):
        k = ch.below(6)
        if k == 0:
            h.step_bool()
        else:
            q.append(h.step_quant())
    h.verify(ch.perm(range(n, len(h.f)))[:6])
    h.verify_canon(3)
    c.nontrivial = len(q) >= 3 and any(h.f[i] not in (0, h.w.mask) for i in q)
    return c


def g_subst(ch):
    c = Case()
    n = ch.rng_int(2, 6)
    h = bdd.Hist(ch, c, bdd.names(ch, n))
    h.init(ch.perm(range(n)))
    for _ in range(ch.rng_int(1, 3)):
        h.step_bool()
    q = []
    for _ in range(ch.rng_int(3, 8)):
        k = ch.below(8)
        if k == 0:
            h.step_bool()
        elif k == 1:
            h.step_quant()
        else:
            q.append(h.step_subst())
    h.verify(ch.perm(range(n, len(h.f)))[:6])
    h.verify_canon(3)
    c.nontrivial = len(q) >= 3 and any(h.f[i] not in (0, h.w.mask) for i in q)
    return c


def g_next(ch):
    """pairs of current/next variables: image computation the way a model checker does it"""
    c = Case()
    m = ch.rng_int(1, 3)
    p = "pqrst"[ch.below(5)]
    cur = ["%s%d" % (p, i) for i in range(m)]
    names = cur + [x + "_n" for x in cur]
    w = bdd.World(names)
    h = bdd.Hist(ch, c, names)
    h.init(ch.perm(range(2 * m)))
    for _ in range(ch.rng_int(1, 4)):
        h.step_bool()
    R, vR = h.any()
    # a set of current states
    S = h.define("Quant_thereis %s %s" % (w.strs(range(m, 2 * m)), R), w.ex(vR, range(m, 2 * m)))
    vS = h.f[S]
    R2, vR2 = h.any()
    qv = " AND ".join("fv%d" % k for k in range(m))
    img = h.define("relprod_thereis (%s) f%d %s" % (qv, S, R2), w.ex(vS & vR2, range(m)))
    back = h.define("bdd_next2current f%d" % img, w.subst(h.f[img], {m + k: w.v[k] for k in range(m)}))
    fwd = h.define("bdd_current2next f%d" % back, w.subst(h.f[back], {k: w.v[m + k] for k in range(m)}))
    h.define("bdd_current2next (NOT f%d)" % S, w.subst(w.NOT(vS), {k: w.v[m + k] for k in range(m)}))
    qn = " AND ".join("fv%d" % (m + k) for k in range(m))
    h.define("relprod_forall (%s) %s f%d" % (qn, R2, fwd), w.all(vR2 & h.f[fwd], range(m, 2 * m)))
    # overlapping names are rejected
    d = set(w.dep(vR))
    if any(k in d and (k + m) in d for k in range(m)):
        c.ask("vf_tv %s (bdd_current2next %s)" % (w.vars_fl(), R), ERR)
    h.verify()
    h.verify_canon(3)
    c.nontrivial = h.f[img] not in (0, w.mask)
    return c


GROUPS = [
    Group("quant", g_quant, 5000, 60000, batch=50),
    Group("subst", g_subst, 3000, 40000, batch=50),
    Group("next", g_next, 2000, 30000, batch=50),
]
