from vlib.engine import Case, Group, ERR
from vlib import bdd, bvs

ID = "V02"
RULE = ("A case is a history of 2-6 operations on signed bitvectors of bexprs over 2-5 Boolean variables; every value is compared "
        "under every assignment with exact integers, comparisons with truth vectors, conversions to bv with the reference.  "
        "Non-trivial: two results take three or more distinct values.")
PREAMBLE = bdd.PRE + bvs.PRE


def hist(ch, nlo, nhi, steps, maxw):
    c = Case()
    h = bvs.BV(ch, c, ch.rng_int(nlo, nhi), "bev", maxw)
    for _ in range(ch.rng_int(*steps)):
        h.step()
    nv = len(h.vecs)
    c.nontrivial = sum(1 for v in h.vals[nv:] if len(set(v)) >= 3) >= 2
    return c, h, nv


def g_ops(ch):
    c, h, nv = hist(ch, 2, 5, (2, 6), 4)
    N = len(h.vals)
    for i in ch.perm(range(nv, N))[:4]:
        if ch.bool(1, 3):
            c.ask("vf_bv %s (bexpr2bdd [] x%d)" % (h.w.vars_fl(), i), h.want(h.vals[i]), note="values of x%d via BDDs" % i)
        else:
            c.ask(h.show(i), h.want(h.vals[i]), note="values of x%d" % i)
    for i, tv in list(enumerate(h.bools))[:4]:
        c.ask("vf_btv %s c%d" % (h.w.vars_fl(), i), "".join(map(str, tv)), note="c%d" % i)
    i = ch.below(N)
    c.ask("int2str (bev_size x%d)" % i, lambda g, s=h.size(h.vals[i]): int(g) >= s or "too narrow for its values", note="width of x%d" % i)
    i, j = ch.below(N), ch.below(N)
    tv = "".join(str(int(a == b)) for a, b in zip(h.vals[i], h.vals[j]))
    c.ask("vf_btv %s (bev_eq x%d x%d)" % (h.w.vars_fl(), i, j), tv, note="x%d = x%d" % (i, j))
    c.ask("vf_btv %s (bev_neq x%d x%d)" % (h.w.vars_fl(), i, j), "".join("01"[b == "0"] for b in tv), note="x%d != x%d" % (i, j))
    # satisfiability over integers: a model of x_i = constant
    i = ch.below(N)
    v = ch.pick(h.vals[i]) if ch.bool(2, 3) else ch.rng_int(-9, 9)
    asn = "".join("(bev_eq x%d (int2bev (%d)))" % (i, v))
    c.ask("let m = bget_model [%s] 1000 in empty m => \"UNSAT\" | int2str (bev2int (bsubstitute (m@%s) x%d))" %
          (asn, "(filter (\\p. NOT (mem (fst p) (map fst m))) [%s])" % ",".join('("%s",bF)' % n for n in h.names), i),
          lambda g, v=v, vs=h.vals[i]: (g == str(v) if v in vs else g == "UNSAT"), note="model of x%d = %d" % (i, v))
    return c


def g_const(ch):
    from vlib.vals import big_int
    c = Case()
    for _ in range(4):
        a, b = big_int(ch, 70), big_int(ch, 70)
        a, b = (a % (1 << 70)) * (1 if a >= 0 else -1), (b % (1 << 50)) * (1 if b >= 0 else -1)
        k = ch.below(8)
        A, B = "(int2bev (%d))" % a, "(int2bev (%d))" % b
        f = {0: ("+", a + b), 1: ("-", a - b), 2: ("*", (a * b)), 3: ("/", a // b if b else None), 4: ("%", a % b if b else None)}.get(k)
        if f:
            if f[1] is None:
                continue
            c.ask("int2str (bev2int (%s %s %s))" % (A, f[0], B), str(f[1]))
        elif k == 5:
            c.ask("int2str (bev2int %s)" % A, str(a))
        elif k == 6:
            c.ask("int2str (bev_size %s)" % A, str(bvs.need(a)))
        else:
            c.ask("vf_bb (%s < %s)" % (A, B), "T" if a < b else "F")
    return c


GROUPS = [
    Group("ops", g_ops, 3000, 50000, batch=20),
    Group("const", g_const, 900, 12000, batch=25),
]
