from vlib.engine import Case, Group, ERR
from vlib import bdd, bvs

ID = "V01"
RULE = ("A case is a history of 3-9 operations on signed symbolic bitvectors over 2-6 Boolean variables; every value is compared under "
        "every assignment with exact integers, its width with the smallest sufficient width, equality and range queries with "
        "the set of values.  Non-trivial: two results take three or more distinct values.")
PREAMBLE = bdd.PRE + bvs.PRE + r'''
let vf_pr (a,b) = (int2str a) ^ ":" ^ (int2str b);
letrec vf_kid n l = n = 0 => l | let r = vf_kid (n-1) l in r;
let vf_vals bv = letrec go cond = cond == F => [] | let b = substitute (full_example F (depends bv) cond) bv in (bv2int b):(go (cond AND (bv != b))) in implode (map (\i. (int2str i) ^ ",") (qsort (\a.\b. a < b => -1 | a > b => 1 | 0) (go T)));
'''


def hist(ch, kind, nlo, nhi, steps, maxw):
    c = Case()
    h = bvs.BV(ch, c, ch.rng_int(nlo, nhi), kind, maxw)
    for _ in range(ch.rng_int(*steps)):
        h.step()
    nv = len(h.vecs)
    c.nontrivial = sum(1 for v in h.vals[nv:] if len(set(v)) >= 3) >= 2
    return c, h, nv


def g_ops(ch):
    c, h, nv = hist(ch, "bv", 2, 6, (3, 8), 7)
    N = len(h.vals)
    for i in ch.perm(range(nv, N))[:5]:
        c.ask(h.show(i), h.want(h.vals[i]), note="values of x%d" % i)
    if ch.bool(1, 4):
        i = ch.below(nv)
        c.ask(h.show(i), h.want(h.vals[i]), note="values of x%d" % i)
    for i, tv in list(enumerate(h.bools))[:4]:
        c.ask("vf_tv %s c%d" % (h.w.vars_fl(), i), "".join(map(str, tv)), note="c%d" % i)
    i = ch.below(N)
    c.ask("int2str (bv_size x%d)" % i, str(h.size(h.vals[i])), note="width of x%d" % i)
    for _ in range(2):
        i, j = ch.below(N), ch.below(N)
        c.ask("vf_b (x%d == x%d)" % (i, j), "T" if h.vals[i] == h.vals[j] else "F", note="x%d == x%d" % (i, j))
        tv = "".join(str(int(a == b)) for a, b in zip(h.vals[i], h.vals[j]))
        c.ask("vf_tv %s (x%d = x%d)" % (h.w.vars_fl(), i, j), tv, note="x%d = x%d" % (i, j))
    i = ch.below(N)
    dep = [h.names[k] for k in range(h.n) if any(h.vals[i][a] != h.vals[i][a ^ (1 << k)] for a in range(h.N))]
    c.ask("vf_sl (depends x%d)" % i, "".join(s + ";" for s in sorted(dep)), note="support of x%d" % i)
    return c


def g_range(ch):
    c, h, nv = hist(ch, "bv", 2, 5, (2, 6), 6)
    N = len(h.vals)
    for _ in range(3):
        i = ch.rng_int(0, N - 1)
        v = h.vals[i]
        k = ch.below(9)
        if k == 0:
            c.ask("int2str (bv_min x%d)" % i, str(min(v)), note="bv_min x%d" % i)
            c.ask("int2str (bv_max x%d)" % i, str(max(v)), note="bv_max x%d" % i)
        elif k == 1:
            c.ask("vf_pr (bv_range x%d)" % i, "%d:%d" % (min(v), max(v)), note="bv_range x%d" % i)
        elif k == 2:
            ks = [x for x in range(h.n) if ch.bool()]
            # sum over the named variables the vector depends on
            w = list(v)
            for x in ks:
                if any(v[a] != v[a ^ (1 << x)] for a in range(h.N)):
                    w = [w[a & ~(1 << x)] + w[a | (1 << x)] for a in range(h.N)]
            ks = [x for x in ks if any(v[a] != v[a ^ (1 << x)] for a in range(h.N))]
            if ks:
                c.label("sum")
                s = h.define("bv_sum %s x%d" % (h.w.strs(ks), i), tuple(w))
                c.ask(h.show(s), h.want(w), note="bv_sum %s x%d" % (h.w.strs(ks), i))
        elif k == 3:
            c.ask("vf_tv %s (mutex x%d)" % (h.w.vars_fl(), i),
                  "".join(str(int(x > 0 and x & (x - 1) == 0)) for x in v), note="mutex x%d" % i)
        elif k == 4:
            if 0 in v:
                c.ask("int2str (bv_size (bv_reduce x%d))" % i, ERR, note="bv_reduce of a vector that may be 0")
            elif True:
                import math
                g = 0
                for x in v:
                    g = math.gcd(g, x)
                s = h.define("bv_reduce x%d" % i, tuple(x // g for x in v))
                c.ask(h.show(s), h.want(h.vals[s]), note="bv_reduce x%d" % i)
        elif k == 5:
            bits = ch.rng_int(1, 10)
            sx = ch.bool()
            sz = h.size(v)
            e = "fixed_bv2list %d %s x%d" % (bits, "T" if sx else "F", i)
            if sz > bits:
                c.ask("int2str (length (%s))" % e, ERR, note=e)
            else:
                c.ask("int2str (length (%s))" % e, str(bits), note=e)
                r = v if sx or sz == bits else tuple(x % (1 << sz) for x in v)
                s = h.define("list2bv (%s)" % e, r)
                c.ask(h.show(s), h.want(r), note=e)
        elif k == 6:
            # a constrained variable takes exactly the values that satisfy the constraint
            w = ch.rng_int(2, 4)
            lo, hi, m = ch.rng_int(-6, 3), ch.rng_int(-3, 8), ch.rng_int(1, 3)
            sat = [x for x in range(-(1 << (w - 1)), 1 << (w - 1)) if lo < x <= hi and x % m == 0]
            e = "bv_constrained_variable \"zz[%d:0]\" (\\v. (v > (int2bv (%d))) AND (v <= (int2bv (%d))) AND ((v %% (int2bv %d)) = (int2bv 0)))" % (w - 1, lo, hi, m)
            c.ask("vf_vals (%s)" % e, "".join("%d," % x for x in sat) if sat else ERR, note=e)
        elif k == 7:
            x = v[0]
            c.ask("let s = bv2str 3 (substitute %s x%d) in s" % ("[" + ",".join('("%s",F)' % n for n in h.names) + "]", i),
                  lambda g, x=x: g.endswith("(%d)" % x) or "value %d not shown" % x, note="bv2str of x%d at all-false" % i)
        else:
            c.ask("vf_vals x%d" % i, "".join("%d," % x for x in sorted(set(v))), note="values of x%d" % i)
    return c


def g_const(ch):
    """wide constants"""
    from vlib.vals import big_int
    c = Case()
    for _ in range(5):
        a, b = big_int(ch, 150), big_int(ch, 150)
        if abs(a) >> 160 or abs(b) >> 160:
            a, b = a % (1 << 160), b % (1 << 90)
        k = ch.below(10)
        A, B = "(int2bv (%d))" % a, "(int2bv (%d))" % b
        f = {0: ("+", a + b), 1: ("-", a - b), 2: ("*", (a * b)), 3: ("/", a // b if b else None), 4: ("%", a % b if b else None)}.get(k)
        if f:
            if f[1] is None:
                continue
            c.ask("int2str (bv2int (%s %s %s))" % (A, f[0], B), str(f[1]))
        elif k == 5:
            c.ask("int2str (bv2int %s)" % A, str(a))
        elif k == 6:
            c.ask("int2str (bv_size %s)" % A, str(bvs.need(a)))
        elif k == 7:
            c.ask("bv2str 3 %s" % A, "<" + ",".join("T" if (a >> i) & 1 else "F" for i in range(bvs.need(a) - 1, -1, -1)) + "> (%d)" % a)
        elif k == 8:
            c.ask("vf_b (%s < %s)" % (A, B), "T" if a < b else "F")
        else:
            if a >= 0:
                c.ask("int2str (bv2int (nat2bv (%d)))" % a, str(a))
            else:
                c.ask("int2str (bv2int (nat2bv (%d)))" % a, ERR)
        c.nontrivial = True
    return c


GROUPS = [
    Group("ops", g_ops, 5000, 60000, batch=25),
    Group("range", g_range, 3000, 40000, batch=25),
    Group("const", g_const, 1200, 12000, batch=25),
    Group("pressure", g_ops, 1200, 12000, batch=25, args=("-s", "12")),
]
