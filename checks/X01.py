from vlib.engine import Case, Group, ERR
from vlib import bdd

ID = "X01"
RULE = ("A case is a history of 3-10 bexpr definitions over 2-6 variables (operators, structural if-then-else, negation, "
        "comparison, substitution, conversion from BDDs, save/load), whose truth vectors are taken in two ways (conversion to a BDD, "
        "substitution of constants) and compared with a Python model, followed by satisfiability queries whose models are "
        "evaluated.  Non-trivial: two results that depend on at least two variables.")
PREAMBLE = bdd.PRE + r'''
let vf_btv vars be = vf_tv vars (prim_bexpr2bdd be);
let vf_bb b = b == bT => "T" | b == bF => "F" | "?";
letrec vf_bev1 be vars asn = empty vars => vf_bb (bsubstitute asn be) | (vf_bev1 be (tl vars) ((hd vars,bF):asn)) ^ (vf_bev1 be (tl vars) ((hd vars,bT):asn));
let vf_bev vars be = vf_bev1 be vars [];
let vf_args0 e = val (l,r) = bget_arguments e in let c = l bAND r in vf_b ((prim_bexpr2bdd (((bget_type e) = "not-and") => bNOT c | c)) == (prim_bexpr2bdd e));
let vf_args e = (vf_args0 e) catch "NA";
let vf_model m = empty m => "UNSAT" | implode (map (\(v,b). v ^ "=" ^ (vf_bb b) ^ ";") m);
'''


class BH(bdd.Hist):
    """history of bexprs: names e0.. with bexpr operators"""
    def init(self, order=None):
        for k in (order or range(self.w.n)):
            self.c.st('let %sv%d = bvariable "%s";' % (self.pre, k, self.w.names[k]))
        for k in range(self.w.n):
            self.define("%sv%d" % (self.pre, k), self.w.v[k])

    def define(self, expr, tv):
        i = len(self.f)
        self.c.st("let %s%d = %s;" % (self.pre, i, expr))
        if self.ch.bool():
            self.c.st("(%s%d == bT) seq ();" % (self.pre, i))
        self.f.append(tv)
        return i

    def rexpr(self, depth):
        ch, w = self.ch, self.w
        if depth == 0 or ch.bool(1, 7):
            k = ch.below(16)
            if k == 0:
                return "bT", w.mask
            if k == 1:
                return "bF", 0
            return self.any()
        op = ch.pick(["bAND", "bOR", "bNOT", "bXOR", "bXNOR", "bITE", "bEqual", "bAND", "bOR", "gNOT", "gAND", "gOR"])
        a, va = self.rexpr(depth - 1)
        if op == "bNOT":
            return "(bNOT %s)" % a, w.NOT(va)
        if op == "gNOT":
            return "(hd (gen_bNOT [%s]))" % a, w.NOT(va)
        b, vb = self.rexpr(depth - 1)
        if op == "bITE":
            d, vd = self.rexpr(depth - 1)
            k = ch.below(3)
            if k == 0:
                return "(bITE %s %s %s)" % (a, b, d), w.ite(va, vb, vd)
            return "(snd (bITE %s (bT,%s) (bF,%s)))" % (a, b, d), w.ite(va, vb, vd)
        if op == "bEqual":
            if ch.bool():
                return "(bEqual %s %s)" % (a, b), w.NOT(va ^ vb)
            d, vd = self.rexpr(depth - 1)
            return "(bEqual [%s,%s] [%s,%s])" % (a, b, d, a), w.NOT(va ^ vd) & w.NOT(vb ^ va)
        if op == "gAND":
            return "(fst (gen_bAND (%s,%s) (%s,%s)))" % (a, b, b, a), va & vb
        if op == "gOR":
            return "(hd (gen_bOR [%s,%s] [%s,%s]))" % (a, b, b, a), va | vb
        return "(%s %s %s)" % (a, op, b), {"bAND": va & vb, "bOR": va | vb, "bXOR": va ^ vb, "bXNOR": w.NOT(va ^ vb)}[op]

    def step_bool(self):
        ch, w = self.ch, self.w
        t, v = self.rexpr(ch.rng_int(1, 3))
        while len(w.dep(v)) < min(3, w.n) and ch.bool(3, 4):
            k = ch.below(w.n)
            j = ch.below(3)
            v = [v & w.v[k], v | w.v[k], v ^ w.v[k]][j]
            t = "(%s %s %sv%d)" % (t, ["bAND", "bOR", "bXOR"][j], self.pre, k)
        return self.define(t, v)

    def step_subst(self):
        ch, w = self.ch, self.w
        a, va = self.any()
        ks = self.some_vars(1)
        sub, txt = {}, []
        for x in ks:
            b, vb = self.rexpr(1) if ch.bool() else self.any()
            sub[x] = vb
            txt.append('("%s",%s)' % (w.names[x], b))
        s = "[" + ",".join(txt) + "]"
        r = w.subst(va, sub)
        if ch.bool():
            return self.define("bsubstitute %s %s" % (s, a), r)
        b, vb = self.any()
        return self.define("fst (hd (bsubstitute %s [(%s,%s)]))" % (s, a, b), r)


def hist(ch, nlo=2, nhi=6, steps=(3, 9), **kw):
    c = Case()
    n = ch.rng_int(nlo, nhi)
    h = BH(ch, c, bdd.names(ch, n), "e")
    h.init(ch.perm(range(n)))
    for _ in range(ch.rng_int(*steps)):
        if ch.bool(1, 4):
            h.step_subst()
        else:
            h.step_bool()
    c.nontrivial = sum(1 for f in h.f[n:] if len(h.w.dep(f)) >= 2) >= 2
    return c, h


def g_ops(ch):
    c, h = hist(ch)
    w = h.w
    for i in ch.perm(range(w.n, len(h.f)))[:5]:
        c.ask("vf_btv %s e%d" % (w.vars_fl(), i), w.tv(h.f[i]), note="truth vector of e%d by conversion" % i)
        if w.n <= 4:
            c.ask("vf_bev %s e%d" % (w.vars_fl(), i), w.tv(h.f[i]).replace("1", "T").replace("0", "F"),
                  note="truth vector of e%d by substitution" % i)
    for _ in range(4):
        (a, va), (b, vb) = h.any(), h.any()
        # identical objects denote equal functions
        c.ask("vf_b (%s == %s)" % (a, b), lambda g, e=(va == vb): e or g == "F" or "different functions reported identical",
              note="%s == %s" % (a, b))
        c.ask("vf_btv %s (%s bXOR %s)" % (w.vars_fl(), a, b), w.tv(va ^ vb))
    a, va = h.any()
    c.ask("vf_sl (bdepends %s)" % a, lambda g, d=[w.names[k] for k in w.dep(va)]: set(d) <= set(x for x in g.split(";") if x)
          or "support misses one of %s" % d)
    # BDD -> bexpr -> BDD
    i = ch.rng_int(0, len(h.f) - 1)
    c.ask("vf_b ((prim_bexpr2bdd (hd (bool2bexpr [prim_bexpr2bdd e%d]))) == (prim_bexpr2bdd e%d))" % (i, i), "T")
    # conversions under substitutions of BDDs, interleaved with plain ones
    for _ in range(ch.rng_int(1, 3)):
        a, va = h.any()
        ks = h.some_vars(1)
        sub, txt = {}, []
        for x in ks:
            j, k2 = ch.below(w.n), ch.below(w.n)
            if ch.bool():
                sub[x] = w.v[j] ^ w.v[k2]
                txt.append('("%s",(variable "%s") XOR (variable "%s"))' % (w.names[x], w.names[j], w.names[k2]))
            else:
                sub[x] = w.NOT(w.v[j])
                txt.append('("%s",NOT (variable "%s"))' % (w.names[x], w.names[j]))
        txt = "[" + ",".join(txt) + "]"
        if ch.bool():
            c.ask("vf_tv %s (base_bexpr2bdd %s %s)" % (w.vars_fl(), txt, a), w.tv(w.subst(va, sub)))
        else:
            b, vb = h.any()
            c.ask("implode (map (vf_tv %s) (bexpr2bdd %s [%s,%s]))" % (w.vars_fl(), txt, a, b),
                  w.tv(w.subst(va, sub)) + w.tv(w.subst(vb, sub)))
        b, vb = h.any()
        c.ask("vf_btv %s %s" % (w.vars_fl(), b), w.tv(vb))
    # the AND/NOT structure
    c.ask("bget_type %s" % a, lambda g, va=va: struct(g, va, w))
    c.ask("vf_args %s" % a, lambda g: g in ("T", "NA"), note="arguments of %s" % a)
    return c


def struct(g, va, w):
    if g == "const_0":
        return va == 0
    if g == "const_1":
        return va == w.mask
    if g == "variable":
        return va in w.v
    if g == "not-variable":
        return w.NOT(va) in w.v
    return g in ("and", "not-and")


def g_sat(ch):
    c, h = hist(ch, 2, 7, (3, 8))
    w = h.w
    for _ in range(4):
        cs = [h.any() if ch.bool() else h.rexpr(2) for _ in range(ch.rng_int(1, 4))]
        if ch.bool(1, 4):
            # make it tight: one more constraint that leaves few models
            k = ch.below(w.n)
            cs.append(("(%s bXNOR ev%d)" % (cs[0][0], k), w.NOT(cs[0][1] ^ w.v[k])))
        v = w.mask
        for _, x in cs:
            v &= x

        def chk(g, v=v):
            if g == "UNSAT":
                return v == 0 or "reported unsatisfiable"
            if g == "=T;":
                return v == w.mask or "reported valid"
            cur = v
            for x in g.split(";"):
                if not x:
                    continue
                nm, b = x.rsplit("=", 1)
                if b not in "TF":
                    return "not an assignment"
                cur = w.cof(cur, w.names.index(nm), 1 if b == "T" else 0)
            return cur == w.mask or "the returned assignment is not a model"
        c.ask("vf_model (bget_model [%s] 100)" % ",".join(t for t, _ in cs), chk, note="model of %s" % [t for t, _ in cs])
    c.nontrivial = v not in (0, w.mask) and len(w.dep(v)) >= 2
    return c


def g_saveload(ch):
    c, h = hist(ch, 2, 5, (3, 7))
    w = h.w
    ix = [ch.below(len(h.f)) for _ in range(ch.rng_int(1, 5))]
    if ch.bool(1, 5):
        ix.append(h.define(*ch.pick([("bT", w.mask), ("bF", 0)])))
    c.st('(bexpr_save "x.be" [%s]) fseq ();' % ",".join("e%d" % i for i in ix))
    c.st('let l = bexpr_load "x.be";')
    c.st("l fseq ();")
    c.ask("int2str (length l)", str(len(ix)))
    for j, i in enumerate(ix):
        if i >= w.n and h.f[i] in (0, w.mask):
            pass
        c.ask("vf_btv %s (el %d l)" % (w.vars_fl(), j + 1), w.tv(h.f[i]), note="loaded %d" % j)
    return c


GROUPS = [
    Group("ops", g_ops, 4800, 80000, batch=30),
    Group("sat", g_sat, 4800, 80000, batch=30),
    Group("file", g_saveload, 600, 10000, batch=30),
    Group("redund", g_ops, 500, 8000, batch=30, prefs={"BEXPR-ADD-REDUNDANT-TERMS": "YES", "BEXPR-ORDER-AND-ARGS": "YES"}),
]
