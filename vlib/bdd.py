"""Reference model of Boolean functions: truth vectors held in Python ints."""
from .engine import Case

PRE = r'''
letrec vf_ev f asn =
    f == T => "1" | f == F => "0" |
    val (v,h,l) = top_cofactor f in
    vf_ev ((mem v asn) => h | l) asn;
letrec vf_tv1 f vars asn =
    empty vars => vf_ev f asn |
    (vf_tv1 f (tl vars) asn) ^ (vf_tv1 f (tl vars) ((hd vars):asn));
let vf_tv vars f = vf_tv1 f vars [];
letrec vf_evs f asns = empty asns => "" | (vf_ev f (hd asns)) ^ (vf_evs f (tl asns));
let vf_b b = b == T => "T" | b == F => "F" | "?";
let vf_sl sl = implode (map (\s. s ^ ";") (qsort strcmp sl));
'''


class World:
    """n variables; functions are truth vectors: bit j is the value under assignment j,
    in which variable k is true iff bit k of j is set."""
    def __init__(self, names):
        self.names = list(names)
        self.n = len(names)
        self.size = 1 << self.n
        self.mask = (1 << self.size) - 1
        self.v = [self._var(k) for k in range(self.n)]

    def _var(self, k):
        blk = ((1 << (1 << k)) - 1) << (1 << k)
        r, w = blk, 2 << k
        while w < self.size:
            r |= r << w
            w *= 2
        return r & self.mask

    def NOT(self, a):
        return a ^ self.mask

    def ite(self, c, t, e):
        return (c & t) | (self.NOT(c) & e)

    def cof(self, f, k, val):
        """f with variable k set to val (as function of all variables)"""
        s = 1 << k
        if val:
            x = f & self.v[k]
            return x | (x >> s)
        x = f & self.NOT(self.v[k])
        return x | (x << s)

    def ex(self, f, ks):
        for k in ks:
            f = self.cof(f, k, 0) | self.cof(f, k, 1)
        return f

    def all(self, f, ks):
        for k in ks:
            f = self.cof(f, k, 0) & self.cof(f, k, 1)
        return f

    def dep(self, f):
        return [k for k in range(self.n) if self.cof(f, k, 0) != self.cof(f, k, 1)]

    def subst(self, f, sub):
        """sub: {k: truth vector}, simultaneous"""
        dep = [k for k in self.dep(f) if k in sub]

        def rec(f, i):
            if f == 0 or f == self.mask or i == len(dep):
                return f
            k = dep[i]
            return self.ite(sub[k], rec(self.cof(f, k, 1), i + 1), rec(self.cof(f, k, 0), i + 1))
        # first reduce to a decision tree over dep; other variables stay themselves
        return rec(f, 0)

    def tv(self, f):
        return "".join("1" if (f >> j) & 1 else "0" for j in range(self.size))

    def count(self, f):
        return bin(f).count("1")

    def vars_fl(self):
        return "[" + ",".join('"%s"' % n for n in reversed(self.names)) + "]"

    def strs(self, ks):
        return "[" + ",".join('"%s"' % self.names[k] for k in ks) + "]"


class Hist:
    """generates a history of Boolean-function definitions f0,f1,.. with reference values"""
    def __init__(self, ch, c, names, pre="f"):
        self.ch, self.c = ch, c
        self.w = World(names)
        self.pre = pre
        self.f = []          # truth vectors
        self.nt = 0

    def define(self, expr, tv):
        i = len(self.f)
        self.c.st("let %s%d = %s;" % (self.pre, i, expr))
        # force it now: see known finding B01/shared-thunk in DESIGN.md
        self.c.st("(%s%d == T) seq ();" % (self.pre, i))
        self.f.append(tv)
        return i

    def init(self, order=None):
        for k in (order or range(self.w.n)):
            i = len(self.f)
            # f index k is variable k: define in declaration order via temp names
            self.c.st('let %sv%d = variable "%s";' % (self.pre, k, self.w.names[k]))
        for k in range(self.w.n):
            self.define("%sv%d" % (self.pre, k), self.w.v[k])

    def any(self):
        ch = self.ch
        if len(self.f) > self.w.n and ch.bool(3, 4):
            i = ch.rng_int(self.w.n, len(self.f) - 1)
        else:
            i = ch.below(len(self.f))
        return "%s%d" % (self.pre, i), self.f[i]

    def rexpr(self, depth):
        """a random expression over the functions defined so far -> (text, tv)"""
        ch, w = self.ch, self.w
        if depth == 0 or ch.bool(1, 6):
            k = ch.below(14)
            if k == 0:
                return "T", w.mask
            if k == 1:
                return "F", 0
            t, v = self.any()
            return t, v
        op = ch.pick(["AND", "OR", "NOT", "XOR", "XNOR", "=", "!=", "==>", "ITE", "AND", "OR", "XOR", "gAND"])
        a, va = self.rexpr(depth - 1)
        if op == "NOT":
            return "(NOT %s)" % a, w.NOT(va)
        b, vb = self.rexpr(depth - 1)
        if op == "ITE":
            d, vd = self.rexpr(depth - 1)
            return "(%s => %s | %s)" % (a, b, d), w.ite(va, vb, vd)
        if op == "gAND":
            d, vd = self.rexpr(depth - 1)
            if ch.bool():
                return "(AND_list [%s,%s,%s])" % (a, b, d), va & vb & vd
            return "(OR_list [%s,%s,%s])" % (a, b, d), va | vb | vd
        r = {"AND": va & vb, "OR": va | vb, "XOR": va ^ vb, "XNOR": w.NOT(va ^ vb), "=": w.NOT(va ^ vb),
             "!=": va ^ vb, "==>": w.NOT(va) | vb}[op]
        return "(%s %s %s)" % (a, op, b), r

    def some_vars(self, lo=0):
        ch = self.ch
        ks = ch.subset(range(self.w.n), 2, 5)
        while len(ks) < lo:
            k = ch.below(self.w.n)
            if k not in ks:
                ks.append(k)
        return ch.perm(ks)

    def step_bool(self):
        ch, w = self.ch, self.w
        t, v = self.rexpr(ch.rng_int(1, 3))
        while len(w.dep(v)) < min(3, w.n) and ch.bool(3, 4):
            k = ch.below(w.n)
            op, j = ch.pick([("AND", 0), ("OR", 1), ("XOR", 2), ("ite", 3)])
            if op == "ite":
                u, x = self.any()
                t, v = "(fv%d => %s | %s)" % (k, t, u), w.ite(w.v[k], v, x)
                t = t.replace("fv", self.pre + "v") if self.pre != "f" else t
            else:
                v = [v & w.v[k], v | w.v[k], v ^ w.v[k]][j]
                t = "(%s %s %sv%d)" % (t, op, self.pre, k)
        return self.define(t, v)

    def step_quant(self):
        ch, w = self.ch, self.w
        a, va = self.any() if ch.bool() else self.rexpr(2)
        k = ch.below(9)
        if k < 2:
            ks = self.some_vars(1)
            op = ch.pick([" AND ", " OR ", " XOR "])
            q = op.join("%sv%d" % (self.pre, x) for x in ks)
            n = ch.pick(["quant_thereis", "quant_forall"])
            return self.define("%s (%s) %s" % (n, q, a), w.ex(va, ks) if n == "quant_thereis" else w.all(va, ks))
        if k < 4:
            ks = self.some_vars()
            n = ch.pick(["Quant_thereis", "Quant_forall"])
            return self.define("%s %s %s" % (n, w.strs(ks), a), w.ex(va, ks) if n == "Quant_thereis" else w.all(va, ks))
        if k < 6:
            ks = self.some_vars(1)
            b, vb = self.any() if ch.bool() else self.rexpr(2)
            if ch.bool(1, 8):
                b, vb = a, va
            if ch.bool(1, 12):
                b, vb = "T", w.mask
            q = " AND ".join("%sv%d" % (self.pre, x) for x in ks)
            n = ch.pick(["relprod_thereis", "relprod_forall"])
            r = va & vb
            return self.define("%s (%s) %s %s" % (n, q, a, b), w.ex(r, ks) if n == "relprod_thereis" else w.all(r, ks))
        if k == 6:
            x = ch.below(w.n)
            b, vb = self.any()
            qo = ch.pick("?!")
            # bind a fresh variable and put it in the place of variable x
            body = w.ite(w.v[x], va, vb)
            t = "(%sq. (substitute [(\"%s\",q)] (%sv%d => %s | %s)))" % (qo, w.names[x], self.pre, x, a, b)
            return self.define(t, w.ex(body, [x]) if qo == "?" else w.all(body, [x]))
        if k == 7:
            # one quantifier inside another
            x, y = ch.below(w.n), ch.below(w.n)
            if x == y:
                return self.define("Quant_forall %s %s" % (w.strs([x]), a), w.all(va, [x]))
            t = "(?p. !q. (substitute [(\"%s\",p),(\"%s\",q)] %s))" % (w.names[x], w.names[y], a)
            return self.define(t, w.ex(w.all(va, [y]), [x]))
        ks = ch.perm(range(w.n))[:ch.rng_int(1, 3)]
        t, v = a, va
        for x in ks:
            if ch.bool():
                t, v = "(Quant_thereis %s %s)" % (w.strs([x]), t), w.ex(v, [x])
            else:
                t, v = "(Quant_forall %s %s)" % (w.strs([x]), t), w.all(v, [x])
        return self.define(t, v)

    def step_subst(self):
        ch, w = self.ch, self.w
        a, va = self.any()
        ks = self.some_vars(1)
        sub, txt = {}, []
        for x in ks:
            if ch.bool(1, 3):
                b, vb = self.rexpr(1)
            elif ch.bool(1, 2):
                y = ch.below(w.n)
                b, vb = "%sv%d" % (self.pre, y), w.v[y]
            else:
                b, vb = self.any()
            sub[x] = vb
            txt.append('("%s",%s)' % (w.names[x], b))
        s = "[" + ",".join(txt) + "]"
        r = w.subst(va, sub)
        k = ch.below(3)
        if k == 0:
            return self.define("substitute %s %s" % (s, a), r)
        b, vb = self.any()
        if k == 1:
            i = self.define("fst (substitute %s (%s,%s))" % (s, a, b), r)
            return i
        return self.define("el 2 (substitute %s [%s,%s])" % (s, a, b), w.subst(vb, sub))

    def verify(self, idxs=None):
        """truth vectors of the functions, plus dependence and identity facts"""
        ch, w, c = self.ch, self.w, self.c
        for i in (idxs if idxs is not None else range(w.n, len(self.f))):
            c.ask("vf_tv %s %s%d" % (w.vars_fl(), self.pre, i), w.tv(self.f[i]), note="truth vector of %s%d" % (self.pre, i))

    def verify_canon(self, pairs=6):
        ch, w, c = self.ch, self.w, self.c
        for _ in range(pairs):
            (a, va), (b, vb) = self.any(), self.any()
            if ch.bool(1, 2):
                # an independent construction of the same function
                b, vb = self.sop(va), va
            c.ask("vf_b (%s == %s)" % (a, b), "T" if va == vb else "F", note="%s == %s" % (a, b[:300]))
            if ch.bool(1, 4):
                c.ask("vf_b (%s !== %s)" % (a, b), "F" if va == vb else "T")
            if ch.bool(1, 4):
                c.ask('bool2str 1 (int2bv (bdd_signature %s) = int2bv (bdd_signature %s))' % (a, b) if False else
                      "vf_b ((bdd_signature %s) = (bdd_signature %s))" % (a, b), (lambda g, e=(va == vb): (g == "T") or not e),
                      note="equal functions have equal signatures")

    def sop(self, tv):
        """text for tv as a sum of minterms or a product of maxterms, literals in a random order"""
        ch, w = self.ch, self.w
        order = ch.perm(range(w.n))
        pos = ch.bool()
        terms = []
        for j in range(w.size):
            if bool((tv >> j) & 1) != pos:
                lits = []
                for k in order:
                    one = bool((j >> k) & 1)
                    lits.append("%sv%d" % (self.pre, k) if one != pos else "NOT %sv%d" % (self.pre, k))
                terms.append("(" + (" OR " if pos else " AND ").join(lits) + ")")
        if not terms:
            return "T" if pos else "F"
        terms = ch.perm(terms) if len(terms) < 40 else terms
        return "(" + (" AND " if pos else " OR ").join(terms) + ")"


def names(ch, n, pool=6):
    """variable names shared by the cases of a process, so that orders and histories mix"""
    style = ch.below(5)
    p = "pqrstuvwxyz"[ch.below(pool)]
    if style == 0:
        return ["%s[%d]" % (p, i) for i in range(n)]
    if style == 1:
        return ["%s_%d" % (p, i) for i in range(n)]
    if style == 2:
        return ["%s%d/z[%d]" % (p, i // 2, i % 2) for i in range(n)]
    if style == 3:
        return ["m%s%d" % (p, n - i) for i in range(n)]
    return ["%s%d" % (p, i) for i in range(n)]
