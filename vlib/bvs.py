"""Symbolic bitvectors (bv and bev): reference = a tuple of integers, one per assignment."""
from .engine import Case, ERR
from . import bdd

PRE = r'''
letrec vf_bv1 vars bv asn = empty vars => (int2str (bv2int (substitute asn bv))) ^ "," | (vf_bv1 (tl vars) bv ((hd vars,F):asn)) ^ (vf_bv1 (tl vars) bv ((hd vars,T):asn));
let vf_bv vars bv = vf_bv1 vars bv [];
letrec vf_be1 vars bv asn = empty vars => (int2str (bev2int (bsubstitute asn bv))) ^ "," | (vf_be1 (tl vars) bv ((hd vars,bF):asn)) ^ (vf_be1 (tl vars) bv ((hd vars,bT):asn));
let vf_be vars bv = vf_be1 vars bv [];
let vf_btv vars be = vf_tv vars (prim_bexpr2bdd be);
let vf_bb b = b == bT => "T" | b == bF => "F" | "?";
'''


def need(v):
    """bits needed in 2's complement"""
    return (v if v >= 0 else ~v).bit_length() + 1


class BV:
    """history of bitvector definitions x0.. over n Boolean variables.  kind: bv or bev"""
    def __init__(self, ch, c, n, kind, maxw):
        self.ch, self.c, self.kind, self.maxw = ch, c, kind, maxw
        self.p = kind + "_"
        self.vals, self.bools = [], []
        # partition n variables into vectors
        self.names, self.vecs = [], []
        k = 0
        base = ch.perm(["a", "b", "x", "dat", "u/w", "q"])
        while k < n:
            w = min(n - k, ch.rng_int(1, 3))
            nm = base[len(self.vecs)]
            hi = ch.pick([w - 1, w - 1, w, 3 + w])
            lo = hi - w + 1
            if ch.bool(1, 5) and w > 1:
                hi, lo = lo, hi     # ascending range: the first named bit is the MSB
            rng = list(range(hi, lo - 1, -1)) if hi >= lo else list(range(hi, lo + 1))
            bits = ["%s[%d]" % (nm, i) for i in rng]
            self.vecs.append(("%s[%d:%d]" % (nm, hi, lo) if w > 1 else "%s[%d]" % (nm, hi), bits))
            k += w
        for _, bits in self.vecs:
            self.names += bits
        self.n = len(self.names)
        self.N = 1 << self.n
        self.w = bdd.World(self.names)
        for i, (v, bits) in enumerate(self.vecs):
            if ch.bool(1, 3) and kind == "bv":
                self.define("bv_uvariable \"%s\"" % v, tuple(self.unsigned(bits, a) for a in range(self.N)))
            else:
                self.define("%svariable \"%s\"" % (self.p, v), tuple(self.signed(bits, a) for a in range(self.N)))

    def bit(self, name, a):
        return (a >> self.names.index(name)) & 1

    def unsigned(self, bits, a):
        r = 0
        for b in bits:
            r = 2 * r + self.bit(b, a)
        return r

    def signed(self, bits, a):
        r = self.unsigned(bits, a)
        return r - (1 << len(bits)) if self.bit(bits[0], a) else r

    def define(self, e, v):
        i = len(self.vals)
        self.c.st("let x%d = %s;" % (i, e))
        self.c.st("(%s x%d) fseq ();" % (self.p + "size", i))
        self.vals.append(v)
        return i

    def defbool(self, e, tv):
        i = len(self.bools)
        self.c.st("let c%d = %s;" % (i, e))
        self.c.st("(c%d == %s) seq ();" % (i, "T" if self.kind == "bv" else "bT"))
        self.bools.append(tv)
        return i

    def any(self, maxbits=None):
        """-> (text, values): a defined vector or a constant, narrow enough"""
        ch = self.ch
        for _ in range(6):
            i = ch.below(len(self.vals))
            if not maxbits or self.size(self.vals[i]) <= maxbits:
                return "x%d" % i, self.vals[i]
        return self.const(maxbits)

    def const(self, maxbits=None):
        ch = self.ch
        v = ch.pick([0, 1, -1, 2, 3, -2, -4, 4, 7, 8, -8, 5, 10, 100, -37, 1000, -128, 127])
        while maxbits and need(v) > maxbits:
            v = v // 2 if v > 0 else -((-v) // 2)
        if ch.bool():
            return "(int2%s (%d))" % (self.kind, v), (v,) * self.N
        return "{%s'%d::%s}" % ("-" if False else "", v, self.kind) if v >= 0 else "(int2%s (%d))" % (self.kind, v), (v,) * self.N

    def operand(self, maxbits=None):
        if self.ch.bool(1, 4):
            return self.const(maxbits)
        return self.any(maxbits)

    def size(self, v):
        return max(need(x) for x in v)

    def symbolic(self, v):
        return len(set(v)) > 1

    # ------------------------------------------------------------------
    def cond(self):
        """a defined Boolean, as text and list of bits per assignment"""
        ch = self.ch
        if not self.bools or ch.bool(1, 2):
            op = ch.pick(["<", "<=", ">", ">=", "eq", "neq"])
            a, va = self.operand()
            b, vb = self.operand()
            f = {"<": lambda x, y: x < y, "<=": lambda x, y: x <= y, ">": lambda x, y: x > y, ">=": lambda x, y: x >= y,
                 "eq": lambda x, y: x == y, "neq": lambda x, y: x != y}[op]
            tv = tuple(int(f(x, y)) for x, y in zip(va, vb))
            if op in ("eq", "neq"):
                if self.kind == "bv":
                    e = "(%s %s %s)" % (a, {"eq": "=", "neq": "!="}[op], b) if ch.bool() else "(bv_%s %s %s)" % (op, a, b)
                else:
                    e = "(bev_%s %s %s)" % (op, a, b)
            elif ch.bool():
                e = "(%s %s %s)" % (a, op, b)
            else:
                e = "(%s%s %s %s)" % (self.p, {"<": "less", "<=": "leq", ">": "greater", ">=": "geq"}[op], a, b)
            return self.defbool(e, tv)
        return ch.below(len(self.bools))

    def ite(self, cnd, a, b):
        if self.kind == "bv":
            return "(c%d => %s | %s)" % (cnd, a, b)
        return "(IF c%d THEN %s ELSE %s)" % (cnd, a, b)

    def step(self):
        ch, mw, N = self.ch, self.maxw, self.N
        k = ch.wpick([(6, "add"), (5, "mul"), (5, "div"), (4, "logic"), (3, "ite"), (2, "neg"), (2, "zx"), (3, "shift"),
                      (2, "abs"), (1, "pow"), (2, "list"), (1, "cond")])
        if k == "cond":
            self.cond()
            return None
        if k == "add":
            a, va = self.operand(mw * 2)
            b, vb = self.operand(mw * 2)
            op = ch.pick(["+", "-"])
            v = tuple(x + y if op == "+" else x - y for x, y in zip(va, vb))
            e = "%s %s %s" % (a, op, b) if ch.bool() else "%s%s %s %s" % (self.p, {"+": "add", "-": "sub"}[op], a, b)
            return self.define(e, v)
        if k == "mul":
            a, va = self.operand(mw)
            b, vb = self.operand(mw)
            v = tuple(x * y for x, y in zip(va, vb))
            return self.define("%s * %s" % (a, b) if ch.bool() else "%smul %s %s" % (self.p, a, b), v)
        if k == "div":
            a, va = self.operand(mw)
            b, vb = self.operand(mw)
            if 0 in vb:
                i = self.defbool("(%s %s)" % ("bv_eq" if self.kind == "bv" else "bev_eq", b) + " (int2%s 0)" % self.kind
                                 if False else ("(bv_eq %s (int2bv 0))" % b if self.kind == "bv" else "(bev_eq %s (int2bev 0))" % b),
                                 tuple(int(y == 0) for y in vb))
                kk = ch.pick([1, -1, 3, 2, -2])
                b = self.ite(i, "(int2%s (%d))" % (self.kind, kk), b)
                vb = tuple(kk if y == 0 else y for y in vb)
            if ch.bool():
                v = tuple(x // y for x, y in zip(va, vb))
                return self.define("%s / %s" % (a, b) if ch.bool() else "%sdiv %s %s" % (self.p, a, b), v)
            v = tuple(x % y for x, y in zip(va, vb))
            return self.define("%s %% %s" % (a, b) if ch.bool() else "%smod %s %s" % (self.p, a, b), v)
        if k == "logic":
            op = ch.pick(["AND", "OR", "XOR", "XNOR", "NOT"])
            a, va = self.operand()
            if op == "NOT":
                return self.define("%sNOT %s" % (self.p, a), tuple(~x for x in va))
            b, vb = self.operand()
            f = {"AND": lambda x, y: x & y, "OR": lambda x, y: x | y, "XOR": lambda x, y: x ^ y, "XNOR": lambda x, y: ~(x ^ y)}[op]
            return self.define("%s%s %s %s" % (self.p, op, a, b), tuple(f(x, y) for x, y in zip(va, vb)))
        if k == "ite":
            i = self.cond()
            a, va = self.operand()
            b, vb = self.operand()
            v = tuple(x if t else y for t, x, y in zip(self.bools[i], va, vb))
            return self.define(self.ite(i, a, b), v)
        if k == "neg":
            a, va = self.operand(mw * 2)
            e = ch.pick(["%sneg %s" % (self.p, a), "(-%s)" % a])
            return self.define(e, tuple(-x for x in va))
        if k == "abs":
            a, va = self.operand(mw * 2)
            return self.define("abs %s" % a, tuple(abs(x) for x in va))
        if k == "zx":
            a, va = self.operand()
            if self.kind == "bev":
                return None         # depends on the stored width
            s = self.size(va)
            return self.define("bv_ZX %s" % a, tuple(x % (1 << s) for x in va))
        if k == "shift":
            a, va = self.operand(mw)
            op = ch.pick(["ashrn", "shl", "ashr", "shr"])
            if op == "ashrn":
                n = ch.rng_int(0, 6)
                return self.define("%sashr %s {%d::int}" % (self.p, a, n), tuple(x >> n for x in va))
            if self.kind == "bev" or ch.bool(1, 2):
                n = ch.rng_int(0, 4)
                b, vb = "(int2%s %d)" % (self.kind, n), (n,) * N
            else:
                b, vb = self.operand(3)
                # negative amounts shift by zero
                vb = tuple(max(0, y) for y in vb)
            if op == "shl":
                return self.define("%sshl %s %s" % (self.p, a, b), tuple(x << y for x, y in zip(va, vb)))
            if op == "ashr":
                return self.define("%sashr %s %s" % (self.p, a, b), tuple(x >> y for x, y in zip(va, vb)))
            if self.kind == "bev":
                return None
            s = self.size(va)
            return self.define("bv_shr %s %s" % (a, b), tuple((x % (1 << s)) >> y for x, y in zip(va, vb)))
        if k == "pow":
            a, va = self.operand(4)
            b, vb = self.operand(3) if self.kind == "bv" else self.const(3)
            return self.define("%spow %s %s" % (self.p, a, b), tuple(x ** max(0, y) for x, y in zip(va, vb)))
        if k == "list":
            a, va = self.operand()
            j = ch.below(3)
            pre = "(let l = %s2list %s in list2%s (%s))"
            if j == 0:
                return self.define(pre % (self.kind, a, self.kind, "l"), va)
            if j == 1:
                return self.define(pre % (self.kind, a, self.kind, "(hd l):l"), va)
            z = "F" if self.kind == "bv" else "bF"
            return self.define(pre % (self.kind, a, self.kind, "l @ [%s]" % z), tuple(2 * x for x in va))

    def show(self, i):
        return "vf_%s %s x%d" % ("bv" if self.kind == "bv" else "be", self.w.vars_fl(), i)

    def want(self, v):
        return "".join("%d," % x for x in v)
