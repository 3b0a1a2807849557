"""Random pexlif circuits and a reference dual-rail simulator.

A value of a node is a pair (H, L) of truth vectors (Python ints over the assignments of a World): H = "may be 1",
L = "may be 0"; X is (1,1), 1 is (1,0), 0 is (0,1).  Vectors are lists of values, most significant bit first."""

ZERO, ONE = "!0", "!1"


class Dual:
    def __init__(self, mask):
        self.m = mask
        self.X, self.T, self.F = (mask, mask), (mask, 0), (0, mask)

    def NOT(self, a): return (a[1], a[0])
    def AND(self, a, b): return (a[0] & b[0], a[1] | b[1])
    def OR(self, a, b): return (a[0] | b[0], a[1] & b[1])
    def BUF(self, a): return a

    def ite(self, c, a, b, acc=True):
        """either branch when the condition is unknown; the common value if acc"""
        H = (c[0] & a[0]) | (c[1] & b[0])
        L = (c[1] | a[1]) & (c[0] | b[1])
        if acc:
            H |= a[0] & b[0]
            L &= a[1] | b[1]
        return (H, L)

    def fa(self, a, b, c):
        (aH, aL), (bH, bL), (cH, cL) = a, b, c
        sH = (((aH & bL) | (aL & bH)) & cL) | ((aL | bH) & (aH | bL) & cH)
        sL = (((aL | bH) & (aH | bL)) | cH) & ((aH & bL) | (aL & bH) | cL)
        return (sH, sL), ((aH & bH) | (aH & cH) | (bH & cH), (aL | bL) & (aL | cL) & (bL | cL))

    def add(self, A, B, cin):
        out = []
        for a, b in zip(reversed(A), reversed(B)):
            s, cin = self.fa(a, b, cin)
            out.append(s)
        return out[::-1]

    def sub(self, A, B): return self.add(A, [self.NOT(b) for b in B], self.T)

    def mul(self, A, B):
        w = len(A)
        acc = [self.F] * w
        for k in range(w):                       # bit k of B
            b = B[w - 1 - k]
            row = [self.AND(b, A[i + k]) if i + k < w else self.F for i in range(w)]
            acc = self.add(row, acc, self.F)
        return acc

    def cmp(self, A, B, init):
        """init = F: A > B;  init = T: A >= B"""
        H, L = init
        for (aH, aL), (bH, bL) in zip(reversed(A), reversed(B)):
            H = (aH & bL) | ((aH | bL) & H)
            L = (aL | bH) & ((aL & bH) | L)
        return (H, L)

    def eq(self, A, B):
        H, L = self.T
        for (aH, aL), (bH, bL) in zip(A, B):
            H &= (aH & bH) | (aL & bL)
            L |= (aL | bL) & (aH | bH)
        return (H, L)

    def divmod(self, A, B):
        w = len(A)
        Q, R = [], [self.F] * w
        for a in A:
            R2 = R[1:] + [a]
            c = self.cmp(R2, B, self.T)
            d = self.sub(R2, B)
            R = [self.ite(c, x, y) for x, y in zip(d, R2)]
            Q.append(c)
        return Q, R

    def shift(self, A, B, kind):
        w, cur = len(A), list(A)
        for k in range(w):
            n = min(1 << k, w)
            b = B[w - 1 - k]
            if kind == "L":
                s = cur[n:] + [self.F] * n
            else:
                s = [cur[0] if kind == "A" else self.F] * n + cur[:w - n]
            cur = [self.ite(b, x, y) for x, y in zip(s, cur)]
        return cur

    def line(self, A, k):
        """A = k"""
        r = self.T
        for i, a in enumerate(reversed(A)):
            r = self.AND(r, a if (k >> i) & 1 else self.NOT(a))
        return r

    def eval(self, e, env, acc=True):
        ev = lambda x: self.eval(x, env, acc)
        k = e[0]
        if k == "var": return [env[b] for b in e[1]]
        if k == "const": return [self.T if (e[2] >> i) & 1 else self.F for i in reversed(range(e[1]))]
        if k == "x": return [self.X] * e[1]
        if k == "not": return [self.NOT(a) for a in ev(e[1])]
        if k == "pred": return ev(e[1])
        if k in ("AND", "OR"):
            f = self.AND if k == "AND" else self.OR
            return [f(a, b) for a, b in zip(ev(e[1]), ev(e[2]))]
        if k == "ADD": return self.add(ev(e[1]), ev(e[2]), self.F)
        if k == "SUB": return self.sub(ev(e[1]), ev(e[2]))
        if k == "MUL": return self.mul(ev(e[1]), ev(e[2]))
        if k == "DIV": return self.divmod(ev(e[1]), ev(e[2]))[0]
        if k == "MOD": return self.divmod(ev(e[1]), ev(e[2]))[1]
        if k == "SHL": return self.shift(ev(e[1]), ev(e[2]), "L")
        if k == "SHR": return self.shift(ev(e[1]), ev(e[2]), "R")
        if k == "ASHR": return self.shift(ev(e[1]), ev(e[2]), "A")
        if k == "EQ": return [self.eq(ev(e[1]), ev(e[2]))]
        if k == "GR": return [self.cmp(ev(e[1]), ev(e[2]), self.F)]
        if k == "ite":
            c = ev(e[1])[0]
            return [self.ite(c, a, b, acc) for a, b in zip(ev(e[2]), ev(e[3]))]
        if k in ("sx", "zx"):
            v = ev(e[2])
            w = e[1]
            return v[len(v) - w:] if w <= len(v) else [v[0] if k == "sx" else self.F] * (w - len(v)) + v
        if k in ("slice", "nslice"):
            v = ev(e[2])
            return [v[len(v) - 1 - i] for i in e[1]]
        if k == "upd":
            v, n = ev(e[1]), ev(e[3])
            for i, b in zip(e[2], n):
                v[len(v) - 1 - i] = b
            return v
        if k == "cat": return [b for p in e[1] for b in ev(p)]
        if k == "mread":
            a, m = ev(e[2]), ev(e[1])
            _, lines, dw = e[3]
            out = [self.X] * dw
            for l in range(lines):
                s = self.line(a, l)
                row = m[(lines - 1 - l) * dw:(lines - l) * dw]
                out = [self.ite(s, n, o) for n, o in zip(row, out)]
            return out
        if k == "mwrite":
            m, a, d = ev(e[1]), ev(e[2]), ev(e[3])
            _, lines, dw = e[4]
            out = list(m)
            for l in range(lines):
                s = self.line(a, l)
                for i in range(dw):
                    j = (lines - 1 - l) * dw + i
                    out[j] = self.ite(s, d[i], m[j])
            return out
        if k == "idelay":
            (mr, Mr), (mf, Mf) = e[1], e[2]
            cur = ev(e[3])
            ds = [ev(d) for d in e[4]]
            out = []
            for i in range(len(cur)):
                def rail(r, n1, n0):
                    t1, t0 = self.m, 0
                    for d in ds[:n1]: t1 &= d[i][r]
                    for d in ds[:n0]: t0 |= d[i][r]
                    return t1 | (cur[i][r] & t0)
                out.append((rail(0, mr, Mf), rail(1, mf, Mr)))
            return out
        raise AssertionError(k)


class Coarse(Dual):
    """an operator with any unknown operand bit gives X: every implementation is at least this precise"""
    def eval(self, e, env, acc=True):
        r = super().eval(e, env, acc)
        k = e[0]
        ops = {"ite": e[1:2], "mread": e[2:3], "mwrite": e[2:3]}.get(k)
        if ops is None and k in ("ADD", "SUB", "MUL", "DIV", "MOD", "SHL", "SHR", "ASHR", "EQ", "GR"):
            ops = e[1:3]
        if k == "idelay":
            ops = [e[3]] + list(e[4])
        if ops:
            x = 0
            for o in ops:
                for h, l in self.eval(o, env, acc):
                    x |= h & l
            if x:
                r = [(h | x, l | x) for h, l in r]
        return r


def vname(base, w):
    return base if w == 1 else "%s[%d:0]" % (base, w - 1)


def bits(base, w):
    return [base] if w == 1 else ["%s[%d]" % (base, i) for i in reversed(range(w))]


class Scope:
    """a module: local signals base -> list of global bits (msb first)"""
    def __init__(self):
        self.sig = {}

    def ref(self, ch, base, wanted=None):
        """(text, ast) of a reference to a local vector or a slice of it"""
        g = self.sig[base]
        w = len(g)
        if w == 1:
            return 'W_VAR 1 "%s"' % base if ch.bool(4, 5) else 'W_EXPLICIT_VAR 1 "%s"' % base, ("var", g)
        if ch.bool(2, 3):
            return 'W_VAR %d "%s"' % (w, base), ("var", g)
        hi = ch.rng_int(0, w - 1)
        lo = ch.rng_int(0, hi)
        n = hi - lo + 1
        nm = "%s[%d]" % (base, hi) if n == 1 and ch.bool() else "%s[%d:%d]" % (base, hi, lo)
        return 'W_EXPLICIT_VAR %d "%s"' % (n, nm), ("var", g[w - 1 - hi:w - lo])


def width(e):
    k = e[0]
    if k == "var": return len(e[1])
    if k in ("const", "x"): return e[1]
    if k in ("EQ", "GR", "pred"): return 1
    if k in ("sx", "zx"): return e[1]
    if k in ("slice", "nslice"): return len(e[1])
    if k == "ite": return width(e[2])
    if k == "cat": return sum(width(p) for p in e[1])
    if k == "mread": return e[3][2]
    if k == "mwrite": return e[4][1] * e[4][2]
    if k == "idelay": return width(e[3])
    return width(e[1])


BIN = ["AND", "OR", "ADD", "SUB", "MUL", "DIV", "MOD", "SHL", "SHR", "ASHR"]


class Gen:
    def __init__(self, ch, maxw=4, heavy=True, mem=True, verilog=False, consts=False):
        self.ch, self.maxw, self.heavy, self.mem, self.verilog, self.consts = ch, maxw, heavy, mem, verilog, consts
        self.ops = set()

    def fit(self, te, w):
        """adapt (text, ast) to width w"""
        t, e = te
        n = width(e)
        if n == w:
            return te
        if n > w:
            idx = self.ch.perm(range(n))[:w]
            return "W_SLICE [%s] (%s)" % (",".join(map(str, idx)), t), ("slice", idx, e)
        k = self.ch.pick(["zx", "sx"])
        return "W_%s %d (%s)" % (k.upper(), w, t), (k, w, e)

    def leaf(self, sc, w):
        ch = self.ch
        names = sorted(sc.sig)
        if not names or (ch.bool(1, 8) if not self.consts else ch.bool(1, 2)):
            v = ch.below(1 << w)
            k = ch.below(4) if not self.verilog and not self.consts else 0
            if k == 3:
                return "W_X %d" % w, ("x", w)
            if k == 2:
                return 'W_NAMED_CONST "K%d" %d %d' % (v, w, v), ("const", w, v)
            return "W_CONST %d %d" % (w, v), ("const", w, v)
        return self.fit(sc.ref(ch, ch.pick(names)), w)

    def expr(self, sc, w, d):
        ch = self.ch
        if d <= 0 or ch.bool(1, 6):
            return self.leaf(sc, w)
        sub = lambda w2=w: self.expr(sc, w2, d - 1)
        kinds = [(4, "bin"), (2, "ari"), (2, "not"), (3, "ite"), (1, "ext"), (2, "cat"), (1, "slice"), (1, "upd")]
        if w == 1:
            kinds += [(3, "rel"), (1, "pred")]
        if self.mem:
            kinds += [(1, "mread")]
            if w in (2, 4, 6, 8): kinds += [(1, "mwrite")]
        if self.verilog:
            kinds = [x for x in kinds if x[1] not in ("upd", "pred")]
        else:
            kinds += [(1, "idelay")]
        k = ch.wpick(kinds)
        self.ops.add(k)
        if k in ("bin", "ari"):
            op = ch.pick(BIN[:2] if k == "bin" else BIN[2:] if self.heavy else ["ADD", "SUB", "SHL", "SHR", "ASHR"])
            self.ops.add(op)
            (t1, e1), (t2, e2) = sub(), sub()
            return "W_%s (%s) (%s)" % (op, t1, t2), (op, e1, e2)
        if k == "not":
            t, e = sub()
            return "W_NOT (%s)" % t, ("not", e)
        if k == "ite":
            (tc, c), (t1, e1), (t2, e2) = sub(1), sub(), sub()
            return "W_ITE (%s) (%s) (%s)" % (tc, t1, t2), ("ite", c, e1, e2)
        if k == "ext":
            return self.fit(sub(ch.rng_int(1, self.maxw)), w)
        if k == "cat":
            parts, left = [], w
            while left:
                n = ch.rng_int(1, left)
                parts.append(self.expr(sc, n, d - 1))
                left -= n
            return "W_CAT [%s]" % ",".join(t for t, _ in parts), ("cat", [e for _, e in parts])
        if k == "slice":
            n = ch.rng_int(w, max(w, self.maxw))
            t, e = sub(n)
            idx = [ch.below(n) for _ in range(w)]
            il = ",".join(map(str, idx))
            if ch.bool(1, 3) and not self.verilog:
                return 'W_NAMED_SLICE "fld" [%s] (%s)' % (il, t), ("nslice", idx, e)
            return "W_SLICE [%s] (%s)" % (il, t), ("slice", idx, e)
        if k == "upd":
            n = ch.rng_int(1, w)
            idx = ch.perm(range(w))[:n]
            (t1, e1), (t2, e2) = sub(), sub(n)
            return ('W_UPDATE_NAMED_SLICE (%s) "fld" [%s] (%s)' % (t1, ",".join(map(str, idx)), t2), ("upd", e1, idx, e2))
        if k == "rel":
            op = ch.pick(["EQ", "GR"])
            n = ch.rng_int(1, self.maxw)
            (t1, e1), (t2, e2) = sub(n), sub(n)
            return "W_%s (%s) (%s)" % (op, t1, t2), (op, e1, e2)
        if k == "pred":
            t, e = sub()
            return 'W_PRED "p%d" (%s)' % (ch.below(3), t), ("pred", e)
        if k == "mread":
            aw = ch.rng_int(1, 2)
            lines = ch.rng_int(2 if aw == 2 else 1, 1 << aw)
            (tm, m), (ta, a) = self.expr(sc, lines * w, d - 1), self.expr(sc, aw, d - 1)
            info = (aw, lines, w)
            return "W_MEM_READ (MEM %d %d %d) (%s) (%s)" % (aw, lines, w, tm, ta), ("mread", m, a, info)
        if k == "mwrite":
            dw = w // 2 if ch.bool() or w == 2 else w // (4 if w % 4 == 0 else 2)
            lines = w // dw
            aw = 1 if lines <= 2 else 2 if lines <= 4 else 3
            (tm, m), (ta, a), (td, dd) = sub(), self.expr(sc, aw, d - 1), self.expr(sc, dw, d - 1)
            return ("W_MEM_WRITE (MEM %d %d %d) (%s) (%s) (%s)" % (aw, lines, dw, tm, ta, td), ("mwrite", m, a, dd, (aw, lines, dw)))
        if k == "idelay":
            mr = ch.rng_int(1, 2); Mr = ch.rng_int(mr, 3)
            mf = ch.rng_int(1, 2); Mf = ch.rng_int(mf, 3)
            cur = self.leaf(sc, w)
            ds = [self.leaf(sc, w) for _ in range(max(Mr, Mf))]
            return ("W_IDELAY %d (%d,%d) (%d,%d) (%s) [%s]" % (w, mr, Mr, mf, Mf, cur[0], ",".join(t for t, _ in ds)),
                    ("idelay", (mr, Mr), (mf, Mf), cur[1], [e for _, e in ds]))
        raise AssertionError(k)


POOL = ["a", "b", "d", "q", "x", "data", "st", "n1", "n10", "sel", "we", "out", "r", "s", "t", "ad/x", "y_2", "z"]


class Circuit:
    """random circuit; .text is the pexlif, .comb: [(bits, ast)] in evaluation order, .delay: [(bits, ast)]"""
    def __init__(self, ch, gen, nin=(1, 4), nlat=(0, 3), ncomb=(1, 6), depth=3, hier=2, maxw=None, clean=False, top_hier=False):
        self.ch, self.g, self.depth, self.clean, self.top_hier = ch, gen, depth, clean, top_hier
        maxw = maxw or gen.maxw
        self.pool = [n for n in POOL if "/" not in n] if clean else POOL
        names = ch.perm(self.pool)
        take = lambda: names.pop(0)
        w = lambda: ch.wpick([(3, 1), (3, 2), (2, min(3, maxw)), (2, maxw)])
        self.inps = [(take(), w()) for _ in range(ch.rng_int(*nin))]
        self.lats = [(take(), w()) for _ in range(ch.rng_int(*nlat))]
        self.combs = [(take(), w()) for _ in range(ch.rng_int(*ncomb))]
        self.comb, self.delay = [], []
        top = Scope()
        for n, k in self.inps + self.lats:
            top.sig[n] = bits(n, k)
        todo = [(n, k, False) for n, k in self.combs]
        for n, k in self.lats:
            todo.insert(ch.below(len(todo) + 1), (n, k, True))
        sigs = [s[:2] for s in self.lats + self.combs]
        ints = [s for s in sigs if ch.bool(1, 3)]
        outs = [s for s in sigs if s not in ints] or sigs[-1:]
        ints = [s for s in ints if s not in outs]
        self.outs, self.ints = outs, ints
        self.newbits = {n: bits(n, k) for n, k in self.lats + self.combs}
        content = self.content(top, todo, hier)
        fa = lambda l: "[%s]" % self.fa(l)
        self.text = ('PINST "top" [] F %s %s [%s] (%s)' %
                     (fa(self.inps), fa(outs), ",".join('"%s"' % vname(*s) for s in ints), content))
        self.sigs = self.inps + self.lats + self.combs
        self.nodes = [b for s in self.sigs for b in bits(*s)]

    def fa(self, l):
        return ",".join('("%s",["%s"])' % (vname(*s), vname(*s)) for s in l)

    def content(self, sc, todo, hier):
        """drives todo, a list of (local base, width, is_latch), in order; adds the combinational ones to the scope"""
        ch = self.ch
        top, self.top_hier = self.top_hier, False
        if hier == 0 or not top and ch.bool(1, 3):
            fns = []
            for n, w, lat in todo:
                fns += self.assign(sc, n, w, lat)
            if ch.bool():
                fns = ch.perm(fns)
            return "P_LEAF [%s]" % ",".join(fns)
        kids = []
        todo = list(todo)
        while todo:
            k = ch.rng_int(1, len(todo))
            kids.append(self.child(sc, todo[:k], hier - 1))
            todo = todo[k:]
        if ch.bool():
            kids = ch.perm(kids)
        return "P_HIER [%s]" % ",".join(kids)

    def assign(self, sc, n, w, lat):
        ch = self.ch
        glob = sc.sig[n] if n in sc.sig else self.newbits[n]
        parts = [(w - 1, 0)]
        if w > 1 and ch.bool(1, 4):
            k = ch.rng_int(1, w - 1)
            parts = [(w - 1, k), (k - 1, 0)]
        out = []
        for hi, lo in parts:
            m = hi - lo + 1
            t, e = self.g.expr(sc, m, self.depth)
            if m == w:
                lhs = 'W_VAR %d "%s"' % (w, n)
            elif ch.bool():
                lhs = 'W_EXPLICIT_VAR %d "%s"' % (m, "%s[%d:%d]" % (n, hi, lo) if m > 1 or ch.bool() else "%s[%d]" % (n, hi))
            else:
                lhs = 'W_SLICE [%s] (W_VAR %d "%s")' % (",".join(str(i) for i in range(hi, lo - 1, -1)), w, n)
            gb = glob[w - 1 - hi:w - lo]
            (self.delay if lat else self.comb).append((gb, e))
            out.append("%s (%s) (%s)" % ("W_PHASE_DELAY" if lat else "W_UPDATE_FN", lhs, t))
        if not lat:
            sc.sig[n] = glob
        return out

    newbits = None

    def actual(self, sc, w):
        """-> (list of actual names, global bits) of total width w, from readable signals of sc"""
        ch = self.ch
        acts, gl = [], []
        while len(gl) < w:
            left = w - len(gl)
            if ch.bool(1, 10) or not sc.sig:
                v = ch.below(1 << left)
                acts.append("0b" + format(v, "0%db" % left))
                gl += [ONE if (v >> i) & 1 else ZERO for i in reversed(range(left))]
                continue
            b = ch.pick(sorted(sc.sig))
            g = sc.sig[b]
            n = len(g)
            if n == 1:
                acts.append(b)
                gl += g
            elif n <= left and ch.bool(2, 3):
                acts.append(vname(b, n))
                gl += g
            else:
                m = ch.rng_int(1, min(left, n))
                lo = ch.rng_int(0, n - m)
                hi = lo + m - 1
                acts.append("%s[%d]" % (b, hi) if m == 1 else "%s[%d:%d]" % (b, hi, lo))
                gl += g[n - 1 - hi:n - lo]
        return acts, gl

    def child(self, sc, todo, hier):
        ch = self.ch
        names = ch.perm(self.pool)
        loc = Scope()
        fi, fo = [], []
        for _ in range(ch.rng_int(1, 3)):
            n = names.pop(0)
            w = ch.pick([1, 2, 3, self.g.maxw])
            if ch.bool(1, 2) and sc.sig:
                b = ch.pick(sorted(sc.sig))
                w = len(sc.sig[b])
                acts, gl = [vname(b, w)], sc.sig[b]
            else:
                acts, gl = self.actual(sc, w)
            loc.sig[n] = gl
            fi.append('("%s",[%s])' % (vname(n, w), ",".join('"%s"' % a for a in acts)))
        sub, saved = [], self.newbits
        mine = {}
        for n, w, lat in todo:
            f = names.pop(0)
            glob = sc.sig[n] if n in sc.sig else (saved or {}).get(n) or bits(n, w)
            if w > 1 and ch.bool(1, 3):
                k = ch.rng_int(1, w - 1)
                acts = ["%s[%d:%d]" % (n, w - 1, k) if w - 1 > k else "%s[%d]" % (n, k),
                        "%s[%d:0]" % (n, k - 1) if k > 1 else "%s[0]" % n]
            else:
                acts = [vname(n, w)]
            fo.append('("%s",[%s])' % (vname(f, w), ",".join('"%s"' % a for a in acts)))
            mine[f] = glob
            if lat and ch.bool():
                loc.sig[f] = glob
            sub.append((f, w, lat))
        ints = []
        if ch.bool(1, 2):
            f = names.pop(0)
            w = ch.rng_int(1, self.g.maxw)
            self.cnt = getattr(self, "cnt", 0) + 1
            mine[f] = bits("$int%d" % self.cnt, w)
            ints.append(vname(f, w))
            sub.insert(0, (f, w, ch.bool(1, 4)))
        self.newbits = mine
        text = self.content(loc, sub, hier)
        self.newbits = saved
        for n, w, lat in todo:
            if not lat:
                sc.sig[n] = (saved or {}).get(n) or bits(n, w)
        return ('PINST "cell%d" [] %s [%s] [%s] [%s] (%s)' %
                (ch.below(4), "T" if text.startswith("P_LEAF") and (self.clean or ch.bool()) else "F", ",".join(fi), ",".join(fo),
                 ",".join('"%s"' % i for i in ints), text))


class Sim:
    """reference simulator.  ants/weaks: [(when, node, val, from, to)] / [(when, node, from, to)] with truth vectors"""
    def __init__(self, c, mask, ants, weaks=(), acc=True, dual=Dual):
        self.c, self.D, self.ants, self.weaks, self.acc = c, dual(mask), ants, weaks, acc
        D = self.D
        self.base = {ZERO: D.F, ONE: D.T}
        driven = set(b for bs, _ in c.comb + c.delay for b in bs)
        self.free = [b for b in set(c.nodes) | set(b for bs, e in c.comb + c.delay for b in bs) if b not in driven]
        self.order = self.sort()
        self.trajOK = mask
        self.hist = []
        # steady state of the unconstrained circuit
        lat = {b: D.X for bs, _ in c.delay for b in bs}
        while True:
            env = self.settle(lat, None)
            new = self.next(env)
            if new == lat:
                break
            lat = new
        self.init, self.lat, self.lat0 = env, lat, dict(lat)
        self.t = 0

    def sort(self):
        return self.c.comb         # generated in dependency order

    def settle(self, lat, t):
        D, m = self.D, self.D.m
        env = dict(self.base)

        def put(b, v):
            if t is not None:
                wk = 0
                for w, n, f, to in self.weaks:
                    if n == b and f <= t < to:
                        wk |= w
                v = (v[0] | wk, v[1] | wk)
                on = False
                for w, n, x, f, to in self.ants:
                    if n == b and f <= t < to:
                        on = True
                        nw = m ^ w
                        v = (v[0] & (nw | x), v[1] & (nw | (m ^ x)))
                if on:
                    self.trajOK &= v[0] | v[1]
            env[b] = v
        for b in self.free:
            put(b, D.X)
        for b, v in lat.items():
            put(b, v)
        for bs, e in self.order:
            for b, v in zip(bs, D.eval(e, env, self.acc)):
                put(b, v)
        return env

    def next(self, env):
        lat = {}
        for bs, e in self.c.delay:
            for b, v in zip(bs, self.D.eval(e, env, self.acc)):
                lat[b] = v
        return lat

    def run(self, t0, t1):
        """values at times t0..t1"""
        for t in range(t0, t1 + 1):
            env = self.settle(self.lat, t)
            self.hist.append(env)
            self.lat = self.next(env)
        return self.hist
