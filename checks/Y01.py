"""Verilog modules read through yosys and write_pexlif"""
import hashlib
from vlib.engine import Case, Group
from checks import H01, S01

ID = "Y01"
PARTS = ("functor", "generics", "yosys")
RULE = ("A case is a random Verilog design (typed expressions in context, part selects, always blocks with if/case/casez, "
        "parameterised sub-modules, flip-flops with resets, latches, memories) read with verilog2pexlif, compiled to an FSM and "
        "simulated; every output bit is compared at every time and under all assignments with a reference evaluation that follows "
        "the Verilog rules for widths and signs.  Non-trivial: at least two different non-constant values are seen on outputs "
        "(three values over time for sequential designs).")
PREAMBLE = H01.PREAMBLE


# ---- expressions: ("op", ...) with Verilog's self-determined size and sign
def size(e):
    k = e[0]
    if k in ("var", "const"): return e[2]
    if k in ("+", "-", "*", "/", "%", "&", "|", "^", "~^"): return max(size(e[1]), size(e[2]))
    if k in ("neg", "pos", "~"): return size(e[1])
    if k in ("<<", ">>", "<<<", ">>>"): return size(e[1])
    if k == "?": return max(size(e[2]), size(e[3]))
    if k == "cat": return sum(size(x) for x in e[1])
    if k == "rep": return e[1] * size(e[2])
    if k == "part": return e[2] - e[3] + 1
    if k in ("dpart", "dpartm"): return e[3]
    if k in ("sgn", "uns"): return size(e[1])
    return 1


def signed(e):
    k = e[0]
    if k in ("var", "const"): return e[3]
    if k in ("+", "-", "*", "/", "%", "&", "|", "^", "~^"): return signed(e[1]) and signed(e[2])
    if k in ("neg", "pos", "~", "<<", ">>", "<<<", ">>>"): return signed(e[1])
    if k == "?": return signed(e[2]) and signed(e[3])
    return k == "sgn"


def text(e):
    k = e[0]
    if k == "var": return e[1]
    if k == "const": return e[4]
    if k in ("neg", "pos", "~"): return "(%s%s)" % ({"neg": "-", "pos": "+", "~": "~"}[k], text(e[1]))
    if k in ("!", "r&", "r|", "r^", "r~&", "r~|", "r~^"): return "(%s%s)" % (k.lstrip("r"), text(e[1]))
    if k == "?": return "(%s ? %s : %s)" % tuple(text(x) for x in e[1:4])
    if k == "cat": return "{%s}" % ",".join(text(x) for x in e[1])
    if k == "rep": return "{%d{%s}}" % (e[1], text(e[2]))
    if k == "part": return "%s[%d]" % (e[1][1], e[2] + e[1][5]) if e[2] == e[3] and e[4] else "%s[%d:%d]" % (e[1][1], e[2] + e[1][5], e[3] + e[1][5])
    if k == "dbit": return "%s[%s]" % (e[1][1], text(e[2]))
    if k == "dpart": return "%s[%s +: %d]" % (e[1][1], text(e[2]), e[3])
    if k == "dpartm": return "%s[%s -: %d]" % (e[1][1], text(e[2]), e[3])
    if k == "sgn": return "$signed(%s)" % text(e[1])
    if k == "uns": return "$unsigned(%s)" % text(e[1])
    return "(%s %s %s)" % (text(e[1]), k, text(e[2]))


def ext(a, w0, w, s):
    return a if w0 == w else ("sx" if s else "zx", w, a)


def neg(a, w): return ("SUB", ("const", w, 0), a)


def redor(a, w): return ("not", ("EQ", a, ("const", w, 0)))


def less(a, b, w, s):
    if s:
        f = lambda x: ("cat", [("not", ("slice", [w - 1], x))] + ([("slice", list(range(w - 2, -1, -1)), x)] if w > 1 else []))
        a, b = f(a), f(b)
    return ("GR", b, a)


def self_(e): return conv(e, size(e), signed(e))


def conv(e, W, S):
    """ast of e in a context of width W and sign S"""
    k = e[0]
    if k == "var": return ext(("var", e[4]), e[2], W, S)
    if k == "const": return ext(("const", e[2], e[1]), e[2], W, S)
    if k in ("+", "-", "*"):
        return ({"+": "ADD", "-": "SUB", "*": "MUL"}[k], conv(e[1], W, S), conv(e[2], W, S))
    if k in ("/", "%"):
        a, b = conv(e[1], W, S), conv(e[2], W, S)
        if not S:
            r = ("DIV" if k == "/" else "MOD", a, b)
        else:
            sa, sb = ("slice", [W - 1], a), ("slice", [W - 1], b)
            ma, mb = ("ite", sa, neg(a, W), a), ("ite", sb, neg(b, W), b)
            if k == "/":
                q = ("DIV", ma, mb)
                r = ("ite", sa, ("ite", sb, q, neg(q, W)), ("ite", sb, neg(q, W), q))
            else:
                q = ("MOD", ma, mb)
                r = ("ite", sa, neg(q, W), q)
        return ("ite", ("EQ", b, ("const", W, 0)), ("x", W), r)
    if k == "&": return ("AND", conv(e[1], W, S), conv(e[2], W, S))
    if k == "|": return ("OR", conv(e[1], W, S), conv(e[2], W, S))
    if k in ("^", "~^"):
        a, b = conv(e[1], W, S), conv(e[2], W, S)
        x = ("OR", ("AND", a, ("not", b)), ("AND", ("not", a), b))
        return x if k == "^" else ("not", x)
    if k == "neg": return neg(conv(e[1], W, S), W)
    if k == "pos": return conv(e[1], W, S)
    if k == "~": return ("not", conv(e[1], W, S))
    if k in ("<<", ">>", "<<<", ">>>"):
        a, b, wb = conv(e[1], W, S), self_(e[2]), size(e[2])
        w = max(W, wb)
        ar = k == ">>>" and S
        r = ({"<<": "SHL", "<<<": "SHL"}.get(k) or ("ASHR" if ar else "SHR"), ext(a, W, w, ar), ext(b, wb, w, False))
        return ("slice", list(range(W - 1, -1, -1)), r) if w > W else r
    if k == "?":
        return ("ite", redor(self_(e[1]), size(e[1])), conv(e[2], W, S), conv(e[3], W, S))
    # the rest is self-determined
    w = size(e)
    if k == "cat": r = ("cat", [self_(x) for x in e[1]])
    elif k == "rep": r = ("cat", [self_(e[2])] * e[1])
    elif k == "part": r = ("slice", list(range(e[2], e[3] - 1, -1)), ("var", e[1][4]))
    elif k in ("dbit", "dpart", "dpartm"):
        v, lo, wv = ("var", e[1][4]), e[1][5], e[1][2]
        n = 1 if k == "dbit" else e[3]
        i, wi = self_(e[2]), size(e[2])
        r = ("x", n)
        for x in range(1 << wi):
            base = x - lo - (n - 1 if k == "dpartm" else 0)
            bits = [("slice", [j], v) if 0 <= j < wv else ("x", 1) for j in range(base + n - 1, base - 1, -1)]
            r = ("ite", ("EQ", i, ("const", wi, x)), ("cat", bits), r)
    elif k in ("sgn", "uns"): r = self_(e[1])
    elif k == "!": r = ("EQ", self_(e[1]), ("const", size(e[1]), 0))
    elif k == "r|": r = redor(self_(e[1]), size(e[1]))
    elif k == "r~|": r = ("not", redor(self_(e[1]), size(e[1])))
    elif k in ("r&", "r~&"):
        r = ("EQ", self_(e[1]), ("const", size(e[1]), (1 << size(e[1])) - 1))
        if k == "r~&": r = ("not", r)
    elif k in ("r^", "r~^"):
        a = self_(e[1])
        r = ("slice", [0], a)
        for i in range(1, size(e[1])):
            b = ("slice", [i], a)
            r = ("OR", ("AND", r, ("not", b)), ("AND", ("not", r), b))
        if k == "r~^": r = ("not", r)
    elif k in ("&&", "||"):
        r = ("AND" if k == "&&" else "OR", redor(self_(e[1]), size(e[1])), redor(self_(e[2]), size(e[2])))
    else:
        m, s = max(size(e[1]), size(e[2])), signed(e[1]) and signed(e[2])
        a, b = conv(e[1], m, s), conv(e[2], m, s)
        if k in ("==", "==="): r = ("EQ", a, b)
        elif k in ("!=", "!=="): r = ("not", ("EQ", a, b))
        elif k == "<": r = less(a, b, m, s)
        elif k == ">": r = less(b, a, m, s)
        elif k == "<=": r = ("not", less(b, a, m, s))
        elif k == ">=": r = ("not", less(a, b, m, s))
        else: raise AssertionError(k)
    return ext(r, w, W, S)


class Ex:
    """random expressions over vars (name, width, signed, bits, low index)"""
    def __init__(self, ch, vs):
        self.ch, self.vs, self.lab = ch, vs, set()

    def const(self):
        ch = self.ch
        if ch.bool(1, 12):
            v = ch.pick([0, 1, 2, 3, 5, 7])
            self.lab.add("unsized")
            return ("const", v, 32, True, str(v))
        w = ch.rng_int(1, 5)
        v = ch.below(1 << w)
        s = ch.bool(1, 3)
        t = ch.pick([("b", format(v, "0%db" % w)), ("d", str(v)), ("h", "%x" % v), ("o", "%o" % v)])
        return ("const", v, w, s, "%d'%s%s%s" % (w, "s" if s else "", t[0], t[1]))

    def var(self):
        n = self.ch.pick(self.vs)
        return ("var",) + n

    def bit(self, d):
        ch = self.ch
        if d <= 0 or ch.bool(1, 3):
            v = self.var()
            if v[2] == 1 or ch.bool(1, 4): return v
            i = ch.below(v[2])
            return ("part", v, i, i, True)
        k = ch.pick(["==", "!=", "<", ">", "<=", ">=", "&&", "||", "!", "r|", "r&", "==="])
        return self.op(k, d)

    def small(self, d):
        """something of at most four bits, for indices and shift amounts"""
        v = self.var()
        if v[2] > 3:
            lo = self.ch.below(v[2] - 1)
            return ("part", v, min(v[2] - 1, lo + self.ch.below(3)), lo, False)
        return v

    def op(self, k, d):
        ch = self.ch
        self.lab.add(k)
        if k in ("!", "r&", "r|", "r^", "r~&", "r~|", "r~^", "neg", "pos", "~", "sgn", "uns"):
            return (k, self.expr(d - 1))
        if k == "?": return (k, self.bit(d - 1), self.expr(d - 1), self.expr(d - 1))
        if k == "cat": return (k, [self.sized(d - 1) for _ in range(ch.rng_int(1, 3))])
        if k == "rep": return (k, ch.rng_int(1, 3), self.sized(d - 2))
        if k == "part":
            v = self.var()
            lo = ch.below(v[2]); hi = ch.rng_int(lo, v[2] - 1)
            if v[2] == 1: return v
            return (k, v, hi, lo, ch.bool())
        if k in ("dbit", "dpart", "dpartm"):
            v = self.var()
            i = self.small(d)
            if v[2] == 1: return v
            if signed(i): i = ("uns", i)
            return (k, v, i) if k == "dbit" else (k, v, i, ch.rng_int(1, v[2]))
        if k in ("<<", ">>", "<<<", ">>>"):
            return (k, self.expr(d - 1), self.small(d) if ch.bool(3, 4) else self.const())
        if k in ("/", "%"):
            a, b = self.sized(d - 2), self.sized(d - 2)
            return (k, a, b)
        return (k, self.expr(d - 1), self.expr(d - 1))

    def sized(self, d):
        """an expression in which no unsized number takes part in the width"""
        e = self.expr(d)
        return e if size(e) <= 10 else self.var()

    def expr(self, d):
        ch = self.ch
        if d <= 0: return self.var() if ch.bool(4, 5) else self.const()
        k = ch.wpick([(2, "leaf"), (5, ch.pick(["+", "-", "+", "-", "*"])), (1, ch.pick(["/", "%"])), (4, ch.pick(["&", "|", "^", "~^"])),
                      (2, ch.pick(["neg", "~", "pos"])), (4, ch.pick(["<", ">", "<=", ">=", "==", "!=", "==="])),
                      (4, ch.pick(["<<", ">>", "<<<", ">>>"])), (3, "?"), (2, ch.pick(["&&", "||", "!"])),
                      (2, ch.pick(["r&", "r|", "r~&", "r~|"])), (2, ch.pick(["cat", "cat", "rep"])),
                      (3, ch.pick(["part", "dbit", "dpart", "dpartm"])), (3, ch.pick(["sgn", "uns"]))])
        return self.expr(0) if k == "leaf" else self.op(k, d)


def rhs(e, w):
    """ast of e assigned to something of width w"""
    W = max(w, size(e))
    a = conv(e, W, signed(e))
    return a if W == w else ("slice", list(range(w - 1, -1, -1)), a)


def decl(kind, v, reg=False):
    n, w, s, b, lo = v
    return "%s%s%s %s" % (kind, " reg" if reg else "", (" signed" if s else "") + (" [%d:%d]" % (w + lo - 1, lo) if w > 1 or lo else ""), n)


class Mod:
    def __init__(self, ch, m):
        self.ch, self.m, self.items, self.subs, self.lab = ch, m, [], [], set()

    def sig(self, name, maxw=5, at=None):
        ch = self.ch
        w = ch.rng_int(1, maxw)
        s = ch.bool(1, 3)
        lo = 0 if w == 1 or ch.bool(5, 6) else ch.rng_int(1, 2)
        return (name, w, s, at or self.m.new(w), lo)

    def assign(self, v, vs, d=3):
        ch = self.ch
        x = Ex(ch, vs)
        e = x.expr(d)
        if size(e) > 12 and ch.bool(4, 5): e = x.expr(2)
        self.lab |= x.lab
        self.m.let(v[3], rhs(e, v[1]))
        self.items.append("assign %s = %s;" % (v[0], text(e)))

    def stmts(self, v, vs, d, blocking=True):
        """(text, ast) of statements that always assign v"""
        ch = self.ch
        x = Ex(ch, vs)
        eq = "=" if blocking else "<="
        k = "a" if d <= 0 else ch.wpick([(2, "a"), (3, "if"), (2, "case"), (1, "casez"), (1, "default")])
        self.lab.add("s-" + k)
        if k == "a":
            e = x.expr(2)
            self.lab |= x.lab
            return "%s %s %s;" % (v[0], eq, text(e)), rhs(e, v[1])
        if k == "if":
            c = x.bit(2)
            t1, a1 = self.stmts(v, vs, d - 1, blocking)
            t2, a2 = self.stmts(v, vs, d - 1, blocking)
            return "if (%s) begin %s end else begin %s end" % (text(c), t1, t2), ("ite", redor(self_(c), size(c)), a1, a2)
        if k == "default":
            t1, a1 = self.stmts(v, vs, d - 1, blocking)
            c = x.bit(2)
            t2, a2 = self.stmts(v, vs, d - 1, blocking)
            if not blocking or v[0] not in t2:
                return "%s if (%s) begin %s end" % (t1, text(c), t2), ("ite", redor(self_(c), size(c)), a2, a1)
            return t1, a1
        s = x.small(1)
        if k == "case" and ch.bool(1, 3): s = x.sized(1)
        if size(s) > 4: s = x.small(1)
        w = size(s)
        n = ch.rng_int(1, 4)
        sa = conv(s, w, False)
        t, arms = [], []
        for _ in range(n):
            if k == "case":
                l = [ch.below(1 << w) for _ in range(ch.wpick([(3, 1), (1, 2)]))]
                lab = ",".join("%d'd%d" % (w, q) for q in l)
                c = ("EQ", sa, ("const", w, l[0]))
                for q in l[1:]:
                    c = ("OR", c, ("EQ", sa, ("const", w, q)))
            else:
                pat = "".join(ch.pick("01?") for _ in range(w))
                lab = "%d'b%s" % (w, pat)
                c = ("const", 1, 1)
                for i, p in enumerate(reversed(pat)):
                    if p != "?":
                        c = ("AND", c, ("EQ", ("slice", [i], sa), ("const", 1, int(p))))
            tt, a = self.stmts(v, vs, d - 2, blocking)
            t.append("%s: begin %s end" % (lab, tt))
            arms.append((c, a))
        tt, a = self.stmts(v, vs, d - 2, blocking)
        t.append("default: begin %s end" % tt)
        for c, b in reversed(arms):
            a = ("ite", c, b, a)
        return "%s (%s) %s endcase" % (k, text(s), " ".join(t)), a

    def always(self, v, vs):
        t, a = self.stmts(v, vs, 3)
        self.m.let(v[3], a)
        self.items.append("always @* begin %s end" % t)

    def sub(self, v, vs, depth):
        """instance of a new module driving v"""
        ch, m = self.ch, self.m
        name = "sub%d" % m.cnt
        M = Mod(ch, m)
        x = Ex(ch, vs)
        par = ch.bool(1, 3)
        ins = []
        extra = []
        if self.clk and ch.bool(2, 3):
            M.clk, M.rst, M.rst2 = [z and ("sub_" + z[0],) + z[1:] for z in (self.clk, self.rst, self.rst2)]
            extra = [(z, ("var",) + y) for z, y in ((M.clk, self.clk), (M.rst, self.rst), (M.rst2, self.rst2)) if z]
            self.lab.add("seqsub")
        for i in range(ch.rng_int(1, 3)):
            s = M.sig("p%d" % i)
            if i == 0 and par: s = (s[0], s[1], s[2], s[3], 0)
            e = x.sized(2)
            m.let(s[3], rhs(e, s[1]))
            if e[0] != "var" or e[2] != s[1]:
                self.items.append("wire [%d:0] c%d_%d; assign c%d_%d = %s;" % (s[1] - 1, m.cnt, i, m.cnt, i, text(e)))
                e = ("var", "c%d_%d" % (m.cnt, i))
            ins.append((s, e))
        o = M.sig("r")
        o = ("r", v[1], o[2], o[3][:v[1]] if len(o[3]) >= v[1] else m.new(v[1]), 0)
        self.lab |= x.lab
        M.body([s for s, _ in ins], [o], depth - 1)
        m.let(v[3], ("var", o[3]))
        self.lab |= M.lab | {"sub"}
        p = ""
        ins += extra
        ports = [decl("input", s) for s, _ in ins] + [decl("output", o, M.isreg("r"))]
        if par:
            s = ins[0][0]
            p = " #(parameter W = %d)" % ch.rng_int(1, 5)
            ports[0] = "input%s [W-1:0] %s" % (" signed" if s[2] else "", s[0])
            self.lab.add("param")
        self.subs += M.subs + ["module %s%s(%s);\n%s\nendmodule" % (name, p, ", ".join(ports), "\n".join(M.items))]
        act = [(s[0], text(e)) for s, e in ins] + [("r", v[0])]
        if ch.bool(): con = ", ".join(".%s(%s)" % a for a in ch.perm(act))
        else: con = ", ".join(a for _, a in act)
        self.items.append("%s%s u%d(%s);" % (name, " #(.W(%d))" % ins[0][0][1] if par else "", m.cnt, con))

    clk = rst = None

    def event(self, vs):
        """a clock: (text, bits of the edge condition)"""
        ch, m = self.ch, self.m
        fall = ch.bool(1, 3)
        c = self.clk
        l = [v for v in vs if v[1] == 1 and not v[4] and v[0][0] != "p"]
        if l and ch.bool(1, 10):
            c = ch.pick(l)
            self.lab.add("gated")
        self.lab.add("fall" if fall else "rise")
        return "%s %s" % ("negedge" if fall else "posedge", c[0]), H01.edge(m, c[3], fall)

    def hold(self, v, vs, d):
        """(text, ast) of non-blocking statements that may leave v alone"""
        ch = self.ch
        if ch.bool(1, 3): return self.stmts(v, vs, d, False)
        c = Ex(ch, vs).bit(1)
        t, a = self.hold(v, vs, d - 1) if d > 0 else self.stmts(v, vs, 0, False)
        self.lab.add("hold")
        ca = redor(self_(c), size(c))
        k = ch.below(3)
        if k == 0: return "if (%s) begin %s end" % (text(c), t), ("ite", ca, a, ("var", v[3]))
        if k == 1: return "if (%s) ; else begin %s end" % (text(c), t), ("ite", ca, ("var", v[3]), a)
        t2, a2 = self.stmts(v, vs, 0, False)
        return "if (%s) begin %s end else if (%s) begin %s end" % (text(c), t, text(c), t2), ("ite", ca, a, ("var", v[3]))

    def flop_q(self, v, vs):
        """first half: the state; returns what flop_d needs"""
        ch, m = self.ch, self.m
        ev, en = self.event(vs)
        do, qo = m.new(v[1]), m.dl(m.new(v[1]), ("var", v[3]))
        q = ("ite", ("var", en), ("var", do), ("var", qo))
        rst = None
        if self.rst and ch.bool(1, 2):
            pos = ch.bool()
            k = ch.wpick([(4, "const"), (2, "load"), (2, "setclr")])
            r = ("var", self.rst[3])
            rc = r if pos else ("not", r)
            if k == "load" and not vs: k = "const"
            if k == "load":
                e = Ex(ch, vs).expr(2)
                val, tx = rhs(e, v[1]), text(e)
            else:
                n = ch.below(1 << v[1])
                val, tx = ("const", v[1], n), "%d'd%d" % (v[1], n)
            rst = (pos, tx, None)
            q = ("ite", rc, val, q)
            if k == "setclr" and self.rst2:     # yosys gives the last one priority, so both load the same
                pos2 = ch.bool()
                r2 = ("var", self.rst2[3])
                q = ("ite", rc, val, ("ite", r2 if pos2 else ("not", r2), ("const", v[1], n), q[3]))
                rst = (pos, tx, (pos2, "%d'd%d" % (v[1], n)))
            self.lab.add("rst-" + k)
        m.let(v[3], q)
        return ev, do, rst

    def flop_d(self, v, vs, st):
        ev, do, rst = st
        t, a = self.hold(v, [x for x in vs + [v] if x[0] != ev.split()[1]], 2)     # yosys takes a clock in its own block for a reset
        self.m.dl(do, a)
        n = lambda pos, x: x[0] if pos else "!" + x[0]
        if rst:
            ev += " or %s %s" % ("posedge" if rst[0] else "negedge", self.rst[0])
            if rst[2]:
                ev += " or %s %s" % ("posedge" if rst[2][0] else "negedge", self.rst2[0])
                t = "if (%s) %s <= %s; else begin %s end" % (n(rst[2][0], self.rst2), v[0], rst[2][1], t)
            t = "if (%s) %s <= %s; else begin %s end" % (n(rst[0], self.rst), v[0], rst[1], t)
        self.items.append("always @(%s) begin %s end" % (ev, t))
        self.lab.add("flop")

    def latch(self, v, vs):
        """latch with nested conditions"""
        ch, m = self.ch, self.m
        old = m.dl(m.new(v[1]), ("var", v[3]))
        c = Ex(ch, vs).bit(2)
        t, a = self.stmts(v, vs, 1)
        a = ("ite", redor(self_(c), size(c)), a, ("var", old))
        t = "if (%s) begin %s end" % (text(c), t)
        if ch.bool(1, 3):
            c = Ex(ch, vs).bit(1)
            t2, a2 = self.stmts(v, vs, 0)
            ca = redor(self_(c), size(c))
            if ch.bool(): t, a = "if (%s) begin %s end else begin %s end" % (text(c), t2, t), ("ite", ca, a2, a)
            else: t, a = "%s if (%s) begin %s end" % (t, text(c), t2), ("ite", ca, a2, a)
        m.let(v[3], a)
        self.items.append("always @* begin %s end" % t)
        self.lab.add("latch")

    rst2 = None
    regs = None

    def isreg(self, n): return n in (self.regs or ())

    def body(self, ins, outs, depth, maxi=3):
        ch = self.ch
        vs = list(ins)
        wires = [self.sig("w%d" % i) for i in range(ch.below(maxi))]
        self.regs = set()
        seq = self.clk is not None
        early = []
        if seq:
            for i in range(ch.rng_int(0 if outs[0][0] == "r" else 1, 2)):
                v = self.sig("q%d" % i)
                self.items.append(decl("reg", v) + ";")
                early.append((v, list(vs), self.flop_q(v, list(vs))))
                vs.append(v)
        for v in wires + outs:
            k = ch.wpick([(4, "assign"), (3, "always"), (2 if depth > 0 else 0, "sub"), (3 if seq else 0, "flop"), (2 if seq else 0, "latch")])
            if k in ("always", "flop", "latch"): self.regs.add(v[0])
            n = len(self.items)
            if k == "assign": self.assign(v, vs)
            elif k == "always": self.always(v, vs)
            elif k == "flop": early.append((v, vs[:], self.flop_q(v, vs[:])))
            elif k == "latch": self.latch(v, vs)
            else: self.sub(v, vs, depth)
            if v in wires:
                self.items.insert(n, decl("reg" if v[0] in self.regs else "wire", v) + ";")
            vs.append(v)
        for v, _, st in early:
            self.flop_d(v, [x for x in vs if x != v], st)


def emit(ch, c, M, ins, outs):
    src = "\n".join(M.subs + ["module top(%s);" % ", ".join([decl("input", s) for s in ins] + [decl("output", o, M.isreg(o[0])) for o in outs])]
                    + M.items + ["endmodule", ""])
    f = "y%s.v" % hashlib.sha1(src.encode()).hexdigest()[:12]
    c.files = {f: src}
    c.st('let p = verilog2pexlif T "" "top" ["%s"] [];' % f)
    c.src = src
    for l in M.lab:
        c.label(l)


def shift(b, v): return [x.replace("[", "[") for x in b]


def named(m, name, w, lo):
    """bits of a port as the pexlif names them"""
    b = [name] if w == 1 and not lo else ["%s[%d]" % (name, i + lo) for i in reversed(range(w))]
    m.nodes += b
    return b


def g_comb(ch):
    c = Case()
    m = H01.Model()
    M = Mod(ch, m)
    ins = []
    for i in range(ch.rng_int(1, 4)):
        s = M.sig("abde"[i])
        ins.append(s[:3] + (named(m, s[0], s[1], 0),) + (0,))
    outs = []
    for i in range(ch.rng_int(1, 2)):
        s = M.sig("yz"[i], 7)
        outs.append(s[:3] + (named(m, s[0], s[1], 0),) + (0,))
    m.inps = [(s[0], s[1]) for s in ins]
    M.body(ins, outs, 2)
    emit(ch, c, M, ins, outs)
    return H01.finish(ch, c, m, m.inps, [(o[0], o[1]) for o in outs], "of a Verilog module")


def g_seq(ch):
    c = Case()
    m = H01.Model()
    M = Mod(ch, m)
    ctl = [(n, 1, False, named(m, n, 1, 0), 0) for n in ["clk", "rst", "set"][:ch.rng_int(1, 3)]]
    M.clk = ctl[0]
    if len(ctl) > 1: M.rst = ctl[1]
    if len(ctl) > 2: M.rst2 = ctl[2]
    ins = []
    for i in range(ch.rng_int(1, 3)):
        s = M.sig("abe"[i], 4)
        ins.append(s[:3] + (named(m, s[0], s[1], 0),) + (0,))
    outs = []
    for i in range(ch.rng_int(1, 2)):
        s = M.sig("yz"[i])
        outs.append(s[:3] + (named(m, s[0], s[1], 0),) + (0,))
    m.inps = [(s[0], s[1]) for s in ctl + ins]
    M.body(ins, outs, 2)
    emit(ch, c, M, ctl + ins, outs)
    return H01.finish(ch, c, m, m.inps, [(o[0], o[1]) for o in outs], "of a Verilog module", T=12, clks=("clk",), seq=True)


def g_mem(ch):
    """a memory with up to two writes per edge, combinational and clocked reads, or a ROM"""
    c = Case()
    m = H01.Model()
    M = Mod(ch, m)
    clk = ("clk", 1, False, named(m, "clk", 1, 0), 0)
    D = ch.wpick([(4, 2), (3, 4), (1, 3)])
    ab = 1 if D == 2 else 2
    W = ch.rng_int(1, 3)
    rom = ch.bool(1, 6)
    ins = []
    for n, w in [("we", 1), ("a", ab), ("d", W), ("b", ab), ("e", 1)]:
        ins.append((n, w, False, named(m, n, w, 0), 0))
    we, a, d, b, e = ins
    info = (ab, D, W)
    cell = m.new(D * W)
    MEM = ("var", cell)
    fall = ch.bool(1, 4)
    en = ("var", H01.edge(m, clk[3], fall))
    decls = ["reg [%d:0] mem [0:%d];" % (W - 1, D - 1)] if W > 1 or ch.bool() else ["reg mem [0:%d];" % (D - 1)]
    blk = ch.bool(1, 3)
    eq = "=" if blk else "<="
    if blk: c.label("blocking")
    body, items = [], []
    regs = []
    # registers on the same clock, so that addresses and data may change at the edge
    vs = list(ins)
    for i in range(ch.below(3)):
        v = ("q%d" % i, ch.pick([1, ab, W]), False, None, 0)
        v = v[:3] + (m.new(v[1]),) + v[4:]
        do, qo = m.new(v[1]), m.dl(m.new(v[1]), ("var", v[3]))
        m.let(v[3], ("ite", en, ("var", do), ("var", qo)))
        regs.append((v, do))
        decls.append(decl("reg", v) + ";")
    vs += [v for v, _ in regs]
    at = lambda w: [("var",) + v for v in vs if v[1] == w]
    dl = lambda w, x: ("var", m.dl(m.new(w), x))

    def cond(d0=1):
        k = ch.below(3)
        if k == 0: return ch.pick(at(1))
        return Ex(ch, vs).bit(d0)

    def addr():
        if ch.bool(1, 4):
            n = ch.below(D)
            return ("const", n, ab, False, "%d'd%d" % (ab, n))
        return ch.pick(at(ab))

    old = ("var", m.dl(m.new(D * W), MEM))
    slots, curs = [[]], [old]
    if rom:
        vals = [ch.below(1 << W) for _ in range(D)]
        rows = [("const", W, x) for x in reversed(vals)]
        items.append("initial begin %s end" % " ".join("mem[%d] = %d'd%d;" % (i, W, x) for i, x in enumerate(vals)))
        m.let(cell, ("cat", rows))
        c.label("rom")
    else:
        cur = old
        for i in range(ch.wpick([(3, 1), (2, 2)])):
            ce, ae = cond(), addr()
            if W > 1 and ch.bool(1, 4):
                lo = ch.below(W); hi = ch.rng_int(lo, W - 1)
                part, n = "[%d:%d]" % (hi, lo), hi - lo + 1
                c.label("part")
            else: part, n, lo = "", W, 0
            de = ("var",) + d if ch.bool() and n == W else Ex(ch, vs).sized(2)
            w = dl(n, rhs(de, n))
            A = dl(ab, self_(ae))
            if part:
                row = m.let(m.new(W), ("mread", cur, A, info))
                w = ("cat", [("slice", list(range(W - 1, lo + n - 1, -1)), ("var", row))] * (lo + n < W) + [w]
                     + [("slice", list(range(lo - 1, -1, -1)), ("var", row))] * (lo > 0))
            new = ("mwrite", cur, A, w, info)
            t = "mem[%s]%s %s %s;" % (text(ae), part, eq, text(de))
            if ch.bool(5, 6):
                t = "if (%s) %s" % (text(ce), t)
                new = ("ite", dl(1, redor(self_(ce), size(ce))), new, cur)
            cur = ("var", m.let(m.new(D * W), new))
            slots.append([t])
            curs.append(cur)
            c.label("writes%d" % i)
        m.let(cell, ("ite", en, cur, old))
    outs = []
    for i in range(ch.rng_int(1, 2)):
        n = "yz"[i]
        o = (n, W, False, named(m, n, W, 0), 0)
        outs.append(o)
        ae = addr()
        k = ch.wpick([(3, "async"), (3, "sync"), (1, "expr")])
        c.label(k)
        if k == "sync":
            t = "%s <= mem[%s];" % (n, text(ae))
            at_ = ch.below(len(slots))
            r = ("mread", MEM if rom else curs[at_] if blk else old, dl(ab, self_(ae)), info)
            qo = m.dl(m.new(W), ("var", o[3]))
            if ch.bool():
                ce = cond()
                t = "if (%s) %s" % (text(ce), t)
                r = ("ite", dl(1, redor(self_(ce), size(ce))), r, ("var", qo))
                c.label("rden")
            slots[at_].append(t)
            m.let(o[3], ("ite", en, r, ("var", qo)))
            M.regs = (M.regs or set()) | {n}
        else:
            r = ("mread", MEM, self_(ae), info)
            if k == "async":
                m.let(o[3], r)
                items.append("assign %s = mem[%s];" % (n, text(ae)))
            else:
                x = m.let(m.new(W), r)
                v = ("r%d" % i, W, False, x, 0)
                items.append("wire [%d:0] r%d; assign r%d = mem[%s];" % (W - 1, i, i, text(ae)))
                ex = Ex(ch, [v, v] + ins).sized(2)
                m.let(o[3], rhs(ex, W))
                items.append("assign %s = %s;" % (n, text(ex)))
    body = [t for l in slots for t in l]
    for v, do in regs:
        t, q = M.hold(v, vs, 1)
        m.dl(do, q)
        body.append(t)
    if body: items.append("always @(%s clk) begin %s end" % ("negedge" if fall else "posedge", " ".join(body)))
    M.items = decls + items
    m.inps = [(s[0], s[1]) for s in [clk] + ins]
    emit(ch, c, M, [clk] + ins, outs)
    return H01.finish(ch, c, m, m.inps, [(o[0], o[1]) for o in outs], "of a Verilog memory", T=12, clks=("clk",), seq=True)


GROUPS = [
    Group("comb", g_comb, 200, 12000, batch=25),
    Group("seq", g_seq, 200, 12000, batch=25),
    Group("mem", g_mem, 120, 6000, batch=15),
]
