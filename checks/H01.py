from vlib.engine import Case, Group, ERR
from vlib import bdd, ckt
from checks import S01

ID = "H01"
PARTS = ("functor", "generics")
RULE = ("A case is a random HFL design (typed expressions, cells with inputs/outputs/internals, instantiated sub-cells, case "
        "statements, flip-flops, latches, state machines, coders, memories) or a random word-level expression assigned with or "
        "without splitting; it is compiled with the library's own functions, simulated, and the outputs are compared at every time "
        "and under all assignments with a reference simulation of the design's meaning.  Non-trivial: some output takes at least two "
        "different non-constant values (three values over time for sequential designs).")
TY = {"bit": (1, "b"), "u2": (2, "u"), "u3": (3, "u"), "u4": (4, "u"), "u8": (8, "u"), "s2": (2, "s"), "s3": (3, "s"), "s4": (4, "s"),
      "col": (2, "e"), "pr": (6, "r")}
ENUM = ["crd", "cgn", "cbl"]
FLD = [("xa", "u2", 4), ("xb", "s3", 1), ("xc", "bit", 0)]         # name, type, lowest index
PREAMBLE = r'''load "ste.fl";
''' + S01.PREAMBLE + "".join('%s "%s" %d;\n' % ("UNSIGNED" if k == "u" else "SIGNED", n, w) for n, (w, k) in TY.items() if k in "us") + r'''
ENUM "col" ["crd","cgn","cbl"];
STRUCT "pr" [("xa","u2"),("xb","s3"),("xc","bit")];
let vf_top ins outs p = PINST "vtop" [] F (map (\n. (n,[n])) ins) (map (\n. (n,[n])) (outs@["vkeep"])) []
    (P_HIER [p, PINST "keep" [] T (map (\n. (n,[n])) ins) [("vkeep",["vkeep"])] []
    (P_LEAF [W_UPDATE_FN (W_VAR 1 "vkeep") (W_EQ (W_CAT (map (\n. W_EXPLICIT_VAR (md_size n) n) ins))
    (W_CONST (itlist (\n.\r. (md_size n) + r) ins 0) 0))])]);
'''
STY = ["bit", "bit", "u2", "u3", "u4", "s2", "s3", "s4", "col", "pr"]


class E:
    """typed expressions: (HFL text, ast)"""
    def __init__(self, ch, scope):
        self.ch, self.sc = ch, scope       # scope: name -> (type, bits)

    def const(self, t):
        ch = self.ch
        w, k = TY[t]
        v = ch.below(1 << w)
        if k == "e" and ch.bool(3, 4):
            v = ch.below(3)
            return "{%s::col}" % ENUM[v], ("const", 2, v)
        if k == "s" and ch.bool(1, 3):
            v = ch.rng_int(1, 1 << (w - 1))
            return "{'-%d::%s}" % (v, t), ("const", w, -v % (1 << w))
        return "{'%s::%s}" % (ch.pick(["%d" % v, "%d" % v, "0x%x" % v, "0b" + format(v, "b")]), t), ("const", w, v)

    def var(self, t):
        c = [n for n, (tt, _) in self.sc.items() if tt == t]
        if not c:
            return None
        n = self.ch.pick(sorted(c))
        return n, ("var", self.sc[n][1])

    def anyvar(self):
        n = self.ch.pick(sorted(self.sc))
        return self.sc[n][0], n, ("var", self.sc[n][1])

    def leaf(self, t):
        v = self.var(t)
        if v and not self.ch.bool(1, 8):
            return v
        if self.sc and self.ch.bool(1, 2):
            tt, n, e = self.anyvar()
            a, w = TY[tt][0], TY[t][0]
            if a >= w:
                lo = self.ch.rng_int(0, a - w)
                hi = lo + w - 1
                il = list(range(hi, lo - 1, -1))
                if w == 1:
                    return "(%s~~%d)" % (n, lo), ("slice", il, e)
                return "{(%s~~~(%d--%d))::%s}" % (n, hi, lo, t), ("slice", il, e)
            k = self.ch.pick(["zx", "sx"])
            return "{(%s %s)::%s}" % (k.upper(), n, t), (k, w, e)
        return self.const(t)

    def gt(self, a, b, t):
        w, k = TY[t]
        if k == "s":
            inv = lambda x: ("cat", [("not", ("slice", [w - 1], x)), ("slice", list(range(w - 2, -1, -1)), x)]) if w > 1 else ("not", x)
            return ("GR", inv(a), inv(b))
        return ("GR", a, b)

    def expr(self, t, d):
        ch = self.ch
        w, k = TY[t]
        if d <= 0 or not ch.bool(6, 7):
            return self.leaf(t)
        sub = lambda u=t: self.expr(u, d - 1)
        kinds = [(2, "logic"), (1, "not"), (3, "ite")]
        if k in "us":
            kinds += [(3, "add"), (1, "mul"), (2, "ext")]
        if k == "u":
            kinds += [(1, "div"), (2, "sh")]
        if k == "b":
            kinds += [(3, "rel"), (2, "eq"), (1, "isenum"), (1, "field"), (1, "nary"), (2, "idx")]
        else:
            kinds += [(1, "range"), (1, "cat"), (1, "frombits")]
        if k == "r":
            kinds += [(3, "mk"), (2, "upd")]
        if t in ("u2", "s3"):
            kinds += [(2, "field")]
        o = ch.wpick(kinds)
        if o == "logic":
            op = ch.pick("&|^")
            (a, x), (b, y) = sub(), sub()
            return "(%s '%s' %s)" % (a, op, b), ({"&": "AND", "|": "OR"}[op], x, y) if op != "^" else ("OR", ("AND", ("not", x), y), ("AND", x, ("not", y)))
        if o == "not":
            a, x = sub()
            return "('~' %s)" % a, ("not", x)
        if o == "ite":
            (c, z), (a, x), (b, y) = sub("bit"), sub(), sub()
            if ch.bool(1, 4):
                return "((%s) '?' (%s) ':' (%s))" % (c, a, b), ("ite", z, x, y)
            return "(IF %s THEN %s ELSE %s)" % (c, a, b), ("ite", z, x, y)
        if o == "add":
            op = ch.pick("+-")
            (a, x), (b, y) = sub(), sub()
            return "(%s '%s' %s)" % (a, op, b), ("ADD" if op == "+" else "SUB", x, y)
        if o == "mul":
            (a, x), (b, y) = sub(), sub()
            return "(%s '*' %s)" % (a, b), ("MUL", x, y)
        if o == "div":
            op = ch.pick("/%")
            (a, x), (b, y) = sub(), sub()
            return "(%s '%s' %s)" % (a, op, b), ("DIV" if op == "/" else "MOD", x, y)
        if o == "sh":
            op = ch.pick(["<<", ">>", "|>>"])
            (a, x), (b, y) = sub(), sub()
            return "(%s '%s' %s)" % (a, op, b), ({"<<": "SHL", ">>": "SHR", "|>>": "ASHR"}[op], x, y)
        if o == "ext":
            tt = ch.pick([q for q in STY if TY[q][0] <= w])
            a, x = sub(tt)
            e = ch.pick(["zx", "sx"])
            return "{(%s %s)::%s}" % (e.upper(), a, t), (e, w, x)
        if o in ("rel", "eq"):
            tt = ch.pick([q for q in STY if o == "eq" or TY[q][1] in "us"])
            (a, x), (b, y) = sub(tt), sub(tt)
            if o == "eq":
                op = ch.pick(["=", "!="])
                e = ("EQ", x, y)
                return "(%s '%s' %s)" % (a, op, b), e if op == "=" else ("not", e)
            op = ch.pick(["<", ">", "<=", ">="])
            e = {"<": self.gt(y, x, tt), ">": self.gt(x, y, tt), ">=": ("not", self.gt(y, x, tt)), "<=": ("not", self.gt(x, y, tt))}[op]
            return "(%s '%s' %s)" % (a, op, b), e
        if o == "isenum":
            a, x = sub("col")
            v = ch.below(3)
            return "(is_%s %s)" % (ENUM[v], a), ("EQ", x, ("const", 2, v))
        if o == "field":
            fl = [f for f in FLD if f[1] == t]
            f, ft, lo = fl[0]
            a, x = sub("pr")
            e = ("slice", list(range(lo + w - 1, lo - 1, -1)), x)
            return ("(%s %s)" % (f, a) if ch.bool() else "((%s)-->%s)" % (a, f)), e
        if o == "nary":
            op = ch.pick(["OR", "AND", "XOR"])
            l = [sub() for _ in range(ch.rng_int(1, 4))]
            e = l[0][1]
            for _, y in l[1:]:
                e = (op, e, y) if op != "XOR" else ("OR", ("AND", ("not", e), y), ("AND", e, ("not", y)))
            return "(%s_n [%s])" % (op, ",".join(x for x, _ in l)), e
        if o == "idx":
            tt = ch.pick([q for q in STY if q != "bit"])
            a, x = sub(tt)
            i = ch.below(TY[tt][0])
            if ch.bool(1, 4):
                return "(el %d (tobits %s))" % (TY[tt][0] - i, a), ("slice", [i], x)
            return "((%s)~~%d)" % (a, i), ("slice", [i], x)
        if o == "range":
            tt = ch.pick([q for q in TY if TY[q][0] >= w])
            a, x = sub(tt)
            n = TY[tt][0]
            lo = ch.rng_int(0, n - w)
            hi = lo + w - 1
            return "{((%s)~~~(%d--%d))::%s}" % (a, hi, lo, t), ("slice", list(range(hi, lo - 1, -1)), x)
        if o == "cat":
            sp = [(p, q) for p in STY for q in STY if TY[p][0] + TY[q][0] == w]
            p, q = ch.pick(sp)
            (a, x), (b, y) = sub(p), sub(q)
            return "{(%s ++ %s)::%s}" % (a, b, t), ("cat", [x, y])
        if o == "frombits":
            l = [sub("bit") for _ in range(w)]
            return "{(frombits [%s])::%s}" % (",".join(a for a, _ in l), t), ("cat", [x for _, x in l])
        if o == "mk":
            l = [sub(ft) for _, ft, _ in FLD]
            return "(mk_pr %s)" % " ".join(a for a, _ in l), ("cat", [x for _, x in l])
        if o == "upd":
            f, ft, lo = ch.pick(FLD)
            (a, x), (b, y) = sub(), sub(ft)
            return "((%s) <-- %s?%s)" % (a, f, b), ("upd", x, list(range(lo + TY[ft][0] - 1, lo - 1, -1)), y)
        raise AssertionError(o)


class Model:
    """what Sim needs"""
    def __init__(self):
        self.inps, self.outs, self.lats, self.combs, self.comb, self.delay, self.nodes = [], [], [], [], [], [], []
        self.cnt = 0

    def new(self, w, stem="$t"):
        self.cnt += 1
        b = ckt.bits("%s%d" % (stem, self.cnt), w)
        self.nodes += b
        return b

    def let(self, bs, e):
        self.comb.append((bs, e))
        return bs

    def dl(self, bs, e):
        self.delay.append((bs, e))
        return bs

    def sig(self, name, t):
        b = ckt.bits(name, TY[t][0])
        self.nodes += b
        return b


def edge(m, clk, falling=False):
    """bits of the rising-edge condition"""
    if falling:
        clk = m.let(m.new(1), ("not", ("var", clk)))
    old = m.dl(m.new(1), ("var", clk))
    return m.let(m.new(1), ("AND", ("not", ("var", old)), ("var", clk)))


def ff(m, clk, d, q, falling=False):
    """d: ast evaluated anywhere (only used delayed)"""
    w = len(q)
    en = edge(m, clk, falling)
    do = m.dl(m.new(w), d)
    qo = m.dl(m.new(w), ("var", q))
    m.let(q, ("ite", ("var", en), ("var", do), ("var", qo)))


def sim_nodes(c, ch, m, r, names, note, seq):
    w = r.w
    r.t0, r.t1 = min(a[3] for a in r.ants), max(a[4] for a in r.ants) + 1
    r.verdicts(r.t1)
    ok, seen = False, set()
    ts = list(range(r.t0, r.T))
    pess = ckt.Sim(m, w.mask, r.ants, (), False, ckt.Coarse)
    pess.run(r.t0, r.t1)
    full = lambda f: w.tv(f)

    def rails(x):
        h, l = x.split(":")
        up = lambda q: q * (1 << w.n) if q in ("0", "1") else q
        return up(h), up(l)
    for b in names:
        exp = [r.final.hist[t - r.t0][b] for t in ts]
        pes = [pess.hist[t - r.t0][b] for t in ts]
        ee = [(full(e[0]), full(e[1]), full(p[0]), full(p[1])) for e, p in zip(exp, pes)]

        def judge(got, ee=ee):
            l = got.split()
            if len(l) != len(ee):
                return False
            for g, (eh, el, ph, pl) in zip(l, ee):
                gh, gl = rails(g)
                if len(gh) != len(eh) or len(gl) != len(el):
                    return False
                for a, b, c, d, e, f in zip(gh, gl, eh, el, ph, pl):
                    if a == b == "0":
                        return False
                    if e != f and (a, b) != (c, d):
                        return False            # settled whatever the precision
                    if a != b and c != d and a != c:
                        return False
            return True
        c.ask('vf_nd vs s "%s" [%s]' % (b, ",".join(map(str, ts))), judge,
              note="values of output %s %s; expected %s (X: any)" % (b, note, "".join(S01.fv(w, v) for v in exp)[:600]))
        d = set(v for v in exp if not v[0] & v[1])
        nc = [v for v in d if v[0] not in (0, w.mask)]
        seen |= set(nc)
        if seq and len(d) >= 3 and nc:
            ok = True
    return ok if seq else len(seen) >= 2


class Inp(S01.Run):
    """inputs get Boolean values at all times"""
    def __init__(self, ch, c, m, T, nv=(3, 4), clks=()):
        self.ch, self.c, self.k, self.T, self.be = ch, c, m, T, False
        self.w = w = bdd.World(["v", "w", "a1", "u_x"][:ch.rng_int(*nv)])
        c.st('VARS "%s";' % " ".join(w.names))
        self.ants, self.ta, self.weaks, self.tw, self.cs = [], [], [], [], []
        for n, k in m.inps:
            for b in ckt.bits(n, k):
                t = 0
                cur = ch.bool()
                while t < T:
                    e = T if T == 1 else t + ch.rng_int(1, 3)
                    if n in clks:
                        vt, vf = ("T", w.mask) if cur else ("F", 0)
                        cur = not cur
                        e = t + ch.wpick([(4, 1), (1, 2)])
                    else:
                        vt, vf = S01.func(ch, w)
                        if ch.bool():
                            i = ch.below(w.n)
                            vt, vf = '(variable "%s")' % w.names[i], w.v[i]
                    e = min(e, T)
                    self.ants.append((w.mask, b, vf, t, e))
                    self.ta.append('(T,"%s",%s,%d,%d)' % (b, vt, t, e))
                    t = e
        self.sim = ckt.Sim(m, w.mask, self.ants, (), True)


def finish(ch, c, m, ins, outs, note, T=1, clks=(), seq=False):
    """ins/outs: [(name, width)]; fl variable p holds the pexlif"""
    r = Inp(ch, c, m, T, clks=clks)
    c.st("let vs = %s;" % r.w.vars_fl())
    q = lambda l: "[%s]" % ",".join('"%s"' % ckt.vname(*x) for x in l)
    c.st("let ckt = pexlif2fsm (vf_top %s %s p);" % (q(ins), q(outs)))
    c.st('let s = STE "-e -s" ckt [] [%s] [] [];' % ",".join(r.ta))
    names = [b for n, w in outs for b in ckt.bits(n, w)]
    c.nontrivial = sim_nodes(c, ch, m, r, ch.perm(names)[:10], note, seq)
    return c


def g_assign(ch):
    """random wexprs through base_assignment / base_phase_delay"""
    c = Case()
    m = Model()
    sc = ckt.Scope()
    g = ckt.Gen(ch, maxw=4, heavy=True, mem=ch.bool(1, 4), consts=ch.bool(1, 4))
    m.inps = [(n, ch.rng_int(1, 4)) for n in ["a", "b", "d"][:ch.rng_int(1, 3)]]
    for n, w in m.inps:
        sc.sig[n] = ckt.bits(n, w)
        m.nodes += sc.sig[n]
    w = ch.rng_int(1, 4)
    o = ckt.bits("o", w)
    m.nodes += o
    # X-free
    for _ in range(20):
        t, e = g.expr(sc, w, ch.rng_int(1, 4))
        if "W_X" not in t and "W_PRED" not in t and "W_IDELAY" not in t:
            break
    else:
        t, e = g.leaf(sc, w)
    m.comb.append((o, e))
    sp = ch.bool(3, 4)
    c.st('let p = base_assignment %s (W_VAR %d "o") (%s);' % ("T" if sp else "F", w, t))
    c.label("split" if sp else "whole")
    return finish(ch, c, m, m.inps, [("o", w)], "of an assignment")


def body_stmts(ch, m, sc, outs, depth):
    """statements driving outs [(name, type)] plus some internals, in order; -> (texts, internals)"""
    texts, ints = [], []
    n = 0
    todo = list(outs)
    for _ in range(ch.below(3)):
        t = ch.pick(STY)
        todo.insert(ch.below(len(todo) + 1), ("t%d" % n, t))
        ints.append(("t%d" % n, t))
        n += 1
    for name, t in todo:
        texts += drive(ch, m, sc, name, t, depth)
        sc[name] = (t, m_bits(m, sc, name, t))
    return texts, ints


def m_bits(m, sc, name, t):
    return m.loc.get(name) or m.loc.setdefault(name, m.new(TY[t][0], "$" + name + "_"))


def lit(ch, sc, name, bs):
    return


def drive(ch, m, sc, name, t, depth):
    """HFL statements that drive `name` of type t"""
    w, k = TY[t]
    g = E(ch, sc)
    bs = m_bits(m, sc, name, t)
    kinds = [(6, "asg"), (2, "case"), (1, "mux"), (2, "sub")]
    if k == "r":
        kinds += [(3, "fields")]
    if w > 1:
        kinds += [(1, "bits")]
    if k == "b":
        kinds += [(1, "stable0")]
    else:
        kinds += [(1, "mutex")]
        if w <= 6:
            kinds += [(1, "sel")]
    if w in (4, 8):
        kinds += [(2, "dec")]
    if t in ("u2",):
        kinds += [(2, "enc")]
    if t in ("u4", "s4"):
        kinds += [(1, "insert")]
    o = ch.wpick(kinds)
    m.lab.add(o)
    if o == "asg":
        a, x = g.expr(t, depth)
        m.let(bs, x)
        return ["%s %s %s" % (name, ch.pick(["<-", "<-", "<-", "<<--"]), a)]
    if o == "case" or o == "mutex":
        n = ch.rng_int(1, 4)
        l = [(g.expr("bit", depth - 1), g.expr(t, depth - 1)) for _ in range(n)]
        if o == "case":
            a, x = g.expr(t, depth - 1)
            for (_, z), (_, y) in reversed(l):
                x = ("ite", z, y, x)
            m.let(bs, x)
            return ["CASE %s [%s] (%s)" % (name, ",".join("(%s,%s)" % (p[0], q[0]) for p, q in l), a)]
        x = ("const", w, 0)
        for (_, z), (_, y) in reversed(l):
            x = ("OR", ("AND", ("sx", w, z), y), x)
        m.let(bs, x)
        return ["MUTEX_CASE %s [%s]" % (name, ",".join("(%s,%s)" % (p[0], q[0]) for p, q in l))]
    if o == "mux":
        (c, z), (a, x), (b, y) = g.expr("bit", depth - 1), g.expr(t, depth - 1), g.expr(t, depth - 1)
        m.let(bs, ("ite", z, x, y))
        return ["MUX (%s) (%s) (%s) %s" % (c, a, b, name)]
    if o == "fields":
        out = []
        es = []
        for f, ft, lo in FLD:
            a, x = g.expr(ft, depth - 1)
            es.append(x)
            out.append("%s <- %s" % ("(%s %s)" % (f, name) if ch.bool() else "(%s-->%s)" % (name, f), a))
        m.let(bs, ("cat", es))
        return ch.perm(out)
    if o == "bits":
        es, out = [], []
        for i in reversed(range(w)):
            a, x = g.expr("bit", depth - 2)
            es.append(x)
            out.append("(%s~~%d) <- %s" % (name, i, a))
        m.let(bs, ("cat", es))
        return ch.perm(out)
    if o == "stable0":
        a, x = g.expr(ch.pick(STY), depth - 1)
        m.let(bs, ("const", 1, 1))
        return ["is_stable 0 (%s) %s" % (a, name)]
    if o == "dec":
        it = {4: ["u2", "s2", "col"], 8: ["u3", "s3"]}[w]
        a, x = g.expr(ch.pick(it), depth - 1)
        iw = w.bit_length() - 1
        e = ("cat", [("EQ", x, ("const", iw, i)) for i in reversed(range(w))])
        if ch.bool():
            m.let(bs, e)
            if k == "u" and ch.bool():
                return ["DECODER_list (%s) [%s]" % (a, ",".join("%s~~%d" % (name, i) for i in reversed(range(w))))]
            return ["DECODER (%s) %s" % (a, name)]
        b, y = g.expr("bit", depth - 1)
        m.let(bs, ("AND", ("sx", w, y), e))
        return ["EN_DECODER (%s) (%s) %s" % (b, a, name)]
    if o == "enc":
        it = ch.pick(["u3", "u4", "s4", "s3", "u4"])
        iw = TY[it][0]
        a, x = g.expr(it, depth - 1)
        if ch.bool(1, 3):
            x = ("not", x)
            a = "('~' %s)" % a
        e = ("const", 2, 0)
        for i in reversed(range(iw)):
            e = ("ite", ("slice", [i], x), ("const", 2, i), e)
        v = m.let(m.new(1, "$v"), ("not", ("EQ", x, ("const", iw, 0))))
        # the address is only specified when some bit is set
        m.let(bs, ("ite", ("var", v), e, ("var", m.free2())))
        m.ncell += 1
        f = "vfc%d" % m.ncell
        m.defs.append(cell(ch, f, [("x", it)], [("r", "u2")], [("vld", "bit"), ("adr", "u2")],
                           ["ENCODER x vld adr", "r <- (IF vld THEN adr ELSE {'X::u2})"]))
        return ["%s (%s) %s" % (f, a, name)]
    if o == "sel":
        opts = [(q, ad) for q in STY for ad in ("bit", "u2", "u3") if TY[q][0] % w == 0 and TY[q][0] // w <= 1 << TY[ad][0]]
        q, ad = ch.pick(opts)
        (a, x), (b, y) = g.expr(q, depth - 1), g.expr(ad, depth - 1)
        aw = TY[ad][0]
        e = ("x", w)
        for i in reversed(range(TY[q][0] // w)):
            e = ("ite", ("EQ", y, ("const", aw, i)), ("slice", list(range((i + 1) * w - 1, i * w - 1, -1)), x), e)
        m.let(bs, e)
        return ["SELECT (%s) (%s) %s" % (a, b, name)]
    if o == "insert":
        vt = ch.pick(["bit", "u2", "s2", "u4"])
        vw = TY[vt][0]
        ad = ch.pick(["u2", "u3"])
        (a, x), (b, y), (d, z) = g.expr(t, depth - 1), g.expr(vt, depth - 1), g.expr(ad, depth - 1)
        e = ("cat", [("ite", ("EQ", z, ("const", TY[ad][0], i)), y, ("slice", list(range((i + 1) * vw - 1, i * vw - 1, -1)), x))
                     for i in reversed(range(w // vw))])
        m.let(bs, e)
        return ["INSERT (%s) (%s) (%s) %s" % (a, b, d, name)]
    if o == "sub":
        # a fresh cell
        m.ncell += 1
        f = "vfc%d" % m.ncell
        fi = [("p%d" % i, ch.pick(STY)) for i in range(ch.rng_int(1, 3))]
        acts = [g.expr(ti, ch.below(2)) for _, ti in fi]
        loc = {}
        for (fn, ti), (_, x) in zip(fi, acts):
            loc[fn] = (ti, m.let(m.new(TY[ti][0]), x))
        sv = m.loc
        m.loc = {"r": bs}
        texts, ints = body_stmts(ch, m, loc, [("r", t)], depth - 1)
        m.loc = sv
        m.defs.append(cell(ch, f, fi, [("r", t)], ints, texts))
        return ["%s %s %s" % (f, " ".join("(%s)" % a for a, _ in acts), name)]
    raise AssertionError(o)


def cell(ch, f, fi, fo, ints, texts):
    def decl(kind, l):
        out = []
        for n, t in l:
            out.append("%s_%s %s. " % (t, kind, n) if ch.bool(3, 4) else "%s {%s::%s}. " % (kind, n, t))
        return "".join(out)
    return 'let %s = %s%s%sCELL "%s" [ %s ];' % (f, decl("input", fi), decl("output", fo), decl("internal", ints), f,
                                                  ", ".join(ch.perm(texts) if ch.bool() else texts))


class M(Model):
    def __init__(self):
        Model.__init__(self)
        self.loc, self.lab, self.defs, self.ncell = {}, set(), [], 0

    def free2(self):
        return self.new(2, "$x")


def g_hfl(ch):
    c = Case()
    m = M()
    sc = {}
    names = ch.perm(["a", "b", "d", "x1", "sel", "req"])
    ins = [(names[i], ch.pick(STY)) for i in range(ch.rng_int(1, 4))]
    for n, t in ins:
        sc[n] = (t, m.sig(n, t))
    outs = [("o%d" % i, ch.pick(STY + ["u8"])) for i in range(ch.rng_int(1, 2))]
    for n, t in outs:
        m.loc[n] = m.sig(n, t)
    m.inps = [(n, TY[t][0]) for n, t in ins]
    texts, ints = body_stmts(ch, m, sc, outs, 3)
    for d in m.defs:
        c.st(d)
    c.st(cell(ch, "vftop", ins, outs, ints, texts))
    c.st("let p = vftop %s;" % " ".join("{'%s::%s}" % x for x in ins + outs))
    for l in m.lab:
        c.label(l)
    return finish(ch, c, m, m.inps, [(n, TY[t][0]) for n, t in outs], "of an HFL cell")



def seq_stmt(ch, m, sc, name, t, comb_sc, early):
    """statement for a state-holding signal; comb_sc: scope with all signals (only for values used one phase later);
    early: scope of what is settled before name"""
    w, k = TY[t]
    bs = m_bits(m, sc, name, t)
    L, N = E(ch, comb_sc), E(ch, early)
    d1 = ch.below(3)
    kinds = ["re_ff", "re_ff_en", "re_ff_reset", "re_ff_sreset", "re_ff_en_reset", "re_ff_en_sreset", "re_ff_en_reset_with_value",
             "re_ff_en_sreset_with_value", "fe_ff", "fe_ff_en", "fe_ff_reset", "fe_ff_en_reset", "ah_latch", "al_latch",
             "STATE", "STATE", "EN_STATE", "EN_STATE", "delay", "rst_delay", "phase_delay", "rst_phase_delay",
             "re_ff_en_mux", "re_ff_en_reset_mux", "re_ff_en_sreset_mux", "buf"]
    if t == "col":
        kinds += ["fsm"] * 6
    if t == "bit":
        kinds += ["re_ff_set", "stable", "stable", "stable"]
    kinds += ["idelay"] * 2
    if k in "us":
        kinds += ["ram"] * 4
    o = ch.pick(kinds)
    m.lab.add(o)
    ck = ch.pick(["clk", "clk", "ck2"])
    CK = comb_sc[ck][1]
    v = lambda b: ("var", b)
    zero = ("const", w, 0)
    if o == "buf":
        (a, x) = L.expr(t, d1)
        m.dl(bs, x)
        return "%s <: %s" % (name, a)
    if o in ("ah_latch", "al_latch"):
        (c, z), (a, x) = N.expr("bit", 1), N.expr(t, d1)
        old = m.dl(m.new(w), v(bs))
        m.let(bs, ("ite", z, x, v(old)) if o == "ah_latch" else ("ite", z, v(old), x))
        return "%s (%s) (%s) %s" % (o, c, a, name)
    if o.startswith("re_ff") or o.startswith("fe_ff"):
        fall = o.startswith("fe")
        mux = o.endswith("_mux")
        oo = o.replace("_mux", "")
        (a, x) = (N if mux else L).expr(t, d1)
        parts = oo[5:].split("_")
        args = [ck]
        q = m.new(w) if mux or "reset" in parts or "set" in parts else bs
        val, vt = zero, None
        if "value" in parts:
            vt, val = L.const(t)
        if "en" in parts:
            (e, y) = (N if mux else L).expr("bit", ch.below(2))
            args.append("(%s)" % e)
            # the held value is the output
        rst = None
        if "reset" in parts or "sreset" in parts or "set" in parts:
            (r, z) = (N if "sreset" not in parts or mux else L).expr("bit", ch.below(2))
            rst = z
            args.append("(%s)" % r)
        out = bs if not mux else m.new(w)
        if not mux and q is bs:
            out = bs
        d = x
        if "en" in parts:
            d = ("ite", y, x, v(out))
        if rst is not None:
            d = ("ite", rst, ("const", w, 1) if "set" in parts else val, d)
        if "reset" in parts or "set" in parts:
            cur = m.new(w)
            ff(m, CK, d, cur, fall)
            m.let(out, ("ite", rst, ("const", w, 1) if "set" in parts else val, v(cur)))
        else:
            ff(m, CK, d, out, fall)
        if mux:
            m.let(bs, ("ite", ("AND", y, ("not", rst)) if rst is not None else y, x, v(out)))
        return "%s %s%s (%s) %s" % (o, (vt + " ") if vt else "", " ".join(args), a, name)
    if o in ("STATE", "EN_STATE"):
        n = ch.rng_int(1, 3)
        l = [(L.expr("bit", 1), L.expr(t, d1)) for _ in range(n)]
        x = v(bs)
        for (_, z), (_, y) in reversed(l):
            x = ("ite", z, y, x)
        body = "[%s]" % ",".join("(%s,%s)" % (p[0], q[0]) for p, q in l)
        if o == "STATE":
            ff(m, CK, x, bs)
            return "STATE %s %s %s" % (ck, name, body)
        e, y = L.expr("bit", 1)
        ff(m, CK, ("ite", y, x, v(bs)), bs)
        return "EN_STATE %s (%s) %s %s" % (ck, "IF %s THEN {'1::bit} ELSE {'0::bit}" % e if False else e, name, body)
    if o == "fsm":
        r = ch.pick([n for n, (q, _) in early.items() if q == "bit" and n not in ("clk", "ck2")])
        rb = early[r][1]
        bitv = sorted(n for n, (q, _) in comb_sc.items() if q == "bit" and n not in ("clk", "ck2"))

        def cond():
            n = ch.pick(bitv)
            e = v(comb_sc[n][1])
            if ch.bool(1, 3):
                n2 = ch.pick(bitv)
                e2 = v(comb_sc[n2][1])
                return ("%s '&' %s" % (n, n2), ("AND", e, e2)) if ch.bool() else ("%s '|' ('~' %s)" % (n, n2), ("OR", e, ("not", e2)))
            return (n, e) if ch.bool(2, 3) else ("'~' %s" % n, ("not", e))
        s0 = ch.below(3)
        tr = [(ch.below(3), cond(), ch.below(3)) for _ in range(ch.rng_int(1, 5))]
        x = v(bs)
        for f in range(3):
            y = v(bs)
            for g, (_, z), to in reversed(tr):
                if g == f:
                    y = ("ite", z, ("const", 2, to), y)
            x = ("ite", ("EQ", v(bs), ("const", 2, f)), y, x) if any(g == f for g, _, _ in tr) else x
        x = ("ite", v(rb), ("const", 2, s0), x)
        cur = m.new(2)
        ff(m, CK, x, cur)
        m.let(bs, ("ite", v(rb), ("const", 2, s0), v(cur)))
        return 'Moore_FSM "m%s" %s %s (%s, {%s::col}) [%s]' % (name, ck, name, r, ENUM[s0], ", ".join(
            "({%s::col} --- (%s) --- {%s::col})" % (ENUM[f], c, ENUM[to]) for f, (c, _), to in tr))
    if o in ("delay", "rst_delay"):
        n = ch.rng_int(1, 3)
        a, x = L.expr(t, d1)
        r = None
        if o == "rst_delay":
            rt, r = N.expr("bit", ch.below(2))
        for i in range(n):
            q = bs if i == n - 1 else m.new(w)
            if r is None:
                ff(m, CK, x, q)
            else:
                cur = m.new(w)
                ff(m, CK, ("ite", r, zero, x), cur)
                m.let(q, ("ite", r, zero, v(cur)))
            x = v(q)
        return "%s %d %s %s(%s) %s" % (o, n, ck, "(%s) " % rt if r is not None else "", a, name)
    if o in ("phase_delay", "rst_phase_delay"):
        n = ch.rng_int(1, 3)
        a, x = L.expr(t, d1)
        r = None
        if o == "rst_phase_delay":
            rt, r = L.expr("bit", ch.below(2))
        for i in range(n):
            q = bs if i == n - 1 else m.new(w)
            m.dl(q, x if r is None else ("ite", r, zero, x))
            x = v(q)
        return "%s %d %s(%s) %s" % (o, n, "(%s) " % rt if r is not None else "", a, name)
    if o == "stable":
        n = ch.rng_int(1, 4)
        u = ch.pick(STY)
        a, x = N.expr(u, d1)
        old = m.dl(m.new(TY[u][0]), x)
        same = m.let(m.new(1), ("EQ", v(old), x))
        e, cur = v(same), same
        for _ in range(n - 1):
            cur = m.dl(m.new(1), v(cur))
            e = ("AND", v(cur), e)
        m.let(bs, e)
        return "is_stable %d (%s) %s" % (n, a, name)
    if o == "idelay":
        mr = ch.rng_int(1, 2); Mr = ch.rng_int(mr, 3)
        mf = ch.rng_int(1, 2); Mf = ch.rng_int(mf, 3)
        a, x = L.expr(t, d1)
        ds = []
        for _ in range(max(Mr, Mf)):
            q = m.dl(m.new(w), x)
            ds.append(v(q))
            x = v(q)
        old = m.dl(m.new(w), v(bs))
        m.let(bs, ("idelay", (mr, Mr), (mf, Mf), v(old), ds))
        return "idelay %d %d %d %d (%s) %s" % (mr, Mr, mf, Mf, a, name)
    if o == "ram":
        bitv = sorted(n for n, (q, _) in comb_sc.items() if q == "bit")
        at = ch.pick(["u2", "u3"])
        aw = TY[at][0]
        lines = ch.rng_int(1, 4)
        ra, wa, di, we = (comb_sc["ra" + at], comb_sc["wa" + at], comb_sc[ch.pick(sorted(n for n, (q, _) in comb_sc.items() if q == t))], None)
        din = [n for n, z in comb_sc.items() if z is di][0]
        wen = ch.pick(bitv)
        mem = [m.new(w) for _ in range(lines)]
        e = ("x", w)
        for i in range(lines):
            e = ("ite", ("EQ", v(ra[1]), ("const", aw, i)), v(mem[i]), e)
            m.dl(mem[i], ("ite", v(comb_sc[wen][1]), ("ite", ("EQ", v(wa[1]), ("const", aw, i)), v(di[1]), v(mem[i])), v(mem[i])))
        m.let(bs, e)
        m.cntram = getattr(m, "cntram", 0) + 1
        return 'RAM "mem%d" %d ra%s wa%s %s %s %s' % (m.cntram, lines, at, at, din, wen, name)
    raise AssertionError(o)


def g_seq(ch):
    c = Case()
    m = M()
    ins = [("clk", "bit"), ("ck2", "bit"), ("rst", "bit"), ("en", "bit"), ("rau2", "u2"), ("wau2", "u2"), ("rau3", "u3"), ("wau3", "u3")]
    ins += [("i%d" % i, ch.pick(STY)) for i in range(ch.rng_int(1, 3))]
    sc = {}
    for n, t in ins:
        sc[n] = (t, m.sig(n, t))
    m.inps = [(n, TY[t][0]) for n, t in ins]
    sts = [("q%d" % i, ch.pick(["bit", "u2", "u3", "u4", "s3", "col", "col", "pr"])) for i in range(ch.rng_int(1, 3))]
    for n, t in sts:
        m.loc[n] = m.sig(n, t)
    allsc = dict(sc)
    for n, t in sts:
        allsc[n] = (t, m.loc[n])
    texts = []
    early = dict(sc)
    for n, t in sts:
        texts.append(seq_stmt(ch, m, sc, n, t, allsc, early))
        early[n] = allsc[n]
    outs = list(sts)
    if ch.bool():
        t = ch.pick(STY)
        m.loc["o"] = m.sig("o", t)
        a, x = E(ch, allsc).expr(t, 2)
        m.let(m.loc["o"], x)
        texts.append("o <- %s" % a)
        outs.append(("o", t))
    for d in m.defs:
        c.st(d)
    c.st(cell(ch, "vftop", ins, outs, [], texts))
    c.st("let p = vftop %s;" % " ".join("{'%s::%s}" % x for x in ins + outs))
    for l in m.lab:
        c.label(l)
    return finish(ch, c, m, m.inps, [(n, TY[t][0]) for n, t in outs], "of a sequential HFL cell", T=12, clks=("clk", "ck2"), seq=True)


GROUPS = [
    Group("assign", g_assign, 300, 12000, batch=50),
    Group("hfl", g_hfl, 300, 12000, batch=50),
    Group("seq", g_seq, 240, 8000, batch=40),
]
