from vlib.engine import Case, Group, ERR
from vlib import bdd, ckt

ID = "S01"
RULE = ("A case is a random hierarchical circuit (inputs, delays, word-level operators), an antecedent over 0-5 time units with "
        "symbolic values and conditions, weakenings, and a consequent; the simulated value of sampled nodes at every time and every "
        "reported verdict are compared, under all assignments, with a reference dual-rail simulator.  Non-trivial: some sampled "
        "node takes at least three different values over time and one of them is neither X nor a constant.")
PREAMBLE = bdd.PRE + r'''
let vf_c vars f = f == T => "1" | f == F => "0" | vf_tv vars f;
let vf_nd vars s n ts = implode (map (\t. val (h,l) = get_trace_val s n t in (vf_c vars h)^":"^(vf_c vars l)^" ") ts);
let vf_bnd vars s n ts = implode (map (\t. val (h,l) = bget_trace_val s n t in (vf_c vars (prim_bexpr2bdd h))^":"^(vf_c vars (prim_bexpr2bdd l))^" ") ts);
let vf_tr vars l = implode (map (\p. val (t,h,l) = p in (int2str t)^"="^(vf_c vars h)^":"^(vf_c vars l)^" ") l);
'''


def func(ch, w, be=False):
    """random function: (fl text, truth vector)"""
    b = "b" if be else ""
    var = ("bvariable" if be else "variable")
    k = ch.wpick([(3, "lit"), (3, "const"), (2, "and"), (1, "xor")])
    if k == "const" or w.n == 0:
        v = ch.bool()
        return b + ("T" if v else "F"), w.mask if v else 0
    i = ch.below(w.n)
    t, f = '%s "%s"' % (var, w.names[i]), w.v[i]
    if k == "lit":
        return ("(%sNOT (%s))" % (b, t), w.mask ^ f) if ch.bool(1, 3) else ("(%s)" % t, f)
    j = ch.below(w.n)
    u, g = '%s "%s"' % (var, w.names[j]), w.v[j]
    if k == "and":
        if ch.bool():
            return "((%s) %sAND (%sNOT (%s)))" % (t, b, b, u), f & (w.mask ^ g)
        return "((%s) %sOR (%s))" % (t, b, u), f | g
    return "((%s) %sXOR (%s))" % (t, b, u), f ^ g


def fc(w, f):
    return "1" if f == w.mask else "0" if f == 0 else w.tv(f)


def fv(w, v):
    return fc(w, v[0]) + ":" + fc(w, v[1]) + " "


class Run:
    def __init__(self, ch, c, be=False, nv=(1, 4), T=5, weak=True, gen=None, circ=None, acc=True, only_inputs=False):
        self.ch, self.c = ch, c
        names = ["v", "w", "a[1]", "u_x"]
        self.w = w = bdd.World(names[:ch.rng_int(*nv)])
        c.st("VARS \"%s\";" % " ".join(w.names))
        self.k = k = circ or ckt.Circuit(ch, gen or ckt.Gen(ch))
        self.T = T
        ants, ta = [], []
        weaks, tw = [], []
        sigs = [(s, 8) for s in k.inps] + [(s, 3) for s in k.lats] + [(s, 1) for s in k.combs]
        if only_inputs: sigs = sigs[:len(k.inps)]
        self.inp_bits = [b for s in k.inps for b in ckt.bits(*s)]
        for s, p in sigs:
            for b in ckt.bits(*s):
                if not ch.bool(p, 10):
                    continue
                t = ch.wpick([(3, 0), (1, 1), (1, 2)])
                while t < T:
                    e = t + ch.rng_int(1, 3)
                    if ch.bool(4, 5):
                        wt, wf = (func(ch, w, be) if ch.bool(1, 6) else ("bT" if be else "T", w.mask))
                        vt, vf = func(ch, w, be)
                        ants.append((wf, b, vf, t, e))
                        last = (wt, wf, vt, vf)
                        ta.append('(%s,"%s",%s,%d,%d)' % (wt, b, vt, t, e))
                    t = e
                if ch.bool(1, 6):      # overlapping
                    f = ch.below(T)
                    e = f + ch.rng_int(0, 3)
                    wt, wf = func(ch, w, be)
                    if ants and ch.bool():
                        wt, wf, vt, vf = last
                    else:
                        vt, vf = func(ch, w, be)
                    if e > f:
                        ants.append((wf, b, vf, f, e))
                    ta.append('(%s,"%s",%s,%d,%d)' % (wt, b, vt, f, e))
        if weak and ch.bool(1, 3):
            for _ in range(ch.rng_int(1, 3)):
                b = ch.pick(k.nodes)
                f = ch.below(T)
                e = f + ch.rng_int(1, 4)
                wt, wf = func(ch, w, be)
                weaks.append((wf, b, f, e))
                tw.append('(%s,"%s",%d,%d)' % (wt, b, f, e))
        ch_perm = ch.bool(1, 2)
        if ch_perm:
            ta = ch.perm(ta)
        self.ants, self.weaks, self.ta, self.tw = ants, weaks, ta, tw
        self.sim = ckt.Sim(k, w.mask, ants, weaks, acc)
        self.be = be

    def cons(self):
        """consequents, most of which hold"""
        ch, w, m = self.ch, self.w, self.w.mask
        starts = [a[3] for a in self.ants] + [x[2] for x in self.weaks]
        self.t0 = min(starts) if starts else 0
        hist = self.sim.run(self.t0, self.T + 8)
        cs, tc = [], []
        for _ in range(ch.rng_int(0, 5)):
            n = ch.pick(self.k.nodes)
            t = ch.rng_int(self.t0, self.T)
            e = t + ch.wpick([(4, 1), (1, 2), (1, 3)])
            H, L = hist[t - self.t0][n]
            vt, vf = func(ch, w, self.be)
            wt, wf = func(ch, w, self.be)
            k = ch.below(4)
            if k <= 1:
                # the value itself where it is Boolean
                vf, wf = H & (m ^ L), (H ^ L)
                vt, wt = self.fl(vf), self.fl(wf)
            elif k == 2:
                wt, wf = ("bT" if self.be else "T"), m
            cs.append((wf, n, vf, t, e))
            tc.append('(%s,"%s",%s,%d,%d)' % (wt, n, vt, t, e))
        self.cs, self.tc = cs, tc
        ends = [a[4] for a in self.ants] + [x[3] for x in self.weaks] + [x[4] for x in cs]
        st = [a[3] for a in self.ants] + [x[2] for x in self.weaks] + [x[3] for x in cs]
        return st, ends

    def fl(self, f):
        """an fl expression for a truth vector"""
        w, b = self.w, ("b" if self.be else "")
        if f == 0:
            return b + "F"
        if f == w.mask:
            return b + "T"
        var = "bvariable" if self.be else "variable"

        def rec(f, k):
            if f == 0:
                return b + "F"
            if f == w.mask:
                return b + "T"
            h, l = w.cof(f, k, 1), w.cof(f, k, 0)
            if h == l:
                return rec(h, k + 1)
            return '(((%s "%s") %sAND %s) %sOR ((%sNOT (%s "%s")) %sAND %s))' % (var, w.names[k], b, rec(h, k + 1), b, b, var, w.names[k], b, rec(l, k + 1))
        return rec(f, 0)

    def emit(self, opts="-e -s", trl="[]"):
        c = self.c
        c.st("let vs = %s;" % self.w.vars_fl())
        c.st("let ckt = pexlif2fsm (%s);" % self.k.text)
        c.st('let s = %sSTE "%s" ckt [%s] [%s] [%s] %s;' %
             ("b" if self.be else "", opts, ",".join(self.tw), ",".join(self.ta), ",".join(self.tc), trl))

    def verdicts(self, t_end):
        """the reference verdicts, simulating t0..t_end"""
        w, m = self.w, self.w.mask
        sim = ckt.Sim(self.k, m, self.ants, self.weaks, self.sim.acc)
        sim.run(self.t0, t_end)
        check = m
        for wf, n, vf, f, e in self.cs:
            for t in range(f, e):
                H, L = sim.hist[t - self.t0][n]
                check &= (m ^ H) | (m ^ wf) | vf
                check &= (m ^ L) | (m ^ wf) | (m ^ vf)
        self.final = sim
        return {"antOK": m, "consOK": m, "trajOK": sim.trajOK, "checkOK": check,
                "implies": (m ^ sim.trajOK) | check, "strong": sim.trajOK & check, "": sim.trajOK & check}


def concrete(ch, r):
    """a concrete binary run of the circuit that satisfies the antecedent, or None: {(node, t): bit}, assignment"""
    w, k = r.w, r.k
    j = ch.below(w.size)
    D = ckt.Dual(1)
    bit = lambda f: (f >> j) & 1
    anybit = lambda: D.T if ch.bool() else D.F
    one = lambda v: tuple((x >> j) & 1 for x in v)
    lat = {b: anybit() if one(v) == D.X else one(v) for b, v in r.sim.lat0.items()}
    out = []
    for t in range(r.t0, r.T + 8):
        env = {ckt.ZERO: D.F, ckt.ONE: D.T}
        want = {}
        for wf, n, vf, f, e in r.ants:
            if f <= t < e and bit(wf):
                v = D.T if bit(vf) else D.F
                if want.get(n, v) != v:
                    return None
                want[n] = v
        for b in r.sim.free:
            env[b] = want.get(b) or anybit()
        for b, v in lat.items():
            if t == r.t0 and b in want and one(r.sim.lat0[b]) == (1, 1):
                v = want[b]
            env[b] = v
        for bs, e in k.comb:
            for b, v in zip(bs, D.eval(e, {x: env.get(x) for x in env}, True)):
                if v == D.X:
                    v = anybit()
                env[b] = v
        for n, v in want.items():
            if env[n] != v:
                return None
        nxt = {}
        for bs, e in k.delay:
            for b, v in zip(bs, D.eval(e, env, True)):
                nxt[b] = anybit() if v == D.X else v
        lat = nxt
        out.append(env)
    return j, out


def traces(c, r, nodes, be=False):
    w = r.w
    ts = list(range(0, r.t1 + 1))
    ok = False
    for n in nodes:
        exp = [r.final.init[n] if t < r.t0 else r.final.hist[t - r.t0][n] for t in ts]
        c.ask('%s vs s "%s" [%s]' % ("vf_bnd" if be else "vf_nd", n, ",".join(map(str, ts))), "".join(fv(w, v) for v in exp),
              note="values of node %s (H:L at each time)" % n)
        d = set(exp)
        if len(d) >= 3 and any(v[0] not in (0, w.mask) for v in d):
            ok = True
    return ok


def run(ch, be=False, **kw):
    c = Case()
    r = Run(ch, c, be, **kw)
    st, ends = r.cons()
    c.label("ops:" + ",".join(sorted(o for o in r.k.g.ops if o in ckt.BIN or o in ("mread", "mwrite", "idelay"))[:2]))
    if not st:
        r.ants.append((r.w.mask, r.k.nodes[0], 0, 0, 1))
        r.ta.append('(%s,"%s",%s,0,1)' % (("bT", r.k.nodes[0], "bF") if be else ("T", r.k.nodes[0], "F")))
        st, ends = [0], [1]
    r.t0, r.t1 = min(st), max(ends) + 1
    r.emit()
    v = r.verdicts(r.t1)
    nodes = ch.perm(r.k.nodes)[:6]
    c.nontrivial = traces(c, r, nodes, be)
    g = "bget_ste_result" if be else "get_ste_result"
    cv = (lambda x: "prim_bexpr2bdd (%s)" % x) if be else (lambda x: x)
    for t in ["checkOK", "trajOK"] + [ch.pick(["antOK", "consOK", "implies", "strong", ""])]:
        c.ask('vf_c vs (%s)' % cv('%s s "%s"' % (g, t)), fc(r.w, v[t]), note="verdict " + t)
    if not be:
        n = nodes[0]
        c.ask('vf_tr vs (get_trace s "%s")' % n, lambda got, r=r, n=n: tr_ok(got, r, n), note="trace of " + n)
    c.ask("int2str (get_ste_maxtime s)", str(r.t1))
    # concrete runs are covered
    for _ in range(2):
        x = concrete(ch, r) if not r.weaks else None
        if not x:
            continue
        c.label("concrete")
        j, envs = x
        for i, env in enumerate(envs[:r.t1 - r.t0 + 1]):
            for n in r.k.nodes:
                H, L = r.final.hist[i][n]
                b = env[n][0]
                if not ((H if b else L) >> j) & 1:
                    raise AssertionError("the reference simulator is unsound at %s, time %d" % (n, i + r.t0))
        for wf, n, vf, f, e in r.cs:
            for t in range(f, e):
                if (wf >> j) & 1 and envs[t - r.t0][n][0] != (vf >> j) & 1 and (v["implies"] >> j) & 1:
                    raise AssertionError("reference verdict unsound")
    return c


def tr_ok(got, r, n):
    """the list of changes, newest first, describes the same values"""
    ev = []
    for e in got.split():
        t, v = e.split("=")
        ev.append((int(t), v + " "))
    if [t for t, _ in ev] != sorted((t for t, _ in ev), reverse=True):
        return "times are not decreasing"
    for t in range(r.t0, r.t1 + 1):
        cur = [v for u, v in ev if u <= t]
        if not cur or cur[0] != fv(r.w, r.final.hist[t - r.t0][n]):
            return "value at %d is %s" % (t, cur[:1])


def g_main(ch): return run(ch)
def g_bexpr(ch): return run(ch, be=True, nv=(1, 3))
def g_inacc(ch): return run(ch, acc=False)


def g_arith(ch):
    """one or two word-level operations on wider vectors"""
    g = ckt.Gen(ch, maxw=6)
    return run(ch, gen=g, circ=ckt.Circuit(ch, g, nin=(2, 3), nlat=(0, 1), ncomb=(1, 2), depth=2, hier=1), nv=(2, 4), T=2, weak=False)


def g_wide(ch):
    """binary values on vectors of 8 to 70 bits against Python integers"""
    c = Case()
    w = ch.pick([8, 16, 31, 32, 33, 40, 64, 70])
    hard = w > 16
    fns, exp = [], {}
    M = (1 << w) - 1

    def val():
        k = ch.below(4)
        v = [ch.below(8), M - ch.below(8), 1 << ch.below(w), None][k]
        return v if v is not None else sum(ch.below(2) << i for i in range(w))
    a, b = val(), val()
    if ch.bool(1, 3): b = ch.below(w + 3)
    sg = lambda x: x - (1 << w) if x >> (w - 1) else x
    ops = {"ADD": a + b, "SUB": a - b, "MUL": a * b, "DIV": a // b if b else M, "MOD": a % b if b else a, "SHL": a << b if b < 2 * w else 0,
           "SHR": a >> min(b, 2 * w), "ASHR": sg(a) >> min(b, 2 * w), "AND": a & b, "OR": a | b, "EQ": int(a == b), "GR": int(a > b)}
    if hard:
        for k in ("DIV", "MOD") + (("MUL",) if w > 40 else ()):
            ops.pop(k)
    pick = ch.perm(sorted(ops))[:4]
    outs = []
    for i, o in enumerate(pick):
        n = 1 if o in ("EQ", "GR") else w
        fns.append('W_UPDATE_FN (W_VAR %d "o%d") (W_%s (W_VAR %d "a") (W_VAR %d "b"))' % (n, i, o, w, w))
        outs.append((o, "o%d" % i, n, ops[o] & ((1 << n) - 1)))
    c.st('let p = PINST "wide" [] F [("a[%d:0]",["a[%d:0]"]),("b[%d:0]",["b[%d:0]"])] [%s] [] (P_LEAF [%s]);' %
         (w - 1, w - 1, w - 1, w - 1, ",".join('("%s",["%s"])' % ((ckt.vname(x, n),) * 2) for _, x, n, _ in outs), ",".join(fns)))
    ant = []
    for nm, v in (("a", a), ("b", b)):
        for i in range(w):
            ant.append('(T,"%s[%d]",%s,0,2)' % (nm, i, "T" if (v >> i) & 1 else "F"))
    c.st('let s = STE "-e -s" (pexlif2fsm p) [] [%s] [] [];' % ",".join(ant))
    for o, x, n, v in outs:
        c.ask('implode (map (\\n. val (h,l) = get_trace_val s n 1 in ((h == T) AND (l == F)) => "1" | ((h == F) AND (l == T)) => "0" | "X") [%s])' %
              ",".join('"%s"' % b for b in ckt.bits(x, n)), format(v, "0%db" % n), note="%d %s %d (%d bits)" % (a, o, b, w))
        c.label(o)
    c.key = (a, b, w, tuple(pick))
    return c


GROUPS = [
    Group("main", g_main, 1200, 30000, batch=10),
    Group("arith", g_arith, 300, 10000, batch=10),
    Group("bexpr", g_bexpr, 300, 6000, batch=10),
    Group("inacc", g_inacc, 200, 4000, batch=10, prefs={"ACCURATE-ITE-COMP": "FALSE"}),
    Group("wide", g_wide, 400, 6000, batch=10),
]
