"""Random typed programs against a call-by-need reference interpreter."""
import sys
from vlib.engine import Case, Group, ERR

sys.setrecursionlimit(20000)
ID = "L01"
RULE = ("A case is a program of 3-8 top-level definitions (functions over integers, Booleans, strings, lists, pairs, trees, options and functions, with "
        "pattern clauses, guards, local definitions, recursion, infinite lists, shadowed names, catch/error/seq/fseq) and 3-6 observed values; each is "
        "compared, position by position, with a lazy reference interpreter, so an error or a needless evaluation shows where it is.  "
        "Non-trivial: the reference made at least 40 evaluation steps.")
PREAMBLE = r'''
lettype lf_tr = LF | ND lf_tr int lf_tr;
lettype *a lf_opt = NO | YES *a;
let sh_i x = (int2str x) catch "!";
let sh_b x = (x => "T" | "F") catch "!";
let sh_s x = x catch "!";
letrec sh_l f x = (empty x => "." | "(" ^ (f (hd x)) ^ ":" ^ (sh_l f (tl x)) ^ ")") catch "!";
let sh_p f g x = (x seq ("<" ^ (f (fst x)) ^ "," ^ (g (snd x)) ^ ">")) catch "!";
letrec sh_t t = (let g LF = "_" /\ g (ND l v r) = "{" ^ (sh_t l) ^ "~" ^ (sh_i v) ^ "~" ^ (sh_t r) ^ "}" in g t) catch "!";
let sh_o f x = (let g NO = "N" /\ g (YES v) = "Y" ^ (f v) in g x) catch "!";
let K0 = ref 0; let K1 = ref 0; let K2 = ref 0; let K3 = ref 0; let K4 = ref 0; let K5 = ref 0;
let tick r x = (r := ((deref r) + 1)) seq x;
'''

I, B, S, TR = ("int",), ("bool",), ("str",), ("tree",)


def L(t): return ("list", t)
def PR(a, b): return ("pair", a, b)
def O(t): return ("opt", t)
def INF(t): return ("inf", t)
def FN(args, r): return ("fun", tuple(args), r)


def show_fl(t):
    k = t[0]
    if k == "int": return "sh_i"
    if k == "bool": return "sh_b"
    if k == "str": return "sh_s"
    if k == "tree": return "sh_t"
    if k == "list": return "(sh_l %s)" % show_fl(t[1])
    if k == "pair": return "(sh_p %s %s)" % (show_fl(t[1]), show_fl(t[2]))
    if k == "opt": return "(sh_o %s)" % show_fl(t[1])
    raise AssertionError(t)


# ---------------------------------------------------------------- interpreter
class FlErr(Exception):
    pass


class Fuel(Exception):
    pass


class St:
    steps = 0
    ticks = None


class Th:
    __slots__ = ("f", "v")

    def __init__(self, f):
        self.f, self.v = f, None

    def get(self):
        if self.f is not None:
            v = self.f()
            self.v, self.f = v, None
        return self.v


def now(v):
    t = Th(None)
    t.v = v
    return t


def step():
    St.steps += 1
    if St.steps > 30000:
        raise Fuel()


def force(th):
    step()
    return th.get()


class Fun:
    __slots__ = ("n", "f", "args")

    def __init__(self, n, f, args=()):
        self.n, self.f, self.args = n, f, args

    def app(self, a):
        args = self.args + (a,)
        if len(args) == self.n:
            step()
            return self.f(*args)
        return Fun(self.n, self.f, args)


def deep(v):
    step()
    if isinstance(v, tuple):
        for x in v[1:]:
            if isinstance(x, Th):
                deep(x.get())
    return v


# values: int, bool, str; ("nil",) ("cons",th,th) ("pair",th,th) ("LF",) ("ND",l,v,r) ("NO",) ("YES",v); Fun
def show(t, th):
    try:
        v = force(th)
    except FlErr:
        return "!"
    k = t[0]
    if k == "int":
        return str(v)
    if k == "bool":
        return "T" if v else "F"
    if k == "str":
        return v
    if k == "list":
        if v[0] == "nil":
            return "."
        return "(" + show(t[1], v[1]) + ":" + show(t, v[2]) + ")"
    if k == "pair":
        return "<" + show(t[1], v[1]) + "," + show(t[2], v[2]) + ">"
    if k == "tree":
        if v[0] == "LF":
            return "_"
        return "{" + show(TR, v[1]) + "~" + show(I, v[2]) + "~" + show(TR, v[3]) + "}"
    if k == "opt":
        return "N" if v[0] == "NO" else "Y" + show(t[1], v[1])
    raise AssertionError(t)


# an expression is (fl text, env -> value)
class X:
    __slots__ = ("s", "e")

    def __init__(self, s, e):
        self.s, self.e = s, e


def th(x, env):
    return Th(lambda: x.e(env))


def binint(op):
    def f(a, b):
        if op == "+": return a + b
        if op == "-": return a - b
        if op == "*":
            if abs(a) > 1 << 400 or abs(b) > 1 << 400:
                raise Fuel()
            return a * b
        if b == 0:
            raise FlErr()
        if op == "/": return a // b
        return a % b
    return f


CMP = {"<": lambda a, b: a < b, "<=": lambda a, b: a <= b, ">": lambda a, b: a > b, ">=": lambda a, b: a >= b,
       "=": lambda a, b: a == b, "!=": lambda a, b: a != b}

NAMES = ["a", "b", "c", "x", "y", "n", "f", "g", "p", "xs"]


class Gen:
    def __init__(self, ch):
        self.ch = ch
        self.globals = {}      # name -> type
        self.tick = 0
        self.budget = 0

    def types(self, d=2, fun=False):
        ch = self.ch
        k = ch.below(12 if d > 0 else 5)
        if k < 3: return I
        if k == 3: return B
        if k == 4: return S
        if k in (5, 6, 7): return L(self.types(d - 1))
        if k == 8: return PR(self.types(d - 1), self.types(d - 1))
        if k == 9: return TR
        if k == 10: return O(self.types(d - 1))
        if fun:
            return FN([self.types(0) for _ in range(ch.rng_int(1, 2))], self.types(d - 1))
        return L(I)

    # env: dict name -> type (locals shadow globals); returns X
    def vars_of(self, env, t):
        return [n for n, u in env.items() if u == t]

    def gen(self, t, env, d):
        ch = self.ch
        self.budget -= 1
        vs = self.vars_of(env, t)
        if d <= 0 or self.budget < 0:
            if vs and ch.bool(2, 3):
                return self.var(ch.pick(vs))
            return self.leaf(t, env)
        k = ch.below(20)
        if k < 4 and vs:
            return self.var(ch.pick(vs))
        if k == 0:
            return self.leaf(t, env)
        if k in (4, 5):
            fs = [(n, u) for n, u in env.items() if u[0] == "fun" and u[2] == t]
            if fs:
                n, u = ch.pick(fs)
                return self.call(self.var(n), [self.gen(a, env, d - 1) for a in u[1]])
        if k == 6:
            return self.let(t, env, d)
        if k == 7:
            c, a, b = self.gen(B, env, d - 1), self.gen(t, env, d - 1), self.gen(t, env, d - 1)
            return X("(%s => %s | %s)" % (c.s, a.s, b.s), lambda e: a.e(e) if c.e(e) else b.e(e))
        if k == 8 and t[0] not in ("fun", "inf"):
            a, b = self.gen(t, env, d - 1), self.gen(t, env, d - 1)

            def ev(e):
                try:
                    return deep(a.e(e))
                except FlErr:
                    return b.e(e)
            return X("(%s catch %s)" % (a.s, b.s), ev)
        if k == 9:
            u = self.types(1)
            w = ch.pick(["seq", "fseq"])
            a, b = self.gen(u, env, d - 1), self.gen(t, env, d - 1)

            def ev(e):
                v = a.e(e)
                if w == "fseq":
                    deep(v)
                return b.e(e)
            return X("(%s %s %s)" % (a.s, w, b.s), ev)
        if k == 10 and ch.bool(1, 2):
            return X('(error "E")', self.err)
        if k == 11:
            return self.app_lambda(t, env, d)
        if k == 12:
            return self.val(t, env, d)
        if k == 13:
            return self.letfun(t, env, d)
        if k == 14:
            return self.project(t, env, d)
        if k == 15 and self.tick < 6:
            i = self.tick
            self.tick += 1
            a = self.gen(t, env, d - 1)

            def ev(e):
                St.ticks[i] += 1
                return a.e(e)
            return X("(tick K%d %s)" % (i, a.s), ev)
        return self.cons(t, env, d)

    def err(self, e):
        raise FlErr()

    def var(self, n):
        return X(n, lambda e: force(e[n]))

    def call(self, f, args):
        def ev(e):
            v = f.e(e)
            for a in args:
                v = v.app(th(a, e))
            return v
        return X("(" + " ".join([f.s] + [a.s for a in args]) + ")", ev)

    def leaf(self, t, env):
        ch = self.ch
        k = t[0]
        if k == "int":
            v = ch.below(8) if ch.bool(3, 4) else ch.rng_int(-9, 40)
            return X("(%d)" % v if v < 0 else str(v), lambda e: v)
        if k == "bool":
            v = ch.bool()
            return X("T" if v else "F", lambda e: v)
        if k == "str":
            v = ch.pick(["", "a", "ab", "b", "0"])
            return X('"%s"' % v, lambda e: v)
        if k == "list":
            return X("[]", lambda e: ("nil",))
        if k == "pair":
            a, b = self.leaf(t[1], env), self.leaf(t[2], env)
            return X("(%s,%s)" % (a.s, b.s), lambda e: ("pair", th(a, e), th(b, e)))
        if k == "tree":
            return X("LF", lambda e: ("LF",))
        if k == "opt":
            return X("NO", lambda e: ("NO",))
        if k == "inf":
            return self.cons(t, env, 1)
        return self.lam(t, env, 0)

    def fresh(self):
        return self.ch.pick(NAMES)

    def fresh2(self, n):
        return self.ch.perm(NAMES)[:n]

    def pat(self, t, d):
        """-> (text, {name:type}, match(value th, env)) ; match returns bool and binds"""
        ch = self.ch
        k = t[0]
        r = ch.below(8)
        if d > 0 and r > 1:
            if k == "int" and r < 5:
                v = ch.below(4)
                return str(v), [], lambda x, e: force(x) == v
            if k == "bool" and r < 6:
                v = ch.bool()
                return "TF"[not v], [], lambda x, e: force(x) is v
            if k == "str" and r < 5:
                v = ch.pick(["a", "", "ab"])
                return '"%s"' % v, [], lambda x, e: force(x) == v
            if k == "list":
                if r < 4:
                    return "[]", [], lambda x, e: force(x)[0] == "nil"
                if r == 4:
                    p, vs, m = self.pat(t[1], d - 1)

                    def one(x, e):
                        v = force(x)
                        return v[0] == "cons" and m(v[1], e) and force(v[2])[0] == "nil"
                    if p != "_":
                        return "[%s]" % p, vs, one
                p, vs, m = self.pat(t[1], d - 1)
                q, ws, m2 = self.pat(t, d - 1)
                if p == "_" or q == "_" or set(n for n, _ in vs) & set(n for n, _ in ws):
                    return "[]", [], lambda x, e: force(x)[0] == "nil"

                def mm(x, e):
                    v = force(x)
                    return v[0] == "cons" and m(v[1], e) and m2(v[2], e)
                return "(%s:%s)" % (p, q), vs + ws, mm
            if k == "pair":
                p, vs, m = self.pat(t[1], d - 1)
                q, ws, m2 = self.pat(t[2], d - 1)
                if not (set(n for n, _ in vs) & set(n for n, _ in ws)):
                    def mp(x, e):
                        v = force(x)
                        return m(v[1], e) and m2(v[2], e)
                    return "(%s,%s)" % (p, q), vs + ws, mp
            if k == "tree":
                if r < 4:
                    return "LF", [], lambda x, e: force(x)[0] == "LF"
                ns = self.fresh2(3)

                def mt(x, e):
                    v = force(x)
                    if v[0] != "ND":
                        return False
                    for n, y in zip(ns, v[1:]):
                        e[n] = y
                    return True
                return "(ND %s)" % " ".join(ns), list(zip(ns, (TR, I, TR))), mt
            if k == "opt":
                if r < 4:
                    return "NO", [], lambda x, e: force(x)[0] == "NO"
                p, vs, m = self.pat(t[1], d - 1)
                if p != "_":
                    def mo(x, e):
                        v = force(x)
                        return v[0] == "YES" and m(v[1], e)
                    return "(YES %s)" % p, vs, mo
        if r == 0:
            return "_", [], lambda x, e: True
        n = self.fresh()

        def mv(x, e):
            e[n] = x
            return True
        return n, [(n, t)], mv

    def clauses(self, args, res, env, d, nmax=3):
        """-> list of (pattern text, guard text or None, body text), Fun builder"""
        ch = self.ch
        out = []
        for i in range(ch.rng_int(1, nmax)):
            last = i == nmax - 1
            ps = []
            names = set()
            for a in args:
                for _ in range(6):
                    p = self.pat(a, 0 if last else 2)
                    if not names & set(n for n, _ in p[1]) and not (last and p[0] == "_"):
                        break
                else:
                    p = ("_", [], lambda x, e: True)
                names |= set(n for n, _ in p[1])
                ps.append(p)
            env2 = dict(env)
            for p in ps:
                env2.update(dict(p[1]))
            g = self.gen(B, env2, 1) if not last and ch.bool(1, 6) else None
            b = self.gen(res, env2, d)
            out.append((ps, g, b))
            if all(p[0] == "_" or (len(p[1]) == 1 and p[0] == p[1][0][0]) for p in ps) and g is None:
                break

        def mk(env):
            def call(*xs):
                for ps, g, b in out:
                    e2 = dict(env())
                    if all(p[2](x, e2) for p, x in zip(ps, xs)) and (g is None or g.e(e2)):
                        return b.e(e2)
                raise FlErr()
            return Fun(len(args), call)
        return out, mk

    def clause_text(self, name, out):
        return " /\\ ".join("%s %s %s= %s" % (name, " ".join(p[0] for p in ps), "assuming (%s) " % g.s if g else "", b.s) for ps, g, b in out)

    def lam(self, t, env, d):
        ch = self.ch
        ns = self.fresh2(len(t[1]))
        env2 = dict(env)
        env2.update(zip(ns, t[1]))
        b = self.gen(t[2], env2, d)

        def ev(e):
            def call(*xs):
                e2 = dict(e)
                e2.update(zip(ns, xs))
                return b.e(e2)
            return Fun(len(ns), call)
        return X("(" + "".join("\\%s. " % n for n in ns) + b.s + ")", ev)

    def app_lambda(self, t, env, d):
        ats = [self.types(1) for _ in range(self.ch.rng_int(1, 2))]
        f = self.lam(FN(ats, t), env, d - 1)
        return self.call(f, [self.gen(a, env, d - 1) for a in ats])

    def let(self, t, env, d):
        u = self.types(2, fun=True)
        n = self.fresh()
        a = self.gen(u, env, d - 1)
        b = self.gen(t, {**env, n: u}, d - 1)

        def ev(e):
            return b.e({**e, n: th(a, e)})
        return X("(let %s = %s in %s)" % (n, a.s, b.s), ev)

    def val(self, t, env, d):
        u = PR(self.types(1), self.types(1))
        p, vs, m = self.pat(u, 2)
        a = self.gen(u, env, d - 1)
        if not p.startswith("("):
            return self.cons(t, env, d)
        b = self.gen(t, {**env, **dict(vs)}, d - 1)

        def ev(e):
            e2 = dict(e)
            if not m(th(a, e), e2):
                raise FlErr()
            return b.e(e2)
        return X("(val %s = %s in %s)" % (p, a.s, b.s), ev)

    def letfun(self, t, env, d):
        f, fx, ft = self.fundef(env, d - 1)
        txt = self.deftext
        b = self.gen(t, {**env, f: ft}, d - 1)

        def ev(e):
            return b.e({**e, f: fx(e)})
        return X("(%s in %s)" % (txt, b.s), ev)

    def fundef(self, env, d):
        """-> name, env -> thunk of the function, type; sets self.deftext"""
        ch = self.ch
        f = self.fresh()
        k = ch.below(5)
        res = self.types(1)
        if k < 2:
            args = [self.types(2, fun=ch.bool(1, 3)) for _ in range(ch.rng_int(1, 3))]
            out, mk = self.clauses(args, res, env, d)
            self.deftext = "let " + self.clause_text(f, out)
            return f, (lambda e: now(mk(lambda: e))), FN(args, res)
        if k == 2:
            # recursion on an integer
            n, x = self.fresh2(2)
            u = self.types(1)
            if f in (n, x):
                f = [z for z in NAMES if z not in (n, x)][0]
            if f in env:
                return self.fundef_retry(env, d)
            b0 = self.gen(res, {**env, n: I, x: u}, d - 1)
            env2 = {**env, n: I, x: u}
            env2.pop(f, None)
            nx = self.gen(u, env2, d - 1)
            lim = ch.rng_int(1, 4)
            call = "(%s (%s-1) %s)" % (f, n, nx.s)
            # the recursive call is a variable of the body
            r = ch.pick([z for z in NAMES if z not in (n, x, f)])
            b1 = self.gen(res, {**env2, r: res}, d - 1)
            txt = "letrec %s %s %s = %s <= 0 => %s | %s > %d => %s %d %s | let %s = %s in %s" % (f, n, x, n, b0.s, n, lim, f, lim, x, r, call, b1.s)

            def mk(e):
                me = Th(None)

                def body(tn, tx):
                    v = force(tn)
                    if v <= 0:
                        return b0.e({**e, f: me, n: tn, x: tx})
                    if v > lim:
                        return body(now(lim), tx)
                    e2 = {**e, f: me, n: tn, x: tx}
                    tr = Th(lambda: body(Th(lambda: force(tn) - 1), th(nx, e2)))
                    return b1.e({**e2, r: tr})
                me.v = Fun(2, body)
                return me
            self.deftext = txt
            return f, mk, FN([I, u], res)
        if k == 3:
            # recursion on a list or a tree
            if f in env:
                return self.fundef_retry(env, d)
            if ch.bool(2, 3):
                u = self.types(1)
                x, xs, r = ch.perm([z for z in NAMES if z != f])[:3]
                b0 = self.gen(res, env, d - 1)
                b1 = self.gen(res, {**env, x: u, xs: L(u), r: res}, d - 1)
                if ch.bool():
                    txt = "letrec %s [] = %s /\\ %s (%s:%s) = let %s = %s %s in %s" % (f, b0.s, f, x, xs, r, f, xs, b1.s)
                else:
                    txt = "letrec %s (%s:%s) = (let %s = %s %s in %s) /\\ %s [] = %s" % (f, x, xs, r, f, xs, b1.s, f, b0.s)

                def mk(e):
                    me = Th(None)

                    def body(l):
                        v = force(l)
                        if v[0] == "nil":
                            return b0.e(e)
                        return b1.e({**e, f: me, x: v[1], xs: v[2], r: Th(lambda: body(v[2]))})
                    me.v = Fun(1, body)
                    return me
                self.deftext = txt
                return f, mk, FN([L(u)], res)
            l, v, r, a, b = ch.perm([z for z in NAMES if z != f])[:5]
            b0 = self.gen(res, env, d - 1)
            b1 = self.gen(res, {**env, l: TR, v: I, r: TR, a: res, b: res}, d - 1)
            txt = "letrec %s LF = %s /\\ %s (ND %s %s %s) = let %s = %s %s in let %s = %s %s in %s" % (f, b0.s, f, l, v, r, a, f, l, b, f, r, b1.s)

            def mk(e):
                me = Th(None)

                def body(tx):
                    q = force(tx)
                    if q[0] == "LF":
                        return b0.e(e)
                    return b1.e({**e, f: me, l: q[1], v: q[2], r: q[3], a: Th(lambda: body(q[1])), b: Th(lambda: body(q[3]))})
                me.v = Fun(1, body)
                return me
            self.deftext = txt
            return f, mk, FN([TR], res)
        # infinite list
        if f in env:
            return self.fundef_retry(env, d)
        n = ch.pick([z for z in NAMES if z != f])
        h = self.gen(I, {**env, n: I}, d - 1)
        s = self.gen(I, {**env, n: I}, d - 1)
        self.deftext = "letrec %s %s = %s : (%s %s)" % (f, n, h.s, f, s.s)

        def mk(e):
            me = Th(None)

            def body(tn):
                e2 = {**e, n: tn, f: me}
                return ("cons", th(h, e2), Th(lambda: body(th(s, e2))))
            me.v = Fun(1, body)
            return me
        return f, mk, FN([I], INF(I))

    def fundef_retry(self, env, d):
        f = [z for z in NAMES if z not in env]
        if not f:
            f = ["u%d" % self.ch.below(9)]
        f = f[0]
        args = [self.types(1)]
        res = self.types(1)
        out, mk = self.clauses(args, res, env, d)
        self.deftext = "let " + self.clause_text(f, out)
        return f, (lambda e: now(mk(lambda: e))), FN(args, res)

    def project(self, t, env, d):
        ch = self.ch
        k = ch.below(6)
        if k == 0:
            a = self.gen(PR(t, self.types(1)), env, d - 1)
            return X("(fst %s)" % a.s, lambda e: force(a.e(e)[1]))
        if k == 1:
            a = self.gen(PR(self.types(1), t), env, d - 1)
            return X("(snd %s)" % a.s, lambda e: force(a.e(e)[2]))
        if k == 2 or t[0] == "fun":
            if t[0] in ("fun", "inf"):
                return self.cons(t, env, d)
            a = self.gen(L(t), env, d - 1)

            def hd(e):
                v = a.e(e)
                if v[0] == "nil":
                    raise FlErr()
                return force(v[1])
            return X("(hd %s)" % a.s, hd)
        if k == 3 and t[0] == "list":
            a = self.gen(t, env, d - 1)

            def tl(e):
                v = a.e(e)
                if v[0] == "nil":
                    raise FlErr()
                return force(v[2])
            return X("(tl %s)" % a.s, tl)
        if k == 4 and t == I:
            n = ch.rng_int(1, 4)
            a = self.gen(INF(I), env, d - 1)

            def el(e):
                v = a.e(e)
                for _ in range(n - 1):
                    step()
                    v = force(v[2])
                return force(v[1])
            return X("(el %d %s)" % (n, a.s), el)
        # fold
        if t[0] in ("fun", "inf"):
            return self.cons(t, env, d)
        u = self.types(1)
        f = self.gen(FN([u, t], t), env, d - 1)
        l = self.gen(L(u), env, d - 1)
        z = self.gen(t, env, d - 1)

        def itl(e):
            tf = th(f, e)

            def go(tv):
                v = force(tv)
                if v[0] == "nil":
                    return z.e(e)
                return force(tf).app(v[1]).app(Th(lambda: go(v[2])))
            return go(th(l, e))
        return X("(itlist %s %s %s)" % (f.s, l.s, z.s), itl)

    def ann(self, a):
        return a.s if a.s.lstrip("(-").rstrip(")").isdigit() else "{%s::int}" % a.s

    def cons(self, t, env, d):
        ch = self.ch
        k = t[0]
        g = lambda u: self.gen(u, env, d - 1)
        if k == "int":
            r = ch.below(9)
            if r < 6:
                op = ch.pick(["+", "-", "+", "*", "/", "%"])
                a, b = g(I), g(I)
                fn = binint(op)
                return X("(%s %s %s)" % (self.ann(a), op, b.s), lambda e: fn(a.e(e), b.e(e)))
            if r == 6:
                a = g(L(self.types(1)))

                def ln(e):
                    n, v = 0, a.e(e)
                    while v[0] != "nil":
                        step()
                        n += 1
                        v = force(v[2])
                    return n
                return X("(length %s)" % a.s, ln)
            if r == 7:
                a = g(S)
                return X("(strlen %s)" % a.s, lambda e: len(a.e(e)))
            return self.leaf(t, env)
        if k == "bool":
            r = ch.below(8)
            if r < 3:
                op = ch.pick(["<", "<=", ">", ">=", "=", "!="])
                a, b = g(I), g(I)
                fn = CMP[op]
                return X("(%s %s %s)" % (self.ann(a), op, b.s), lambda e: fn(a.e(e), b.e(e)))
            if r == 3:
                a, b = g(B), g(B)
                return X("(%s AND %s)" % (a.s, b.s), lambda e: a.e(e) and b.e(e))
            if r == 4:
                a, b = g(B), g(B)
                return X("(%s OR %s)" % (a.s, b.s), lambda e: a.e(e) or b.e(e))
            if r == 5:
                a = g(B)
                return X("(NOT %s)" % a.s, lambda e: not a.e(e))
            if r == 6:
                a = g(L(self.types(1)))
                return X("(empty %s)" % a.s, lambda e: a.e(e)[0] == "nil")
            a, b = g(S), g(S)
            return X("(%s = %s)" % (a.s, b.s), lambda e: a.e(e) == b.e(e))
        if k == "str":
            if ch.bool():
                a, b = g(S), g(S)

                def cat(e):
                    r = a.e(e) + b.e(e)
                    if len(r) > 300:
                        raise Fuel()
                    return r
                return X("(%s ^ %s)" % (a.s, b.s), cat)
            if ch.bool():
                a = g(I)
                return X("(int2str %s)" % a.s, lambda e: str(a.e(e)))
            return self.leaf(t, env)
        if k == "list":
            r = ch.below(10)
            if r < 3:
                a, b = g(t[1]), g(t)
                return X("(%s : %s)" % (a.s, b.s), lambda e: ("cons", th(a, e), th(b, e)))
            if r < 6:
                xs = [g(t[1]) for _ in range(ch.rng_int(1, 3))]

                def lst(e):
                    v = ("nil",)
                    for x in reversed(xs):
                        v = ("cons", th(x, e), now(v))
                    return v
                return X("[%s]" % ", ".join(x.s for x in xs), lst)
            if r == 6:
                a, b = g(t), g(t)

                def app(e):
                    def go(v):
                        step()
                        if v[0] == "nil":
                            return b.e(e)
                        return ("cons", v[1], Th(lambda: go(force(v[2]))))
                    v = w = a.e(e)
                    while w[0] != "nil":        # append forces the spine of its left operand
                        step()
                        w = force(w[2])
                    return go(v)
                return X("(%s @ %s)" % (a.s, b.s), app)
            if r == 7:
                u = self.types(1)
                f, l = g(FN([u], t[1])), g(L(u))

                def mp(e):
                    tf = th(f, e)

                    def go(v):
                        step()
                        if v[0] == "nil":
                            return v
                        return ("cons", Th(lambda: force(tf).app(v[1])), Th(lambda: go(force(v[2]))))
                    return go(l.e(e))
                return X("(map %s %s)" % (f.s, l.s), mp)
            if r == 8:
                f, l = g(FN([t[1]], B)), g(t)

                def fl(e):
                    tf = th(f, e)
                    force(tf)                   # and its predicate

                    def go(v):
                        while True:
                            step()
                            if v[0] == "nil":
                                return v
                            if force(tf).app(v[1]):
                                return ("cons", v[1], Th(lambda: go(force(v[2]))))
                            v = force(v[2])
                    return go(deep(l.e(e)))     # filter forces its list
                return X("(filter %s %s)" % (f.s, l.s), fl)
            if t == L(I):
                n = ch.below(5)
                a = g(INF(I))

                def fn(e):
                    v, xs = a.e(e), []
                    for _ in range(n):          # firstn walks eagerly
                        xs.append(v[1])
                        v = force(v[2])
                    r = ("nil",)
                    for x in reversed(xs):
                        r = ("cons", x, now(r))
                    return r
                return X("(firstn %d %s)" % (n, a.s), fn)
            return self.leaf(t, env)
        if k == "pair":
            a, b = g(t[1]), g(t[2])
            return X("(%s,%s)" % (a.s, b.s), lambda e: ("pair", th(a, e), th(b, e)))
        if k == "tree":
            if ch.bool(3, 4):
                a, b, c = g(TR), g(I), g(TR)
                return X("(ND %s %s %s)" % (a.s, b.s, c.s), lambda e: ("ND", th(a, e), th(b, e), th(c, e)))
            return self.leaf(t, env)
        if k == "opt":
            if ch.bool(3, 4):
                a = g(t[1])
                return X("(YES %s)" % a.s, lambda e: ("YES", th(a, e)))
            return self.leaf(t, env)
        if k == "inf":
            r = ch.below(4)
            fs = [(n, u) for n, u in env.items() if u[0] == "fun" and u[2] == t]
            if r < 2 and fs:
                n, u = ch.pick(fs)
                return self.call(self.var(n), [self.gen(a, env, d - 1) for a in u[1]])
            if r == 2 and d > 0:
                a, b = g(I), g(t)
                return X("(%s : %s)" % (a.s, b.s), lambda e: ("cons", th(a, e), th(b, e)))
            a = self.gen(I, env, min(d - 1, 1))
            nm = "zs"

            def cyc(e):
                c = Th(None)
                c.v = ("cons", th(a, e), c)
                return c.v
            return X("(letrec zs = %s : zs in zs)" % a.s, cyc)
        return self.lam(t, env, d - 1)


def g_prog(ch, depth=4, size=120):
    c = Case()
    G = Gen(ch)
    env_t, env_v = {}, {}
    texts = []
    for _ in range(ch.rng_int(2, 6)):
        G.budget = size // 2
        if ch.bool(2, 5):
            n = ch.pick(NAMES)
            t = G.types(2, fun=True)
            x = G.gen(t, env_t, depth)
            snap = dict(env_v)
            env_v = dict(env_v)
            env_v[n] = th(x, snap)
            env_t = {**env_t, n: t}
            texts.append("let %s = %s;" % (n, x.s))
        else:
            f, mk, ft = G.fundef(env_t, depth)
            snap = dict(env_v)
            env_v = dict(env_v)
            env_v[f] = mk(snap)
            env_t = {**env_t, f: ft}
            texts.append(G.deftext + ";")
    asks = []
    for _ in range(ch.rng_int(3, 5)):
        G.budget = size
        t = G.types(2)
        x = G.gen(t, env_t, depth)
        asks.append((t, x))
    for n, t in env_t.items():
        if t[0] not in ("fun", "inf"):
            asks.append((t, G.var(n)))
    St.steps = 0
    St.ticks = [0] * 6
    outs = []
    try:
        for t, x in asks:
            outs.append(show(t, th(x, env_v)))
            if len(outs[-1]) > 6000:
                raise Fuel()
    except (Fuel, RecursionError):
        c.nontrivial = False
        c.label("dropped")
        return c
    for i in range(6):
        c.st("K%d := 0;" % i)
    for s in texts:
        c.st(s)
    for (t, x), o in zip(asks, outs):
        c.ask("%s %s" % (show_fl(t), x.s), o)
    for i in range(G.tick):
        c.ask("int2str (deref K%d)" % i, lambda g, m=St.ticks[i]: (int(g) <= m and (int(g) >= 1 or m == 0)) or
              "evaluations counted, reference %d" % m, note="evaluations of the expression marked K%d" % i)
    c.nontrivial = St.steps >= 40
    c.label("steps>=%d" % min(1000, 10 ** len(str(St.steps)) // 10))
    if any("!" in o for o in outs):
        c.label("partial errors")
    return c


def g_symcond(ch):
    """one fixed program: a shared definition whose value is first needed inside a branch of a symbolic conditional"""
    c = Case()
    c.st('VARS "sc_a sc_b";')
    c.st("let f8 = (sc_a AND sc_b => F | T);")
    c.st("let g8 = (sc_b => T | (f8 OR sc_a));")
    c.ask('(g8 == T) => "same" | "different"', "same", note="g8 = T")
    c.ask('(f8 == (NOT sc_a OR NOT sc_b)) => "same" | "different"', "same", note="the value of f8 after g8 was evaluated")
    return c


GROUPS = [
    Group("symcond", g_symcond, 1, 1, batch=1),
    Group("prog", g_prog, 8000, 120000, batch=40),
    Group("big", lambda ch: g_prog(ch, 6, 300), 1200, 24000, batch=20),
]
