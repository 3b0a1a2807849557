"""Type inference: principal types, rejection of ill-typed definitions, overloading, annotations"""
import re
from vlib.engine import Case, Group

ID = "T01"
RULE = ("A case is a session of 3-7 definitions (functions with nested patterns, local definitions, recursion, algebraic types, "
        "annotations, overloaded operators) made by a type-directed generator that is sometimes derailed.  For each definition the "
        "printed type must be the principal type computed by an independent Hindley-Milner inference (up to renaming), and "
        "definitions without a type must be rejected; printed types are parsed with the language's own grammar.  Non-trivial: at "
        "least one definition with a type variable or an overloaded operator, or a rejected one, and at least 25 syntax nodes.")

PREAMBLE = r'''
lettype ty_tr = TyL | TyN ty_tr int ty_tr;
lettype {*a,*b} ty_e = TyA *a | TyB *b | TyC ({*a,*b} ty_e) (*a list);
lettype {*a} ty_o = TyZ | TyS *a (*a ty_o_dummy);
let ty_ap f x = f x;
let ty_cp f g x = f (g x);
let ty_k x y = x;
let ty_o1 {x::int} {y::bool} = x;
let ty_o2 {x::string} {y::string} = y;
let ty_o3 {x:: *a list} {y:: *b} = hd x;
overload ty_ov ty_o1 ty_o2 ty_o3;
'''
PREAMBLE = "\n".join(l for l in PREAMBLE.splitlines() if "ty_o_dummy" not in l) + r'''
lettype {*a} ty_o = TyZ | TyS *a ({*a} ty_o);
'''


class TypeErr(Exception):
    pass


class TV:
    __slots__ = ("ref",)

    def __init__(self):
        self.ref = None


def C(n, *a): return (n, a)


INT, BOOL, STR, TR = C("int"), C("bool"), C("string"), C("ty_tr")
def A(a, b): return C("->", a, b)
def P(a, b): return C("#", a, b)
def L(a): return C("list", a)


def prune(t):
    while isinstance(t, TV) and t.ref is not None:
        t = t.ref
    return t


def occurs(v, t):
    t = prune(t)
    return t is v or not isinstance(t, TV) and any(occurs(v, x) for x in t[1])


def unify(a, b, trail=None):
    a, b = prune(a), prune(b)
    if a is b:
        return
    if isinstance(a, TV):
        if occurs(a, b):
            raise TypeErr
        a.ref = b
        if trail is not None:
            trail.append(a)
    elif isinstance(b, TV):
        unify(b, a, trail)
    else:
        if a[0] != b[0] or len(a[1]) != len(b[1]):
            raise TypeErr
        for x, y in zip(a[1], b[1]):
            unify(x, y, trail)


def undo(trail):
    for v in trail:
        v.ref = None


def inst(t, m):
    t = prune(t)
    if isinstance(t, TV):
        return m.setdefault(t, TV())
    return (t[0], tuple(inst(x, m) for x in t[1]))


def scheme(f):
    n = f.__code__.co_argcount
    return f(*[TV() for _ in range(n)])


# names with their (fully general) types; overloaded names have several
CONS = {"TyL": TR, "TyN": A(TR, A(INT, A(TR, TR))),
        "TyA": scheme(lambda a, b: A(a, C("ty_e", a, b))), "TyB": scheme(lambda a, b: A(b, C("ty_e", a, b))),
        "TyC": scheme(lambda a, b: A(C("ty_e", a, b), A(L(a), C("ty_e", a, b)))),
        "TyZ": scheme(lambda a: C("ty_o", a)), "TyS": scheme(lambda a: A(a, A(C("ty_o", a), C("ty_o", a))))}
PRIM = {"hd": scheme(lambda a: A(L(a), a)), "tl": scheme(lambda a: A(L(a), L(a))),
        "fst": scheme(lambda a, b: A(P(a, b), a)), "snd": scheme(lambda a, b: A(P(a, b), b)),
        "map": scheme(lambda a, b: A(A(a, b), A(L(a), L(b)))), "length": scheme(lambda a: A(L(a), INT)),
        "ty_ap": scheme(lambda a, b: A(A(a, b), A(a, b))), "ty_k": scheme(lambda a, b: A(a, A(b, a))),
        "ty_cp": scheme(lambda a, b, c: A(A(a, b), A(A(c, a), A(c, b)))),
        "itlist": scheme(lambda a, b: A(A(a, A(b, b)), A(L(a), A(b, b)))),
        "zip": scheme(lambda a, b: A(L(a), A(L(b), L(P(a, b))))),
        "int2str": A(INT, STR), "NOT": A(BOOL, BOOL), "s2int": A(STR, INT)}
NUM = [INT, C("float"), C("bv"), C("bev")]
OVER = {"+": [A(t, A(t, t)) for t in NUM], "-": [A(t, A(t, t)) for t in NUM], "<": [A(t, A(t, BOOL)) for t in NUM],
        "ty_ov": [A(INT, A(BOOL, INT)), A(STR, A(STR, STR)), scheme(lambda a, b: A(L(a), A(b, a)))]}
INFIX = {"@": scheme(lambda a: A(L(a), A(L(a), L(a)))), "^": A(STR, A(STR, STR)), "AND": A(BOOL, A(BOOL, BOOL)),
         "=": scheme(lambda a: A(a, A(a, BOOL))), ":": scheme(lambda a: A(a, A(L(a), L(a)))), "fseq": scheme(lambda a, b: A(a, A(b, b)))}


# ---- reference inference
class Inf:
    def __init__(self, glob):
        self.glob = glob        # name -> type or None (implicit overload) for earlier definitions
        self.av = {}            # annotation variables of the statement
        self.open = []          # (type, alternatives) of overloaded uses

    def ann(self, t):
        if isinstance(t, str):
            return self.av.setdefault(t, TV())
        return (t[0], tuple(self.ann(x) for x in t[1]))

    def pat(self, p, env):
        k = p[0]
        if k == "v":
            t = TV()
            env[p[1]] = t
            return t
        if k == "w": return TV()
        if k == "k": return p[2]
        if k == "a":
            t = TV()
            env[p[1]] = t
            unify(t, self.ann(p[2]))
            return t
        if k == "p": return P(self.pat(p[1], env), self.pat(p[2], env))
        if k == "n": return L(TV())
        if k == ":":
            t = L(self.pat(p[1], env))
            unify(t, self.pat(p[2], env))
            return t
        t = inst(CONS[p[1]], {})
        for q in p[2]:
            t = prune(t)
            unify(t[1][0], self.pat(q, env))
            t = t[1][1]
        return t

    def exp(self, e, env):
        k = e[0]
        if k == "k": return e[2]
        if k == "v": return env[e[1]]
        if k == "g":
            if e[1] in OVER:
                t = TV()
                self.open.append((t, OVER[e[1]]))
                return t
            return inst(self.glob.get(e[1]) or CONS.get(e[1]) or PRIM.get(e[1]) or INFIX[e[1]], {})
        if k == "app":
            f = self.exp(e[1], env)
            a = self.exp(e[2], env)
            r = TV()
            unify(f, A(a, r))
            return r
        if k == "bin":
            return self.exp(("app", ("app", ("g", e[1]), e[2]), e[3]), env)
        if k == "lam":
            n = dict(env)
            t = self.pat(e[1], n)
            return A(t, self.exp(e[2], n))
        if k == "p": return P(self.exp(e[1], env), self.exp(e[2], env))
        if k == "l":
            t = TV()
            for x in e[1]:
                unify(t, self.exp(x, env))
            return L(t)
        if k == "if":
            unify(self.exp(e[1], env), BOOL)
            t = self.exp(e[2], env)
            unify(t, self.exp(e[3], env))
            return t
        if k == "ann":
            t = self.exp(e[1], env)
            unify(t, self.ann(e[2]))
            return t
        if k == "let":                  # ("let", rec, name, clauses, body); not generalised
            n = dict(env)
            t = n[e[2]] = TV()
            unify(t, self.clauses(e[3], n if e[1] else env))
            return self.exp(e[4], n)
        if k == "val":
            n = dict(env)
            t = self.pat(e[1], n)
            unify(t, self.exp(e[2], env))
            return self.exp(e[3], n)
        raise AssertionError(k)

    def clauses(self, cl, env):
        t = TV()
        for ps, b in cl:
            n = dict(env)
            ts = [self.pat(p, n) for p in ps]
            r = self.exp(b, n)
            for x in reversed(ts):
                r = A(x, r)
            unify(t, r)
        return t

    def resolve(self):
        """number of ways to resolve the overloaded uses: 0, 1 (done) or 2"""
        o = self.open
        sols, pick = [], []

        def go(i):
            if len(sols) > 1:
                return
            if i == len(o):
                sols.append(list(pick))
                return
            for alt in o[i][1]:
                tr = []
                pick.append(alt)
                try:
                    unify(o[i][0], inst(alt, {}), tr)
                    go(i + 1)
                except TypeErr:
                    pass
                pick.pop()
                undo(tr)
        go(0)
        if len(sols) == 1:
            for (t, _), alt in zip(o, sols[0]):
                unify(t, inst(alt, {}))
        return len(sols)


# ---- printing and reading types
def show(t, m):
    t = prune(t)
    if isinstance(t, TV):
        return m.setdefault(t, "*%s" % "abcdefghijklmnopqrstuvwxyz"[len(m) % 26])
    n, a = t
    if n in ("->", "#"): return "(%s %s %s)" % (show(a[0], m), n, show(a[1], m))
    if n in ("list", "ref"): return "(%s %s)" % (show(a[0], m), n)
    return n if not a else "{%s} %s" % (",".join(show(x, m) for x in a), n)


def canon(t):
    return show(t, {})


class Bad(Exception):
    pass


def parse(s):
    """the language's grammar: -> binds tighter than #, both associate to the right"""
    tok = re.findall(r"\*+|->|[A-Za-z_]\w*|[#(){},\[\]+]", s)
    if "".join(tok) != s.replace(" ", ""):
        raise Bad
    pos = [0]
    vs = {}

    def peek(): return tok[pos[0]] if pos[0] < len(tok) else None

    def nxt():
        t = peek()
        pos[0] += 1
        return t

    def tup():
        a = arr()
        if peek() == "#":
            nxt()
            return P(a, tup())
        return a

    def arr():
        a = post()
        if peek() == "->":
            nxt()
            return A(a, arr())
        return a

    def post():
        t = nxt()
        if t is None: raise Bad
        if t == "(":
            a = tup()
            if nxt() != ")": raise Bad
        elif t == "{":
            l = [tup()]
            while peek() == ",":
                nxt()
                l.append(tup())
            if nxt() != "}": raise Bad
            a = C(nxt(), *l)
        elif t[0] == "*":
            a = vs.setdefault(t, TV())
        elif t[0].isalpha():
            a = C(t)
        else:
            raise Bad
        while peek() in ("list", "ref"):
            a = C(nxt(), a)
        return a
    r = tup()
    if pos[0] != len(tok):
        raise Bad
    return r


# ---- text
def tp(p):
    k = p[0]
    if k == "v": return p[1]
    if k == "w": return "_"
    if k == "k": return p[1]
    if k == "a": return "{%s:: %s}" % (p[1], tt(p[2]))
    if k == "p": return "(%s,%s)" % (tp(p[1]), tp(p[2]))
    if k == "n": return "[]"
    if k == ":": return "(%s : %s)" % (tp(p[1]), tp(p[2]))
    return "(%s)" % " ".join([p[1]] + [tp(q) for q in p[2]]) if p[2] else p[1]


def tt(t):
    if isinstance(t, str): return "*" + t
    n, a = t
    if n in ("->", "#"): return "(%s%s%s)" % (tt(a[0]), "-> " if n == "->" else " # ", tt(a[1]))
    if n in ("list", "ref"): return "(%s %s)" % (tt(a[0]), n)
    return n if not a else "{%s} %s" % (", ".join(tt(x) for x in a), n)


def te(e):
    k = e[0]
    if k in ("k", "v"): return e[1]
    if k == "g": return e[1]
    if k == "app": return "(%s %s)" % (te(e[1]), te(e[2]))
    if k == "bin": return "(%s %s %s)" % (te(e[2]), e[1], te(e[3]))
    if k == "lam": return "(\\%s . %s)" % (tp(e[1]), te(e[2]))
    if k == "p": return "(%s,%s)" % (te(e[1]), te(e[2]))
    if k == "l": return "[%s]" % ",".join(te(x) for x in e[1])
    if k == "if": return "(%s => %s | %s)" % (te(e[1]), te(e[2]), te(e[3]))
    if k == "ann": return "({%s:: %s})" % (te(e[1]), tt(e[2]))
    if k == "let": return "(%s %s in %s)" % ("letrec" if e[1] else "let", tcl(e[2], e[3]), te(e[4]))
    return "(val %s = %s in %s)" % (tp(e[1]), te(e[2]), te(e[3]))


def tcl(name, cl):
    return " /\\ ".join("%s = %s" % (" ".join([name] + [tp(p) for p in ps]), te(b)) for ps, b in cl)


def nodes(e):
    return 1 + sum(nodes(x) for x in e if isinstance(x, (tuple, list))) if isinstance(e, (tuple, list)) else 0


# ---- generation, directed by a type that may be left open (TV)
class Gen:
    def __init__(self, ch, glob):
        self.ch, self.glob, self.n = ch, glob, 0

    def name(self):
        self.n += 1
        return "x%d" % self.n

    def ty(self, d=2):
        k = self.ch.wpick([(4, "int"), (2, "bool"), (2, "str"), (3 if d > 0 else 0, "list"), (3 if d > 0 else 0, "->"), (3 if d > 0 else 0, "#"), (1 if d > 0 else 0, "e"),
                           (1 if d > 0 else 0, "o"), (1, "tr"), (4, "v")])
        if k == "list": return L(self.ty(d - 1))
        if k == "->": return A(self.ty(d - 1), self.ty(d - 1))
        if k == "#": return P(self.ty(d - 1), self.ty(d - 1))
        if k == "e": return C("ty_e", self.ty(d - 1), self.ty(d - 1))
        if k == "o": return C("ty_o", self.ty(d - 1))
        return {"int": INT, "bool": BOOL, "str": STR, "tr": TR}.get(k) or TV()

    def const(self, t):
        ch = self.ch
        return {"int": lambda: ("k", ch.pick(["0", "1", "(-7)"]), INT), "bool": lambda: ("k", ch.pick(["T", "F"]), BOOL),
                "string": lambda: ("k", '"s"', STR), "ty_tr": lambda: ("g", "TyL")}[t]()

    def pattern(self, t, env, d):
        ch = self.ch
        t = prune(t)
        if d <= 0 or isinstance(t, TV) or ch.bool(1, 3):
            k = ch.below(8)
            if k == 0: return ("w",)
            n = self.name()
            env[n] = t
            if k == 1: return ("a", n, self.annot(t))
            return ("v", n)
        n, a = t
        if n == "int" and ch.bool(1, 2): return ("k", ch.pick(["0", "3"]), INT)
        if n == "string" and ch.bool(1, 2): return ("k", '"q"', STR)
        if n == "bool" and ch.bool(1, 2): return ("k", ch.pick(["T", "F"]), BOOL)
        if n == "#": return ("p", self.pattern(a[0], env, d - 1), self.pattern(a[1], env, d - 1))
        if n == "list": return ("n",) if ch.bool(1, 4) else (":", self.pattern(a[0], env, d - 1), self.pattern(t, env, d - 1))
        cs = {"ty_tr": ["TyL", "TyN"], "ty_e": ["TyA", "TyB", "TyC"], "ty_o": ["TyZ", "TyS"]}.get(n)
        if cs:
            cn = ch.pick(cs)
            ct = inst(CONS[cn], {})
            args = []
            while prune(ct)[0] == "->":
                args.append(prune(ct)[1][0])
                ct = prune(ct)[1][1]
            unify(ct, t)
            return ("c", cn, [self.pattern(x, env, d - 1) for x in args])
        n = self.name()
        env[n] = t
        return ("v", n)

    def annot(self, t):
        """a source type for t, sometimes more general, rarely something else"""
        ch = self.ch
        if ch.bool(1, 10):
            t = self.ty()
        vs = {}

        def go(t, top):
            t = prune(t)
            if isinstance(t, TV):
                return vs.setdefault(t, "%s%d" % (ch.pick("ab"), self.n if ch.bool(3, 4) else 0))
            if not top and ch.bool(1, 8):
                self.n += 1
                return "z%d" % self.n
            return (t[0], tuple(go(x, False) for x in t[1]))
        return go(t, True)

    def exp(self, t, env, d):
        ch = self.ch
        t = prune(t)
        if ch.bool(1, 45):
            t = self.ty()
        if d > 0 and ch.bool(1, 9):
            return ("ann", self.exp(t, env, d - 1), self.annot(t))
        opts = []
        for n, vt in env.items():
            opts.append((("v", n), vt))
        k = ch.wpick([(6, "var"), (4 if d > 0 else 0, "glob"), (5, "make"), (3 if d > 0 else 0, "ctl"), (1 if d > 0 else 0, "over")])
        if k == "over":
            if not isinstance(t, TV) and t[0] == "bool":
                u = ch.pick([INT, TV()])
                return ("bin", "<", self.exp(u, env, d - 1), self.exp(u, env, d - 1))
            if ch.bool(1, 3):
                return ("app", ("app", ("g", "ty_ov"), self.exp(ch.pick([L(t), INT, STR, TV()]), env, d - 1)), self.exp(ch.pick([BOOL, STR, TV()]), env, d - 1))
            if isinstance(t, TV) or t[0] == "int":
                if ch.bool(2, 3):
                    t = INT
                return ("bin", ch.pick("+-"), self.exp(t, env, d - 1), self.exp(t, env, d - 1))
        if k == "ctl":
            q = ch.below(5)
            if q == 0: return ("if", self.exp(BOOL, env, d - 1), self.exp(t, env, d - 1), self.exp(t, env, d - 1))
            if q == 1:
                u = self.ty(1)
                n = dict(env)
                nm = self.name()
                args, r = [], u
                cl = self.cl(u, env, d - 1)
                n[nm] = u
                return ("let", False, nm, cl, self.exp(t, n, d - 1))
            if q == 2:
                nm = self.name()
                n = dict(env)
                u = n[nm] = A(self.ty(1), self.ty(1))
                return ("let", True, nm, self.cl(u, n, d - 1), self.exp(t, n, d - 1))
            if q == 3:
                n = dict(env)
                u = ch.pick([P(self.ty(1), self.ty(1)), L(self.ty(1)), self.ty(2)])
                x = self.exp(u, env, d - 1)
                return ("val", self.pattern(u, n, 2), x, self.exp(t, n, d - 1))
            u = self.ty(1)
            return ("app", self.exp(A(u, t), env, d - 1), self.exp(u, env, d - 1))
        if k in ("var", "glob", "over", "ctl"):
            if k == "glob":
                names = list(PRIM) + list(CONS) + [n for n, v in self.glob.items() if v] * 3 + list(INFIX)
                opts = [(("g", n), inst((self.glob.get(n) or PRIM.get(n) or CONS.get(n) or INFIX[n]), {})) for n in ch.perm(names)[:12]]
            else:
                opts = ch.perm(opts)
            for e, et in opts:
                r, args = et, []
                while True:
                    tr = []
                    try:
                        unify(r, t, tr)
                        ok = len(args) <= (3 if d > 0 else 0)
                    except TypeErr:
                        ok = False
                    if ok and not (e[0] == "g" and e[1] in INFIX and len(args) < 2):
                        if e[0] == "g" and e[1] in INFIX:
                            r = ("bin", e[1], self.exp(args[0], env, d - 1), self.exp(args[1], env, d - 1))
                            args = args[2:]
                        else:
                            r = e
                        for a in args:
                            r = ("app", r, self.exp(a, env, d - 1))
                        return r
                    undo(tr)
                    r = prune(r)
                    if isinstance(r, TV) or r[0] != "->":
                        break
                    args.append(r[1][0])
                    r = r[1][1]
        # build one
        if isinstance(t, TV):
            u = self.ty(1)
            if isinstance(u, TV):
                u = ch.pick([INT, BOOL, STR])
            unify(t, u)
            t = u
        n, a = prune(t)
        if n == "->":
            e = dict(env)
            p = self.pattern(a[0], e, 1)
            if p[0] == "w":
                p = ("v", self.name())
            return ("lam", p, self.exp(a[1], e, d - 1))
        if n == "#": return ("p", self.exp(a[0], env, d - 1), self.exp(a[1], env, d - 1))
        if n == "list": return ("l", [self.exp(a[0], env, d - 1) for _ in range(ch.below(3) if d > 0 else 0)])
        if n == "ty_e":
            return ("app", ("g", "TyA"), self.exp(a[0], env, d - 1)) if ch.bool() else ("app", ("g", "TyB"), self.exp(a[1], env, d - 1))
        if n == "ty_o": return ("g", "TyZ")
        if n in ("int", "bool", "string", "ty_tr"): return self.const(n)
        if n == "ref": return ("app", ("g", "ref"), self.exp(a[0], env, d - 1))
        return ("app", ("g", "hd"), ("l", []))

    def cl(self, t, env, d):
        """clauses of a definition of type t"""
        ch = self.ch
        r, args = prune(t), []
        while not isinstance(r, TV) and r[0] == "->" and ch.bool(5, 6):
            args.append(r[1][0])
            r = prune(r[1][1])
        out = []
        for _ in range(1 if not args else ch.pick([1, 1, 2, 3])):
            e = dict(env)
            ps = [self.pattern(x, e, 2) for x in args]
            out.append((ps, self.exp(r, e, d)))
        return out


def case(ch):
    c = Case()
    glob = {}
    checks = []
    sz = 0
    uid = ch.below(1 << 30)
    for i in range(ch.rng_int(3, 7)):
        g = Gen(ch, glob)
        nm = "ty%dx%d" % (uid, i)
        rec = ch.bool(1, 4)
        t = TV()
        for _ in range(ch.pick([0, 1, 1, 2, 2, 3])):
            t = A(g.ty(2), t)
        t = t if ch.bool(2, 3) else g.ty(3)
        env = {nm: t} if rec else {}
        cl = g.cl(t, env, ch.pick([2, 3, 4]))
        inf = Inf(glob)
        try:
            if rec:
                e = {nm: TV()}
                r = inf.clauses(cl, e)
                unify(e[nm], r)
            else:
                r = inf.clauses(cl, {})
            n = inf.resolve()
            if n == 0:
                raise TypeErr
        except TypeErr:
            r, n = None, 0
        c.st("%s %s;" % ("letrec" if rec else "let", tcl(nm, cl)))
        sz += nodes(cl)
        if r is None:
            checks.append((nm, None))
            c.label("rejected")
        elif n > 1:
            checks.append((nm, ""))
            c.label("implicit")
        else:
            checks.append((nm, canon(r)))
            glob[nm] = r
            c.label("poly" if "*" in canon(r) else "mono")
            if inf.open:
                c.label("resolved")

    def judge(vals, raw):
        got = {}
        for m in re.finditer(r"^(?:: )*(\w+)::(.*)$", raw, re.M):
            got[m.group(1)] = m.group(2)
        for nm, want in checks:
            s = got.get(nm)
            if want is None:
                if s is not None:
                    return "%s has no type, but is accepted with type %s" % (nm, s)
            elif s is None:
                return "%s is rejected; its type is %s" % (nm, want or "overloaded")
            elif want:
                try:
                    p = canon(parse(s))
                except (Bad, IndexError, TypeError):
                    p = "(unreadable)"
                if p != want:
                    return "%s: printed type %s reads as %s; the principal type is %s" % (nm, s, p, want)
    c.judge(judge)
    c.nontrivial = sz >= 25 and any(w is None or w == "" or "*" in w for _, w in checks)
    return c


GROUPS = [Group("infer", case, 600, 60000, batch=50)]
