"""lists, sets, strings and tables against Python models"""
import fnmatch, re
from vlib.engine import Case, Group, ERR

ID = "L02"
PARTS = ()
RULE = ("A case is a history of definitions over the list, set, string or table built-ins, in which results are operands of later "
        "operations and every value is shown when defined and again at the end of the history (and with garbage collections in "
        "between in part of the cases); expected values come from Python lists, strings and dictionaries.  Non-trivial: at least "
        "six different operations succeeded and some value that was used by a later operation is shown again afterwards.")
PREAMBLE = r'''
let vf_i {i::int} = int2str i;
let vf_s s = "\""^s^"\"";
let vf_b b = b == T => "T" | b == F => "F" | "?";
let vf_l f l = list2str T "[" "," "]" f l;
let vf_p f g (a,b) = "("^(f a)^","^(g b)^")";
let vf_sign {i::int} = i < 0 => "-" | i = 0 => "0" | "+";
'''
SMALL = list(range(-3, 8))
STRS = ["", "a", "b", "ab", "ba", "abc", "a[3]", "a[3:0]", "x%d", "x y", " ", "A", "Ab", "aab", "aaa", "bc/d", "q\"w", "back\\sl", "{z}", "%s%s%s", "a\tb"]


def show_fn(t):
    if isinstance(t, str):
        return "vf_" + t
    if t[0] == "l":
        return "(vf_l %s)" % show_fn(t[1])
    return "(vf_p %s %s)" % (show_fn(t[1]), show_fn(t[2]))


def show(t, v):
    if t == "i": return str(v)
    if t == "s": return '"%s"' % v
    if t == "b": return "T" if v else "F"
    if t[0] == "l": return "[%s]" % ",".join(show(t[1], x) for x in v)
    return "(%s,%s)" % (show(t[1], v[0]), show(t[2], v[1]))


def lit(t, v):
    if t == "i": return str(v) if v >= 0 else "(%d)" % v
    if t == "s": return '"%s"' % v.replace("\\", "\\\\").replace('"', '\\"')
    if t == "b": return "T" if v else "F"
    if t[0] == "l": return "[%s]" % ",".join(lit(t[1], x) for x in v) if v else "{[] :: %s}" % tname(t)
    return "(%s,%s)" % (lit(t[1], v[0]), lit(t[2], v[1]))


def tname(t):
    if isinstance(t, str): return {"i": "int", "s": "string", "b": "bool"}[t]
    if t[0] == "l": return "(%s list)" % tname(t[1])
    return "(%s # %s)" % (tname(t[1]), tname(t[2]))


def uniq(l):
    out, seen = [], set()
    for x in l:
        if repr(x) not in seen:
            seen.add(repr(x))
            out.append(x)
    return out


class Bad(Exception):
    pass


def need(c):
    if not c:
        raise Bad()


def frz(v):
    return tuple(map(frz, v)) if isinstance(v, (list, tuple)) else v


class H:
    def __init__(self, ch, types):
        self.ch, self.c = ch, Case()
        self.types, self.vars, self.n = types, [], 0
        self.used, self.ops = set(), set()
        self.reused = False

    def val(self, t, big=True):
        ch = self.ch
        if t == "i":
            return ch.wpick([(5, ch.pick(SMALL)), (1, ch.pick([2**62, 2**63, -2**63, 2**64 + 1, 10**25, -10**25]))]) if big else ch.pick(SMALL)
        if t == "s": return ch.pick(STRS)
        if t == "b": return ch.bool()
        if t[0] == "l":
            n = ch.wpick([(8, ch.below(6)), (1, 20 + ch.below(130))]) if t[1] in ("i", "s") else ch.below(4)
            pool = [self.val(t[1]) for _ in range(1 + ch.below(5))]
            return [ch.pick(pool) for _ in range(n)]
        return (self.val(t[1]), self.val(t[2]))

    def arg(self, t, d=0):
        """(text, value) of type t"""
        ch = self.ch
        cs = [i for i, v in enumerate(self.vars) if v[1] == t]
        if cs and ch.bool(3, 4):
            i = ch.pick(cs)
            self.used.add(i)
            return self.vars[i][0], self.vars[i][2]
        if d < 2 and ch.bool(1, 3):
            try:
                nm, txt, v = self.op(t, d + 1)
                self.ops.add(nm)
                return "(%s)" % txt, v
            except Bad:
                pass
        v = self.val(t)
        return lit(t, v), v

    def pred(self, t):
        """predicate on t: (fl text, python function)"""
        ch = self.ch
        if t == "i":
            k = ch.pick(SMALL)
            return ch.pick([("(\\x. x > %s)" % lit("i", k), lambda x: x > k), ("(\\x. (x % 2) = 0)", lambda x: x % 2 == 0),
                            ("(\\x. x = %s)" % lit("i", k), lambda x: x == k), ("(\\x. T)", lambda x: True), ("(\\x. F)", lambda x: False)])
        if t == "s":
            k = self.val("s")
            return ch.pick([("(\\x. str_is_prefix %s x)" % lit("s", k), lambda x: x.startswith(k)), ("(\\x. (strlen x) > 1)", lambda x: len(x) > 1),
                            ("(\\x. x = %s)" % lit("s", k), lambda x: x == k)])
        if t == "b":
            return ch.pick([("(\\x. x)", lambda x: x), ("(\\x. NOT x)", lambda x: not x)])
        if t[0] == "l":
            k = ch.below(4)
            return ch.pick([("(\\x. (length x) > %d)" % k, lambda x: len(x) > k), ("(\\x. empty x)", lambda x: not x)])
        f, p = self.pred(t[1])
        return "(%s o fst)" % f if False else "(\\y. %s (fst y))" % f, lambda x: p(x[0])

    def fun(self, t):
        """function t -> t"""
        ch = self.ch
        if t == "i":
            k = ch.pick(SMALL)
            return ch.pick([("(\\x. x + %s)" % lit("i", k), lambda x: x + k), ("(\\x. x * x)", lambda x: x * x), ("(\\x. %s)" % lit("i", k), lambda x: k)])
        if t == "s":
            k = self.val("s")
            return ("(\\x. x ^ %s)" % lit("s", k), lambda x: x + k) if ch.bool() else ("(\\x. x)", lambda x: x)
        if t == "b": return "(\\x. NOT x)", lambda x: not x
        if t[0] == "l": return ch.pick([("(\\x. rev x)", lambda x: x[::-1]), ("(\\x. x @ x)", lambda x: x + x), ("(\\x. setify x)", uniq)])
        f, g = self.fun(t[1])
        return "(\\p. (%s (fst p), snd p))" % f, lambda x: (g(x[0]), x[1])

    def op(self, t, d=0):
        """an operation with result type t: (name, text, value); Bad if it must fail (self.bad = its text)"""
        ch = self.ch
        a = lambda t: self.arg(t, d)
        cand = []
        if isinstance(t, tuple) and t[0] == "l":
            E = t[1]
            cand += [self.o_app, self.o_cons, self.o_tl, self.o_rev, self.o_butlast, self.o_firstn, self.o_firstn, self.o_setify, self.o_flat, self.o_map,
                     self.o_filter, self.o_split, self.o_union, self.o_union, self.o_union, self.o_union, self.o_gather, self.o_sep,
                     self.o_replicate, self.o_el2, self.o_assoc2, self.o_find2, self.o_fold, self.o_fold, self.o_grab, self.o_part, self.o_flatmap, self.o_inter, self.o_splitl]
            if E == "i": cand += [self.o_upto, self.o_findall, self.o_qsort, self.o_len2]
            if E == "s": cand += [self.o_explode, self.o_strsplit, self.o_strcl, self.o_qsorts, self.o_reg]
            if isinstance(E, tuple) and E[0] == "p": cand += [self.o_zip]
            if isinstance(E, tuple) and E[0] == "l": cand += [self.o_cluster, self.o_transpose]
            if E == "b": cand += [self.o_mapb]
        elif t == "i":
            cand += [self.o_length, self.o_ff0, self.o_sum, self.o_strlen, self.o_strstr, self.o_loop, self.o_el, self.o_el, self.o_hd, self.o_ord, self.o_assoc]
        elif t == "s":
            cand += [self.o_cat, self.o_implode, self.o_substr, self.o_slast, self.o_slast, self.o_slast, self.o_trim, self.o_gtrim, self.o_el, self.o_hd, self.o_l2s,
                     self.o_chr, self.o_int2str, self.o_assoc]
        elif t == "b":
            cand += [self.o_mem, self.o_mem, self.o_overlap, self.o_seteq, self.o_pre, self.o_pre, self.o_pre, self.o_eq, self.o_eq, self.o_smatch, self.o_scmp, self.o_empty, self.o_reg2]
        else:
            cand += [self.o_el, self.o_hd, self.o_pair, self.o_find]
        f = ch.pick(cand)
        self.bad = None
        nm, txt, fn = f(t, a)
        try:
            v = fn()
        except Bad:
            self.bad = (nm, txt)
            raise
        return nm, txt, v

    # ---- lists
    def lt(self):
        return self.ch.pick([x for x in self.types if isinstance(x, tuple) and x[0] == "l"])

    def o_app(self, t, a):
        x, y = a(t), a(t)
        return "@", "%s @ %s" % (x[0], y[0]), lambda: x[1] + y[1]

    def o_cons(self, t, a):
        x, y = a(t[1]), a(t)
        return ":", "%s:%s" % (x[0], y[0]), lambda: [x[1]] + y[1]

    def o_tl(self, t, a):
        x = a(t)
        return "tl", "tl %s" % x[0], lambda: (need(x[1]), x[1][1:])[1]

    def o_rev(self, t, a):
        x = a(t)
        return "rev", "rev %s" % x[0], lambda: x[1][::-1]

    def o_butlast(self, t, a):
        x = a(t)
        return "butlast", "butlast %s" % x[0], lambda: (need(x[1]), x[1][:-1])[1]

    def cnt(self, l):
        return self.ch.below(min(len(l), 200) + 1) if not self.ch.bool(1, 12) else len(l) + 1 + self.ch.below(2)

    def o_firstn(self, t, a):
        x = a(t)
        n = self.cnt(x[1])
        l = x[1]
        nm, f = self.ch.pick([("firstn", lambda: l[:n]), ("butfirstn", lambda: l[n:]), ("lastn", lambda: l[len(l) - n:]), ("butlastn", lambda: l[:len(l) - n])])
        return nm, "%s %d %s" % (nm, n, x[0]), lambda: (need(n <= len(l)), f())[1]

    def o_setify(self, t, a):
        x = a(t)
        return "setify", "setify %s" % x[0], lambda: uniq(x[1])

    def o_flat(self, t, a):
        x = a(("l", t))
        return "flat", "flat %s" % x[0], lambda: [e for l in x[1] for e in l]

    def o_flatmap(self, t, a):
        x = a(t)
        return "flatmap", "flatmap (\\x. [x,x]) %s" % x[0], lambda: [e for l in x[1] for e in (l, l)]

    def o_inter(self, t, a):
        x = a(("l", t))

        def f():
            out, ll = [], [l for l in x[1]]
            while ll:
                out += [l[0] for l in ll if l]
                ll = [l[1:] for l in ll if l]
            return out
        return "interleave", "interleave %s" % x[0], f

    def o_splitl(self, t, a):
        x = a(t)
        if not x[1]:
            return "rev", "rev %s" % x[0], lambda: x[1]
        n = 1 + self.ch.below(len(x[1]))
        w = self.ch.below(2)
        return "split_list", "(\\q. val (u,v,w) = q in %s) (split_list %d %s)" % (("u", "w")[w], n, x[0]), \
            lambda: (x[1][:n - 1], x[1][n:])[w]

    def o_map(self, t, a):
        x, f = a(t), self.fun(t[1])
        if self.ch.bool(1, 4):
            y = a(t)
            return "map2", "map2 (\\x.\\y. x) %s %s" % (x[0], y[0]), lambda: (need(len(x[1]) == len(y[1])), x[1])[1]
        return "map", "map %s %s" % (f[0], x[0]), lambda: [f[1](e) for e in x[1]]

    def o_mapb(self, t, a):
        E = self.ch.pick(self.types)
        x = a(("l", E))
        p = self.pred(E)
        return "mapb", "map %s %s" % (p[0], x[0]), lambda: [p[1](e) for e in x[1]]

    def o_filter(self, t, a):
        x, p = a(t), self.pred(t[1])
        return "filter", "filter %s %s" % (p[0], x[0]), lambda: [e for e in x[1] if p[1](e)]

    def o_split(self, t, a):
        x, p = a(t), self.pred(t[1])
        w = self.ch.bool()
        return "split", "%s (split %s %s)" % ("fst" if w else "snd", p[0], x[0]), lambda: [e for e in x[1] if p[1](e) == w]

    def o_part(self, t, a):
        x, p = a(t), self.pred(t[1])
        k = 1 + self.ch.below(2)

        def f():
            g = {}
            for e in x[1]:
                g.setdefault(p[1](e), []).append(e)
            need(k <= len(g))
            return list(g.values())[k - 1]
        return "partition", "el %d (partition %s %s)" % (k, p[0], x[0]), f

    def o_union(self, t, a):
        x, y = a(t), a(t)
        nm = self.ch.pick(["union", "intersect", "subtract"])
        X, Y = x[1], y[1]
        if nm == "union" and not (X and Y):         # duplicates of the other operand may stay
            return "union", "setify (%s union %s)" % (x[0], y[0]), lambda: uniq(X + Y)
        f = {"union": lambda: uniq(X + Y), "intersect": lambda: [e for e in uniq(X) if e in Y],
             "subtract": lambda: [e for e in X if e not in Y]}[nm]
        return nm, "%s %s %s" % (x[0], nm, y[0]), f

    def o_gather(self, t, a):
        x = a(t)
        n = len(x[1])
        l = [1 + self.ch.below(n) for _ in range(self.ch.below(5))] if n else []
        if self.ch.bool(1, 12): l.append(n + 1)
        return "gather", "gather %s %s" % (x[0], lit(("l", "i"), l)), lambda: (need(all(i <= n for i in l)), [x[1][i - 1] for i in l])[1]

    def o_sep(self, t, a):
        x = a(t)
        n = len(x[1])
        l = self.ch.perm([1 + i for i in range(min(n, 8)) if self.ch.bool()])
        if self.ch.bool(1, 12): l.append(n + 1)
        w = self.ch.bool()
        return "separate", "%s (separate %s %s)" % ("fst" if w else "snd", x[0], lit(("l", "i"), l)), \
            lambda: (need(all(i <= n for i in l)), [x[1][i - 1] for i in l] if w else [e for i, e in enumerate(x[1]) if i + 1 not in l])[1]

    def o_replicate(self, t, a):
        x, n = a(t[1]), self.ch.below(5)
        return "replicate", "replicate %d %s" % (n, x[0]), lambda: [x[1]] * n

    def o_el2(self, t, a):
        x = a(("l", t))
        return self.elem(x)

    def elem(self, x):
        l = x[1]
        nm = self.ch.pick(["el", "el", "el", "hd", "last"])
        n = 1 + self.ch.below(len(l)) if l and not self.ch.bool(1, 12) else self.ch.pick([0, -1, len(l) + 1])
        if nm == "hd": return "hd", "hd %s" % x[0], lambda: (need(l), l[0])[1]
        if nm == "last": return "last", "last %s" % x[0], lambda: (need(l), l[-1])[1]
        return "el", "el %s %s" % (lit("i", n), x[0]), lambda: (need(1 <= n <= len(l)), l[n - 1])[1]

    def o_el(self, t, a): return self.elem(a(("l", t)))
    def o_hd(self, t, a): return self.elem(a(("l", t)))

    def o_find(self, t, a):
        x, p = a(("l", t)), self.pred(t)

        def f():
            l = [e for e in x[1] if p[1](e)]
            need(l)
            return l[0]
        return "find", "find %s %s" % (p[0], x[0]), f
    o_find2 = o_find

    def o_assoc(self, t, a):
        k = self.ch.pick([q for q in self.types if q != t] or ["i"])
        back = self.ch.bool(1, 3)
        x = a(("l", ("p", t, k) if back else ("p", k, t)))
        ki, vi = (1, 0) if back else (0, 1)
        keys = uniq([e[ki] for e in x[1]])
        if keys and self.ch.bool(4, 5):
            kv = self.ch.pick(keys)
            kt = lit(k, kv)
        else:
            kt, kv = a(k)

        def f():
            l = [e[vi] for e in x[1] if e[ki] == kv]
            need(l)
            return l[0]
        nm = "rev_assoc" if back else "assoc"
        return nm, "%s %s %s" % (nm, kt, x[0]), f
    o_assoc2 = o_assoc

    def o_fold(self, t, a):
        x = a(t)
        nm = self.ch.pick(["itlist", "sitlist", "rev_itlist"])
        y = a(t)
        return nm, "%s (\\x.\\y. x:y) %s %s" % (nm, x[0], y[0]), lambda: (x[1][::-1] if nm == "rev_itlist" else x[1]) + y[1]

    def o_grab(self, t, a):
        x, n = a(t), self.ch.below(6)
        y = a(t)
        return "atmost", "atmost %d %s %s" % (n, x[0], y[0]), lambda: x[1] if len(x[1]) <= n else x[1][:n] + y[1]

    def o_upto(self, t, a):
        i, j = self.ch.pick(SMALL), self.ch.pick(SMALL)
        nm = self.ch.pick(["upto", "downto", "--"])
        return nm, "%s %s %s" % (lit("i", i), nm, lit("i", j)), lambda: list(range(i, j + 1)) if nm == "upto" or (nm == "--" and i <= j) else list(range(i, j - 1, -1))

    def o_findall(self, t, a):
        E = self.ch.pick(self.types)
        x, p = a(("l", E)), self.pred(E)
        return "find_all", "find_all %s %s" % (p[0], x[0]), lambda: [i + 1 for i, e in enumerate(x[1]) if p[1](e)]

    def o_qsort(self, t, a):
        x = a(t)
        if self.ch.bool():
            return "qsort", "qsort (\\x.\\y. y - x) %s" % x[0], lambda: sorted(x[1], reverse=True)
        return "qsort", "qsort (\\x.\\y. x < y => (-1) | x = y => 0 | 1) %s" % x[0], lambda: sorted(x[1])

    def o_qsorts(self, t, a):
        x = a(t)
        return "qsort strcmp", "qsort strcmp %s" % x[0], lambda: sorted(x[1])

    def o_len2(self, t, a):
        E = self.ch.pick(self.types)
        x = a(("l", ("l", E)))
        return "map length", "map length %s" % x[0], lambda: [len(l) for l in x[1]]

    def o_zip(self, t, a):
        x, y = a(("l", t[1][1])), a(("l", t[1][2]))
        n = min(len(x[1]), len(y[1]))
        if self.ch.bool(5, 6):
            return "zip", "zip (firstn %d %s) (firstn %d %s)" % (n, x[0], n, y[0]), lambda: list(zip(x[1][:n], y[1][:n]))
        return "zip", "zip %s %s" % (x[0], y[0]), lambda: (need(len(x[1]) == len(y[1])), list(zip(x[1], y[1])))[1]

    def o_cluster(self, t, a):
        x = a(t[1])
        ds = [k for k in range(1, 6) if len(x[1]) % k == 0]
        k = self.ch.pick(ds) if not self.ch.bool(1, 10) else self.ch.below(4)
        return "cluster", "cluster %d %s" % (k, x[0]), \
            lambda: (need(k > 0 and len(x[1]) % k == 0), [x[1][i:i + k] for i in range(0, len(x[1]), k)])[1]

    def o_transpose(self, t, a):
        x = a(t[1])
        k = self.ch.pick([k for k in range(1, 6) if len(x[1]) % k == 0])
        if not x[1]:
            return "cluster", "cluster 1 %s" % x[0], lambda: []
        return "transpose", "transpose (cluster %d %s)" % (k, x[0]), lambda: [list(r) for r in zip(*[x[1][i:i + k] for i in range(0, len(x[1]), k)])]

    # ---- integers
    def o_length(self, t, a):
        x = a(self.lt())
        return "length", "length %s" % x[0], lambda: len(x[1])

    def o_ff0(self, t, a):
        l = self.lt()
        x, p = a(l), self.pred(l[1])
        return "find_first0", "find_first0 %s %s" % (p[0], x[0]), lambda: next((i + 1 for i, e in enumerate(x[1]) if p[1](e)), 0)

    def o_sum(self, t, a):
        x = a(("l", "i"))
        nm = self.ch.pick(["itlist", "sitlist", "rev_itlist"])

        def f():
            r = 0
            for e in (x[1] if nm == "rev_itlist" else x[1][::-1]):
                r = e - 2 * r
            return r
        return nm, "%s (\\x.\\y. x - 2*y) %s 0" % (nm, x[0]), f

    def o_loop(self, t, a):
        k, m = 1 + self.ch.below(4), self.ch.below(40)
        return "loop", "loop (\\x. x + %d) (\\x. x > %d) 0" % (k, m), lambda: next(x for x in range(0, 1000, k) if x > m)

    def o_strlen(self, t, a):
        x = a("s")
        return "strlen", "strlen %s" % x[0], lambda: len(x[1])

    def o_strstr(self, t, a):
        x, y = a("s"), a("s")
        return "strstr", "strstr %s %s" % (x[0], y[0]), lambda: x[1].find(y[1]) + 1

    def o_ord(self, t, a):
        x = a("s")
        return "ord", "ord (substr %s 1 1)" % x[0] if x[1] else "strlen %s" % x[0], lambda: ord(x[1][0]) if x[1] else 0

    # ---- strings
    def lim(self, s):
        return s

    def o_cat(self, t, a):
        x, y = a("s"), a("s")
        return "^", "%s ^ %s" % (x[0], y[0]), lambda: x[1] + y[1]

    def o_implode(self, t, a):
        x = a(("l", "s"))
        return "implode", "implode %s" % x[0], lambda: "".join(x[1])

    def o_l2s(self, t, a):
        E = self.ch.pick(["i", "s"])
        x, pe = a(("l", E)), self.ch.bool()
        return "list2str", 'list2str %s "{" "%%," "}" %s %s' % ("T" if pe else "F", "int2str" if E == "i" else "vf_s", x[0]), \
            lambda: "{" + "%,".join(show(E, e) for e in x[1]) + "}" if x[1] or pe else ""

    def o_substr(self, t, a):
        x = a("s")
        n = len(x[1])
        p = self.ch.pick([0, 1, 1, 2, 3, max(n, 1), n + 1])
        k = self.ch.pick([-1, 0, 1, 2, max(0, n - p + 1), n + 1])

        def f():
            need(p >= 1)
            if p > n: return ""
            if k < 0: return x[1][p - 1:]
            need(p + k - 1 <= n)
            return x[1][p - 1:p - 1 + k]
        return "substr", "substr %s %d %s" % (x[0], p, lit("i", k)), f

    def o_slast(self, t, a):
        x = a("s")
        n = self.ch.below(len(x[1]) + 2)
        s = x[1]
        nm, f = self.ch.pick([("string_lastn", lambda: s[max(0, len(s) - n):]), ("string_butlastn", lambda: s[:max(0, len(s) - n)]),
                              ("string_butfirstn", lambda: (need(n <= len(s)), s[n:])[1])])
        return nm, "%s %s %d" % (nm, x[0], n), f

    def o_trim(self, t, a):
        x = a("s")
        p = "".join(self.ch.pick([" ", "\t"]) for _ in range(self.ch.below(3)))
        return "trim", "trim (%s ^ %s ^ %s)" % (lit("s", p), x[0], lit("s", p)), lambda: x[1].strip(" \t\n\r\v\f")

    def o_gtrim(self, t, a):
        x = a("s")
        p, q = self.val("s"), self.val("s")

        def f():
            i = x[1].find(p)
            need(i >= 0)
            r = x[1][i + len(p):]
            j = r.rfind(q)
            need(j >= 0)
            return r[:j]
        if q == "":
            q = "a"
        return "gen_trim", "gen_trim %s %s %s" % (lit("s", p), lit("s", q), x[0]), f

    def o_chr(self, t, a):
        k = self.ch.pick([32, 37, 48, 65, 97, 126])
        return "chr", "chr %d" % k, lambda: chr(k)

    def o_int2str(self, t, a):
        x = a("i")
        return "int2str", "int2str %s" % x[0], lambda: str(x[1])

    def o_explode(self, t, a):
        x = a("s")
        return "explode", "explode %s" % x[0], lambda: list(x[1])

    def o_strsplit(self, t, a):
        x = a("s")
        y = self.ch.pick(["", "a", "b", "ab", " ", "%", "aa", ","])

        def f():
            if y == "": return list(x[1])
            return x[1].split(y) if x[1] else []
        return "str_split", "str_split %s %s" % (x[0], lit("s", y)), f

    def o_strcl(self, t, a):
        x = a("s")
        ds = [k for k in range(1, 6) if len(x[1]) % k == 0]
        k = self.ch.pick(ds) if not self.ch.bool(1, 10) else 1 + self.ch.below(4)
        return "str_cluster", "str_cluster %s %d" % (x[0], k), \
            lambda: (need(len(x[1]) % k == 0), [x[1][i:i + k] for i in range(0, len(x[1]), k)])[1]

    PATS = ["^([a-c]+)(.*)$", "([0-9]+)", "^(.*)\\[([0-9]+)\\]$", "^([^%]*)%([a-z])", "(a)(b*)", "^x(.*)$", "([A-Z])", "[ ]", "^([a-z]*)([^a-z]*)$", "a{2}", "^([a-z]+)/([a-z]+)$",
            "(.)$", "^a?b?(c?)", "[a-b][b-c]"]

    def o_reg(self, t, a):
        x = a("s")
        p = self.ch.pick(self.PATS)

        def f():
            m = re.search(p, x[1], re.S)
            need(m)
            return [m.group(0)] + list(m.groups())
        return "str_reg_extract", "str_reg_extract %s %s" % (lit("s", p), x[0]), f

    def o_reg2(self, t, a):
        x = a("s")
        p = self.ch.pick(self.PATS)
        return "str_reg_match", "str_reg_match %s %s" % (lit("s", p), x[0]), lambda: re.search(p, x[1], re.S) is not None

    # ---- booleans
    def o_mem(self, t, a):
        E = self.ch.pick(self.types)
        x = a(("l", E))
        if x[1] and self.ch.bool():
            v = self.ch.pick(x[1])
            y = lit(E, v), v
        else:
            y = a(E)
        return "mem", "mem %s %s" % (y[0], x[0]), lambda: y[1] in x[1]

    def o_overlap(self, t, a):
        l = self.lt()
        x, y = a(l), a(l)
        return "overlap", "%s overlap %s" % (x[0], y[0]), lambda: any(e in y[1] for e in x[1])

    def o_seteq(self, t, a):
        l = self.lt()
        x = a(l)
        y = a(l)
        if self.ch.bool():
            y = "(rev (setify %s))" % x[0], x[1]
        return "set_eq", "set_eq (setify %s) (setify %s)" % (x[0], y[0]), lambda: sorted(map(repr, uniq(x[1]))) == sorted(map(repr, uniq(y[1])))

    def o_empty(self, t, a):
        x = a(self.lt())
        return "empty", "empty %s" % x[0], lambda: not x[1]

    def o_eq(self, t, a):
        E = self.ch.pick(self.types)
        x = a(E)
        y = a(E)
        if self.ch.bool(1, 3):
            y = lit(E, x[1]), x[1]
        o = self.ch.pick(["==", "!=="]) if E != "i" and E != "s" and E != "b" else self.ch.pick(["=", "!=", "=="])
        return o, "%s %s %s" % (x[0], o, y[0]), lambda: (x[1] == y[1]) == (o[0] == "=")

    def o_pre(self, t, a):
        x, y = a("s"), a("s")
        if y[1] and self.ch.bool():
            i = self.ch.below(len(y[1]))
            j = self.ch.rng_int(i, len(y[1]))
            v = self.ch.pick([y[1][:j], y[1][i:], y[1][i:j]])
            x = lit("s", v), v
        nm, f = self.ch.pick([("str_is_prefix", lambda: y[1].startswith(x[1])), ("str_is_suffix", lambda: y[1].endswith(x[1])), ("str_is_substr", lambda: x[1] in y[1])])
        return nm, "%s %s %s" % (nm, x[0], y[0]), f

    def o_smatch(self, t, a):
        x = a("s")
        p = self.ch.pick(["*", "a*", "*b", "?", "a?c", "[a-c]*", "*[b]", "??", "x*y", "*a*", "a*b*", ""])
        return "str_match", "str_match %s %s" % (lit("s", p), x[0]), lambda: fnmatch.fnmatchcase(x[1], p)

    def o_scmp(self, t, a):
        x, y = a("s"), a("s")
        ci = self.ch.bool()
        k = self.ch.pick(["<", "=", ">"])
        u, v = (x[1].lower(), y[1].lower()) if ci else (x[1], y[1])
        return "strcasecmp" if ci else "strcmp", "((%s %s %s) %s 0)" % ("strcasecmp" if ci else "strcmp", x[0], y[0], k), \
            lambda: {"<": u < v, "=": u == v, ">": u > v}[k]

    def o_pair(self, t, a):
        x, y = a(t[1]), a(t[2])
        return "pair", "(%s, %s)" % (x[0], y[0]), lambda: (x[1], y[1])

    # ----
    def small(self, v):
        return len(repr(v)) < 3000

    def step(self):
        ch, c = self.ch, self.c
        t = ch.pick(self.types)
        nm, fl = "x%d" % self.n, None
        self.n += 1
        if not self.vars or ch.bool(1, 4):
            v = self.val(t)
            o, fl = "literal", lit(t, v)
        else:
            try:
                o, fl, v = self.op(t)
            except Bad:
                if self.bad:
                    c.ask("%s (%s)" % (show_fn(t), self.bad[1]), ERR, note=self.bad[0])
                return
        if not self.small(v):
            return
        c.st("let %s = %s;" % (nm, fl))
        self.vars.append((nm, t, v))
        if o != "literal":
            self.ops.add(o)
        if ch.bool(2, 3):
            c.ask("%s %s" % (show_fn(t), nm), show(t, v), note=o)

    def finish(self):
        ch, c = self.ch, self.c
        for nm, t, v in ch.perm(self.vars):
            c.ask("%s %s" % (show_fn(t), nm), show(t, v), note="%s at the end" % nm)
        for o in self.ops:
            c.label(o)
        c.nontrivial = len(self.ops) >= 6 and len(self.used) >= 2
        return c


def hist(ch, types, n):
    h = H(ch, types)
    if ch.bool(1, 3):
        h.c.st("test_gc_interval %d;" % ch.pick([30, 70, 200]))
    for _ in range(ch.rng_int(*n)):
        h.step()
    r = h.finish()
    r.st("test_gc_interval 0;")
    return r


def g_list(ch):
    E = ch.pick(["i", "s", ("p", "i", "s"), ("l", "i"), "b", ("p", "s", "i")])
    types = [E, ("l", E), ("l", E), ("l", "i"), "i", "b"]
    if ch.bool(): types.append(("l", ("l", E)))
    return hist(ch, [t for i, t in enumerate(types) if t not in types[:i] or t == ("l", E)], (6, 22))


def g_str(ch):
    return hist(ch, ["s", "s", "s", ("l", "s"), "i", "b"], (6, 22))


def g_assoc(ch):
    k, v = ch.pick(["i", "s", ("l", "i")]), ch.pick(["s", "i", ("l", "i"), "b"])
    return hist(ch, [("l", ("p", k, v)), ("l", ("p", k, v)), ("p", k, v), k, v, ("l", v)], (6, 20))


def g_table(ch):
    c = Case()
    kt, vt = ch.pick(["i", "s", ("p", "i", "s"), ("l", "i")]), ch.pick(["i", "s", ("l", "s"), "b"])
    h = H(ch, [kt, vt])
    h.c = c
    if ch.bool(1, 3):
        c.st("test_gc_interval %d;" % ch.pick([30, 70, 200]))
    tabs, n, ops, dead = [], 0, set(), []
    srt = lambda l: sorted(l)
    pool = uniq([h.val(kt) for _ in range(8)])
    for _ in range(ch.rng_int(6, 25)):
        k = ch.below(12)
        if not tabs or k == 11:
            nm = "t%d" % n
            n += 1
            if ch.bool():
                c.st("let %s = tbl_create %d;" % (nm, ch.pick([1, 2, 10, 100])))
                tabs.append((nm, {}))
            else:
                d = dict((repr(q), (q, h.val(vt))) for q in ch.subset(pool))
                c.st("let %s = list2tbl %s;" % (nm, lit(("l", ("p", kt, vt)), list(d.values()))))
                tabs.append((nm, d))
            ops.add("create")
            continue
        i = ch.below(len(tabs))
        tn, d = tabs[i]
        key = ch.pick(pool)
        r = repr(key)
        if k in (0, 1):
            c.ask("vf_b (tbl_member %s %s)" % (tn, lit(kt, key)), "T" if r in d else "F", note="tbl_member")
            ops.add("member")
        elif k in (2, 3):
            c.ask("%s (tbl_get %s %s)" % (show_fn(vt), tn, lit(kt, key)), show(vt, d[r][1]) if r in d else ERR, note="tbl_get")
            ops.add("get")
        elif k == 4:
            w = ch.below(3)
            e = [lambda: sorted(show(("p", kt, vt), x) for x in d.values()), lambda: sorted(show(kt, x[0]) for x in d.values()),
                 lambda: sorted(show(vt, x[1]) for x in d.values())][w]()
            f, g = [("tbl2list", show_fn(("p", kt, vt))), ("tbl2keys", show_fn(kt)), ("tbl2data", show_fn(vt))][w]
            c.ask('list2str T "" "|" "" id (qsort strcmp (map %s (%s %s)))' % (g, f, tn), "|".join(e), note=f)
            ops.add(f)
        elif k == 5:
            c.ask("vf_i (table_size %s)" % tn, str(len(d)), note="table_size")
        else:
            nm = "t%d" % n
            n += 1
            nd, ok = dict(d), True
            if k in (6, 7):
                v = h.val(vt)
                e = "tbl_insert %s %s %s" % (tn, lit(kt, key), lit(vt, v))
                ok = r not in d
                nd[r] = (key, v)
            elif k == 8:
                l = [(q, h.val(vt)) for q in ch.subset(pool)]
                if l and ch.bool(1, 10): l.append(l[0])
                e = "tbl_insertn %s %s" % (tn, lit(("l", ("p", kt, vt)), l))
                rs = [repr(q) for q, _ in l]
                ok = len(set(rs)) == len(rs) and not any(q in d for q in rs)
                for q in l: nd[repr(q[0])] = q
            elif k == 9:
                e = "tbl_delete %s %s" % (tn, lit(kt, key))
                ok = r in d
                nd.pop(r, None)
            elif kt == vt and ch.bool():
                l = ch.subset(pool)
                e = "set_tbl_insertn %s %s" % (tn, lit(("l", kt), l))
                ok = not any(repr(q) in d for q in l)
                for q in l: nd[repr(q)] = (q, q)
            else:
                e = "tbl_clear %s" % tn
                nd = {}
            ops.add(e.split()[0])
            c.st("let %s = %s;" % (nm, e))
            c.ask("vf_i (table_size %s)" % nm, str(len(nd)) if ok else ERR, note=e)
            if ok:
                tabs[i] = (nm, nd)
                dead.append(tn)
        if dead and ch.bool(1, 10):
            c.ask("vf_i (table_size %s)" % ch.pick(dead), ERR, note="use of a changed table")
    for tn, d in tabs:
        c.ask('list2str T "" "|" "" id (qsort strcmp (map %s (tbl2list %s)))' % (show_fn(("p", kt, vt)), tn),
              "|".join(sorted(show(("p", kt, vt), x) for x in d.values())), note="final contents")
    c.st("test_gc_interval 0;")
    for o in ops: c.label(o)
    c.nontrivial = len(ops) >= 5
    return c


def vexpand(parts):
    out = [""]
    for p in parts:
        if isinstance(p, str):
            out = [o + p for o in out]
        else:
            idx = [i for a, b in p for i in (range(a, b + 1) if a <= b else range(a, b - 1, -1))]
            out = ["%s%d" % (o, i) for o in out for i in idx]
    return out


def vtext(parts):
    return "".join(p if isinstance(p, str) else ",".join(str(a) if a == b else "%d:%d" % (a, b) for a, b in p) for p in parts)


def g_vec(ch):
    c = Case()
    bases = [["a[", 0, "]"], ["b[", 0, "][", 0, "]"], ["m/x[", 0, "]y[", 0, "]/q"], ["c"], ["d[", 0, "].e"], ["a[", 0, "][", 0, "]"], ["ab[", 0, "]"], ["a"],
             ["t1[", 0, "]"], ["t12[", 0, "]"]]
    use = ch.perm(bases)[:ch.rng_int(1, 3)]
    hi = ch.pick([3, 5, 12])

    def vec(single):
        parts = []
        for p in ch.pick(use):
            if p == 0:
                l = []
                for _ in range(1 if single else ch.rng_int(1, 3)):
                    a = ch.below(hi)
                    l.append((a, a if single or ch.bool(1, 3) else ch.below(hi)))
                p = l
            parts.append(p)
        return parts
    single = ch.bool(1, 3)
    l = [vec(single) for _ in range(ch.rng_int(1, 9))]
    if ch.bool(1, 4):
        l = ch.perm([[x] for p in l for x in vexpand(p)])[:40]
    txt = "[%s]" % ",".join('"%s"' % vtext(p) for p in l)
    e1 = [vexpand(p) for p in l]
    if sum(map(len, e1)) > 400:
        l, e1 = l[:1], e1[:1]
        txt = '["%s"]' % vtext(l[0])
        if len(e1[0]) > 400:
            return c
    ex = [x for e in e1 for x in e]
    c.st("let l = %s;" % txt)
    sh = lambda f: 'list2str T "" " " "" id (%s)' % f
    p = ch.below(len(l))
    c.ask(sh('md_expand_vector "%s"' % vtext(l[p])), " ".join(e1[p]), note="md_expand_vector")
    c.ask('vf_i (md_size "%s")' % vtext(l[p]), str(len(e1[p])), note="md_size")
    c.ask(sh("md_expand_vectors l"), " ".join(ex), note="md_expand_vectors")
    c.ask("vf_i (md_sizes l)", str(len(ex)), note="md_sizes")
    md = any(x.count("[") > 1 for x in ex)
    for f in ("md_merge_vectors", "merge_vectors"):
        if f == "merge_vectors" and md:         # only runs of indices are kept together
            c.ask(sh("md_expand_vectors (%s l)" % f), lambda got: sorted(got.split()) == sorted(ex), note="expansion of %s; expected some order of %s" % (f, " ".join(ex)))
        else:
            c.ask(sh("md_expand_vectors (%s l)" % f), " ".join(ex), note="expansion of " + f)
    for f in ("md_extract_vectors", "extract_vectors"):
        def judge(got, ex=ex):
            g = got.split()
            return set(g) == set(ex) and (len(g) == len(set(g)) or len(ex) != len(set(ex)) and md)
        c.ask(sh("md_expand_vectors (%s l)" % f), judge, note="expansion of %s; expected the set %s" % (f, " ".join(sorted(set(ex)))))
    for f in ("merge_vectors", "extract_vectors"):
        c.ask(sh("%s l" % f), lambda got: all("," not in x for x in got.split(" ")), note="ranges of " + f)
    c.nontrivial = len(ex) >= 4 and len(l) >= 2 and "[" in txt
    return c


def g_vecops(ch):
    """intersection, subtraction, overlap, zip and lookup of lists of vectors, against their expansions"""
    c = Case()
    bases = [["a[", 0, "]"], ["b[", 0, "][", 0, "]"], ["m/x[", 0, "]y[", 0, "]/q"], ["c"], ["a[", 0, "][", 0, "]"], ["a"], ["t1[", 0, "]"], ["t12[", 0, "]"]]
    use = ch.perm(bases)[:ch.rng_int(1, 3)]
    hi = ch.pick([2, 3, 5])

    def vec():
        parts = []
        for p in ch.pick(use):
            if p == 0:
                p = []
                for _ in range(1 if ch.bool(2, 3) else 2):
                    a = ch.below(hi)
                    p.append((a, a if ch.bool(1, 3) else ch.below(hi)))
            parts.append(p)
        return parts

    def vecs(n):
        return [vec() for _ in range(ch.rng_int(1, n))]
    L, R = vecs(5), vecs(5)
    if ch.bool(1, 3):
        R += [ch.pick(L)]
        R = ch.perm(R)
    T = lambda l: "[%s]" % ",".join('"%s"' % vtext(p) for p in l)
    E = lambda l: [x for p in l for x in vexpand(p)]
    el, er = E(L), E(R)
    sh = lambda f: 'list2str T "" " " "" id (%s)' % f
    c.st("let l = %s;" % T(L))
    c.st("let r = %s;" % T(R))
    inter = sorted(set(el) & set(er))
    diff = sorted(set(el) - set(er))
    c.ask(sh("md_expand_vectors (l vec_intersect r)"), lambda g: sorted(set(g.split())) == inter, note="vec_intersect; expected the set " + " ".join(inter))
    c.ask(sh("md_expand_vectors (l vec_subtract r)"), lambda g: sorted(g.split()) == diff, note="vec_subtract; expected the set " + " ".join(diff))
    c.ask("vf_b (l vec_overlap r)", "T" if inter else "F", note="vec_overlap")
    # zip: same length on both sides, different groupings
    n = ch.pick([len(el), len(el), min(len(el), len(er))])
    Z = []
    k = n
    fam = ch.below(3)
    while k:                                     # a second list of exactly n bits over fresh names
        w = ch.rng_int(1, k)
        i = len(Z)
        if fam and w % 2 == 0 and w > 2:
            Z.append((["z%d[" % i, [(w // 2 - 1, 0)], "][", [(1, 0)], "]"]))
        elif w == 1 and ch.bool():
            Z.append(["z%d" % i])
        else:
            Z.append(["z%d[" % i, [(w - 1, 0)], "]"])
        k -= w
    ez = E(Z)
    zip_e = 'list2str T "" " " "" id (map (\\p. (list2str T "" "," "" id (md_expand_vector (fst p)))^"="^(list2str T "" "," "" id (md_expand_vector (snd p)))) (vec_zip %s %s))'
    zip_e = zip_e.replace("\\\\", "\\")

    def jz(a, b):
        def judge(g):
            prs = [q.split("=") for q in g.split()]
            xs = [q[0].split(",") for q in prs]
            ys = [q[1].split(",") for q in prs]
            return all(len(x) == len(y) for x, y in zip(xs, ys)) and sum(xs, []) == a and sum(ys, []) == b
        return judge
    flip = ch.bool()
    if n == len(el):
        A, B, ea, eb = (Z, L, ez, el) if flip else (L, Z, el, ez)
        c.ask(zip_e % (T(A), T(B)), jz(ea, eb), note="vec_zip; expected %s = %s" % (" ".join(ea), " ".join(eb)))
    else:
        c.ask(zip_e % (T(L), T(Z)), ERR, note="vec_zip with different lengths")
    # lookup: substitution on disjoint sources
    src, seen = [], set()
    for p in L + R:
        e = vexpand(p)
        if len(set(e)) == len(e) and not (set(e) & seen):
            src.append(p)
            seen |= set(e)
    if src:
        tgt = []
        for i, p in enumerate(src):
            w = len(vexpand(p))
            tgt.append(["w%d" % i] if w == 1 and ch.bool() else ["w%d[" % i, [(w - 1, 0)], "]"])
        tab = dict(zip(E(src), E(tgt)))
        q = ch.pick([ch.pick(src), vec(), vec()])
        want = [tab.get(x) for x in vexpand(q)]
        sub = "[%s]" % ",".join('("%s","%s")' % (vtext(a), vtext(b)) for a, b in zip(src, tgt))
        c.ask(sh('md_expand_vectors (vec_assoc "%s" %s)' % (vtext(q), sub)), ERR if None in want else " ".join(want), note="vec_assoc")
        c.label("assoc-miss" if None in want else "assoc-hit")
    if inter:
        c.label("overlap")
    if any(x.count("[") > 1 for x in el):
        c.label("md")
    c.nontrivial = len(el) >= 4 and (bool(inter) or n == len(el))
    return c


GROUPS = [
    Group("vecops", g_vecops, 600, 30000, batch=100, preamble='load "ste.fl";\n' + PREAMBLE),
    Group("vec", g_vec, 600, 30000, batch=100),
    Group("list", g_list, 700, 60000, batch=50),
    Group("str", g_str, 500, 40000, batch=50),
    Group("assoc", g_assoc, 300, 20000, batch=50),
    Group("table", g_table, 300, 20000, batch=50),
]
