from vlib.engine import Case, Group, ERR
from vlib import bdd, ckt
from checks import S01

ID = "P01"
PARTS = ("functor", "generics")
RULE = ("A case is a random hierarchical circuit to which a random sequence of transformations (folding, unfolding, flattening, "
        "renaming of internals, constant isolation and propagation, splitting and normalising of expressions) is applied; the "
        "transformed circuit is simulated and its inputs and outputs are compared, at every time and under all assignments, with "
        "a reference simulator run on the original circuit.  Non-trivial: some output takes at least three values over time, one "
        "of them neither X nor constant, and the transformation changed the circuit.")
PREAMBLE = r'''load "ste.fl";
''' + S01.PREAMBLE + r'''
let vf_hier (PINST _ _ _ _ _ _ (P_HIER _)) = T /\ vf_hier _ = F;
let vf_kids (PINST _ _ _ _ _ _ (P_HIER cs)) = cs /\ vf_kids _ = [];
let vf_n p = length (vf_kids p);
letrec vf_hidx i (c:cs) = vf_hier c => (i:(vf_hidx (i+1) cs)) | (vf_hidx (i+1) cs)
 /\    vf_hidx i [] = [];
let vf_unfold k p = let l = vf_hidx 1 (vf_kids p) in l == [] => p | unfold_pexlif p (el ((k % (length l)) + 1) l);
let vf_sel mask p = filter (\i. ((mask / (2**(i-1))) % 2) = 1) (1 upto (vf_n p));
let vf_fold mask nm p = vf_hier p => (let l = vf_sel mask p in l == [] => p | fold_pexlif p l nm) | p;
let vf_foldn m1 m2 p =
    NOT (vf_hier p) => p |
    let a = vf_sel m1 p in
    let b = (vf_sel m2 p) subtract a in
    let l = (a == [] => [] | [("fa",a)])@(b == [] => [] | [("fb",b)]) in
    l == [] => p | foldn_pexlif p l;
let vf_foldna m1 m2 p =
    NOT (vf_hier p) => p |
    let a = vf_sel m1 p in
    let b = (vf_sel m2 p) subtract a in
    let l = (a == [] => [] | [a])@(b == [] => [] | [b]) in
    l == [] => p | foldn_pexlif_anon p l "grp";
let vf_ren p = vf_hier p => rename_internals p | p;
let vf_hdo f p = vf_hier p => f p | p;
let vf_relbl f p = val (PINST n a l i o t c) = p in PINST n (f a) l i o t c;
letrec vf_lbls m (c:cs) = let k = m % 4 in
        (vf_relbl (\a. (k == 0 => [] | k == 1 => [("Label","L1")] | k == 2 => [("Label","L2")] | [("Label","L1"),("Label","L2")])@a) c)
        :(vf_lbls (m/4) cs)
 /\    vf_lbls m [] = [];
let vf_label m p = NOT (vf_hier p) => p |
    val (PINST n a l i o t (P_HIER cs)) = p in PINST n a l i o t (P_HIER (vf_lbls m cs));
let vf_fn f (W_UPDATE_FN l r) = W_UPDATE_FN l (f r)
 /\    vf_fn f (W_PHASE_DELAY l r) = W_PHASE_DELAY l (f r);
letrec vf_mapw f (PINST n a l i o t (P_HIER cs)) = PINST n a l i o t (P_HIER (map (vf_mapw f) cs))
 /\    vf_mapw f (PINST n a l i o t (P_LEAF fs)) = PINST n a l i o t (P_LEAF (map (vf_fn f) fs));
'''


def trans(ch):
    """a random transformation: (name, fl function text)"""
    m = lambda: ch.below(1 << 8)
    return ch.pick([
        ("unfold", "vf_unfold %d" % m()),
        ("unfold", "vf_unfold %d" % m()),
        ("fold", 'vf_fold %d "%s"' % (m(), ch.pick(["grp", "a", "x1"]))),
        ("fold", 'vf_fold %d "%s"' % (m(), ch.pick(["grp", "a", "x1"]))),
        ("foldn", "vf_foldn %d %d" % (m(), m())),
        ("foldna", "vf_foldna %d %d" % (m(), m())),
        ("rename", "vf_ren"),
        ("flatten", "vf_hdo (\\p. gen_flatten_pexlif (\\q. F) p)"),
        ("flatten1", "vf_hdo (\\p. gen_flatten_pexlif (\\q. val (PINST n _ _ _ _ _ _) = q in n = \"cell%d\") p)" % ch.below(4)),
        ("isolate", "pexlif_isolate_constants"),
        ("label", "(\\p. pexlif_group_by_label (vf_label %d p))" % ch.below(1 << 16)),
        ("bylabel", "(\\p. vf_hdo (\\q. fold_by_label q (\\x. x == (\"Label\",\"L1\")) \"lab\") (vf_label %d p))" % ch.below(1 << 16)),
    ])


def sim_case(ch, seq, gen, opt=False, **kw):
    c = Case()
    k = ckt.Circuit(ch, gen, top_hier=True, clean=True, **kw)
    r = S01.Run(ch, c, circ=k, weak=False, T=3, only_inputs=True, nv=(1, 3))
    r.t0 = 0
    names = [n for n, _ in seq]
    if not r.ants:
        b = ckt.bits(*k.inps[0])[0]
        r.ants.append((r.w.mask, b, 0, 0, 1))
        r.ta.append('(T,"%s",F,0,1)' % b)
    r.cs = []
    c.st("let vs = %s;" % r.w.vars_fl())
    c.st("let p0 = %s;" % k.text)
    for i, (n, t) in enumerate(seq):
        c.st("let p%d = (%s) p%d;" % (i + 1, t, i))
        c.label(n)
    p = "p%d" % len(seq)
    if opt:
        c.st("let okn = (%s fseq T) catch F;" % p)
    c.st('let q = PINST "vtop" [] F [%s] [%s,("vkeep",["vkeep"])] [] (P_HIER [%s,PINST "keep" [] T [%s] [("vkeep",["vkeep"])] [] '
         '(P_LEAF [W_UPDATE_FN (W_VAR 1 "vkeep") (W_EQ (W_CAT [%s]) (W_CONST %d 0))])]);' %
         (k.fa(k.inps), k.fa(k.outs), p, k.fa(k.inps), ",".join('W_VAR %d "%s"' % (w, n) for n, w in k.inps), sum(w for _, w in k.inps)))
    c.st('let ckt = pexlif2fsm q;')
    c.st('let s = STE "-e -s" ckt [] [%s] [] [];' % ",".join(r.ta))
    r.t0, r.t1 = min(a[3] for a in r.ants), max(a[4] for a in r.ants) + 1
    r.verdicts(r.t1)
    nodes = ch.perm([b for s in k.outs for b in ckt.bits(*s)])[:8]
    ts = list(range(0, r.t1 + 1))
    ok = False
    for n in nodes:
        exp = [r.final.init[n] if t < r.t0 else r.final.hist[t - r.t0][n] for t in ts]
        e = "".join(S01.fv(r.w, v) for v in exp)
        q = 'vf_nd vs s "%s" [%s]' % (n, ",".join(map(str, ts)))
        if opt:         # may be refused, but not done wrong
            q = 'okn => %s | "refused"' % q
        c.ask(q, (lambda got, e=e: got in (e, "refused")) if opt else e,
              note="values of output %s after %s" % (n, ", ".join(names)))
        d = set(exp)
        if len(d) >= 3 and any(v[0] not in (0, r.w.mask) for v in d):
            ok = True
    if not opt:
        c.ask("(sanity_check_pexlif %s) => \"ok\" | \"bad\"" % p, "ok", note="sanity of the transformed circuit")
    c.nontrivial = ok
    return c


def g_trans(ch):
    g = ckt.Gen(ch, maxw=3, heavy=False, mem=ch.bool(1, 4))
    return sim_case(ch, [trans(ch) for _ in range(ch.rng_int(1, 3))], g, ncomb=(1, 5), depth=2)


def g_cprop(ch):
    g = ckt.Gen(ch, maxw=3, heavy=False, mem=False)
    seq = [trans(ch) for _ in range(ch.below(2))]
    seq.append(ch.pick([("constprop", "vf_hdo constant_propagation"), ("hierconstprop", "vf_hdo hier_constant_propagation")]))
    return sim_case(ch, seq, g, ncomb=(2, 6), depth=1)


def g_norm(ch):
    g = ckt.Gen(ch, maxw=3, heavy=ch.bool(1, 3), mem=False, verilog=True)
    return sim_case(ch, [("normalize", "normalize_pexlif")], g, ncomb=(1, 4), nlat=(0, 0), depth=3, opt=True)


def g_cexpr(ch):
    g = ckt.Gen(ch, maxw=4, heavy=True, mem=False, consts=True)
    return sim_case(ch, [("const_prop", "vf_mapw const_prop")], g, ncomb=(1, 4), depth=3)


GROUPS = [
    Group("trans", g_trans, 800, 20000, batch=100),
    Group("cprop", g_cprop, 300, 8000, batch=100),
    Group("norm", g_norm, 200, 4000, batch=100),
    Group("cexpr", g_cexpr, 300, 8000, batch=100),
]
