"""Robustness of a session: any text, any arguments; an error is reported and the session goes on"""
import re
from vlib.engine import Case, Group, ERR
from checks import T01

ID = "R01"
RULE = ("A case is a statement or file damaged at random (tokens removed, duplicated, swapped, inserted, cut; over-long names, strings "
        "and nestings), or calls of built-in functions with extreme arguments of the right type.  Afterwards a fixed set of probes "
        "(earlier definitions, new definitions of every kind, failures that are caught, a loaded file) must give the expected "
        "values, so nothing may crash, hang or change the session.  Non-trivial: the damaged text was refused or the call failed, "
        "or at least two calls gave values.")
PREAMBLE = T01.PREAMBLE + r'''
let rz_f x y = (x,y);
let rz_s = "sent\"inel";
lettype rz_t = RZA | RZB int rz_t;
letrec rz_len RZA = 0 /\ rz_len (RZB n l) = 1 + (rz_len l);
let rz_l = [3,1,2];
let rz_q = 'rz_v;
let rz_id x = x;
let rz_add {x::int} {y::int} = x + y;
let rz_err {s::string} = error s;
let rz_snd (x,y) = y;
let rz_i2 {x::int} = int2str x;
let rz_ab = (variable "a") AND (NOT (variable "b"));
let rz_mk {x::string} {y::string} = (variable x) AND (NOT (variable y));
let rz_b2 {x::bool} = bool2str 10 x;
let rz_xor {x::bool} {y::bool} = x XOR y;
'''

# name: types; t=string, i=int (any), n=int (small), b=bool, d=bexpr, v=bv, w=bev, f=float, T=string list, I=int list, B=bool list, D=bexpr list
# A=list of ints, P=list of string pairs, L=list of int lists
SIGS = """acos f|asin f|atan f|cos f|sin f|tan f|exp f|log f|log10 f|sqrt f|ceil f|floor f|round f|fabs f|float2str f|f_div f f|f_mul f f
|f_lt f f|pow f f|bools2dp B|bools2sp B|dp2bools f|sp2bools f|str2float t|s2float t|int2float i
|assoc i P|atmost n A|bEqual A A|bF|base_bexpr2bdd Q d|bdd2bexpr b|bdd_index b|bdd_signature b|bdd_size B|bdepends D|bev2int w|bev2list w|bev2num D|bev2str n w|bev_AND w w
|bev_ZX w|bev_add w w|bev_div w w|bev_eq w w|bev_less w w|bev_mod w w|bev_mul w w|bev_neg w|bev_size w|bev_sub w w|bevabs w|bexpr2str n d|bexpr_is_unsat d n
|bexpr_signature d|bget_arguments d|bget_model D n|bget_sat_literal d|bget_type d|bget_variable d|bget_vector_model D n|bits_needed i|bl2int B|bool2bexpr B|bool2str n b|bsize D
|bsubstitute Y D|butfirstn i A|butlast A|butlastn i A|bv2int v|bv2list v|bv2num B|bv2str n v|bv_AND v v|bv_ZX v|bv_abs v|bv_add v v|bv_div v v|bv_eq v v|bv_gcd v v|bv_less v v
|bv_max v|bv_min v|bv_mod v v|bv_mul v v|bv_neg v|bv_range v|bv_reduce v|bv_size v|bv_sub v v|bv_sum T v|chr i|cluster i A|decimal_digits_needed i|depends B|el i A|empty A
|example b b|explode t|extract_vectors T|factor n|factorial n|find_first0 rz_isz A|firstn i A|flat L|forcing b|fparam T b|fp_truth_cover_n T B|full_example b T b|gather A A|gcd i i|gcmp A A
|gen_str2int t|gen_trim t t t|get_arity t|get_args t|get_fixity t|get_return_type t|get_symbol_signature t|get_vector_signature t|hd A|hsv2rgb X|rgb2hsv X|color2rgb t|i_div i i|i_mod i i|i_mul i i
|imem S n|implode T|int2bl n n|int2bv i|int2bev i|int2str i|int_model_count T b|interleave L|ipop_cnt S|ipow i n|is_defined t|iset2set S|last A|lastn i A|lcm i i|length A|limitedAND b b n
|limitedOR b b n|list2bev D|list2bv B|list2str b t t t rz_i2s A|log2 i|md_expand_vector t|md_expand_vectors T|md_extract_vectors T|md_merge_vectors T|md_size t|md_sizes T|md_split_vector t|mem i A
|merge_vectors T|name2primfn t|nat2bv i|nearest_power_of_2 i|neg_s2bv t|neg_s2bev t|neg_s2float t|neg_s2int t|node_name_cmp t t|ord t|param b|primfn2name n|print_vectors T B|profile B
|quant_forall b b|quant_thereis b b|relprod_forall b b b|relprod_thereis b b b|replicate n i|rev A|s2bev t|s2bv t|s2int t|sbits_needed i|separate A I|set2iset I|set_eq A A|setify A
|sha256_signature A|split_list i A|split_vector t|str_cluster t i|str_is_prefix t t|str_is_substr t t|str_is_suffix t t|str_match t t|str_reg_extract t t|str_reg_match t t|str_split t t|strcasecmp t t
|strcmp t t|string_butfirstn t i|string_butlastn t i|string_lastn t i|strlen t|strstr t t|str_trim t|substitute R B|substr t i i|tl A|top_cofactor b|transpose L|trim t|truth_cover T b|truth_cover_n T B
|ubits_needed i|variable t|bvariable t|bv_variable t|bv_uvariable t|bev_variable t|vec_interleave T|vector_atomize T|get_matching_functions t t t t n|help t|file_exists t|load t|bdd_load t|bexpr_load t
|get_userdef_id t|get_userdef_expression i|get_userdef_combinator_expression i|get_definition t|get_combinator_expression t|error t|random2 n|random n n|LP C|LPsol C|expand_file_name t|zip A I|zip3 A I T
|enumerate_sets I n|bv_vector t n|bv_uvector t n|truth_cover T b|fp_truth_cover2_n T B b|get_process_exit_status i|file_signature t|file_modified_time t|itlist rz_plus A i|el i T|str_cluster t n|qsort rz_cmp I
|file_fullname t|normalize_file t|import_ppm_image t|import_xpm_image t|sprintf_d i|sprintf_s t|sprintf_b i|sprintf_x i|sprintf_o i|sprintf_B b|sprintf_v B|sscanf_d t|sscanf_s t|sscanf_c t|sscanf_x t"""
TAB = []
for _s in SIGS.replace("\n", "").split("|"):
    _w = _s.split()
    TAB.append((_w[0], _w[1:]))

FNS = r'''
let rz_isz x = x = 0;
let rz_i2s {x::int} = int2str x;
let rz_plus {x::int} {y::int} = x+y;
let rz_cmp {x::int} {y::int} = x-y;
let sprintf_d {x::int} = (sprintf "%d" x, sprintf "%70d" x, sprintf "%-70d" x, sprintf "%03d" x);
let sprintf_s {x::string} = (sprintf "%s" x, sprintf "%70s" x, sprintf "%-3s|" x, sprintf "%S" [x,x]);
let sprintf_b {x::int} = sprintf "%b" x;
let sprintf_x {x::int} = sprintf "%x" x;
let sprintf_o {x::int} = sprintf "%o" x;
let sprintf_B {x::bool} = sprintf "%B" x;
let sprintf_v {x::bool list} = map (\y. sprintf "%B" y) x;
let sscanf_d {x::string} = sscanf "%d" x;
let sscanf_s {x::string} = sscanf "%s %d" x;
let sscanf_c {x::string} = sscanf "a%db%s" x;
let sscanf_x {x::string} = sscanf "%x" x;
'''


def fstr(s):
    return '"%s"' % s.replace("\\", "\\\\").replace('"', '\\"').replace("\n", "\\n").replace("\t", "\\t")


STRS = ["", "a", "a[3:0]", "a[0:3]", "a[", "a[]", "a[x]", "a]", "[", "]", "a[3", "a[3:", "a[1,2]", "a[1,,2]", "a[3:0][1:0]", "a[-1]", "a[-1:2]", "a[99999999999]", "a[:]", "a[1:0]b", "[3:0]", "a[3:0]]",
        "0", "-1", "+", "-", "0x", "0xfg", "0b2", "12a", " 12", "1e5", "1e", "nan", "inf", "1.5", ".", "..", "1e400", "123456789012345678901234567890", "-0", "--1", "0b", "0o8", "0x-1", "1.5.2",
        "*", "**", "?", "[a", "[^", "(", ")", "(a", "a)", "a*", "*a", "+a", "a{2}", "a{", "\\", "a\\", "|", "a|", "()", "[]", "[z-a]", "%", "%s", "%d%s%n", "%n", "\"", "'", "{", "}", "$", "^", "#", " ", "\n",
        "\t", "map", "hd", "+", "rz_f", "rz_t", "unknown_fn", "T", "F", "_", "__x", "x'", "/", "//", "a/b", "a/b[1]/c", "/tmp/nonexistent/x", "a b", "e\u00e9"]


def gi(ch, small=False):
    if small:
        return ch.pick([0, 1, 2, -1, 3, 5, 8, 17, 31, 32, 33, 63, 64, 65, -2, -64])
    return ch.pick([0, 1, -1, 2, 3, 7, 255, 256, -128, 2**31 - 1, 2**31, -2**31, -2**31 - 1, 2**32, 2**32 + 1, 2**62, 2**63 - 1, 2**63, -2**63, 2**64, 2**64 + 1, -2**64, 10**30, -10**30, 2**127, 2**200])


def gs(ch):
    k = ch.below(12)
    if k < 8: return ch.pick(STRS)
    if k < 10: return "".join(ch.pick("a[]:,01-*?\\%\"{}()|x ./") for _ in range(ch.rng_int(1, 12)))
    if k == 10: return ch.pick(["a", "%s", "[", "1", "(", "a[1]", " ", "\\"]) * ch.pick([70, 300, 1100])
    return ch.pick(STRS) + ch.pick(STRS)


def num(n): return "(%d)" % n if n < 0 else str(n)


def gbool(ch, d=2):
    k = ch.below(7 if d else 3)
    if k == 0: return ch.pick(["T", "F"])
    if k <= 2: return '(variable "%s")' % ch.pick("abcd")
    if k == 3: return "(NOT %s)" % gbool(ch, d - 1)
    return "(%s %s %s)" % (gbool(ch, d - 1), ch.pick(["AND", "OR", "XOR"]), gbool(ch, d - 1))


def gbex(ch, d=2):
    k = ch.below(7 if d else 3)
    if k == 0: return ch.pick(["bT", "bF"])
    if k <= 2: return '(bvariable "%s")' % ch.pick("abcd")
    if k == 3: return "(bNOT %s)" % gbex(ch, d - 1)
    return "(%s %s %s)" % (gbex(ch, d - 1), ch.pick(["bAND", "bOR", "bXOR"]), gbex(ch, d - 1))


def arg(ch, t):
    lst = lambda f, n=4: "[%s]" % ",".join(f() for _ in range(ch.below(n + 1)))
    if t == "t": return fstr(gs(ch))
    if t == "i": return num(gi(ch))
    if t == "n": return num(gi(ch, True))
    if t == "b": return gbool(ch)
    if t == "d": return gbex(ch)
    if t == "v": return "(list2bv %s)" % lst(lambda: gbool(ch, 1), 4) if ch.bool() else "(int2bv %s)" % num(gi(ch))
    if t == "w": return "(list2bev %s)" % lst(lambda: gbex(ch, 1), 4) if ch.bool() else "(int2bev %s)" % num(gi(ch, ch.bool()))
    if t == "f": return ch.pick(["0.0", "1.0", "(0.0-1.0)", "1.5e300", "1.0e-300", "(1.5e300*1.5e300)", "((1.5e300*1.5e300)-(1.5e300*1.5e300))", "0.5", "3.14159", "123456789012.5", "(0.0-2.5)"])
    if t == "T": return lst(lambda: fstr(gs(ch)))
    if t in "IA": return lst(lambda: num(gi(ch, True)))
    if t == "B": return lst(lambda: gbool(ch, 1))
    if t == "D": return lst(lambda: gbex(ch, 1))
    if t == "P": return lst(lambda: "(%s,%s)" % (num(gi(ch, True)), fstr(gs(ch))))
    if t == "Q" or t == "R": return lst(lambda: "(%s,%s)" % (fstr(ch.pick(["a", "b", "q", "", "a"])), gbool(ch, 1)), 3)
    if t == "Y": return lst(lambda: "(%s,%s)" % (fstr(ch.pick(["a", "b", "q", "", "a"])), gbex(ch, 1)), 3)
    if t == "L": return lst(lambda: "[%s]" % ",".join(num(ch.below(5)) for _ in range(ch.below(3))), 3)
    if t == "X": return "(%s,%s,%s)" % tuple(num(gi(ch, True)) for _ in range(3))
    if t == "S": return "(set2iset %s)" % lst(lambda: num(ch.below(70)))
    if t == "C": return lst(lambda: "([%s],%s,%s)" % (",".join(num(ch.rng_int(-3, 3)) for _ in range(2)), fstr(ch.pick(["=", "<=", ">=", "<", ">"])), num(ch.rng_int(-5, 5))), 3)
    return t


def probes(c, ch, k):
    n = "rz_p%d" % k
    c.st("let %s_a = rz_f 1 rz_s;" % n)
    c.ask("rz_snd %s_a" % n, 'sent"inel')
    c.ask("rz_i2 (rz_len (RZB 1 (RZB 2 RZA)))", "2")
    c.st("let %s_b (x:(y:z)) 0 = y /\\ %s_b _ n = n;" % (n, n))
    c.ask("rz_i2 (%s_b rz_l 0)" % n, "1")
    c.ask("rz_i2 (%s_b [] 7)" % n, "7")
    c.ask("(rz_err \"x\") catch \"caught\"", "caught")
    c.ask("rz_err \"x\"", ERR)
    c.st("lettype %s_t = RZ%dC | RZ%dD int;" % (n, k, k))
    c.st("let %s_g (RZ%dD x) = x;" % (n, k))
    c.ask("rz_i2 (%s_g (RZ%dD 12))" % (n, k), "12")
    c.ask("rz_i2 (%s_g RZ%dC)" % (n, k), ERR)
    c.st('let %s_v = rz_mk "a" "b";' % n)
    c.ask("rz_b2 (rz_xor %s_v rz_ab)" % n, "F")
    c.st('load "ok.fl";')
    c.ask("rz_i2 (rz_ok 4)", "9")
    c.ask('sprintf "%d-%s" 3 "x"', "3-x")
    c.files["ok.fl"] = "let rz_ok x = rz_add x 5;\n"


def g_calls(ch):
    c = Case()
    c.files = {}
    ok = bad = 0
    tags = []
    for i in range(ch.rng_int(3, 8)):
        name, ts = ch.pick(TAB)
        text = " ".join([name] + [arg(ch, t) for t in ts])
        tag = "v%d" % i
        c.st("let rz_r%d = %s;" % (i, text))
        c.st("rz_r%d;" % i)
        c.out(tag, '(sha256_signature rz_r%d) fseq "done"' % i)
        c.label(name)
        tags.append(tag)
    probes(c, ch, 1)
    c.nontrivial = True
    return c


WORDS = ["let", "val", "in", "then", "lettype", "andlettype", "new_type_abbrev", "infix", "infixr", "nonfix", "postfix", "prefix", "overload", "open_overload", "add_open_overload", "forward_declare", "assuming",
         "begin_abstype", "end_abstype", "clet", "slet", "non_lazy", "binder", "free_binder", "install_print_function", "list", "ref", "if", "catch", "gen_catch", "fseq", "export", "defix", "catch_it",
         "=>", "|", "->", "=", "#", "/\\", "\\", "::", ".", ",", "(", ")", "{", "}", "[", "]", "[]", ":", ";", "_", "'", "''", "`", "[:", ":]", "*", "**", "@", "^", "+", "-", "AND", "NOT", "==", "!", "?", "&", "$",
         "0", "1", "99", "0x1f", "0b101", "0x", "0b", "1.5", ".5", "1e3", "\"s\"", "\"\"", "\"\\\"\"", "\"\\x41\"", "\"\\\\\"", "x", "y", "f", "xs", "hd", "map", "fst", "TyA", "TyL", "TyN", "T", "F", "it", "*a", "*b", "int", "bool", "string",
         "void", "()", "__FILE__", "__LINE__", "DIR", "printf", "sprintf", "eprintf", "sscanf", "\"%d\"", "\"%s%d\"", "\"%q\"", "\"%\"", "1", "2", "//c", "/*", "*/", "%", "~", "~=", "<<", ">>", "error", "undefined"]


def toks(s):
    return re.findall(r'"(?:[^"\\]|\\.)*"|[A-Za-z_][\w\']*|\d+|::|=>|->|/\\|\[\]|[^\s\w]', s)


BASE = [
    'lettype {*a} rt = RX | RY *a ({*a} rt);', 'let f (RY a b) = a /\\ f RX = 0;', 'let g {x::int} = if x then 1 else 2;', 'new_type_abbrev ab = int # (bool list);', 'infix 4 rinf;', 'let a rinf b = a;', 'overload rov ty_o1 ty_o2;',
    'forward_declare {rfd:: int -> int};', 'let h a [b=1] [c=2] = a + b + c;', 'begin_abstype;', 'let q1 x = x;', 'end_abstype q1;', 'let sp x = sprintf "%d %s" x "a";', 'val (p,q) = (1,2);', 'let k = \\x. \\(y,z). (x,[y,z]);',
    'binder rbd ty_ap;', 'let m = rbd x y. x;', 'print (sprintf "%d\\n" 3);', 'hd [];', '1/0;', "let v = 'a;", 'sscanf "%d,%s" "3,abc";', 'let e = [: a ` b :];', 'let w = (1 catch 2) gen_catch (\\m. 3);', 'install_print_function ty_k;',
    'let gd x assuming (x > 0) = 1 /\\ gd x = 2;', 'clet cl x = x + 1;', 'let z = itlist (\\a.\\b. a+b) [1,2,3] 0;', 'postfix rpo;', 'let rpo x = x;', 'nonfix rinf;', 'let o = {[] :: int list};', 'lettype ra = RA rb andlettype rb = RB ra | RC;',
    'let long = "' + "a" * 300 + '";', '[1,2,3];', '(T,"x",[1.5]);', 'let t = tbl_create 10;', 'variable "x" AND NOT (variable "y");', 'let s = <{ }>;', 'let r = ref 1;', 'export q1;', 'sized_binder_with_accumulator rsb ty_k;', 'non_lazy q1;',
]


def damage(ch, safe_end):
    src = []
    for _ in range(ch.rng_int(1, 3)):
        if ch.bool(1, 3):
            g = T01.Gen(ch, {})
            src.append("let f%d = %s;" % (ch.below(4), T01.te(g.exp(g.ty(2), {}, 3))))
        else:
            src.append(ch.pick(BASE))
    t = toks(" ".join(src))
    for _ in range(ch.wpick([(1, 0), (4, 1), (3, 2), (2, 4), (1, 9)])):
        k = ch.below(8)
        p = ch.below(len(t) + 1)
        if k == 0: t[p:p + 1] = []
        elif k == 1: t[p:p] = [ch.pick(WORDS)]
        elif k == 2: t[p:p + 1] = [ch.pick(WORDS)]
        elif k == 3 and t:
            q = ch.below(len(t))
            p = min(p, len(t) - 1)
            t[p], t[q] = t[q], t[p]
        elif k == 4 and t:
            q = ch.below(len(t))
            t[p:p] = t[q:q + ch.rng_int(1, 6)]
        elif k == 5: t[p:p + ch.rng_int(1, 6)] = []
        elif k == 6: t[p:p] = [ch.pick(["(", "[", "{", "\\x. ", "NOT ", "[(", "let x = ", "hd ("])] * ch.pick([2, 9, 60, 400])
        else: t[p:p] = [ch.pick(["a", "A", "1", "+", "'", "\"" + "b" * 2000 + "\"", "0x" + "f" * 300, "'" + "q" * 300]) * 1 if ch.bool() else ch.pick("aA1+_") * ch.pick([30, 130, 1100, 5000])]
    if ch.bool(1, 8):
        t = t[:ch.below(len(t) + 1)]
    s = ch.pick([" ", " ", " ", ""]).join(t) if ch.bool(1, 6) else " ".join(t)
    bad = ["quit", "letrec", "system", "exec", "load", "while", "#define", "#if", "#else", "#end", "<{", "set_file_name", "set_line", "set_prompt"]
    for b in bad:
        s = s.replace(b, "rzx")
    s = re.sub(r"(type|abbrev)( *)(int|bool|string|list|ref|void)\b", r"\1\2rzq", s)
    s = re.sub(r"(fix[rlx]?|let|binder\w*|overload|free_binder|declare|accumulator)(\s*\d*\s*)([^\w\s({\"';])", r"\1\2rzq \3", s)
    s = re.sub(r"(let|let_rec|val)(\s*)(catch|gen_catch|fseq)\b", r"\1\2rzq", s)
    s = re.sub(r"[\w']{4000}(?=[\w'])", lambda m: m.group(0) + " ", s)
    if safe_end and s.replace('\\"', "").count('"') % 2:
        s = s.replace('"', "")
    return s


def g_file(ch):
    c = Case()
    c.files = {}
    fn = "d%d.fl" % ch.below(1 << 30)
    c.files[fn] = "let rz_before = 5;\n" + damage(ch, False) + ch.pick(["\n", "", ";\n"]) + ch.pick(["", "", "\x80\xff\n", "let rz_after = 6;\n"])
    c.st("let rz_before = 0;")
    c.st('load "%s";' % fn)
    c.ask("int2str rz_before", "5")
    probes(c, ch, 2)
    c.nontrivial = True
    return c


def g_line(ch):
    c = Case()
    c.files = {}
    for _ in range(ch.rng_int(1, 3)):
        s = damage(ch, True).replace("\n", " ")
        s = s.replace("/*", "").replace("//", "").replace("[:", "[").replace(":]", "]").replace("`", "")
        c.st(s + ";")
        c.st(";")
    probes(c, ch, 3)
    c.nontrivial = True
    return c


GROUPS = [
    Group("calls", g_calls, 500, 60000, batch=10, preamble=PREAMBLE + FNS),
    Group("file", g_file, 400, 40000, batch=5),
    Group("line", g_line, 400, 40000, batch=5),
]
