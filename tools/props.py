"""The one place where properties and their checks are described; tools/mkmeta.py writes properties.jsonl and MANIFEST.json."""
F = "src/bin/fl/"


def P(id, title, statement, over, text, why, files, mech, note, technique):
    return dict(id=id, title=title, statement=statement, quantifier={"over": over, "text": text}, why_tests_cant=why,
                anchors={"files": [f if "/" in f else F + f for f in files],
                         "mechanism": [{"name": n, "where": w if "/" in w else F + w} for n, w in mech]},
                note=note, technique=technique)


TESTS = "The repository's tests load scripts and check that they finish without an error report; "

PROPS = [
P("L01", "Programs evaluate lazily to the value their text denotes",
  "A well-typed program evaluates to the value prescribed by lexically scoped call-by-need evaluation: definitions are static (later redefinitions do not affect earlier uses), pattern clauses and guards are tried in order, an argument or component that is not needed is not evaluated, and an expression bound to a name is evaluated at most once. "
  "A failing part of a data structure affects only the computations that need that part; catch yields the alternative exactly when the protected expression fails, and a value stays the same however often and from wherever it was inspected before.",
  ["programs", "histories"], "all typed programs over integers, Booleans, strings, lists, pairs, algebraic types and functions (generated with up to about 300 nodes)",
  TESTS + "the compilation to combinators, the sharing of evaluated graphs and the marks on forced data interact in ways only particular combinations of definitions and failures expose.",
  ["graph.c", "language.y", "preamble.fl"], [("graph reduction", "graph.c traverse_left"), ("forcing of data", "graph.c force, reduce_list"), ("pattern compilation", "graph.c P_PCATCH"), ("bracket abstraction", "graph.c Compile")],
  "random typed programs printed position by position and compared with a call-by-need interpreter, with counters for evaluations",
  "property-based testing: type-directed random programs against a reference interpreter"),
P("B01", "Boolean operations build the right function, once",
  "Every value built with the Boolean operators, with if-then-else on a symbolic condition, or with structural equality over lists and pairs denotes exactly the Boolean function its expression denotes, and its reported support is exactly the set of variables it depends on. "
  "Two values are reported identical if and only if they denote the same function, however they were built and whatever was built before. A size-limited operation either returns the exact result or raises an exception.",
  ["programs", "histories"], "all expressions over up to 13 variables, all histories of definitions within a session, all variable creation orders",
  TESTS + "they look at a few hand-written formulas and never compare a function with its truth table after an arbitrary history of operations sharing the same operation cache.",
  ["new_bdd.c", "graph.c"], [("operation cache and unique tables", "new_bdd.c bdd_step"), ("symbolic if-then-else", "graph.c P_COND")],
  "random histories of Boolean definitions compared with truth vectors (2-7 variables exactly, 9-13 variables by sampled assignments, exact counts and algebraic laws)",
  "property-based testing: generated operation histories against a truth-vector reference model"),
P("B02", "Quantification, relational product and substitution are exact",
  "Existential and universal quantification (by variable list, by variable expression, by binder), relational products, simultaneous substitution over arbitrary structures and renaming between current-state and next-state variables all return exactly the function their definition prescribes. "
  "This holds for nested and repeated use, with any variables, including ones the operands do not depend on, and after any history of other operations.",
  ["programs", "histories"], "all functions over up to 6 variables, all subsets of variables, all substitutions, all histories",
  TESTS + "they never compare a quantified or substituted function with its semantic definition over arbitrary operands.",
  ["new_bdd.c", "graph.c", "preamble.fl"], [("quantification and relational product", "new_bdd.c quantify, Rel_prod"), ("substitution", "new_bdd.c substitute"), ("next-state renaming", "preamble.fl bdd_current2next")],
  "random histories mixing operators with quantifiers, relational products, substitutions and image computations, compared with truth vectors",
  "property-based testing: generated operation histories against a truth-vector reference model"),
P("B03", "Reordering, garbage collection and save/load never change a function",
  "Installing a variable order, dynamic reordering, garbage collection and growth of the node table, whether requested or automatic and at whatever point of an evaluation they happen, never change the function any live value denotes, its identity with other values, or its support. "
  "An installed order is the one then reported. Functions saved to a file and loaded back, under the same or another order, are identical to the saved ones.",
  ["histories", "configurations"], "all interleavings of definitions with orders, reorderings, collections and saves; all initial table sizes",
  TESTS + "none interleaves reordering or collection with computation and then compares values.",
  ["new_bdd.c", "graph.c"], [("level swapping and sifting", "new_bdd.c swap, re_order"), ("mark and sweep", "new_bdd.c garbage_collect, graph.c Do_garbage_collect"), ("save/load", "new_bdd.c Save_BDDs, Load_BDDs")],
  "histories interleaved with orders, reorderings, forced and automatic collections on minimal tables, and save/load; truth vectors or sampled assignments and counts afterwards",
  "property-based testing: stateful histories with injected reordering/collection events against a truth-vector model"),
P("B04", "Counts, witnesses, parameterisations and printed formulas are faithful",
  "Model counts are exact over any variable set that covers the support; forced literals are exactly the literals true in every model; a requested example satisfies the condition and follows the stated preference; the image of a parametric representation is exactly the set it represents; early quantification preserves the conjunction. "
  "A printed sum of products denotes the function, or, when it is marked as shortened, an under-approximation with at most the requested number of products. Reported sizes and level profiles are those of the reduced shared diagram.",
  ["inputs", "histories"], "all functions over up to 6 variables, all supersets of the support, all limits",
  TESTS + "they do not evaluate a witness, a parameterisation or a printed formula.",
  ["new_bdd.c", "preamble.fl"], [("counting", "new_bdd.c truth_cover"), ("parametric representation", "preamble.fl parametric"), ("SOP printer", "new_bdd.c sop_pr_rec")],
  "generated functions; counts and sizes computed exactly, witnesses evaluated, images enumerated, printed text parsed back",
  "property-based testing: generated functions with semantic oracles (evaluation, enumeration, parse-back)"),
P("I01", "Integers are exact and unbounded",
  "Integer literals, arithmetic, comparison, division and modulus, powers, greatest common divisors, bitwise operations and conversions to and from text agree with mathematical integers for operands of any size and sign. "
  "Undefined operations raise an exception. A bounded random number lies in the requested range and is reproducible from the seed.",
  ["inputs"], "all integers (generated up to about 2000 bits, concentrated on word boundaries)",
  TESTS + "they use small integers, while the arithmetic has separate paths for one-word and multi-word operands.",
  ["arb_prec.c", "int_ops.c"], [("multi-precision arithmetic", "arb_prec.c arbi__mlt, arbi__div"), ("text conversion", "arb_prec.c arbi__ToString")],
  "generated operations and nested expressions on boundary-heavy integers compared with Python integers",
  "property-based testing: differential against Python's unbounded integers"),
P("X01", "Structural Boolean expressions and SAT answers are correct",
  "Every bexpr built with the structural operators, structural if-then-else, comparison, substitution, conversion from a BDD or loading from a file denotes exactly the function its expression denotes, whichever way its value is observed (conversion to a BDD, with or without a substitution, or substitution of constants), and however often and in whatever order such conversions were made before. "
  "Two bexprs reported identical denote the same function; the reported support contains every variable the function depends on. A satisfiability query returns a model of all its constraints if one exists and reports unsatisfiable otherwise.",
  ["programs", "histories"], "all expressions over up to 7 variables, all histories of definitions, conversions and queries; with redundant-term learning on and off",
  TESTS + "the SAT-based sharing of equivalent nodes and the caching of conversions depend on everything built before in the session.",
  ["bexpr.c", "satif.cpp", "preamble.fl"], [("node sharing by signature and SAT", "bexpr.c be_find_insert"), ("conversion to BDDs", "bexpr.c be2bdd"), ("model extraction", "bexpr.c bget_model")],
  "random histories of bexpr definitions compared with truth vectors, models evaluated",
  "property-based testing: generated histories against a truth-vector reference model; witnesses evaluated"),
P("V01", "Symbolic bitvectors compute exact two's-complement arithmetic",
  "Under every assignment of its variables, a bitvector built from vector variables, constants, arithmetic, division and modulus (rounding towards minus infinity, undefined only for divisor 0), shifts, powers, bitwise operations, comparisons, conditionals and conversions denotes the exact integer (no overflow, whatever the widths). "
  "Its width is the smallest that fits its values, two bitvectors are reported identical exactly when they have equal values everywhere, and minimum, maximum, range, sum, reduction by the common divisor and constrained variables are those of the set of values it can take.",
  ["programs", "inputs"], "all expressions over up to 6 Boolean variables; constants of any size",
  TESTS + "they evaluate a few constant expressions; carries, sign extension and rounding matter only for particular symbolic combinations.",
  ["bv.c", "preamble.fl"], [("addition/multiplication/division", "bv.c gen_add, mult_bv_list, fixed_ext_bvdiv"), ("range and reduction", "preamble.fl bv_min, bv_range, bv_reduce")],
  "random histories of bitvector operations evaluated under every assignment and compared with Python integers",
  "property-based testing: generated histories against a per-assignment integer model"),
P("V02", "Bexpr bitvectors compute exact two's-complement arithmetic",
  "Under every assignment of its variables, a bexpr bitvector built from vector variables, constants, arithmetic, division, shifts, powers, bitwise operations, comparisons and IF-THEN-ELSE denotes the exact integer, also after conversion to BDDs; its width suffices for its values. "
  "A satisfiability query about such vectors finds a model exactly when one exists.",
  ["programs", "inputs"], "all expressions over up to 5 Boolean variables; constants of any size",
  TESTS + "this implementation duplicates the arithmetic of bitvectors on a representation simplified with SAT, and is only exercised by a few examples.",
  ["bev.c", "bexpr.c", "preamble.fl"], [("arithmetic", "bev.c"), ("conditionals", "preamble.fl bevTHEN")],
  "random histories of bexpr-bitvector operations evaluated under every assignment (by substitution and through BDDs) and compared with Python integers",
  "property-based testing: generated histories against a per-assignment integer model"),
P("S01", "Symbolic trajectory evaluation computes the circuit's response",
  "Simulating a circuit described at word level gives, for every node, every time and every assignment of the variables, the value prescribed by dual-rail ternary simulation of the circuit under the given antecedent and weakenings (events on a node may overlap, meet or be empty, and may be conditional; delays take one time unit; the initial state is unknown except for what the circuit forces). "
  "Every concrete two-valued run that satisfies the antecedent lies within the reported values, and the reported verdicts (trajectory consistent, consequent holds, their combinations) are exactly those of the simulated values. Simulation over bexprs gives the same values and verdicts.",
  ["programs", "histories"], "all circuits (generated: up to about 12 word-level signals of up to 6 bits, hierarchy, memories, delays; wide operands up to 70 bits with concrete values), all antecedents over up to 4 variables and 8 time units",
  TESTS + "the order of evaluation, the flattening of the hierarchy and the event bookkeeping fail only for particular circuits and event combinations.",
  ["fsm.c", "ste.fl"], [("circuit compilation", "fsm.c compile_expr, map_vector"), ("event processing", "fsm.c gSTE, process_event"), ("word-level operators", "fsm.c op_ADD and others")],
  "random circuits and antecedents simulated by a reference dual-rail simulator and by concrete runs",
  "property-based testing: generated circuits and antecedents against a reference simulator"),
P("P01", "Transforming a circuit never changes its behaviour",
  "Folding parts of a hierarchical circuit into new instances (by selection, by groups or by label), unfolding, flattening (fully or selectively), renaming internals, isolating constants, constant propagation (flat or hierarchical), folding constants in expressions and splitting expressions into normalised pieces give a circuit with the same interface, whose outputs have the same values as the original's at every time for every input sequence; the result is well formed. "
  "A transformation that cannot be applied is refused with an exception.",
  ["programs", "histories"], "all hierarchical circuits (generated: up to about 10 signals, depth 2) and all sequences of up to 3 transformations",
  TESTS + "grouping, vector splitting and renaming interact only for particular connections, widths and constants.",
  ["pexlif.c", "pexlif.fl", "simplify.fl"], [("folding and unfolding", "pexlif.c fold_pexlif, unfold_pexlif"), ("constant propagation", "pexlif.fl constant_propagation"), ("expression folding", "simplify.fl const_prop")],
  "random circuits and transformation sequences; the transformed circuit is simulated and compared with a reference simulation of the original",
  "property-based testing: metamorphic (transformation preserves behaviour) against a reference simulator"),
P("H01", "Hardware described in HFL behaves as its expressions denote",
  "A circuit elaborated from an HFL cell computes, bit for bit, the function its typed expressions denote: arithmetic and comparison at the declared signedness and width, conversions, slices, concatenations, conditionals, CASE, CASES, SELECT and tables, enumerations and structures, whether the result is assigned to a signal, to a part of one or passed to a cell. "
  "Flip-flops, latches, delays, memories, priority state updates and Moore machines hold, load, reset and step as documented, at every clock edge and for every input sequence.",
  ["programs", "histories"], "all type-correct cells (generated: up to 6 signals of up to 8 bits over 10 types, with up to 4 statements), all input sequences of up to 12 phases",
  TESTS + "a few fixed cells are elaborated; operator, width, signedness and nesting combinations are unbounded.",
  ["hfl.fl", "util.fl", "simplify.fl"], [("typed expressions", "hfl.fl w_CASE, w_SELECT"), ("state elements", "hfl.fl STATE, Moore_FSM"), ("cell interfaces", "util.fl base_get_lhs_vars")],
  "random typed cells elaborated, simulated symbolically and compared with an independent evaluator of the expressions and state elements",
  "property-based testing: generated typed hardware descriptions against a reference evaluator"),
P("L02", "Lists, sets, strings, tables and vector names behave like their models",
  "The built-in and library operations over lists (selection, order, search, folding, zipping, grouping, sets), strings (searching, splitting, substitution, matching, conversion), association lists and hash tables give what their documentation says they do, whatever values they are applied to and however results of earlier operations are reused: no operation changes a value that was made before, and an operation that cannot be carried out raises an exception and changes nothing. "
  "Splitting, merging, expanding, sorting and extracting vector names keeps the named bits and, where promised, their order.",
  ["programs", "histories"], "all histories of operations (generated: up to about 20 operations, lists of up to about 12 elements of nested types, strings over a hostile alphabet, tables of up to about 12 keys, vectors of up to 3 dimensions)",
  TESTS + "the built-ins share list cells, string tables and caches, so whether a value changes depends on the history.",
  ["list_ops.c", "voss_strings.c", "table.c", "preamble.fl"], [("list built-ins", "list_ops.c"), ("string and vector built-ins", "voss_strings.c gen_extract_vectors, compile_regexp"), ("tables", "table.c tbl_insertn"), ("library functions", "preamble.fl")],
  "random typed histories over lists, strings, association lists and tables compared with Python models; random vector names compared with their expansion",
  "property-based testing: stateful model-based histories against Python models"),
P("Y01", "Imported Verilog behaves as the Verilog standard says",
  "A synthesisable Verilog design read with verilog2pexlif and compiled has, on every output, at every time and for every input, the value the language's rules give: context-determined widths and signs of expressions, wrapping arithmetic, division, shifts, part selects (constant and indexed), concatenation and replication, conditionals, if/case/casez, parameterised and nested modules, wide ports and ports of several dimensions. "
  "Flip-flops of either edge with enables, synchronous and asynchronous (re)sets of either polarity and level, latches, and memories with their write enables, masks and read ports hold and load exactly as described.",
  ["programs", "histories"], "all designs in the supported subset (generated: up to 8 signals of up to 12 bits, 2 modules, several always blocks, memories of up to 16 words), all input sequences of up to 12 phases",
  TESTS + "a handful of designs are imported and mostly only printed; width, sign, polarity and nesting combinations are unbounded.",
  ["IDVII/src/fl/design/yosys_lib.fl", "IDVII/src/fl/design/pexlif.fl", "src/external/yosys/write_pexlif/write_pexlif.cc", "src/vosslib/vector_names.fl"], [("cell library of imported designs", "IDVII/src/fl/design/yosys_lib.fl"), ("writer of imported designs", "src/external/yosys/write_pexlif/write_pexlif.cc"), ("vector bookkeeping", "src/vosslib/vector_names.fl vec_subtract")],
  "random Verilog designs imported, simulated symbolically and compared with an independent evaluator of the Verilog rules",
  "property-based testing: generated Verilog designs against a reference evaluator"),
P("T01", "The inferred type of every definition is its principal type",
  "For every definition the type the session reports is the most general type of the definition (Hindley-Milner with monomorphic local definitions, recursion, algebraic types, products, lists and functions), written so that it reads back as the same type; every type annotation on an expression is respected; overloaded operators resolve to the candidates that fit. "
  "A definition that has no type is rejected with an error, binds nothing and leaves earlier definitions, later definitions and the session intact; no definition that has a type is rejected.",
  ["programs"], "all definitions (generated: up to 60 syntax nodes, sessions of 3-7 definitions, 60000 sessions in the thorough tier)",
  TESTS + "types are only exercised by what the examples happen to define; ill-typed programs are unbounded.",
  ["typecheck.c", "language.y", "symbol.c"], [("type inference", "typecheck.c"), ("printing of types", "typecheck.c print_type_rec")],
  "random type-directed and deliberately ill-typed programs compared with an independent principal-type inference",
  "property-based testing: generated programs against a reference Hindley-Milner inference"),
P("R01", "Wrong input is reported and never ends, stalls or corrupts a session",
  "Whatever text is typed or loaded (missing, extra, duplicated or exchanged tokens, very long names, strings, numbers and nestings) and whatever arguments of the right type a built-in function of the language is applied to (negative, zero or huge integers, empty or malformed strings, empty lists and bit vectors, names of missing files), the session reports an error or gives a value, within bounded time, and goes on. "
  "It does not crash, hang or exit, and afterwards the definitions made before still have their values, new definitions of every kind work, failures can be caught, and files can be loaded.",
  ["programs", "arguments"], "damaged programs of up to about 20000 characters and calls of about 230 built-in functions with extreme arguments; limits of the implementation that are not errors (memory for huge results, tokens of more than 16 kB) are left out",
  TESTS + "tests run correct programs; wrong inputs are unbounded.",
  ["language.y", "lexer", "graph.c", "fl.c", "list_ops.c", "voss_strings.c", "io.c", "error.c"], [("error recovery of the reader", "language.y yyerror"), ("failures of built-in functions", "graph.c MAKE_REDEX_FAILURE")],
  "damaged statements, damaged files and calls with extreme arguments, each followed by probes with known answers",
  "fuzzing: structured mutation of programs and arguments with session probes as oracle"),
]
NOT_APPLICABLE = []
HOOKS = ["288122f"]
