"""writes known_findings.json"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
fixed = [
 ("I01", "9846457", "printing an integer whose top word is the most negative 64-bit word (e.g. -2^127) never ended"),
 ("I01", "c1bf476", "random2 of more than 61 bits returned negative numbers"),
 ("I01", "c40e4d7", "int2str overran a 1024-byte buffer for integers of more than 1023 digits"),
 ("I01", "1a79e7b", "(-1)*(-2^63) crashed with SIGFPE"),
 ("B02", "5441356", "relprod_forall was wrong when an operand did not depend on the variables, and any relational product polluted the AND cache"),
 ("B04", "568c9e2", "bool2str ignored its product limit in SOP format and cut its result at 1000 bytes"),
 ("B04", "f845946", "printing a sum of products exceeded the product limit"),
 ("B04", "eb81fb7", "bdd_size and profile counted a function and its complement separately"),
 ("X01", "32da088", "bITE used the condition of a nested bITE that was evaluated while forcing its branches"),
 ("X01", "c7f0709", "base_bexpr2bdd reused BDDs computed under another substitution"),
 ("V01", "7a121df", "bv_min/bv_max failed when the sign was symbolic, bv2str printed a wrong value above 31 bits; bev_pow (and bev_shl etc.) never ended (V02)"),
 ("V01", "6e9a7d7", "bv2str/bev2str/bexpr2str/%B cut their text at a fixed size and could read past their buffer"),
 ("V01", "3acd86a", "bv_reduce failed on constants and divided by a number that need not divide all values"),
 ("L01", "3a1fc35", "a list or tuple with a failing element was overwritten by the failure when it was forced (by catch, fseq, printing, ...), and parts of it were marked as forced without being so"),
 ("L01", "90b0b4c", "a list whose spine fails was overwritten by the failure when its spine was forced (length, @, ...)"),
 ("V02", "d10e5bd", "bev_ashr by at least the width made an empty vector, and using it crashed"),
 ("S01", "2b71d9d", "an event with an empty time interval aborted the whole program"),
 ("S01", "8a6c762", "when two events on a node overlapped or met, the end of one cancelled the other"),
 ("S01", "160d917", "a predicate inside a delay was not delayed"),
 ("S01", "d10307d", "shifts of vectors of more than 32 bits by their high amount bits gave wrong results"),
 ("S01", "7d431ed", "antecedents on delay outputs were applied with the wrong time"),
 ("S01", "9eabc8b", "a memory read under a slice, comparison or concatenation was given the width of its address"),
 ("P01", "28516ab", "const_prop folded expressions over unsigned values as if they were signed"),
 ("P01", "57880e1", "constant_propagation crashed on a circuit with an instance without outputs"),
 ("L02", "01f7926", "the cache of compiled regular expressions read and wrote before its beginning"),
 ("L02", "b9cda4c", "an insertion of several keys that is refused because of one of them had inserted the others"),
 ("L02", "e28993c", "extract_vectors and relatives invented or repeated indices when ranges were unsorted or overlapped"),
 ("L02", "671991d", "merging vectors of several dimensions changed the order of the bits"),
 ("H01", "7e1ac64", "a hardware definition containing a negative constant could not be evaluated (its drawing failed)"),
 ("H01", "6ba1d84", "a CASE inside a condition of another CASE gave a wrong circuit"),
 ("H01", "ed99f71", "bit 0 of a one-bit signal used as an argument or target of a cell was left unconnected"),
 ("S01", "efeca7f", "compiled circuits read an uninitialised flag of their constant and input nodes"),
 ("Y01", "1694749", "Verilog import lost signs, sizes of logical operands and sizes of shift amounts"),
 ("Y01", "d8cd369", "Verilog import ignored clock and load polarities and the level of asynchronous controls"),
 ("Y01", "6954a2d", "imported Verilog memories forgot their contents, ignored write enables and read late"),
 ("Y01", "d8bb165", "vec_subtract kept bits when a vector was listed twice or overlapped another; imported designs then had two nodes of the same name"),
 ("L02", "0c04382", "vec_zip lost bits of vectors of several dimensions"),
 ("T01","83cb2bf","printed types missed parentheses: a printed type used as an annotation denoted another type"),
 ("T01","bd4a1ad","completes 83cb2bf: saved files keep the textual type signature they always had"),
 ("T01","ef8220c","a second annotation on an expression replaced the first: ({({[]::int list})::bool list}) was accepted"),
 ("T01","f2b7038","a type error in a top-level application such as [] [] crashed"),
 ("R01","f7ee7df","an illegal pattern in a lambda expression crashed"),
 ("R01","5249919","integers that do not fit in an int were truncated or crashed: el (2**64+1) l, chr (2**64)"),
 ("R01","29ca2c2","long names, lines, prompts and error messages overflowed fixed-size buffers"),
 ("R01","3e348d6","USER crashed when the environment variable is not set"),
 ("R01","cfcdb14","sscanf %x accepted ':' , 'g' and 'G' as digits and crashed"),
 ("R01","c9e9f8e","long prefixes for temporary files overflowed a buffer"),
 ("R01","8e20203","load of a directory ended the session"),
 ("R01","a75b631","importing an empty or unreadable image file crashed"),
 ("R01","d8572fd","bget_model and bexpr_is_unsat with a negative time limit ended the session"),
 ("R01","ebcb802","lastn, butlastn, string_lastn, string_butlastn, string_butfirstn, substr, str_cluster crashed on negative, zero or huge counts"),
 ("R01","730b35e","sha256_signature of a bexpr crashed"),
 ("R01","adcd8b2","operations on empty bit vectors crashed"),
]
out = [{"property": p, "status": "fixed", "commit": c, "what": w, "entry": "fixed: property=%s %s %s" % (p, c, w)} for p, c, w in fixed]
known = [
 {"property": "L01", "group": "symcond", "match": r"the value of f8 after g8 was evaluated: expected 'same', got 'different'",
  "what": "a shared definition first evaluated inside a branch of a symbolic conditional keeps the value it has under that branch's condition: "
          "let f8 = (a AND b => F | T); let g8 = (b => T | (f8 OR a)); g8; then f8 is T instead of NOT a OR NOT b (graph.c P_COND, cur_eval_cond)"},
]
for k in known:
    k["status"] = "known"
out += known
json.dump(out, open(V + "/known_findings.json", "w"), indent=1)
