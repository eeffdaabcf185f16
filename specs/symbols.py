"""P18: names and ids of the rules."""
from vt.trans import Unit, FnSpec

ENTRY = """#include <log_surgeon/LogParser.hpp>
#include <log_surgeon/LogParser.cpp>
template class log_surgeon::Parser<log_surgeon::finite_automata::RegexNFAByteState, log_surgeon::finite_automata::RegexDFAByteState>;
"""

PRELUDE = """
  type name = seq int

  (* the two directions of the lookup are inverse to each other, and the ids are the numbers below the number of names *)
  predicate bij (s: mp name int) (m: mp int name) =
    (forall x. Fset.mem x s.mdom -> 0 <= Map.get s.mval x < Fset.cardinal s.mdom /\\
       Fset.mem (Map.get s.mval x) m.mdom /\\ Map.get m.mval (Map.get s.mval x) = x) /\\
    (forall i. Fset.mem i m.mdom -> 0 <= i < Fset.cardinal s.mdom /\\ Fset.mem (Map.get m.mval i) s.mdom /\\ Map.get s.mval (Map.get m.mval i) = i)

  predicate extends (s s2: mp name int) =
    forall x. Fset.mem x s.mdom -> Fset.mem x s2.mdom /\\ Map.get s2.mval x = Map.get s.mval x

  (* a rule of that name was added *)
  predicate added (s s2: mp name int) (x: name) =
    extends s s2 /\\ s2.mdom = Fset.add x s.mdom /\\
    (not (Fset.mem x s.mdom) -> Map.get s2.mval x = Fset.cardinal s.mdom)

  (* the reserved names *)
  let ghost reserved (s: mp name int) (m: mp int name) (a b c d e f g h: name)
    requires { a <> b /\\ a <> c /\\ a <> d /\\ a <> e /\\ a <> f /\\ a <> g /\\ a <> h }
    requires { b <> c /\\ b <> d /\\ b <> e /\\ b <> f /\\ b <> g /\\ b <> h /\\ c <> d /\\ c <> e /\\ c <> f /\\ c <> g /\\ c <> h }
    requires { d <> e /\\ d <> f /\\ d <> g /\\ d <> h /\\ e <> f /\\ e <> g /\\ e <> h /\\ f <> g /\\ f <> h /\\ g <> h }
    requires { s.mdom = Fset.add h (Fset.add g (Fset.add f (Fset.add e (Fset.add d (Fset.add c (Fset.add b (Fset.add a Fset.empty))))))) }
    requires { m.mdom = Fset.add 7 (Fset.add 6 (Fset.add 5 (Fset.add 4 (Fset.add 3 (Fset.add 2 (Fset.add 1 (Fset.add 0 Fset.empty))))))) }
    requires { Map.get s.mval a = 0 /\\ Map.get s.mval b = 1 /\\ Map.get s.mval c = 2 /\\ Map.get s.mval d = 3 }
    requires { Map.get s.mval e = 4 /\\ Map.get s.mval f = 5 /\\ Map.get s.mval g = 6 /\\ Map.get s.mval h = 7 }
    requires { Map.get m.mval 0 = a /\\ Map.get m.mval 1 = b /\\ Map.get m.mval 2 = c /\\ Map.get m.mval 3 = d }
    requires { Map.get m.mval 4 = e /\\ Map.get m.mval 5 = f /\\ Map.get m.mval 6 = g /\\ Map.get m.mval 7 = h }
    ensures { Fset.cardinal s.mdom = 8 /\\ bij s m }
  = let s0 = (Fset.empty: fset name) in
    let s1 = Fset.add a s0 in
    assert { Fset.cardinal s1 = 1 /\\ forall x. Fset.mem x s1 <-> x = a };
    let s2 = Fset.add b s1 in
    assert { Fset.cardinal s2 = 2 /\\ forall x. Fset.mem x s2 <-> x = a \\/ x = b };
    let s3 = Fset.add c s2 in
    assert { Fset.cardinal s3 = 3 /\\ forall x. Fset.mem x s3 <-> x = a \\/ x = b \\/ x = c };
    let s4 = Fset.add d s3 in
    assert { Fset.cardinal s4 = 4 /\\ forall x. Fset.mem x s4 <-> x = a \\/ x = b \\/ x = c \\/ x = d };
    let s5 = Fset.add e s4 in
    assert { Fset.cardinal s5 = 5 /\\ forall x. Fset.mem x s5 <-> x = a \\/ x = b \\/ x = c \\/ x = d \\/ x = e };
    let s6 = Fset.add f s5 in
    assert { Fset.cardinal s6 = 6 /\\ forall x. Fset.mem x s6 <-> x = a \\/ x = b \\/ x = c \\/ x = d \\/ x = e \\/ x = f };
    let s7 = Fset.add g s6 in
    assert { Fset.cardinal s7 = 7 /\\ forall x. Fset.mem x s7 <-> x = a \\/ x = b \\/ x = c \\/ x = d \\/ x = e \\/ x = f \\/ x = g };
    let s8 = Fset.add h s7 in
    assert { Fset.cardinal s8 = 8 /\\ forall x. Fset.mem x s8 <-> x = a \\/ x = b \\/ x = c \\/ x = d \\/ x = e \\/ x = f \\/ x = g \\/ x = h };
    assert { s8 = s.mdom };
    let t0 = (Fset.empty: fset int) in
    let t1 = Fset.add 0 t0 in
    assert { forall x. Fset.mem x t1 <-> 0 <= x <= 0 };
    let t2 = Fset.add 1 t1 in
    assert { forall x. Fset.mem x t2 <-> 0 <= x <= 1 };
    let t3 = Fset.add 2 t2 in
    assert { forall x. Fset.mem x t3 <-> 0 <= x <= 2 };
    let t4 = Fset.add 3 t3 in
    assert { forall x. Fset.mem x t4 <-> 0 <= x <= 3 };
    let t5 = Fset.add 4 t4 in
    assert { forall x. Fset.mem x t5 <-> 0 <= x <= 4 };
    let t6 = Fset.add 5 t5 in
    assert { forall x. Fset.mem x t6 <-> 0 <= x <= 5 };
    let t7 = Fset.add 6 t6 in
    assert { forall x. Fset.mem x t7 <-> 0 <= x <= 6 };
    let t8 = Fset.add 7 t7 in
    assert { forall x. Fset.mem x t8 <-> 0 <= x <= 7 };
    assert { t8 = m.mdom };
    assert { forall i. Fset.mem i m.mdom -> i = 0 \\/ i = 1 \\/ i = 2 \\/ i = 3 \\/ i = 4 \\/ i = 5 \\/ i = 6 \\/ i = 7 }

"""
NAMES = ["$end", "$UncaughtString", "int", "float", "hex", "firstTimestamp", "newLineTimestamp", "newLine"]


def lit(t):
    return "lit_" + t.encode().hex()


L = "o_Lexer__"
SID = "$this.m_lexer.m_symbol_id"
IDS = "$this.m_lexer.m_id_symbol"
LW = [L + x for x in ("m_symbol_id", "m_id_symbol", "m_match_pos", "m_start_pos", "m_match_line", "m_last_match_pos", "m_last_match_line", "m_match",
                      "m_type_ids", "m_type_ids_set", "m_is_delimiter", "m_is_first_char", "m_rules", "m_line", "m_has_delimiters", "m_dfa",
                      "m_asked_for_more_data", "m_is_start_of_file_scan", "m_prev_state")]
contracts = {
    "Lexer::add_rule": FnSpec(
        ensures=["Seq.length $this.m_rules = Seq.length (old $this.m_rules) + 1",
                 "forall i. 0 <= i < Seq.length (old $this.m_rules) -> Seq.get $this.m_rules i = Seq.get (old $this.m_rules) i",
                 "(Seq.get $this.m_rules (Seq.length (old $this.m_rules))).lexicalrule_m_variable_id = $#p0",
                 "(Seq.get $this.m_rules (Seq.length (old $this.m_rules))).lexicalrule_m_regex = $#p1"],
        writes=[L + "m_rules"]),
    "Parser::add_rule": FnSpec(
        requires=["bij %s %s" % (SID, IDS), "Fset.cardinal (%s).mdom < 4294967295" % SID],
        ensures=["bij %s %s" % (SID, IDS), "added (old %s) %s $#p0" % (SID, SID),
                 "Seq.length $this.m_lexer.m_rules = Seq.length (old $this.m_lexer.m_rules) + 1",
                 "forall i. 0 <= i < Seq.length (old $this.m_lexer.m_rules) -> Seq.get $this.m_lexer.m_rules i = Seq.get (old $this.m_lexer.m_rules) i",
                 "(Seq.get $this.m_lexer.m_rules (Seq.length (old $this.m_lexer.m_rules))).lexicalrule_m_variable_id = Map.get (%s).mval $#p0" % SID,
                 "(Seq.get $this.m_lexer.m_rules (Seq.length (old $this.m_lexer.m_rules))).lexicalrule_m_regex = $#p1"],
        writes=[L + "m_rules", L + "m_symbol_id", L + "m_id_symbol"]),
    "Parser::Parser": FnSpec(
        ensures=["bij %s %s" % (SID, IDS), "Fset.cardinal (%s).mdom = 8" % SID] + [
            "Fset.mem %s (%s).mdom /\\ Map.get (%s).mval %s = %d" % (lit(t), SID, SID, lit(t), i) for i, t in enumerate(NAMES)],
        ghost=[("end", "assert { %s };" % " /\\ ".join("%s <> %s" % (lit(x), lit(y)) for i, x in enumerate(NAMES) for y in NAMES[i + 1:]) + "ghost (reserved %s %s %s);" % (SID, IDS, " ".join(lit(t) for t in NAMES)))],
        writes=LW),
    "LogParser::get_symbol_id": FnSpec(
        ensures=["not (Fset.mem $#p0 (%s).mdom) -> result = None" % SID, "Fset.mem $#p0 (%s).mdom -> result = Some (Map.get (%s).mval $#p0)" % (SID, SID)]),
    "LogParser::get_id_symbol": FnSpec(
        ensures=["Fset.mem $#p0 (%s).mdom" % IDS, "result = Map.get (%s).mval $#p0" % IDS],
        raises={"Ex_out_of_range": ["not (Fset.mem $#p0 (%s).mdom)" % IDS]}),
}
unit = Unit("symbols", ENTRY, PRELUDE, single=["Parser", "LogParser", "Lexer"], value=["LexicalRule"], contracts=contracts,
            fieldmap={"globals": {}, "lits": NAMES}, enums=["SymbolId", "ErrorCode"])
