"""P03: character sets."""
from vt.trans import Unit, FnSpec

ENTRY = '''#include <log_surgeon/Constants.hpp>
#include <log_surgeon/finite_automata/RegexAST.hpp>
#include <log_surgeon/finite_automata/RegexNFA.hpp>
#include <log_surgeon/finite_automata/RegexNFAState.hpp>
namespace log_surgeon::finite_automata {
template class RegexASTLiteral<RegexNFAByteState>;
template class RegexASTInteger<RegexNFAByteState>;
template class RegexASTGroup<RegexNFAByteState>;
template class RegexNFA<RegexNFAByteState>;
}
'''

PRELUDE = """
  type ranges = seq (int, int)
  predicate inr (p: (int, int)) (c: int) = fst p <= c <= snd p
  (* c lies in one of the first n ranges of s *)
  predicate coversn (s: ranges) (n: int) (c: int) = exists i. 0 <= i < n /\\ inr (Seq.get s i) c
  predicate covers (s: ranges) (c: int) = coversn s (Seq.length s) c
  predicate valid (s: ranges) = forall i. 0 <= i < Seq.length s -> 0 <= fst (Seq.get s i) <= snd (Seq.get s i) <= 1114111
  predicate ordered (s: ranges) = forall i j. 0 <= i < j < Seq.length s -> fst (Seq.get s i) <= fst (Seq.get s j)
  (* sorted, and between two ranges there is a character of neither *)
  predicate apart (s: ranges) = forall i j. 0 <= i < j < Seq.length s -> snd (Seq.get s i) + 1 < fst (Seq.get s j)

  let ghost coversn_step (s: ranges) (n: int)
    requires { 0 <= n < Seq.length s }
    ensures { forall c. coversn s (n + 1) c <-> (coversn s n c \\/ inr (Seq.get s n) c) }
  = assert { forall c. coversn s (n + 1) c -> (coversn s n c \\/ inr (Seq.get s n) c)
      by exists i. 0 <= i < n + 1 /\\ inr (Seq.get s i) c };
    assert { forall c. inr (Seq.get s n) c -> coversn s (n + 1) c }

  let ghost covers_snoc (s t: ranges) (p: (int, int))
    requires { t = Seq.snoc s p }
    ensures { forall c. covers t c <-> (covers s c \\/ inr p c) }
  = assert { forall c. covers t c -> (covers s c \\/ inr p c)
      by exists i. 0 <= i < Seq.length s + 1 /\\ inr (Seq.get t i) c /\\ (i < Seq.length s -> Seq.get t i = Seq.get s i) };
    assert { forall c. covers s c -> covers t c
      by exists i. 0 <= i < Seq.length s /\\ inr (Seq.get s i) c /\\ Seq.get t i = Seq.get s i };
    assert { Seq.get t (Seq.length s) = p };
    assert { forall c. inr p c -> covers t c }

  let ghost covers_same (s t: ranges)
    requires { same_elems s t }
    ensures { forall c. covers t c <-> covers s c }
    ensures { valid s -> valid t }
  = assert { valid s -> forall i. 0 <= i < Seq.length t -> 0 <= fst (Seq.get t i) <= snd (Seq.get t i) <= 1114111
      by seq_has t (Seq.get t i) so seq_has s (Seq.get t i) };
    assert { forall c. covers t c -> covers s c by exists i. 0 <= i < Seq.length t /\\ inr (Seq.get t i) c
      so seq_has t (Seq.get t i) so seq_has s (Seq.get t i) };
    assert { forall c. covers s c -> covers t c by exists i. 0 <= i < Seq.length s /\\ inr (Seq.get s i) c
      so seq_has s (Seq.get s i) so seq_has t (Seq.get s i) }

  (* c is matched by the set *)
  predicate in_set (negate: bool) (s: ranges) (c: int) = if negate then not covers s c else covers s c

  (* the transitions of a state after adding dest to every byte of the first n ranges of s *)
  predicate added (old_t new_t: map int (seq int)) (s: ranges) (n: int) (dest: int) =
    forall b. 0 <= b <= 255 ->
      (coversn s n b -> Map.get new_t b = Seq.snoc (Map.get old_t b) dest) /\\
      (not coversn s n b -> Map.get new_t b = Map.get old_t b)
"""

PRELUDE += """
  predicate code_point (m: map int int) (p: int) = p <> 0 -> 0 <= Map.get m p <= 1114111
  (* c is one of the first n elements of s *)
  predicate listed (s: seq int) (n: int) (c: int) = exists i. 0 <= i < n /\\ Seq.get s i = c
  let ghost listed_same (s t: seq int)
    requires { same_elems s t }
    ensures { forall c. listed t (Seq.length t) c <-> listed s (Seq.length s) c }
    ensures { (forall i. 0 <= i < Seq.length s -> 0 <= Seq.get s i <= 1114111) ->
              (forall i. 0 <= i < Seq.length t -> 0 <= Seq.get t i <= 1114111) }
  = assert { forall c. listed t (Seq.length t) c <-> seq_has t c };
    assert { forall c. listed s (Seq.length s) c <-> seq_has s c };
    assert { forall i. 0 <= i < Seq.length t -> seq_has t (Seq.get t i) so seq_has s (Seq.get t i) }
  let ghost listed_step (s: seq int) (n: int)
    requires { 0 <= n < Seq.length s }
    ensures { forall c. listed s (n + 1) c <-> (listed s n c \\/ c = Seq.get s n) }
  = assert { forall c. listed s (n + 1) c -> (listed s n c \\/ c = Seq.get s n) by exists i. 0 <= i < n + 1 /\\ Seq.get s i = c };
    assert { forall c. c = Seq.get s n -> listed s (n + 1) c }
"""

T = "!h_RegexNFAState_m_bytes_transitions"
RG = "h_RegexASTGroup_m_ranges"
GI = "forall g. valid (Map.get !h_RegexASTGroup_m_ranges g)"

GW = ["h_RegexASTGroup_m_ranges", "h_RegexASTGroup_m_negate", "h_RegexASTGroup_m_is_wildcard",
      "h_RegexASTGroup_m_negative_tags", "h_RegexASTGroup_m_subtree_positive_tags"]
MR = "(Map.get !h_RegexASTGroup_m_ranges this_)"
NG = "(Map.get !h_RegexASTGroup_m_negate this_)"
CH = "Map.get !h_RegexASTLiteral_m_character"
LIT = "code_point !h_RegexASTLiteral_m_character"


def MRO(g):
    return f"(Map.get !h_RegexASTGroup_m_ranges {g})"


def NGO(g):
    return f"(Map.get !h_RegexASTGroup_m_negate {g})"


def NEG(x):
    return f"{NG} {x}"


def OTHERS(p):
    return f"forall g. g <> this_ -> {p} (Map.get !h_RegexASTGroup_m_ranges g)"


contracts = {
    "RegexASTGroup::merge": FnSpec(
        requires=["valid $#p0", "ordered $#p0"],
        ensures=["valid result", "apart result", "forall c. covers result c <-> covers $#p0 c"],
        ghost=[("loop:0:begin", "let ghost g_m = $merged_ranges in let ghost g_cur = $cur in"),
               ("loop:0:end", "ghost (coversn_step $#p0 $#i0; "
                "if Seq.length $merged_ranges > Seq.length g_m then covers_snoc g_m $merged_ranges g_cur);"),
               ("loop:0:before", "ghost (coversn_step $#p0 0);"),
               ("loop:0:after", "ghost (covers_snoc $merged_ranges (Seq.snoc $merged_ranges $cur) $cur);")],
        loops={0: {"inv": ["1 <= $#i0 <= Seq.length $#p0",
                           "valid $merged_ranges", "apart $merged_ranges",
                           "0 <= fst $cur <= snd $cur <= 1114111",
                           "forall i. 0 <= i < Seq.length $merged_ranges -> snd (Seq.get $merged_ranges i) + 1 < fst $cur",
                           "forall i. $#i0 <= i < Seq.length $#p0 -> fst $cur <= fst (Seq.get $#p0 i)",
                           "forall c. (covers $merged_ranges c \\/ inr $cur c) <-> coversn $#p0 $#i0 c"],
                   "var": "Seq.length $#p0 - $#i0"}}),
    "RegexASTGroup::complement": FnSpec(
        requires=["valid $#p0", "apart $#p0"],
        ensures=["valid result", "apart result",
                 "forall c. covers result c <-> (0 <= c <= 1114111 /\\ not covers $#p0 c)"],
        ghost=[("loop:0:begin", "let ghost g_m = $complemented in"),
               ("loop:0:end", "ghost (coversn_step $#p0 $#idx0; "
                "if Seq.length $complemented > Seq.length g_m then covers_snoc g_m $complemented (Seq.get $complemented (Seq.length g_m)));"),
               ("loop:0:after", "let ghost g_m = $complemented in"),
               ("end", "ghost (if Seq.length $complemented > Seq.length g_m then covers_snoc g_m $complemented (Seq.get $complemented (Seq.length g_m)));")],
        loops={0: {"inv": ["valid $complemented", "apart $complemented", "0 <= $low <= 1114112",
                           "$#idx0 = 0 -> $low = 0",
                           "$#idx0 > 0 -> $low = snd (Seq.get $#p0 ($#idx0 - 1)) + 1",
                           "forall i. 0 <= i < Seq.length $complemented -> snd (Seq.get $complemented i) + 1 < $low",
                           "forall c. coversn $#p0 $#idx0 c -> c < $low",
                           "forall c. covers $complemented c <-> (0 <= c < $low /\\ not coversn $#p0 $#idx0 c)"]}}),
    "RegexNFAState::add_interval": FnSpec(
        requires=["0 <= fst $#p0 <= snd $#p0 <= 1114111"],
        ensures=[f"forall b. 0 <= b <= 255 -> Map.get (Map.get {T} this_) b = "
                 f"(if inr $#p0 b then Seq.snoc (Map.get (Map.get (old {T}) this_) b) $#p1 else Map.get (Map.get (old {T}) this_) b)",
                 f"forall s. s <> this_ -> Map.get {T} s = Map.get (old {T}) s"],
        ghost=[("begin", f"let ghost g_p0 = $#p0 in let ghost g_t = {T} in")],
        loops={0: {"inv": ["fst g_p0 <= $#i0 <= 256",
                           f"forall b. 0 <= b <= 255 -> Map.get (Map.get {T} this_) b = "
                           f"(if fst g_p0 <= b < $#i0 then Seq.snoc (Map.get (Map.get g_t this_) b) $#p1 else Map.get (Map.get g_t this_) b)",
                           f"forall s. s <> this_ -> Map.get {T} s = Map.get g_t s",
                           "$#i0 <= $bound + 1"],
                   "var": "256 - $#i0"}},
        writes=["h_RegexNFAState_m_bytes_transitions"]),
    "RegexASTGroup::add_to_nfa": FnSpec(
        requires=[GI, "$nfa.m_root <> 0"],
        ensures=[f"forall b. 0 <= b <= 255 -> "
                 f"(if in_set (Map.get !h_RegexASTGroup_m_negate this_) (Map.get !{RG} this_) b then "
                 f"Map.get (Map.get {T} $nfa.m_root) b = Seq.snoc (Map.get (Map.get (old {T}) $nfa.m_root) b) $#p1 else "
                 f"Map.get (Map.get {T} $nfa.m_root) b = Map.get (Map.get (old {T}) $nfa.m_root) b)",
                 f"forall s. s <> $nfa.m_root -> Map.get {T} s = Map.get (old {T}) s"],
        ghost=[("begin", f"let ghost g_t = {T} in"),
               ("call:RegexASTGroup::merge:0:before", f"ghost (covers_same (Map.get !{RG} this_) $merged_ranges);"),
               ("loop:0:before", f"assert {{ forall c. 0 <= c <= 1114111 -> "
                f"(covers $merged_ranges c <-> in_set (Map.get !h_RegexASTGroup_m_negate this_) (Map.get !{RG} this_) c) }};"),
               ("loop:0:end", "ghost (coversn_step $#seq0 $#idx0);")],
        loops={0: {"inv": [f"added (Map.get g_t $nfa.m_root) (Map.get {T} $nfa.m_root) $#seq0 $#idx0 $#p1",
                           f"forall s. s <> $nfa.m_root -> Map.get {T} s = Map.get g_t s"]}},
        writes=["h_RegexNFAState_m_bytes_transitions"]),
    # constructors: they establish that every range is a range of code points
    "RegexASTGroup::RegexASTGroup#literal": FnSpec(
        sig=r"^void \(const RegexASTLiteral<[^,]*> \*\)$",
        requires=[f"{LIT} $#p0", OTHERS("valid")],
        ensures=[NEG("= false"), f"{MR} = Seq.snoc (Seq.empty: ranges) (char_of $#p0, char_of $#p0)".replace("char_of", CH),
                 GI, f"forall c. covers {MR} c <-> c = ({CH} $#p0)"],
        raises={"Ex_runtime_error": "$#p0 = 0"}, writes=GW,
        ghost=[("end", f"ghost (covers_snoc (Seq.empty: ranges) {MR} ({CH} $#p0, {CH} $#p0));")]),
    "RegexASTGroup::RegexASTGroup#range": FnSpec(
        sig=r"^void \(const RegexASTGroup<[^,]*> \*\)$",
        requires=["$#p0 <> 0", "$#p0 <> this_", f"Seq.length {MRO('$#p0')} = 1", OTHERS("valid")],
        ensures=[NEG("= false"), GI, f"{MR} = {MRO('$#p0')}"],
        writes=GW,
        ghost=[("end", f"assert {{ Seq.(==) {MR} {MRO('$#p0')} }};")]),
    "RegexASTGroup::RegexASTGroup#group-literal": FnSpec(
        sig=r"^void \(const RegexASTGroup<[^,]*> \*, const RegexASTLiteral<[^,]*> \*\)$",
        requires=["$#p0 <> 0", "$#p0 <> this_", f"{LIT} $#p1", OTHERS("valid")],
        ensures=[f"{NG} = {NGO('$#p0')}", GI,
                 f"forall c. covers {MR} c <-> (covers {MRO('$#p0')} c \\/ c = {CH} $#p1)"],
        raises={"Ex_runtime_error": "$#p1 = 0"}, writes=GW,
        ghost=[("end", f"ghost (covers_snoc {MRO('$#p0')} {MR} ({CH} $#p1, {CH} $#p1));")]),
    "RegexASTGroup::RegexASTGroup#group-range": FnSpec(
        sig=r"^void \(const RegexASTGroup<[^,]*> \*, const RegexASTGroup<[^,]*> \*\)$",
        requires=["$#p0 <> 0", "$#p0 <> this_", "$#p1 <> 0", "$#p1 <> this_", f"Seq.length {MRO('$#p1')} = 1", OTHERS("valid")],
        ensures=[f"{NG} = {NGO('$#p0')}", GI,
                 f"forall c. covers {MR} c <-> (covers {MRO('$#p0')} c \\/ covers {MRO('$#p1')} c)"],
        writes=GW,
        ghost=[("end", f"ghost (covers_snoc {MRO('$#p0')} {MR} (Seq.get {MRO('$#p1')} 0));"), ("end", f"assert {{ valid {MR} }};")]),
    "RegexASTGroup::RegexASTGroup#literals": FnSpec(
        sig=r"^void \(const RegexASTLiteral<[^,]*> \*, const RegexASTLiteral<[^,]*> \*\)$",
        requires=[f"{LIT} $#p0", f"{LIT} $#p1", OTHERS("valid")],
        ensures=[NEG("= false"), GI,
                 f"{CH} $#p0 <= {CH} $#p1",
                 f"forall c. covers {MR} c <-> {CH} $#p0 <= c <= {CH} $#p1"],
        raises={"Ex_runtime_error": f"$#p0 = 0 \\/ $#p1 = 0 \\/ {CH} $#p0 > {CH} $#p1"}, writes=GW,
        ghost=[("end", f"ghost (covers_snoc (Seq.empty: ranges) {MR} ({CH} $#p0, {CH} $#p1));")]),
    "RegexASTGroup::RegexASTGroup#min-max": FnSpec(
        sig=r"^void \((uint32_t|unsigned int), (uint32_t|unsigned int)\)$",
        requires=["0 <= $#p0 <= $#p1 <= 1114111", OTHERS("valid")],
        ensures=[NEG("= false"), GI, f"forall c. covers {MR} c <-> $#p0 <= c <= $#p1"], writes=GW,
        ghost=[("end", f"ghost (covers_snoc (Seq.empty: ranges) {MR} ($#p0, $#p1));")]),
    "RegexASTGroup::RegexASTGroup#chars": FnSpec(
        sig=r"^void \(const (std::)?vector<.*> &\)$",
        requires=["forall i. 0 <= i < Seq.length $#p0 -> 0 <= Seq.get $#p0 i <= 1114111", OTHERS("valid")],
        ensures=[NEG("= false"), GI,
                 f"forall c. covers {MR} c <-> exists i. 0 <= i < Seq.length $#p0 /\\ Seq.get $#p0 i = c"], writes=GW,
        ghost=[("loop:0:begin", f"let ghost g_m = {MR} in"),
               ("loop:0:end", f"ghost (covers_snoc g_m {MR} (Seq.get $#p0 $#idx0, Seq.get $#p0 $#idx0));"),
               ("loop:0:end", f"assert {{ forall c. (exists i. 0 <= i < $#idx0 + 1 /\\ Seq.get $#p0 i = c) <-> "
                f"((exists i. 0 <= i < $#idx0 /\\ Seq.get $#p0 i = c) \\/ c = Seq.get $#p0 $#idx0) }};")],
        loops={0: {"inv": [NEG("= false"), GI, f"forall g. g <> this_ -> {MRO('g')} = Map.get (old !{RG}) g",
                           f"forall c. covers {MR} c <-> exists i. 0 <= i < $#idx0 /\\ Seq.get $#p0 i = c"]}}),
    "RegexASTGroup::add_range": FnSpec(
        requires=[GI, "0 <= $#p0 <= $#p1 <= 1114111"],
        ensures=[GI, f"forall c. covers {MR} c <-> (covers (Map.get (old !{RG}) this_) c \\/ $#p0 <= c <= $#p1)"],
        writes=[RG], ghost=[("begin", f"let ghost g_m = {MR} in"),
                            ("end", f"ghost (covers_snoc g_m {MR} ($#p0, $#p1));")]),
    "RegexASTGroup::add_literal": FnSpec(
        requires=[GI, "0 <= $#p0 <= 1114111"],
        ensures=[GI, f"forall c. covers {MR} c <-> (covers (Map.get (old !{RG}) this_) c \\/ c = $#p0)"],
        writes=[RG], ghost=[("begin", f"let ghost g_m = {MR} in"),
                            ("end", f"ghost (covers_snoc g_m {MR} ($#p0, $#p0));")]),
    "RegexASTGroup::get_ranges": FnSpec(ensures=[f"result = {MR}"]),
    "RegexASTGroup::is_negated": FnSpec(ensures=[f"result <-> {NG}"]),
    "RegexASTGroup::set_possible_inputs_to_true": FnSpec(
        requires=[GI],
        ensures=[f"forall c. 0 <= c <= 1114111 -> (Map.get $#p0 c <-> (Map.get (old $#p0) c \\/ in_set {NG} {MR} c))"],
        ghost=[("begin", "let ghost g_in = $#p0 in"),
               ("loop:0:end", f"ghost (coversn_step {MR} $#idx0);"),
               ("loop:2:end", f"ghost (coversn_step {MR} $#idx2);")],
        loops={0: {"inv": [f"forall c. 0 <= c <= 1114111 -> (Map.get $#p0 c <-> (Map.get g_in c \\/ coversn {MR} $#idx0 c))"]},
               1: {"inv": [f"fst (Seq.get {MR} $#idx0) <= $#i1 <= snd (Seq.get {MR} $#idx0) + 1",
                           f"forall c. 0 <= c <= 1114111 -> (Map.get $#p0 c <-> (Map.get g_in c \\/ coversn {MR} $#idx0 c \\/ "
                           f"fst (Seq.get {MR} $#idx0) <= c < $#i1))"],
                   "var": f"snd (Seq.get {MR} $#idx0) + 1 - $#i1"},
               2: {"inv": ["Seq.length $inputs = 1114112",
                           f"forall c. 0 <= c <= 1114111 -> Seq.get $inputs c = (if coversn {MR} $#idx2 c then 0 else 1)"]},
               3: {"inv": [f"fst (Seq.get {MR} $#idx2) <= $#i3 <= snd (Seq.get {MR} $#idx2) + 1", "Seq.length $inputs = 1114112",
                           f"forall c. 0 <= c <= 1114111 -> Seq.get $inputs c = (if coversn {MR} $#idx2 c \\/ "
                           f"fst (Seq.get {MR} $#idx2) <= c < $#i3 then 0 else 1)"],
                   "var": f"snd (Seq.get {MR} $#idx2) + 1 - $#i3"},
               4: {"inv": ["0 <= $#i4 <= 1114112",
                           f"forall c. 0 <= c <= 1114111 -> (Map.get $#p0 c <-> (Map.get g_in c \\/ (c < $#i4 /\\ not covers {MR} c)))"],
                   "var": "1114112 - $#i4"}}),
    "RegexASTGroup::remove_delimiters_from_wildcard": FnSpec(
        requires=[GI, "Seq.length $#p0 < 4294967295", "forall i. 0 <= i < Seq.length $#p0 -> 0 <= Seq.get $#p0 i <= 1114111"],
        ensures=[GI, "Seq.length $#p0 = Seq.length (old $#p0)",
                 "forall c. listed $#p0 (Seq.length $#p0) c <-> listed (old $#p0) (Seq.length $#p0) c",
                 f"not Map.get !h_RegexASTGroup_m_is_wildcard this_ \\/ Seq.length (old $#p0) = 0 -> !{RG} = old !{RG}",
                 f"forall g. g <> this_ -> {MRO('g')} = Map.get (old !{RG}) g",
                 f"Map.get !h_RegexASTGroup_m_is_wildcard this_ /\\ Seq.length (old $#p0) > 0 -> "
                 f"forall c. covers {MR} c <-> (0 <= c <= 1114111 /\\ not listed $#p0 (Seq.length $#p0) c)"],
        writes=[RG],
        ghost=[("loop:0:before", f"ghost (listed_same g_p $#p0; listed_step $#p0 0; if Seq.length {MR} > 0 then covers_snoc (Seq.empty: ranges) {MR} (Seq.get {MR} 0));"),
               ("loop:0:begin", f"let ghost g_m = {MR} in"),
               ("loop:0:end", f"ghost (listed_step $#p0 $#i0; if Seq.length {MR} > Seq.length g_m then covers_snoc g_m {MR} (Seq.get {MR} (Seq.length g_m)));"),
               ("loop:0:after", f"g_l := {MR};"), ("begin", "let ghost g_p = $#p0 in let ghost g_l = ref (Seq.empty: ranges) in"),
               ("end", f"ghost (if Map.get !h_RegexASTGroup_m_is_wildcard this_ && Seq.length $#p0 > 0 && Seq.length {MR} > Seq.length !g_l then "
                f"covers_snoc !g_l {MR} (Seq.get {MR} (Seq.length !g_l)));")],
        loops={0: {"inv": ["1 <= $#i0 <= Seq.length $#p0", GI, f"forall g. g <> this_ -> {MRO('g')} = Map.get (old !{RG}) g",
                           f"forall c. covers {MR} c <-> (0 <= c < Seq.get $#p0 ($#i0 - 1) /\\ not listed $#p0 $#i0 c)"],
                   "var": "Seq.length $#p0 - $#i0"}}),
}

unit = Unit("group", ENTRY, PRELUDE, heap=["RegexASTGroup", "RegexASTLiteral", "RegexNFAState"], single=["RegexNFA"], contracts=contracts, type_alias={"Range": "std::pair<uint32_t, uint32_t>", "Interval": "std::pair<uint32_t, uint32_t>"})
