"""P08, P09, P10: Lexer::scan over the contract of ParserInputBuffer."""
import copy
from vt.trans import Unit, FnSpec, Val, LHeap, LConst, LImm
from vt.ctypes_ import Ty, U
from . import blocks, inbuf

ENTRY = """#include <log_surgeon/Lexer.hpp>
#include <log_surgeon/ParserInputBuffer.cpp>
template class log_surgeon::Lexer<log_surgeon::finite_automata::RegexNFAByteState, log_surgeon::finite_automata::RegexDFAByteState>;
"""
T_END, T_UNC = -1, -2

PRELUDE = """
  type trans = map int (map int int)

  (* the state after reading the characters i to j - 1 of the input from state s (0: none) *)
  let rec ghost function run (nx: trans) (inp: seq int) (s i j: int) : int
    variant { j - i }
  = if j <= i then s else let t = run nx inp s i (j - 1) in if t = 0 then 0 else Map.get (Map.get nx t) (u8 (Seq.get inp (j - 1)))

  predicate acc (ids: map int (seq int)) (s: int) = s > 0 /\\ Seq.length (Map.get ids s) > 0

  (* the characters i to j - 1 are a match: they are accepted, and a delimiter or the end follows *)
  predicate hit (nx: trans) (ids: map int (seq int)) (del: map int bool) (inp: seq int) (fin: bool) (s i j: int) =
    acc ids (run nx inp s i j) /\\ (if j < Seq.length inp then Map.get del (u8 (Seq.get inp j)) else fin)

  (* what scan relies on in the automaton: the root is not accepting, a newline is a token *)
  predicate automaton (root: int) (nx: trans) (ids: map int (seq int)) (first: map int bool) =
    root > 0 /\\ (forall s c. 0 <= Map.get (Map.get nx s) c) /\\ not (acc ids root) /\\ Map.get (Map.get nx root) 10 <> 0 /\\ acc ids (Map.get (Map.get nx root) 10) /\\
    (forall c. 0 <= c <= 255 -> (Map.get first c <-> Map.get (Map.get nx root) c <> 0)) /\\
    not (acc ids (Map.get (Map.get nx root) 253))

  (* states reached in a variable behind its first character *)
  predicate inner (s: int)

  (* the delimiters contain the newline, and variables contain a delimiter only at their start *)
  predicate variables (root: int) (nx: trans) (del: map int bool) =
    Map.get del 10 /\\ (forall c. 0 <= c <= 255 -> Map.get (Map.get nx root) c <> 0 -> Map.get del c) /\\
    (forall c. 0 <= c <= 255 -> c <> 10 -> c <> 253 -> Map.get (Map.get nx root) c <> 0 -> inner (Map.get (Map.get nx root) c)) /\\
    (forall s c. inner s -> 0 <= c <= 255 -> Map.get (Map.get nx s) c <> 0 -> not (Map.get del c) /\\ inner (Map.get (Map.get nx s) c))

  (* no token starts at p *)
  predicate nomatch (root: int) (nx: trans) (ids: map int (seq int)) (del: map int bool) (inp: seq int) (fin: bool) (p: int) =
    u8 (Seq.get inp p) <> 10 /\\
    ((exists k. p < k <= Seq.length inp /\\ run nx inp root p k = 0 /\\ forall j. p <= j < k -> not (hit nx ids del inp fin root p j)) \\/
     (fin /\\ forall j. p <= j <= Seq.length inp -> not (hit nx ids del inp fin root p j)))

  predicate bytes (inp: seq int) = forall i. 0 <= i < Seq.length inp -> -128 <= Seq.get inp i <= 127

  (* the text contains no character that is reserved for the start of the input *)
  predicate nosof (inp: seq int) = forall i. 0 <= i < Seq.length inp -> u8 (Seq.get inp i) <> 253

  let ghost run_step (nx: trans) (inp: seq int) (s i j: int)
    requires { i <= j }
    ensures { run nx inp s i (j + 1) = (if run nx inp s i j = 0 then 0 else Map.get (Map.get nx (run nx inp s i j)) (u8 (Seq.get inp j))) }
  = ()
  let ghost run_first (nx: trans) (inp: seq int) (s i: int)
    ensures { s <> 0 -> run nx inp s i (i + 1) = Map.get (Map.get nx s) (u8 (Seq.get inp i)) }
    ensures { run nx inp s i i = s }
  = run_step nx inp s i i
  let rec ghost run_dead (nx: trans) (inp: seq int) (s i k j: int)
    requires { i <= k <= j /\\ run nx inp s i k = 0 }
    ensures { run nx inp s i j = 0 }
    variant { j - k }
  = if k < j then begin run_step nx inp s i (j - 1); run_dead nx inp s i k (j - 1) end

  (* positions in the storage and distances from the end of the input *)
  let ghost positions (p: cptr) (size pos e cons: int) (lrfh fin: bool) (mem: map int (map int int)) (inp: seq int)
                      (valid rem u: int) (stale ext: bool) (dyn: seq int) (alive: fset int)
    requires { pinv p size pos e cons lrfh fin mem inp valid rem u stale ext /\\ room p size dyn alive ext }
    ensures { forall d. 0 <= d <= u -> dist size e (phys size e d) = d }
    ensures { forall d. 0 <= d <= u -> 0 <= phys size e d /\\ (phys size e d < size \\/ (ext /\\ phys size e d = e)) }
    ensures { forall d. 0 <= d <= u -> u < size \\/ size = 0 }
  = ()

  (* in a variable, no token starts behind the first character *)
  let rec ghost inside (root: int) (nx: trans) (ids: map int (seq int)) (del: map int bool) (first: map int bool) (inp: seq int) (i j: int)
    requires { automaton root nx ids first /\\ variables root nx del /\\ bytes inp /\\ 0 <= i < j <= Seq.length inp }
    requires { u8 (Seq.get inp i) <> 10 /\\ u8 (Seq.get inp i) <> 253 }
    requires { run nx inp root i j <> 0 }
    ensures { inner (run nx inp root i j) }
    ensures { forall p. i < p < j -> not (Map.get del (u8 (Seq.get inp p))) }
    variant { j - i }
  = if j = i + 1 then run_first nx inp root i
    else begin run_step nx inp root i (j - 1); inside root nx ids del first inp i (j - 1) end

  let ghost nostart (root: int) (nx: trans) (ids: map int (seq int)) (del: map int bool) (first: map int bool) (inp: seq int) (fin: bool) (p: int)
    requires { automaton root nx ids first /\\ bytes inp /\\ 0 <= p < Seq.length inp /\\ Map.get (Map.get nx root) (u8 (Seq.get inp p)) = 0 }
    ensures { nomatch root nx ids del inp fin p }
  = run_first nx inp root p;
    assert { u8 (Seq.get inp p) <> 10 };
    assert { forall j. p <= j < p + 1 -> not (hit nx ids del inp fin root p j) };
    assert { nomatch root nx ids del inp fin p by p < p + 1 <= Seq.length inp /\\ run nx inp root p (p + 1) = 0 }

  (* no token starts in a variable that was read up to c without a match *)
  let ghost gap (root: int) (nx: trans) (ids: map int (seq int)) (del: map int bool) (first: map int bool) (inp: seq int) (fin: bool) (i c: int)
    requires { automaton root nx ids first /\\ variables root nx del /\\ bytes inp /\\ nosof inp /\\ 0 <= i <= c <= Seq.length inp }
    requires { i < c -> u8 (Seq.get inp i) <> 10 /\\ run nx inp root i c <> 0 }
    requires { c < Seq.length inp -> u8 (Seq.get inp c) = 10 \\/ run nx inp root i (c + 1) = 0 }
    requires { c = Seq.length inp -> fin }
    requires { forall j. i <= j <= c -> not (hit nx ids del inp fin root i j) }
    ensures { forall p. i <= p < c -> nomatch root nx ids del inp fin p }
  = if i < c then begin
      inside root nx ids del first inp i c;
      run_step nx inp root i c;
      assert { c < Seq.length inp -> run nx inp root i (c + 1) = 0 };
      assert { nomatch root nx ids del inp fin i };
      for p = i + 1 to c - 1 do
        invariant { forall q. i <= q < p -> nomatch root nx ids del inp fin q }
        assert { not (Map.get del (u8 (Seq.get inp p))) };
        nostart root nx ids del first inp fin p
      done
    end
  (* a choice that does not split the proof *)
  let select (c: bool) (x y: int) : int ensures { result = if c then x else y } = if c then x else y
  let both (a b: bool) : bool ensures { result <-> a /\\ b } = a && b
  let either (a b: bool) : bool ensures { result <-> a \\/ b } = a || b
  let eq (a b: int) : bool ensures { result <-> a = b } = a = b

  (* the same without preconditions *)
  let ghost step (nx: trans) (inp: seq int) (s i j root: int)
    ensures { i <= j -> run nx inp s i (j + 1) = (if run nx inp s i j = 0 then 0 else Map.get (Map.get nx (run nx inp s i j)) (u8 (Seq.get inp j))) }
    ensures { root <> 0 -> run nx inp root j (j + 1) = Map.get (Map.get nx root) (u8 (Seq.get inp j)) }
    ensures { run nx inp root j j = root }
  = run_first nx inp root j; if i <= j then run_step nx inp s i j

  let ghost dead (nx: trans) (inp: seq int) (s i k n: int)
    ensures { i <= k -> run nx inp s i k = 0 -> forall j. k <= j <= n -> run nx inp s i j = 0 }
  = if i <= k && run nx inp s i k = 0 then
      for m = k to n do
        invariant { forall j. k <= j < m -> run nx inp s i j = 0 }
        run_dead nx inp s i k m
      done

  let ghost nostart_if (root: int) (nx: trans) (ids: map int (seq int)) (del: map int bool) (first: map int bool) (inp: seq int) (fin: bool) (p: int)
    requires { automaton root nx ids first /\\ bytes inp }
    ensures { 0 <= p < Seq.length inp -> Map.get (Map.get nx root) (u8 (Seq.get inp p)) = 0 -> nomatch root nx ids del inp fin p }
    ensures { 0 <= p < Seq.length inp -> variables root nx del -> not (Map.get first (u8 (Seq.get inp p)) /\\ Map.get del (u8 (Seq.get inp p))) -> nomatch root nx ids del inp fin p }
  = if 0 <= p && p < Seq.length inp && pure { Map.get (Map.get nx root) (u8 (Seq.get inp p)) = 0 } then nostart root nx ids del first inp fin p

  let ghost gap_if (root: int) (nx: trans) (ids: map int (seq int)) (del: map int bool) (first: map int bool) (inp: seq int) (fin: bool) (i c: int)
    requires { automaton root nx ids first /\\ bytes inp }
    ensures { variables root nx del -> nosof inp -> 0 <= i <= c <= Seq.length inp -> (i < c -> u8 (Seq.get inp i) <> 10 /\\ run nx inp root i c <> 0) ->
       (c < Seq.length inp -> u8 (Seq.get inp c) = 10 \\/ run nx inp root i (c + 1) = 0) -> (c = Seq.length inp -> fin) ->
       (forall j. i <= j <= c -> not (hit nx ids del inp fin root i j)) -> forall p. i <= p < c -> nomatch root nx ids del inp fin p }
  = if pure { variables root nx del /\\ nosof inp /\\ 0 <= i <= c <= Seq.length inp /\\ (i < c -> u8 (Seq.get inp i) <> 10 /\\ run nx inp root i c <> 0) /\\
       (c < Seq.length inp -> u8 (Seq.get inp c) = 10 \\/ run nx inp root i (c + 1) = 0) /\\ (c = Seq.length inp -> fin) /\\
       (forall j. i <= j <= c -> not (hit nx ids del inp fin root i j)) } then gap root nx ids del first inp fin i c
"""

B, PI, L = "!o_Buffer__", "!o_ParserInputBuffer__", "!o_Lexer__"


def glob(t):
    return t.replace("$this.m_storage.", B).replace("$this.", PI)


def shared(names=None):
    """The contracts proved in the unit inbuf."""
    r = {}
    for q, s in {**blocks.contracts("cmem"), **inbuf.contracts}.items():
        s = copy.copy(s)
        s.noproof = True
        r[q] = s
    return r


INV, ROOM = glob(inbuf.INV), glob(inbuf.ROOM)
NX, IDS = "!h_RegexDFAState_m_bytes_transition", "!h_RegexDFAState_m_matching_variable_ids"
DEL, FIRST = L + "m_is_delimiter", L + "m_is_first_char"
ROOT = "(Seq.get !o_RegexDFA__m_states 0)"
SIZE, END, FIN = B + "m_active_size", PI + "m_pos_last_read_char", PI + "m_finished_reading_input"
LEN = "Seq.length !g_in"
CUR = f"({LEN} - !g_rem)"
AUTOC = f"Seq.length !o_RegexDFA__m_states > 0 /\\ automaton {ROOT} {NX} {IDS} {FIRST} /\\ {L}m_has_delimiters"
VARSC = f"variables {ROOT} {NX} {DEL}"
AUTO = f"Seq.length !o_RegexDFA__m_states > 0 /\\ automaton {ROOT} {NX} {IDS} {FIRST} /\\ {L}m_has_delimiters /\\ bytes !g_in"
VARS = f"variables {ROOT} {NX} {DEL} /\\ nosof !g_in"


def at(f, a):
    return f"{L}{f} = phys {SIZE} {END} ({LEN} - {a}) /\\ 0 <= {LEN} - {a} <= !g_u"


def run(i, j, s="!a_from"):
    return f"(run {NX} !g_in {s} {i} {j})"


def hit(i, j, s="!a_from"):
    return f"(hit {NX} {IDS} {DEL} !g_in {FIN} {s} {i} {j})"


NOM = f"nomatch {ROOT} {NX} {IDS} {DEL} !g_in {FIN} p"
FROM = f"(!a_from = {ROOT} \\/ !a_from = Map.get (Map.get {NX} {ROOT}) 253)"
# the positions in the storage
POS = [at("m_last_match_pos", "!a_last"), at("m_start_pos", "!a_start"), at("m_match_pos", "!a_match"), "!a_last <= !a_start", "!a_last <= !a_match"]
# no token starts in the text that was skipped
SKIP = f"{VARS} -> forall p. !a_last <= p < !a_start -> {NOM}"
# the match found so far
FOUND = f"!a_start < !a_match /\\ {L}m_type_ids = {run('!a_start', '!a_match')} /\\ acc {IDS} {L}m_type_ids /\\ ({hit('!a_start', '!a_match')} \\/ (!a_match = !a_start + 1 /\\ u8 (Seq.get !g_in !a_start) = 10))"


def scanning(state, lfc=True):
    """The state of a scan that has read the input up to the current position."""
    c = CUR
    return [f"0 <= !a_last /\\ !a_start <= {c}", *POS, FROM, SKIP,
            f"{state} <> 0 -> {state} = {run('!a_start', c)}", f"0 <= {state}",
            f"!a_from <> {ROOT} -> {L}m_is_start_of_file_scan /\\ !a_start = !a_sof",
            f"{L}m_match -> !a_match <= {c} /\\ {state} <> 0 /\\ {FOUND}",
            f"{L}m_match -> forall j. !a_match < j < {c} -> not {hit('!a_start', 'j')}",
            f"not {L}m_match /\\ {state} <> 0 -> forall j. !a_start <= j < {c} -> not {hit('!a_start', 'j')}",
            f"not {L}m_match /\\ {state} <> 0 -> !a_from = {ROOT} -> forall p. !a_start <= p < {c} -> u8 (Seq.get !g_in p) <> 10",
            f"{state} = 0 -> {VARS} -> forall p. !a_start <= p < {c} -> {NOM}",
            f"{state} <> 0 /\\ !a_start = {c} -> !a_last = !a_start \\/ !g_rem > 0 \\/ {PI}m_log_fully_consumed",
            f"{state} = 0 /\\ !a_start = {c} -> !g_rem > 0 \\/ {PI}m_log_fully_consumed \\/ {c} = !a_sof",
            f"{PI}m_log_fully_consumed -> !g_rem = 0 /\\ {FIN} /\\ ({END} <> {SIZE} \\/ {SIZE} = 0)"]


# the result of a scan that ended
BEST = (f"{FOUND} /\\ {FROM} /\\ (forall j. !a_match < j <= {LEN} -> not {hit('!a_start', 'j')}) /\\ "
        f"({FIN} \\/ exists k. !a_match <= k <= {LEN} /\\ {run('!a_start', 'k')} = 0)")
PENDING = f"({L}m_type_ids = {T_END} /\\ !a_start = {LEN} /\\ !a_match = {LEN} /\\ {FIN}) \\/ ({BEST})"
BEGIN = f"{L}m_match -> !a_match >= !a_start /\\ {CUR} = !a_match /\\ ({PENDING})"
MOREIN = f"(not {FIN} \\/ {END} = {SIZE}) /\\ (!g_ext \\/ not {PI}m_log_fully_consumed)"
TOK = (f"$token.m_start_pos = phys {SIZE} {END} ({LEN} - (old !a_pos)) /\\ $token.m_end_pos = phys {SIZE} {END} ({LEN} - !a_pos) /\\ "
       f"$token.m_buffer = {B}m_active_storage /\\ $token.m_buffer_size = {SIZE}")
ASK = f"{L}m_asked_for_more_data"
CONSUMED = f"{PI}m_log_fully_consumed -> !g_rem = 0 /\\ {FIN} /\\ ({END} <> {SIZE} \\/ {SIZE} = 0)"


def ready():
    """Between two scans."""
    return ([f"{ASK} -> ({x})" for x in scanning(L + "m_prev_state")] +
            [f"not {ASK} -> {at('m_last_match_pos', '!a_last')} /\\ 0 <= !a_last", f"not {ASK} -> {CONSUMED}",
             f"not {ASK} /\\ {L}m_match -> {at('m_start_pos', '!a_start')} /\\ {at('m_match_pos', '!a_match')} /\\ !a_last <= !a_start <= !a_match /\\ {CUR} = !a_match",
             f"not {ASK} /\\ {L}m_match -> {PENDING}", f"not {ASK} /\\ not {L}m_match -> {CUR} = !a_last",
             f"!a_pos = (if not {ASK} && {L}m_match then !a_start else !a_last)"])


BASE = [INV, ROOM, AUTO]

NXT = "$token.m_type_ids_ptr"
LEMMAS = f"""ghost (positions {B}m_active_storage {SIZE} {B}m_pos {END} {PI}m_consumed_pos {PI}m_last_read_first_half {FIN} !cmem !g_in !g_valid !g_rem !g_u !g_stale !g_ext !o_Buffer__m_dynamic_storages !alive);"""
STEP = f"ghost (step {NX} !g_in !a_from !a_start !a_prev {ROOT});"
AT = f"{ROOT} {NX} {IDS} {DEL} {FIRST} !g_in {FIN}"
NOSTART = f"ghost (nostart_if {AT} !a_prev);"
DEAD = f"ghost (dead {NX} !g_in !a_from !a_start (!a_prev + 1) ({LEN}));"
GAP = f"ghost (gap_if {AT} !a_start !a_prev);"
HITS = f"(both (either (mget {DEL} $next_char) {PI}m_log_fully_consumed) (0 < seq_size (mget {IDS} $state)))"
HITA = f"""
 assert {{ [@expl:the match found so far] {L}m_match -> {FOUND} }};
 assert {{ [@expl:no later match] {L}m_match -> forall j. !a_match < j <= !a_prev -> not {hit('!a_start', 'j')} }};
 assert {{ [@expl:no match] not {L}m_match -> forall j. !a_start <= j <= !a_prev -> not {hit('!a_start', 'j')} }};
 """
GROWS = ["not !g_ext", ASK, f"{END} <> 0", f"not {FIN} \\/ {END} = {SIZE}", f"not {PI}m_log_fully_consumed", "!g_rem = 0", f"!a_sof < {LEN}", f"{SIZE} <= 1073741823"]
contracts = {
    "RegexDFAState::next": FnSpec(requires=["0 <= $#p0 <= 255"], ensures=[f"result = Map.get (Map.get {NX} this_) $#p0"]),
    "Lexer::scan": FnSpec(
        requires=BASE + ready(),
        ensures=BASE + ready() + [
            f"{ASK} <-> result <> 0", f"result <> 0 -> result = 1 /\\ !g_rem = 0 /\\ !a_pos = old !a_pos /\\ !a_last = old !a_last", f"result <> 0 -> {MOREIN}",
            f"result = 0 -> {TOK}", f"result = 0 -> old !a_pos < !a_pos \\/ ({NXT} = {T_END} /\\ !a_pos = old !a_pos /\\ !a_pos = {LEN} /\\ {FIN} /\\ not {L}m_match)",
            f"result = 0 /\\ {NXT} = {T_END} -> !a_pos = old !a_pos",
            f"result = 0 /\\ {NXT} = {T_UNC} -> {L}m_match",
            f"result = 0 /\\ {NXT} = {T_UNC} -> {VARS} -> forall p. (old !a_pos) <= p < !a_pos -> {NOM}",
            f"result = 0 /\\ {NXT} <> {T_UNC} -> not {L}m_match",
            f"result = 0 /\\ {NXT} <> {T_UNC} /\\ {NXT} <> {T_END} -> {NXT} = {L}m_type_ids /\\ !a_pos = !a_match /\\ !a_start = old !a_pos /\\ {BEST}"],
        writes=["a_last", "a_start", "a_match", "a_from", "a_pos", "a_prev", "g_rem", "o_Buffer__m_pos", "o_ParserInputBuffer__m_log_fully_consumed"] +
               ["o_Lexer__" + x for x in ("m_match_pos", "m_start_pos", "m_match_line", "m_last_match_pos", "m_last_match_line", "m_match", "m_type_ids", "m_line",
                                          "m_asked_for_more_data", "m_is_start_of_file_scan", "m_prev_state")],
        ghost=[("begin", f"let asked0 = {ASK} in " + LEMMAS),
               ("loop:0:before", f"a_start := select asked0 !a_start {CUR}; a_match := select asked0 !a_match {CUR}; a_from := select asked0 !a_from (Seq.get !o_RegexDFA__m_states 0); ghost (run_first {NX} !g_in {ROOT} {CUR});"),
               ("loop:0:begin", f"let g_r0 = !g_rem in let g_s0 = !a_start in let g_a0 = !a_from in let g_z0 = $state in a_prev := {CUR};" + LEMMAS),
               ("call:ParserInputBuffer::get_next_character:0:after", LEMMAS + STEP + NOSTART + f"assert {{ [@expl:skipped] $result = 0 -> $state = 0 -> {VARS} -> not {PI}m_log_fully_consumed -> not (Map.get {FIRST} $next_char /\\ Map.get {DEL} $next_char) -> forall p. !a_start <= p <= !a_prev -> {NOM} }};"),
               ("call:ParserInputBuffer::set_pos:0:after", f"a_start := {CUR}; a_from := Seq.get !o_RegexDFA__m_states 0; ghost (run_first {NX} !g_in {ROOT} {CUR}); assert {{ [@expl:skipping makes progress] !a_start > g_s0 \\/ (!a_start = g_s0 /\\ !g_rem <= g_r0 /\\ g_z0 = 0) }};" + LEMMAS),
               ("call:RegexDFAState::next:0:before", f"a_match := select {HITS} !a_prev !a_match;" + HITA + DEAD),
               ("call:ParserInputBuffer::set_pos:1:after", LEMMAS + "a_from := Seq.get !o_RegexDFA__m_states 0;"),
               ("call:RegexDFAState::next:1:before", GAP),
               ("loop:1:before", GAP + f"assert {{ [@expl:skipped] {VARS} -> forall p. !a_start <= p < !a_prev -> {NOM} }};"),
               ("call:RegexDFAState::next:1:after", "a_start := !a_prev; a_match := !a_prev + 1; a_from := Seq.get !o_RegexDFA__m_states 0;"),
               ("call:ParserInputBuffer::get_next_character:1:before", NOSTART + f"assert {{ [@expl:skipped] {VARS} -> forall p. !a_start <= p <= !a_prev -> {NOM} }};" + f"a_prev := {CUR};"),
               ("call:ParserInputBuffer::get_next_character:1:after", LEMMAS),
               ("call:Buffer::pos:5:after", f"a_match := {CUR};"),
               ("call:ParserInputBuffer::set_pos:3:after", LEMMAS + f"a_start := {CUR}; a_from := Seq.get !o_RegexDFA__m_states 0; ghost (run_first {NX} !g_in {ROOT} {CUR}); assert {{ [@expl:a scan without a match makes progress] !a_start > g_s0 \\/ (!a_start = g_s0 /\\ g_a0 <> {ROOT}) }};"),
               ("end", LEMMAS + f"assert {{ [@expl:positions] not {ASK} -> 0 <= {LEN} - !a_last <= !g_u -> 0 <= {LEN} - !a_start <= !g_u -> phys {SIZE} {END} ({LEN} - !a_last) = phys {SIZE} {END} ({LEN} - !a_start) -> !a_last = !a_start }};" + f"a_last := select (either (not (eq $result 0)) (eq {NXT} ({T_UNC}))) !a_last (select (eq {NXT} ({T_END})) !a_start !a_match);"
                       f"a_pos := select (eq $result 0) (select (either (eq {NXT} ({T_UNC})) (eq {NXT} ({T_END}))) !a_start !a_match) !a_pos;")],
        loops={0: {"inv": BASE + scanning("$state") + [f"not {ASK}", "!a_pos = !a_last", "!a_pos = old !a_pos"],
                   "var": f"(if {L}m_is_start_of_file_scan then 1 else 0) + (if !a_from <> {ROOT} then 1 else 0), {LEN} - !a_start, 2 * !g_rem + (if $state = 0 then 1 else 0)"},
               1: {"inv": BASE + POS + [f"not {ASK}", "0 <= !a_last", SKIP, f"!a_start <= !a_prev <= {CUR}",
                                        f"$prev_byte_buf_pos = phys {SIZE} {END} ({LEN} - !a_prev) /\\ 0 <= {LEN} - !a_prev <= !g_u", CONSUMED, f"{PI}m_log_fully_consumed -> !a_prev = {LEN}",
                                        f"!a_start < !a_prev \\/ !a_from <> {ROOT} \\/ (not {PI}m_log_fully_consumed /\\ not (Map.get {FIRST} $next_char))",
                                        f"not {PI}m_log_fully_consumed -> $next_char = u8 (Seq.get !g_in !a_prev) /\\ !a_prev < {LEN} /\\ {CUR} = !a_prev + 1",
                                        f"{VARS} -> forall p. !a_start <= p < !a_prev -> {NOM}"],
                   "var": f"!g_rem + (if {PI}m_log_fully_consumed then 0 else 1)"}}),
    "Lexer::prepend_start_of_file_char": FnSpec(
        requires=BASE + [f"not {PI}m_log_fully_consumed", f"not {L}m_match"],
        ensures=BASE + ready() + [f"!a_last = {CUR}", f"!a_start = {CUR}", f"!a_pos = {CUR}", f"!a_sof = {CUR}", ASK],
        writes=["a_last", "a_start", "a_match", "a_from", "a_pos", "a_sof"] +
               ["o_Lexer__" + x for x in ("m_prev_state", "m_asked_for_more_data", "m_is_start_of_file_scan", "m_start_pos", "m_match_pos", "m_last_match_pos", "m_match_line", "m_type_ids")],
        ghost=[("begin", LEMMAS), ("end", f"a_last := {CUR}; a_start := {CUR}; a_match := {CUR}; a_pos := {CUR}; a_sof := {CUR}; a_from := {L}m_prev_state;"
                f"ghost (run_first {NX} !g_in !a_from {CUR});")]),
    "Lexer::increase_buffer_capacity": FnSpec(
        requires=BASE + ready() + GROWS,
        ensures=BASE + ready() + [f"{SIZE} = 2 * old {SIZE}", "!g_rem = 0", "!g_stale", ASK, f"not (Fset.mem ({B}m_active_storage).cbase (old !alive))",
                 f"{END} = old {SIZE} /\\ {PI}m_last_read_first_half",
                 "forall b. Fset.mem b (old !alive) -> Fset.mem b !alive", "forall b. Fset.mem b (old !alive) -> Map.get !cmem b = Map.get (old !cmem) b"],
        writes=["cmem", "g_stale"] + ["o_ParserInputBuffer__" + x for x in ("m_last_read_first_half", "m_pos_last_read_char")] +
               ["o_Buffer__" + x for x in ("m_pos", "m_active_size", "m_active_storage", "m_dynamic_storages")] + ["alive"] +
               ["o_Lexer__" + x for x in ("m_match_pos", "m_start_pos", "m_last_match_pos")],
        ghost=[("begin", LEMMAS + f"ghost (run_first {NX} !g_in !a_from {CUR});"), ("end", LEMMAS)]),
    "Lexer::reset": FnSpec(
        ensures=[f"{L}{f} = 0" for f in ("m_last_match_pos", "m_line", "m_match_pos", "m_start_pos", "m_match_line", "m_last_match_line", "m_type_ids", "m_prev_state")] +
                [f"not {L}{f}" for f in ("m_match", "m_asked_for_more_data", "m_is_start_of_file_scan")],
        writes=["o_Lexer__" + f for f in ("m_last_match_pos", "m_line", "m_match_pos", "m_start_pos", "m_match_line", "m_last_match_line", "m_type_ids", "m_prev_state",
                                          "m_match", "m_asked_for_more_data", "m_is_start_of_file_scan")]),
}


def addressof(fn, l, t):
    if isinstance(l, LHeap) and l.field == "m_matching_variable_ids":
        return Val(l.loc, t)
    if isinstance(l, (LConst, LImm)) and l.e in (str(T_END), str(T_UNC)):
        return Val("(%s)" % l.e, t)
    return None


FM = dict(inbuf.FM)
FM["ghost_refs"] = {**inbuf.FM["ghost_refs"], "a_last": "int", "a_start": "int", "a_match": "int", "a_from": "int", "a_prev": "int", "a_pos": "int", "a_sof": "int"}
FM["globals"] = {"cTokenEndTypes": lambda fn, n: LConst(str(T_END), Ty("vec", [U(32)])), "cTokenUncaughtStringTypes": lambda fn, n: LConst(str(T_UNC), Ty("vec", [U(32)]))}
FM["addressof"] = addressof
unit = Unit("lexer", ENTRY, lambda tr: blocks.prelude(tr) + inbuf.PRELUDE + PRELUDE, single=["ParserInputBuffer", "Buffer", "Reader", "Lexer", "RegexDFA"],
            heap=["RegexDFAState"], value=["Token"],
            contracts={**shared(), **contracts}, fieldmap=FM, enums=["ErrorCode"], hooks={"std::function": inbuf.reader},
            uses="  use int.EuclideanDivision as ED\n")
contracts = unit.contracts
