"""P08, P10, P11, P12: LogParser over the contracts of Lexer::scan, ParserInputBuffer and LogParserOutputBuffer."""
import copy, re
from vt.trans import Unit, FnSpec, Val, LConst, LHeap, LImm
from vt.ctypes_ import Ty, U, I
from . import blocks, inbuf, lexer, outview
from .lexer import INV, ROOM, AUTO, VARS, LEN, SIZE, END, FIN, CUR, B, PI, L, IDS, T_END, T_UNC

ENTRY = """#include <log_surgeon/ParserInputBuffer.cpp>
#include <log_surgeon/LogParserOutputBuffer.cpp>
#include <log_surgeon/LogParser.cpp>
template class log_surgeon::Lexer<log_surgeon::finite_automata::RegexNFAByteState, log_surgeon::finite_automata::RegexDFAByteState>;
"""
TYPES = {"m_match": "bool", "m_asked_for_more_data": "bool", "m_is_start_of_file_scan": "bool", "m_finished_reading_input": "bool",
         "m_log_fully_consumed": "bool", "m_is_delimiter": "map int bool", "m_is_first_char": "map int bool", "m_bytes_transition": "trans",
         "m_matching_variable_ids": "map int (seq int)", "g_in": "seq int", "m_states": "seq int", "m_has_delimiters": "bool"}


def state_predicate(name, parts):
    """A predicate over the state its text refers to, and its application to the current state."""
    text = " /\\ ".join("(%s)" % p for p in parts)
    refs = sorted(set(re.findall(r"!(\w+)", text)))

    def ty(r):
        for k in sorted(TYPES, key=len, reverse=True):
            if r.endswith(k):
                return TYPES[k]
        return "int"
    body = re.sub(r"!(\w+)", r"v_\1", text)
    decl = "predicate %s %s" % (name, " ".join("(v_%s: %s)" % (r, ty(r)) for r in refs))
    return decl, body, "(%s %s)" % (name, " ".join("!" + r for r in refs))


READY = [x.replace(" <= !g_u", "") for x in lexer.ready()]
RDY_DECL, RDY_BODY, RDY = state_predicate("lexing", READY)
KEPT = f"{LEN} - !a_last <= !g_u"


def tid(p):
    return f"(tid {IDS} ({p}))"


PRELUDE = r"""
  (* the ids of a token: of a state of the automaton, or one of the lists for the end and for static text *)
  function ids (m: map int (seq int)) (p: int) : seq int =
    if p = -1 then Seq.create 1 (fun _ -> sEnd) else if p = -2 then Seq.create 1 (fun _ -> sUnc) else Map.get m p

  function tid (m: map int (seq int)) (p: int) : int = Seq.get (ids m p) 0

  val idsof (m: map int (seq int)) (p: int) : seq int
    ensures { result = ids m p }

  (* the output buffer: specs/outview.py *)
  predicate out_ok (state: int) (tok: map int r_token) (pos size: int)
  constant obstatic : int = %d

  let ghost listed (m: map int (seq int)) (p: int)
    ensures { p = -1 -> Seq.length (ids m p) = 1 /\ tid m p = sEnd }
    ensures { p = -2 -> Seq.length (ids m p) = 1 /\ tid m p = sUnc }
    ensures { p >= 0 -> ids m p = Map.get m p }
  = ()

  (* the reserved rules: a newline is one character, a timestamp behind a newline starts with it; no rule has the ids of the end or of static text *)
  predicate reserved (root: int) (nx: trans) (m: map int (seq int)) =
    forall inp f i j. (f = root \/ f = Map.get (Map.get nx root) 253) -> i < j -> acc m (run nx inp f i j) ->
      let t = tid m (run nx inp f i j) in
      t <> sEnd /\ t <> sUnc /\ (t = sNewline -> j = i + 1 /\ u8 (Seq.get inp i) = 10) /\
      (t = sNewlineTs -> j > i + 1 /\ u8 (Seq.get inp i) = 10)

  predicate timestamp (t: int) = t = sFirstTs \/ t = sNewlineTs

  function first (ht: bool) : int = if ht then 0 else 1

  (* the tokens of the event follow each other from b to e *)
  predicate tiles (ht: bool) (n: int) (s e: map int int) (b f: int) =
    first ht <= n /\ (n = first ht -> b = f) /\
    (n > first ht -> Map.get s (first ht) = b /\ Map.get e (n - 1) = f) /\
    (forall i. first ht <= i < n -> Map.get s i <= Map.get e i) /\
    (forall i. first ht <= i < n - 1 -> Map.get e i = Map.get s (i + 1))

  (* the event starts with a timestamp exactly if ht; no token before the n-th ends it *)
  predicate open (m: map int (seq int)) (inp: seq int) (ht: bool) (n: int) (tok: map int r_token) (s: map int int) =
    (first ht < n -> (ht <-> timestamp (tid m (Map.get tok (first ht)).token_m_type_ids_ptr))) /\
    (forall i. first ht < i < n -> let t = tid m (Map.get tok i).token_m_type_ids_ptr in
       if ht then t <> sNewlineTs else t <> sNewline /\ u8 (Seq.get inp (Map.get s i)) <> 10)

  function wrapped (n i: int) : int = if i < n then i else i - n

  (* the text of the token is the input from s to f *)
  predicate spans (mem: map int (map int int)) (inp: seq int) (t: r_token) (s f: int) =
    0 <= t.token_m_start_pos <= t.token_m_buffer_size /\ 0 <= t.token_m_end_pos <= t.token_m_buffer_size /\
    f - s = (if t.token_m_start_pos <= t.token_m_end_pos then t.token_m_end_pos - t.token_m_start_pos
             else t.token_m_end_pos - t.token_m_start_pos + t.token_m_buffer_size) /\
    (forall p. s <= p < f -> Seq.get inp p = Map.get (Map.get mem t.token_m_buffer.cbase) (t.token_m_buffer.coff + wrapped t.token_m_buffer_size (t.token_m_start_pos + (p - s))))

  (* the token lies from s to f in the storage, or in a storage that is not used for reading any more *)
  predicate located (mem: map int (map int int)) (alive: fset int) (act: cptr) (size e: int) (inp: seq int) (t: r_token) (s f: int) =
    0 <= s <= f <= Seq.length inp /\
    ((t.token_m_buffer = act /\ t.token_m_buffer_size = size /\ t.token_m_start_pos = phys size e (Seq.length inp - s) /\
      (t.token_m_end_pos = phys size e (Seq.length inp - f) \/ (t.token_m_end_pos = size /\ phys size e (Seq.length inp - f) = 0 /\ s < f))) \/
     (t.token_m_buffer.cbase <> act.cbase /\ Fset.mem t.token_m_buffer.cbase alive /\ spans mem inp t s f))

  predicate held (mem: map int (map int int)) (alive: fset int) (act: cptr) (size e: int) (inp: seq int) (ht: bool) (n: int) (tok: map int r_token) (s f: map int int) (b: int) =
    forall i. first ht <= i < n -> b <= Map.get s i /\ located mem alive act size e inp (Map.get tok i) (Map.get s i) (Map.get f i)

  (* the text of every token of the event is its part of the input *)
  predicate texts (mem: map int (map int int)) (inp: seq int) (ht: bool) (n: int) (tok: map int r_token) (s f: map int int) =
    forall i. first ht <= i < n -> spans mem inp (Map.get tok i) (Map.get s i) (Map.get f i)

  let ghost located_spans (mem: map int (map int int)) (alive: fset int) (act: cptr) (size e: int) (inp: seq int) (t: r_token) (s f valid: int)
    requires { located mem alive act size e inp t s f /\ holds (Map.get mem act.cbase) act.coff size e inp valid /\ Seq.length inp - s <= valid }
    requires { 0 <= e <= size /\ Seq.length inp - s < size \/ (e <= size /\ 0 <= e /\ Seq.length inp - s <= e /\ e < size) \/ (0 <= e <= size /\ Seq.length inp = s) }
    ensures { spans mem inp t s f }
  = assert { t.token_m_buffer = act -> t.token_m_buffer_size = size /\ 0 <= t.token_m_start_pos <= size /\ 0 <= t.token_m_end_pos <= size
      by t.token_m_buffer.cbase = act.cbase };
    assert { t.token_m_buffer = act -> f - s = (if t.token_m_start_pos <= t.token_m_end_pos then t.token_m_end_pos - t.token_m_start_pos
             else t.token_m_end_pos - t.token_m_start_pos + t.token_m_buffer_size) };
    let ghost off = t.token_m_buffer.coff in let ghost blk = Map.get mem t.token_m_buffer.cbase in
    let ghost st = t.token_m_start_pos in let ghost bs = t.token_m_buffer_size in
    assert { t.token_m_buffer = act -> forall p. s <= p < f -> Seq.get inp p = Map.get blk (off + wrapped bs (st + (p - s)))
      by let d = Seq.length inp - p in 0 < d <= valid /\ Map.get blk (off + phys size e d) = Seq.get inp (Seq.length inp - d)
      so phys size e d = wrapped bs (st + (p - s)) };
    assert { t.token_m_buffer = act \/ (t.token_m_buffer.cbase <> act.cbase /\ spans mem inp t s f) }

  let ghost texts_of (mem: map int (map int int)) (alive: fset int) (act: cptr) (size e: int) (inp: seq int) (ht: bool) (n: int) (tok: map int r_token) (s f: map int int) (b valid: int)
    ensures { held mem alive act size e inp ht n tok s f b -> holds (Map.get mem act.cbase) act.coff size e inp valid -> Seq.length inp - b <= valid -> 0 <= e <= size ->
      (Seq.length inp - b < size \/ (Seq.length inp - b <= e /\ e < size) \/ Seq.length inp = b) -> texts mem inp ht n tok s f }
  = if pure { held mem alive act size e inp ht n tok s f b /\ holds (Map.get mem act.cbase) act.coff size e inp valid /\ Seq.length inp - b <= valid /\ 0 <= e <= size /\
      (Seq.length inp - b < size \/ (Seq.length inp - b <= e /\ e < size) \/ Seq.length inp = b) } then
      for i = (if ht then 0 else 1) to n - 1 do
        invariant { forall j. first ht <= j < i -> spans mem inp (Map.get tok j) (Map.get s j) (Map.get f j) }
        located_spans mem alive act size e inp (Map.get tok i) (Map.get s i) (Map.get f i) valid
      done

  let ghost tiles_add (ht: bool) (n: int) (s e: map int int) (b f g: int)
    requires { tiles ht n s e b f /\ f <= g /\ first ht < n }
    ensures { tiles ht (n + 1) (Map.set s n f) (Map.set e n g) b g }
  = ()
  let ghost tiles_cut (ht: bool) (n: int) (s e: map int int) (b f g: int)
    requires { tiles ht n s e b f /\ first ht < n /\ Map.get s (n - 1) <= g }
    ensures { tiles ht n s (Map.set e (n - 1) g) b g }
  = ()
"""


TEXT = """
  (* the text contains no character that is reserved for the start of the input *)
  axiom text_byte: forall c. text c -> -128 <= c <= 127 /\\ u8 c <> 253

"""
EXTEND = r"""
  (* what reading more input does not change *)
  predicate prefix (a b: seq int) (fin fin2: bool) =
    Seq.length a <= Seq.length b /\ (forall i. 0 <= i < Seq.length a -> Seq.get b i = Seq.get a i) /\ (fin -> b = a /\ fin2)

  let rec lemma run_prefix (nx: trans) (inp inp2: seq int) (fin fin2: bool) (s i j: int)
    requires { prefix inp inp2 fin fin2 /\ j <= Seq.length inp /\ 0 <= i }
    ensures { run nx inp2 s i j = run nx inp s i j }
    variant { j - i }
  = if i < j then run_prefix nx inp inp2 fin fin2 s i (j - 1)

  let lemma hit_prefix (nx: trans) (ids: map int (seq int)) (del: map int bool) (inp inp2: seq int) (fin fin2: bool) (s i j: int)
    requires { prefix inp inp2 fin fin2 /\ 0 <= i /\ 0 <= j < Seq.length inp }
    ensures { hit nx ids del inp2 fin2 s i j <-> hit nx ids del inp fin s i j }
  = run_prefix nx inp inp2 fin fin2 s i j

  let lemma nomatch_prefix (root: int) (nx: trans) (ids: map int (seq int)) (del: map int bool) (inp inp2: seq int) (fin fin2: bool) (p: int)
    requires { prefix inp inp2 fin fin2 /\ 0 <= p < Seq.length inp /\ nomatch root nx ids del inp fin p }
    ensures { nomatch root nx ids del inp2 fin2 p }
  = if fin then assert { inp2 = inp /\ fin2 = fin }
    else assert { nomatch root nx ids del inp2 fin2 p
      by exists k. p < k <= Seq.length inp /\ run nx inp root p k = 0 /\ (forall j. p <= j < k -> not (hit nx ids del inp fin root p j))
      so run nx inp2 root p k = 0 /\ (forall j. p <= j < k -> not (hit nx ids del inp2 fin2 root p j)) }

  (* a longest match stays the longest one *)
  let ghost longest_prefix (nx: trans) (ids: map int (seq int)) (del: map int bool) (inp inp2: seq int) (fin fin2: bool) (s i m: int)
    requires { prefix inp inp2 fin fin2 /\ 0 <= i <= m <= Seq.length inp }
    requires { forall j. m < j <= Seq.length inp -> not (hit nx ids del inp fin s i j) }
    requires { not fin -> exists k. m <= k <= Seq.length inp /\ run nx inp s i k = 0 }
    ensures { forall j. m < j <= Seq.length inp2 -> not (hit nx ids del inp2 fin2 s i j) }
    ensures { fin2 \/ exists k. m <= k <= Seq.length inp2 /\ run nx inp2 s i k = 0 }
  = if fin then assert { inp2 = inp /\ fin2 = fin }
    else begin
      let ghost k = any int ensures { m <= result <= Seq.length inp /\ run nx inp s i result = 0 } in
      run_prefix nx inp inp2 fin fin2 s i k;
      for j = m + 1 to k - 1 do
        invariant { forall q. m < q < j -> not (hit nx ids del inp2 fin2 s i q) }
        hit_prefix nx ids del inp inp2 fin fin2 s i j
      done;
      dead nx inp2 s i k (Seq.length inp2);
      assert { forall j. k <= j <= Seq.length inp2 -> run nx inp2 s i j = 0 };
    end

  let ghost longest_if (nx: trans) (ids: map int (seq int)) (del: map int bool) (inp inp2: seq int) (fin fin2: bool) (s i m: int)
    ensures { prefix inp inp2 fin fin2 -> 0 <= i <= m <= Seq.length inp -> (forall j. m < j <= Seq.length inp -> not (hit nx ids del inp fin s i j)) ->
      (fin \/ exists k. m <= k <= Seq.length inp /\ run nx inp s i k = 0) ->
      (forall j. m < j <= Seq.length inp2 -> not (hit nx ids del inp2 fin2 s i j)) /\ (fin2 \/ exists k. m <= k <= Seq.length inp2 /\ run nx inp2 s i k = 0) }
  = if pure { prefix inp inp2 fin fin2 /\ 0 <= i <= m <= Seq.length inp /\ (forall j. m < j <= Seq.length inp -> not (hit nx ids del inp fin s i j)) /\
      (fin \/ exists k. m <= k <= Seq.length inp /\ run nx inp s i k = 0) } then longest_prefix nx ids del inp inp2 fin fin2 s i m

  let ghost run_if (nx: trans) (inp inp2: seq int) (fin fin2: bool) (s i j: int)
    ensures { prefix inp inp2 fin fin2 -> 0 <= i -> j <= Seq.length inp -> run nx inp2 s i j = run nx inp s i j }
  = if pure { prefix inp inp2 fin fin2 /\ 0 <= i /\ j <= Seq.length inp } then run_prefix nx inp inp2 fin fin2 s i j

  let ghost hit_if (nx: trans) (ids: map int (seq int)) (del: map int bool) (inp inp2: seq int) (fin fin2: bool) (s i j: int)
    ensures { prefix inp inp2 fin fin2 -> 0 <= i -> 0 <= j <= Seq.length inp -> hit nx ids del inp fin s i j -> hit nx ids del inp2 fin2 s i j }
  = if pure { prefix inp inp2 fin fin2 /\ 0 <= i /\ 0 <= j < Seq.length inp } then hit_prefix nx ids del inp inp2 fin fin2 s i j
"""


def prelude(tr, concrete):
    out = "".join("  constant %s : int = %d\n" % (a, tr.enum_value("SymbolId", b)) for a, b in (
        ("sEnd", "TokenEnd"), ("sUnc", "TokenUncaughtString"), ("sNewline", "TokenNewline"), ("sNewlineTs", "TokenNewlineTimestamp"), ("sFirstTs", "TokenFirstTimestamp")))
    return blocks.prelude(tr) + inbuf.PRELUDE + lexer.PRELUDE + "  " + RDY_DECL + (" =\n    " + RDY_BODY if concrete else "") + "\n" + (EXTEND if concrete else "") + TEXT + out + PRELUDE % tr.const_by_name("cStaticByteBuffSize")


NXT = "$#p0.m_type_ids_ptr"
TOK = (f"$#p0.m_start_pos = phys {SIZE} {END} ({LEN} - (old !a_pos)) /\\ $#p0.m_end_pos = phys {SIZE} {END} ({LEN} - !a_pos) /\\ "
       f"$#p0.m_buffer = {B}m_active_storage /\\ $#p0.m_buffer_size = {SIZE}")
RESERVED = f"reserved {lexer.ROOT} {lexer.NX} {IDS}"
BASE = [INV, ROOM, AUTO, VARS, RESERVED, RDY, KEPT, f"0 <= !a_pos <= {LEN}", f"!g_rem <= {LEN} - !a_pos <= !g_u"]
ASKED = f"{lexer.ASK} /\\ !g_rem = 0 /\\ {lexer.MOREIN}"
SYM = FnSpec(
    requires=BASE,
    ensures=BASE + [
             "result <> 0 -> result = 1 /\\ !a_pos = old !a_pos", f"result <> 0 -> {ASKED}",
             f"result = 0 -> {TOK}",
             f"result = 0 -> old !a_pos < !a_pos \\/ ({NXT} = {T_END} /\\ !a_pos = {LEN} /\\ {FIN})",
             f"result = 0 /\\ {NXT} = {T_END} -> !a_pos = old !a_pos",
             f"result = 0 -> {NXT} <> {T_UNC} -> !a_last = !a_pos",
             f"result = 0 /\\ {NXT} = {T_UNC} -> forall p. (old !a_pos) <= p < !a_pos -> u8 (Seq.get !g_in p) <> 10",
             f"result = 0 -> {NXT} = {T_END} \\/ {NXT} = {T_UNC} \\/ ({NXT} > 0 /\\ Seq.length (Map.get {IDS} {NXT}) > 0 /\\ {tid(NXT)} <> sEnd /\\ {tid(NXT)} <> sUnc)",
             f"result = 0 /\\ ({tid(NXT)} = sNewline \\/ {tid(NXT)} = sNewlineTs) -> u8 (Seq.get !g_in (old !a_pos)) = 10",
             f"result = 0 /\\ {tid(NXT)} = sNewline -> !a_pos = (old !a_pos) + 1",
             f"result = 0 /\\ {tid(NXT)} = sNewlineTs -> !a_pos > (old !a_pos) + 1"],
    writes=lexer.contracts["Lexer::scan"].writes + ["$#p0"],
    ghost=[("begin", "let b0 = !a_pos in"),
           ("end", f"ghost (listed {IDS} {NXT}); assert {{ [@expl:static text has no newline] $result = 0 -> {NXT} = {T_UNC} -> forall p. b0 <= p < !a_pos -> {lexer.NOM} && u8 (Seq.get !g_in p) <> 10 }};")])

# reading more input, growing the storage
INW = ["o_ParserInputBuffer__" + x for x in ("m_pos_last_read_char", "m_last_read_first_half", "m_finished_reading_input")]
GROWN = f"grows {SIZE} (old {END}) {END} (old !g_u) (old !g_in) !g_in (old {FIN}) {FIN}"
MORE = (f"Seq.length (old !g_in) <= {LEN} /\\ !g_rem = (old !g_rem) + ({LEN} - Seq.length (old !g_in)) /\\ !g_u = (old !g_u) + ({LEN} - Seq.length (old !g_in))")
READ = FnSpec(
    requires=BASE + ["not !g_ext"],
    ensures=BASE + [f"forall b. b <> ({B}m_active_storage).cbase -> Map.get !cmem b = Map.get (old !cmem) b",
                    f"{END} = old {END} \\/ {LEN} > Seq.length (old !g_in)", f"result = 5 -> {FIN}", GROWN, MORE, "result <> 0 -> !g_in = old !g_in",
                    f"result = 0 -> (old {END} = 0 -> 2 * {PI}m_consumed_pos > {SIZE} + 1 /\\ not {FIN} -> {END} <> 0)"],
    writes=["cmem", "g_in", "g_valid", "g_rem", "g_u"] + INW,
    ghost=[("begin", f"let ghost c0 = {CUR} in " + "let in0 = !g_in in let fin0 = !o_ParserInputBuffer__m_finished_reading_input in " + lexer.LEMMAS),
           ("end", f"assert {{ [@expl:the input so far is kept] prefix in0 !g_in fin0 {FIN} }};" + lexer.LEMMAS + f"assert {{ [@expl:the position is kept] {CUR} = c0 }}; ghost (run_if {lexer.NX} in0 !g_in fin0 {FIN} !a_from !a_start c0);" +
            f"ghost (longest_if {lexer.NX} {IDS} {lexer.DEL} in0 !g_in fin0 {FIN} !a_from !a_start !a_match); ghost (hit_if {lexer.NX} {IDS} {lexer.DEL} in0 !g_in fin0 {FIN} !a_from !a_start !a_match);" + "".join("assert { [@expl:the state of the lexer] %s };" % x for x in READY))])
GROWLEX = lexer.contracts["Lexer::increase_buffer_capacity"]
GROW = FnSpec(
    requires=BASE + lexer.GROWS,
    ensures=BASE + GROWLEX.ensures[len(lexer.BASE) + len(lexer.ready()):],
    writes=GROWLEX.writes)

OWNED = f"owned {B}m_dynamic_storages !alive"
CONFIG = [lexer.AUTOC, lexer.VARSC, RESERVED]
RESET = FnSpec(
    requires=[OWNED] + CONFIG,
    ensures=BASE + [f"{LEN} = 0 /\\ {END} = 0 /\\ !g_u = 0 /\\ not !g_stale /\\ not !g_ext", f"{SIZE} = csize sblk", "!a_sof = 0 /\\ !a_pos = 0",
                    "not $this.m_has_start_of_log", "$this.m_is_start_of_input", f"not {PI}m_log_fully_consumed /\\ not {FIN}", f"{lexer.ASK} /\\ !g_rem = 0"],
    writes=inbuf.PW + inbuf.BW + inbuf.GH + lexer.contracts["Lexer::reset"].writes + lexer.contracts["Lexer::prepend_start_of_file_char"].writes +
           ["o_LogParser__m_has_start_of_log", "o_LogParser__m_is_start_of_input"])

OUT = "o_LogParserOutputBuffer__"
HT = f"!{OUT}m_has_timestamp"
HS = "$this.m_has_start_of_log"
SM = "$this.m_start_of_log_message"
SLOT = "(Map.get !ob_tok %s)"
OK = "out_ok !ob_state !ob_tok !ob_pos !ob_size"
out_contracts = outview.make(OK, ["ob_state"], False)
for c in out_contracts.values():
    c.noproof = True

TILES = lambda f: f"tiles {HT} !ob_pos !o_s !o_e !g_ev {f}"
OPEN = f"open {IDS} !g_in {HT} !ob_pos !ob_tok !o_s"
OPEN1 = f"open {IDS} !g_in {HT} (!ob_pos - 1) !ob_tok !o_s"
LOC = lambda t, s, f: f"located !cmem !alive {B}m_active_storage {SIZE} {END} !g_in {t} ({s}) ({f})"
HELD = lambda n, b="!g_ev": f"held !cmem !alive {B}m_active_storage {SIZE} {END} !g_in {HT} {n} !ob_tok !o_s !o_e {b}"
TEXTS = f"texts !cmem !g_in {HT} !ob_pos !ob_tok !o_s !o_e"
WHERE = f"assert {{ [@expl:where the token lies] $result = 0 -> {LOC('$next_token', 'b1', '!a_pos')} }};"
DONE = (f"assert {{ [@expl:the event is complete] tiles {HT} !ob_pos !o_s !o_e g_e0 !g_ev }}; "
        f"assert {{ [@expl:the event ends with a newline] u8 (Seq.get !g_in (!g_ev - 1)) = 10 /\\ Map.get !o_s (!ob_pos - 1) = !g_ev - 1 }}; "
        f"assert {{ [@expl:the tokens of the event] {OPEN1} /\\ {HELD('!ob_pos', 'g_e0')} }};")
NEXT = f"assert {{ [@expl:the start of the next event] {LOC('$this.m_start_of_log_message', '!g_ev', '!a_pos')} }};"
CHAR = (f"assert {{ [@expl:the first character of the token] $result = 0 -> $next_token.m_type_ids_ptr <> {T_END} -> "
        "Map.get (Map.get !cmem ($next_token.m_buffer).cbase) (($next_token.m_buffer).coff + $next_token.m_start_pos) = Seq.get !g_in b1 };")
# the output buffer is large enough, and grows with the event
VIEW = [OK, outview.IN, "2 < obstatic /\\ obstatic <= 1073741823", "!ob_size = obstatic \\/ !ob_size <= 2 * !ob_pos", "!ob_pos = 0 -> !ob_size = obstatic"]
PART = VIEW + [f"0 <= !g_ev /\\ {LEN} - !g_ev <= !g_u", "!g_u < 536870800",
        f"!ob_pos = 0 -> (if {HS} then !g_ev <= !a_pos else !g_ev = !a_pos)",
        f"!ob_pos > 0 -> not {HS} /\\ {TILES('!a_pos')} /\\ first {HT} < !ob_pos /\\ !ob_pos <= !a_pos - !g_ev + 2",
        f"!ob_pos > 0 -> {OPEN}", f"!ob_pos = 0 -> not {HT}",
        f"{HS} -> {SM}.m_type_ids_ptr > 0 /\\ Seq.length (Map.get {IDS} {SM}.m_type_ids_ptr) > 0 /\\ {tid(SM + '.m_type_ids_ptr')} <> sEnd",
        f"!ob_pos > 0 -> {HELD('!ob_pos')}", f"{HS} -> {LOC(SM, '!g_ev', '!a_pos')}"]
CONS = [f"o_ParserInputBuffer__{x}" for x in ("m_consumed_pos",)] + ["g_u", "g_stale"]
LEMMAS = lexer.LEMMAS
FIRST_SLOT = lambda k: f"o_s := mset !o_s {k} !g_ev; o_e := mset !o_e {k} !a_pos;"
PARSE = FnSpec(
    requires=BASE + PART,
    ensures=BASE + VIEW[:4] + ["!g_u < 536870800",
        f"0 <= !g_ev /\\ {LEN} - !g_ev <= !g_u",
        # an event was completed: its tokens are the input from where the last event ended up to where the next one starts
        f"result = 0 -> $#p0 = 1 \\/ $#p0 = 2",
        f"result = 0 -> tiles {HT} !ob_pos !o_s !o_e (old !g_ev) !g_ev",
        f"result = 0 -> {OPEN1}",
        f"result = 0 /\\ $#p0 = 1 -> first {HT} < !ob_pos /\\ (old !g_ev) < !g_ev",
        f"result = 0 /\\ $#p0 = 1 -> !g_u = {LEN} - !g_ev /\\ not !g_stale",
        f"result = 0 /\\ $#p0 = 1 -> u8 (Seq.get !g_in (!g_ev - 1)) = 10 /\\ Map.get !o_s (!ob_pos - 1) = !g_ev - 1",
        f"result = 0 /\\ $#p0 = 1 /\\ {HT} -> {HS} /\\ {tid(SM + '.m_type_ids_ptr')} = sNewlineTs /\\ !g_ev < !a_pos",
        f"result = 0 /\\ $#p0 = 1 -> (if {HS} then !g_ev <= !a_pos else !g_ev = !a_pos)",
        f"result = 0 /\\ $#p0 = 1 -> {PART[-3]}", f"result = 0 /\\ $#p0 = 1 -> {PART[-1]}",
        f"result = 0 -> {TEXTS}",
        f"result = 0 /\\ $#p0 = 2 -> !g_ev = {LEN} /\\ {FIN} /\\ not {HS} /\\ !a_pos = {LEN} /\\ !g_u = old !g_u",
        # more input is needed: nothing is lost
        f"result <> 0 -> result = 1 /\\ !g_ev = old !g_ev /\\ !g_u = old !g_u /\\ !a_pos >= old !a_pos", f"result <> 0 -> {ASKED}",
        *["result <> 0 -> (%s)" % x for x in PART[4:]],
        "forall i. 0 <= i < old !ob_pos -> Map.get !ob_tok i = Map.get (old !ob_tok) i /\\ Map.get !o_s i = Map.get (old !o_s) i",
    ],
    writes=SYM.writes[:-1] + CONS + ["ob_tok", "ob_pos", "ob_size", "ob_state", "o_s", "o_e", "g_ev", OUT + "m_has_timestamp", OUT + "m_has_delimiters", "$#p0",
                                      "o_LogParser__m_has_start_of_log", "o_LogParser__m_start_of_log_message"],
    ghost=[("begin", f"assert {{ [@expl:the event is in the storage] {LEN} - !g_ev <= !g_valid /\\ 0 <= {END} <= {SIZE} /\\ ({LEN} - !g_ev < {SIZE} \\/ ({LEN} - !g_ev <= {END} /\\ {END} < {SIZE}) \\/ {LEN} = !g_ev) }}; let g_e0 = !g_ev in"), ("call:LogParser::get_next_symbol:0:before", "let b1 = !a_pos in"),
           ("call:LogParser::get_next_symbol:0:after", f"ghost (listed {IDS} $next_token.m_type_ids_ptr);" + LEMMAS + CHAR + WHERE),
           ("call:LogParserOutputBuffer::set_token:0:after", FIRST_SLOT("1")),
           ("call:LogParserOutputBuffer::set_token:1:after", f"o_s := mset !o_s 1 !g_ev; o_e := mset !o_e 1 (!g_ev + 1);"),
           ("call:ParserInputBuffer::set_consumed_pos:0:after", "g_ev := !a_pos;" + DONE),
           ("call:ParserInputBuffer::set_consumed_pos:1:after", "g_ev := !g_ev + 1;" + DONE + NEXT),
           ("call:LogParserOutputBuffer::set_token:3:after", FIRST_SLOT("0")),
           ("call:LogParserOutputBuffer::set_token:4:after", FIRST_SLOT("1")),
           ("call:LogParserOutputBuffer::set_pos:2:after", f"assert {{ [@expl:no further event] tiles {HT} !ob_pos !o_s !o_e g_e0 !a_pos }};"),
           ("call:LogParser::get_next_symbol:1:before", "let b1 = !a_pos in"),
           ("call:LogParser::get_next_symbol:1:after", f"ghost (listed {IDS} $next_token.m_type_ids_ptr);" + LEMMAS + CHAR + WHERE),
           ("call:LogParserOutputBuffer::set_curr_token:0:after",
            f"ghost (tiles_add {HT} !ob_pos !o_s !o_e !g_ev b1 !a_pos); o_s := mset !o_s !ob_pos b1; o_e := mset !o_e !ob_pos !a_pos; assert {{ [@expl:the tokens before this one] tiles {HT} !ob_pos !o_s !o_e g_e0 b1 }}; assert {{ [@expl:the tokens so far] {OPEN} /\\ {HELD('(!ob_pos + 1)')} }};"),
           ("call:LogParserOutputBuffer::advance_to_next_token:0:after", "g_ev := !a_pos;" + DONE),
           ("call:LogParserOutputBuffer::set_curr_token:1:after",
            f"ghost (tiles_cut {HT} (!ob_pos + 1) !o_s !o_e !g_ev !a_pos (b1 + 1)); o_e := mset !o_e !ob_pos (b1 + 1); assert {{ [@expl:the tokens so far] {OPEN} /\\ {HELD('(!ob_pos + 1)')} }};"),
           ("call:LogParserOutputBuffer::advance_to_next_token:1:after", "g_ev := b1 + 1;" + DONE + NEXT),
           ("end", f"ghost (texts_of !cmem !alive {B}m_active_storage {SIZE} {END} !g_in {HT} !ob_pos !ob_tok !o_s !o_e g_e0 !g_valid); assert {{ [@expl:the texts of the tokens] $result = 0 -> {TEXTS} }}; assert {{ [@expl:the tokens of the event] $result = 0 -> $#p0 = 2 -> tiles {HT} !ob_pos !o_s !o_e g_e0 !a_pos }}; assert {{ [@expl:the tokens of the event] $result = 0 -> $#p0 <> 2 -> tiles {HT} !ob_pos !o_s !o_e g_e0 !g_ev }}; g_ev := select (both (eq $result 0) (eq $#p0 2)) !a_pos !g_ev;")],
    loops={0: {"inv": BASE + PART + [f"!ob_pos > 0 /\\ not {HS}", "!g_ev = old !g_ev /\\ !g_u = old !g_u /\\ !a_pos >= old !a_pos",
                                     "forall i. 0 <= i < old !ob_pos -> Map.get !ob_tok i = Map.get (old !ob_tok) i /\\ Map.get !o_s i = Map.get (old !o_s) i",
                                     "!ob_pos >= old !ob_pos"],
               "var": f"{LEN} - !a_pos"}})


def deref(fn, v):
    t = v.ty
    t = t.a[0] if t.k == "ptr" else t
    if t.k == "vec":
        return LConst("(idsof %s %s)" % (IDS, fn.paren(v.e)), t)
    return None


def get_char(fn, obj, args, n):
    o = fn.paren(fn.pure(obj))
    i = fn.rv(args[0])
    fn.obl("precondition of Token::get_char", "%s.token_m_start_pos <> %s.token_m_end_pos /\\ %s = 0" % (o, o, i.e))
    return Val("(mget (mget !cmem %s.token_m_buffer.cbase) (%s.token_m_buffer.coff + %s.token_m_start_pos))" % (o, o, o), I(8))


FM = dict(lexer.FM)
FM["deref"] = deref
FM["instance"] = {"Buffer": "char"}
FM["ghost_refs"] = {**lexer.FM["ghost_refs"], "ob_tok": "(map int r_token)", "ob_pos": "int", "ob_size": "int", "ob_state": "int", "o_s": "(map int int)", "o_e": "(map int int)", "g_ev": "int"}


def make(name, concrete, contracts):
    return Unit(name, ENTRY, lambda tr: prelude(tr, concrete),
                single=["ParserInputBuffer", "Buffer", "Reader", "Lexer", "RegexDFA", "LogParser", "LogParserOutputBuffer", "LogEventView"],
                heap=["RegexDFAState"], value=["Token"], contracts={**lexer.shared(), **contracts}, fieldmap=FM, enums=["ErrorCode", "SymbolId", "ParsingAction"],
                hooks={"std::function": inbuf.reader, "Token::get_char": get_char}, uses="  use int.EuclideanDivision as ED\n")


def noproof(d):
    r = {}
    for q, s in d.items():
        s = copy.copy(s)
        s.noproof = True
        r[q] = s
    return r


unit = make("parser", False, {**out_contracts, **noproof({"LogParser::get_next_symbol": SYM}), "LogParser::parse": PARSE})
contracts = unit.contracts
