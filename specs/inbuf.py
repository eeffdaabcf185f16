"""P10, P16: Buffer<char> and ParserInputBuffer."""
from vt.trans import Unit, FnSpec, Val
from vt.ctypes_ import Ty, I, U, BOOL
from . import blocks

ENTRY = """#include <log_surgeon/ParserInputBuffer.cpp>
template class log_surgeon::Buffer<char>;
"""

PRELUDE = """
  (* g_in: all the input so far; its last g_valid characters are in the storage, its last g_u characters are not
     consumed by the caller, its last g_rem characters are not read by the lexer *)

  (* where character d from the end of the input lies, if e is where the input ends *)
  function phys (size e d: int) : int = if d <= e then (if e - d = size then 0 else e - d) else e - d + size

  (* how many characters there are from position x to the end of the input at e *)
  function dist (size e x: int) : int =
    if x <= e then (if e - x = size then 0 else e - x) else e - x + size

  (* the characters of the input *)
  predicate text (c: int)

  (* the input grows by what is read; a position stays the same distance from the start of the input *)
  predicate grows (size e e1 u: int) (in0 in1: seq int) (fin fin1: bool) =
    Seq.length in0 <= Seq.length in1 /\\ (fin -> fin1 /\\ in1 = in0 /\\ e1 = e) /\\
    (forall i. 0 <= i < Seq.length in0 -> Seq.get in1 i = Seq.get in0 i) /\\
    (forall i. Seq.length in0 <= i < Seq.length in1 -> text (Seq.get in1 i)) /\\
    (forall d. 0 <= d <= u -> phys size e1 (d + (Seq.length in1 - Seq.length in0)) = phys size e d)

  predicate holds (m: map int int) (off size e: int) (inp: seq int) (valid: int) =
    0 <= valid <= size /\\ valid <= Seq.length inp /\\
    forall d. 0 < d <= valid -> Map.get m (off + phys size e d) = Seq.get inp (Seq.length inp - d)

  function before (size e u: int) : int = if e - u - 1 < 0 then e - u - 1 + size else e - u - 1

  predicate ends (h e: int) (lrfh fin ext: bool) (valid u: int) =
    (lrfh -> (0 < e \\/ ext) /\\ e <= h /\\ (u < h + e \\/ ext)) /\\
    (not lrfh -> (e = 0 /\\ valid = 0) \\/ (h < e <= 2 * h /\\ u < e)) /\\
    (not fin -> (lrfh -> e = h) /\\ (not lrfh -> e = 2 * h \\/ e = 0)) /\\
    (ext -> lrfh /\\ e = h /\\ valid <= h)

  predicate used (size e cons u: int) (lrfh stale ext: bool) = ext \\/
    (not stale -> cons = before size e u) /\\
    (stale -> 2 * cons <= size /\\ (lrfh -> 2 * u < size))

  predicate room (p: cptr) (size: int) (dyn: seq int) (alive: fset int) (ext: bool) =
    if ext then 0 <= p.coff /\\ 2 * (p.coff + size) <= 2 * csize p.cbase + size /\\ Fset.mem p.cbase alive /\\ owned dyn alive
    else bufok p size dyn alive /\\ 2 <= size

  predicate pinv (p: cptr) (size pos: int) (e cons: int) (lrfh fin: bool) (mem: map int (map int int))
                 (inp: seq int) (valid rem u: int) (stale ext: bool) =
    size = 2 * (ED.div size 2) /\\ 0 <= size <= 2147483647 /\\
    0 <= e <= size /\\ 0 <= rem <= u /\\ u <= valid /\\ 0 <= cons <= 4294967295 /\\ (not ext -> cons < size) /\\
    pos = phys size e rem /\\ ends (ED.div size 2) e lrfh fin ext valid u /\\ used size e cons u lrfh stale ext /\\
    holds (Map.get mem p.cbase) p.coff size e inp valid

  let cdist (size e x: int) : int
    ensures { result = dist size e x }
  = if x <= e then (if e - x = size then 0 else e - x) else e - x + size

  function next (size x: int) : int = if x + 1 = size then 0 else x + 1

  function u8 (c: int) : int = if c < 0 then c + 256 else c

  (* reading n characters into the half that starts at the end of the input *)
  let ghost read_step (m0 m1: map int int) (off size h e e1 start n: int) (in0 in1: seq int) (v0 v1: int)
    requires { size = 2 * h /\\ (start = 0 \\/ start = h) /\\ 0 < n <= h /\\ e1 = start + n }
    requires { e = start \\/ (start = 0 /\\ e = size) }
    requires { e = 0 -> v0 = 0 }
    requires { forall i. i < off + start \\/ i >= off + start + h -> Map.get m1 i = Map.get m0 i }
    requires { Seq.length in1 = Seq.length in0 + n }
    requires { forall i. 0 <= i < Seq.length in0 -> Seq.get in1 i = Seq.get in0 i }
    requires { forall k. Seq.length in0 <= k < Seq.length in0 + n -> Seq.get in1 k = Map.get m1 (off + start + (k - Seq.length in0)) }
    requires { holds m0 off size e in0 v0 }
    requires { v1 = (if v0 <= h then v0 else h) + n }
    ensures { holds m1 off size e1 in1 v1 }
  = assert { forall d. 0 < d <= n -> phys size e1 d = start + (n - d) };
    assert { forall d. 0 < d <= n -> Seq.get in1 (Seq.length in1 - d) = Map.get m1 (off + (start + (n - d))) };
    assert { forall c. 0 < c <= v0 -> c <= h -> phys size e1 (c + n) = phys size e c };
    assert { forall c. 0 < c <= v0 -> c <= h -> start = h -> phys size e c < h };
    assert { forall c. 0 < c <= v0 -> c <= h -> start = 0 -> phys size e c >= h };
    assert { forall c. 0 < c <= v0 -> c <= h -> Map.get m1 (off + phys size e c) = Map.get m0 (off + phys size e c) };
    assert { forall d. n < d <= v1 -> Map.get m1 (off + phys size e1 d) = Seq.get in1 (Seq.length in1 - d)
      by let c = d - n in 0 < c <= v0 /\\ c <= h so d = c + n so phys size e1 (c + n) = phys size e c
      so Map.get m1 (off + phys size e c) = Map.get m0 (off + phys size e c)
      so Map.get m0 (off + phys size e c) = Seq.get in0 (Seq.length in0 - c)
      so Seq.length in1 - d = Seq.length in0 - c
      so Seq.get in1 (Seq.length in0 - c) = Seq.get in0 (Seq.length in0 - c) }

  (* a failed read may have written in the half *)
  let ghost read_fail (m0 m1: map int int) (off size h e start: int) (in0: seq int) (v0 v1: int)
    requires { size = 2 * h /\\ (start = 0 \\/ start = h) /\\ 0 <= h }
    requires { e = start \\/ (start = 0 /\\ e = size) }
    requires { e = 0 -> v0 = 0 }
    requires { forall i. i < off + start \\/ i >= off + start + h -> Map.get m1 i = Map.get m0 i }
    requires { holds m0 off size e in0 v0 }
    requires { v1 = (if v0 <= h then v0 else h) }
    ensures { holds m1 off size e in0 v1 }
  = assert { forall d. 0 < d <= v1 -> Map.get m1 (off + phys size e d) = Seq.get in0 (Seq.length in0 - d)
      by d <= v0 so d <= h so (start = h -> phys size e d < h) so (start = 0 -> phys size e d >= h)
      so Map.get m1 (off + phys size e d) = Map.get m0 (off + phys size e d)
      so Map.get m0 (off + phys size e d) = Seq.get in0 (Seq.length in0 - d) }

  (* the storage after it was doubled, with the input in its first half *)
  let ghost grown (m0 m1: map int int) (size h e: int) (lrfh: bool) (inp: seq int) (valid: int)
    requires { size = 2 * h /\\ 0 <= h /\\ e = (if lrfh then h else size) }
    requires { holds m0 0 size e inp valid }
    requires { lrfh -> forall i. 0 <= i < h -> Map.get m1 i = Map.get m0 (h + i) }
    requires { lrfh -> forall i. h <= i < size -> Map.get m1 i = Map.get m0 (i - h) }
    requires { not lrfh -> forall i. 0 <= i < size -> Map.get m1 i = Map.get m0 i }
    ensures { holds m1 0 (2 * size) size inp valid }
  = assert { forall d. 0 < d <= valid -> Map.get m1 (0 + phys (2 * size) size d) = Seq.get inp (Seq.length inp - d)
      by phys (2 * size) size d = size - d so Map.get m1 (size - d) = Map.get m0 (0 + phys size e d)
      so Map.get m0 (0 + phys size e d) = Seq.get inp (Seq.length inp - d) }

  let ghost outside (m: map int int) (off size: int) (inp: seq int)
    requires { Seq.length inp = size }
    requires { forall i. 0 <= i < size -> Seq.get inp i = Map.get m (off + i) }
    ensures { holds m off (2 * size) size inp size }
  = assert { forall d. 0 < d <= size -> Map.get m (off + phys (2 * size) size d) = Seq.get inp (Seq.length inp - d)
      by phys (2 * size) size d = size - d so Seq.get inp (size - d) = Map.get m (off + (size - d)) }

  let ghost phys_in (size e d h: int)
    requires { size = 2 * h /\\ 0 <= e <= size /\\ 0 < d <= size }
    ensures { 0 <= phys size e d < size }
  = ()
"""


def reader(fn, f, args, n):
    """The reader is the user's: it stores at most the requested number of characters at the destination."""
    d = fn.rv(args[0])
    k = fn.rv(args[1])
    out = fn.ev(args[2])
    fn.writes |= {"cmem", "g_in"}
    fn.writes.add(out.name)
    r = fn.fresh("rd")
    fn.emit("let %s = reader_read %s %s %s in" % (r, fn.paren(d.e), fn.paren(k.e), out.name))
    return Val(r, U(32))


FM = blocks.fieldmap(I(8))
FM["ghost_refs"].update({"g_in": "(seq int)", "g_valid": "int", "g_rem": "int", "g_u": "int", "g_stale": "bool", "g_ext": "bool"})
FM["globals"] = {}
READER = """
  val reader_read (dst: cptr) (n: int) (out: ref int) : int
    requires { [@expl:the reader may write to the destination] 0 <= dst.coff /\\ dst.coff + n <= csize dst.cbase /\\ Fset.mem dst.cbase !alive }
    writes { cmem, g_in, out }
    ensures { forall b. b <> dst.cbase -> Map.get !cmem b = Map.get (old !cmem) b }
    ensures { forall i. i < dst.coff \\/ i >= dst.coff + n -> Map.get (Map.get !cmem dst.cbase) i = Map.get (Map.get (old !cmem) dst.cbase) i }
    ensures { 0 <= result <= 8 /\\ 0 <= !out <= 18446744073709551615 }
    ensures { result = 0 -> 0 < !out <= n /\\ Seq.length !g_in = Seq.length (old !g_in) + !out /\\
              (forall i. 0 <= i < Seq.length (old !g_in) -> Seq.get !g_in i = Seq.get (old !g_in) i) /\\
              (forall k. Seq.length (old !g_in) <= k < Seq.length !g_in -> Seq.get !g_in k = Map.get (Map.get !cmem dst.cbase) (dst.coff + (k - Seq.length (old !g_in))) /\\ text (Seq.get !g_in k)) }
    ensures { result <> 0 -> !g_in = old !g_in }
"""
FM["decls"] = READER

S = "$this.m_storage."
INV = ("pinv $this.m_storage.m_active_storage $this.m_storage.m_active_size $this.m_storage.m_pos $this.m_pos_last_read_char "
       "$this.m_consumed_pos $this.m_last_read_first_half $this.m_finished_reading_input !cmem !g_in !g_valid !g_rem !g_u !g_stale !g_ext")
ROOM = "room $this.m_storage.m_active_storage $this.m_storage.m_active_size $this.m_storage.m_dynamic_storages !alive !g_ext"
H = "(ED.div $this.m_storage.m_active_size 2)"
P = "o_ParserInputBuffer__"
BW = ["o_Buffer__m_pos", "o_Buffer__m_active_size", "o_Buffer__m_active_storage", "o_Buffer__m_dynamic_storages", "alive"]
PW = [P + x for x in ("m_pos_last_read_char", "m_last_read_first_half", "m_finished_reading_input", "m_log_fully_consumed", "m_consumed_pos")]
GH = ["g_in", "g_valid", "g_rem", "g_u", "g_stale", "g_ext"]
SAME = "!g_in = old !g_in /\\ !g_valid = old !g_valid /\\ !g_u = old !g_u"

REL = ("ghost (relocated (Map.get (old !cmem) (old ($this.m_storage.m_active_storage)).cbase) (Map.get !cmem ($this.m_storage.m_active_storage).cbase)"
       " (old $this.m_storage.m_active_size) (old $this.m_pos_last_read_char) !g_in !g_valid);")
PARTS = """assert { [@expl:size] $this.m_storage.m_active_size = 2 * HH /\\ 0 <= $this.m_pos_last_read_char <= $this.m_storage.m_active_size };
   assert { [@expl:ghost] 0 <= !g_rem <= !g_u /\\ !g_u <= !g_valid };
   assert { [@expl:the read position] $this.m_storage.m_pos = phys $this.m_storage.m_active_size $this.m_pos_last_read_char !g_rem };
   assert { [@expl:where the input ends] ends HH $this.m_pos_last_read_char $this.m_last_read_first_half $this.m_finished_reading_input !g_ext !g_valid !g_u };
   assert { [@expl:the consumed position] used $this.m_storage.m_active_size $this.m_pos_last_read_char $this.m_consumed_pos !g_u $this.m_last_read_first_half !g_stale !g_ext };
   assert { [@expl:the storage holds the input] holds (Map.get !cmem ($this.m_storage.m_active_storage).cbase) ($this.m_storage.m_active_storage).coff $this.m_storage.m_active_size $this.m_pos_last_read_char !g_in !g_valid };
""".replace("HH", H)
contracts = {
    "ParserInputBuffer::read_is_safe": FnSpec(
        requires=[INV, ROOM, "not !g_ext"],
        ensures=["result -> not $this.m_finished_reading_input /\\ 2 * !g_u < $this.m_storage.m_active_size /\\ (!g_stale -> $this.m_last_read_first_half)",
                 "not $this.m_last_read_first_half /\\ 2 * $this.m_consumed_pos > $this.m_storage.m_active_size + 1 /\\ not $this.m_finished_reading_input -> result"]),
    "ParserInputBuffer::read": FnSpec(
        requires=[INV, ROOM, "not !g_ext", "not $this.m_finished_reading_input", "2 * !g_u < $this.m_storage.m_active_size", "!g_stale -> $this.m_last_read_first_half"],
        ensures=[INV, ROOM,
                 "result = 0 -> (exists n. 0 < n /\\ Seq.length !g_in = Seq.length (old !g_in) + n /\\ !g_rem = old !g_rem + n /\\ !g_u = old !g_u + n)",
                 "forall b. b <> ($this.m_storage.m_active_storage).cbase -> Map.get !cmem b = Map.get (old !cmem) b",
                 "$this.m_pos_last_read_char = old $this.m_pos_last_read_char \\/ Seq.length !g_in > Seq.length (old !g_in)", "result = 5 -> $this.m_finished_reading_input",
                 "grows $this.m_storage.m_active_size (old $this.m_pos_last_read_char) $this.m_pos_last_read_char (old !g_u) (old !g_in) !g_in (old $this.m_finished_reading_input) $this.m_finished_reading_input",
                 "result = 0 -> $this.m_pos_last_read_char <> 0",
                 "result <> 0 -> !g_rem = old !g_rem /\\ !g_in = old !g_in /\\ !g_u = old !g_u",
                 "result <> 0 -> ($this.m_finished_reading_input <-> result = 5)"],
        writes=["cmem", P + "m_pos_last_read_char", P + "m_last_read_first_half", P + "m_finished_reading_input",
                "g_in", "g_valid", "g_rem", "g_u"],
        ghost=[("begin", """let in0 = !g_in in let ghost m0 = !cmem in let ghost e0 = $this.m_pos_last_read_char in let ghost f0 = $this.m_last_read_first_half in
   let ghost v0 = !g_valid in"""), ("end", """
   let h = cdiv $this.m_storage.m_active_size 2 in
   let n = Seq.length !g_in - Seq.length in0 in
   g_valid := (if !g_valid <= h then !g_valid else h) + n;
   g_rem := !g_rem + n;
   g_u := !g_u + n;
   if $result = 0 then begin
     ghost (read_step (Map.get m0 ($this.m_storage.m_active_storage).cbase) (Map.get !cmem ($this.m_storage.m_active_storage).cbase)
       ($this.m_storage.m_active_storage).coff $this.m_storage.m_active_size h e0 $this.m_pos_last_read_char (if f0 then h else 0) n in0 !g_in v0 !g_valid);
   end else begin
     ghost (read_fail (Map.get m0 ($this.m_storage.m_active_storage).cbase) (Map.get !cmem ($this.m_storage.m_active_storage).cbase)
       ($this.m_storage.m_active_storage).coff $this.m_storage.m_active_size h e0 (if f0 then h else 0) in0 v0 !g_valid);
   end;
   """ + PARTS)]),
    "ParserInputBuffer::increase_capacity": FnSpec(
        requires=[INV, ROOM, "not !g_ext", "!g_rem = 0", "$this.m_pos_last_read_char = (if $this.m_last_read_first_half then " + H + " else $this.m_storage.m_active_size)",
                  "$this.m_storage.m_active_size <= 1073741823"],
        ensures=[INV, ROOM, "$this.m_storage.m_active_size = 2 * old $this.m_storage.m_active_size",
                 "$this.m_storage.m_pos = old $this.m_storage.m_active_size", "$this.m_pos_last_read_char = old $this.m_storage.m_active_size",
                 "$this.m_last_read_first_half", "!g_stale",
                 "not (Fset.mem ($this.m_storage.m_active_storage).cbase (old !alive))",
                 "$#p0 = old $this.m_storage.m_active_size", "$#p1 <-> old $this.m_last_read_first_half",
                 "forall b. Fset.mem b (old !alive) -> Fset.mem b !alive",
                 "forall b. Fset.mem b (old !alive) -> Map.get !cmem b = Map.get (old !cmem) b"],
        writes=["cmem", P + "m_last_read_first_half", P + "m_pos_last_read_char", "o_Buffer__m_pos", "o_Buffer__m_active_size",
                "o_Buffer__m_active_storage", "o_Buffer__m_dynamic_storages", "alive", "g_stale", "$#p0", "$#p1"],
        ghost=[("begin", """let ghost m0 = !cmem in let ghost e0 = $this.m_pos_last_read_char in let ghost f0 = $this.m_last_read_first_half in
   let ghost p0 = $this.m_storage.m_active_storage in let ghost s0 = $this.m_storage.m_active_size in"""), ("end", """
   g_stale := true;
   assert { ($this.m_storage.m_active_storage).cbase <> p0.cbase /\\ p0.coff = 0 /\\ ($this.m_storage.m_active_storage).coff = 0 };
   assert { f0 -> forall i. ED.div s0 2 <= i < s0 -> Map.get (Map.get !cmem ($this.m_storage.m_active_storage).cbase) i = Map.get (Map.get m0 p0.cbase) (0 + (i - ED.div s0 2)) };
   ghost (grown (Map.get m0 p0.cbase) (Map.get !cmem ($this.m_storage.m_active_storage).cbase) s0 (ED.div s0 2) e0 f0 !g_in !g_valid);
   """ + PARTS)]),
    "ParserInputBuffer::get_next_character": FnSpec(
        requires=[INV, ROOM],
        ensures=[INV, ROOM,
                 "old !g_rem > 0 -> result = 0 /\\ !g_rem = old !g_rem - 1 /\\ $#p0 = u8 (Seq.get !g_in (Seq.length !g_in - old !g_rem))",
                 "old !g_rem = 0 -> !g_rem = 0",
                 "old !g_rem = 0 -> result = 0 -> $this.m_finished_reading_input /\\ $this.m_log_fully_consumed /\\ $#p0 = 255 /\\ ($this.m_pos_last_read_char <> $this.m_storage.m_active_size \\/ $this.m_storage.m_active_size = 0)",
                 "old !g_rem = 0 -> result <> 0 -> result = 1 /\\ (not $this.m_finished_reading_input \\/ $this.m_pos_last_read_char = $this.m_storage.m_active_size) /\\ $#p0 = old $#p0",
                 "result <> 0 \\/ old !g_rem > 0 -> $this.m_log_fully_consumed = old $this.m_log_fully_consumed"],
        writes=["o_Buffer__m_pos", P + "m_log_fully_consumed", "g_rem", "$#p0"],
        ghost=[("begin", "let r0 = !g_rem in "), ("end", "if r0 > 0 then g_rem := r0 - 1;" + PARTS)]),
    "ParserInputBuffer::set_pos": FnSpec(
        requires=[INV, ROOM, "0 <= $#p0", "$#p0 < $this.m_storage.m_active_size \\/ $#p0 = $this.m_pos_last_read_char /\\ !g_ext",
                  "dist $this.m_storage.m_active_size $this.m_pos_last_read_char $#p0 <= !g_u"],
        ensures=[INV, ROOM, "$this.m_storage.m_pos = $#p0", "!g_rem = dist $this.m_storage.m_active_size $this.m_pos_last_read_char $#p0"],
        writes=["o_Buffer__m_pos", "g_rem"],
        ghost=[("end", "g_rem := cdist $this.m_storage.m_active_size $this.m_pos_last_read_char $#p0;" + PARTS)]),
    "ParserInputBuffer::set_consumed_pos": FnSpec(
        requires=[INV, ROOM, "0 <= $#p0 < $this.m_storage.m_active_size", 
                  "!g_rem <= dist $this.m_storage.m_active_size $this.m_pos_last_read_char (next $this.m_storage.m_active_size $#p0) <= !g_u"],
        ensures=[INV, ROOM, "$this.m_consumed_pos = $#p0", "not !g_stale",
                 "!g_u = dist $this.m_storage.m_active_size $this.m_pos_last_read_char (next $this.m_storage.m_active_size $#p0)"],
        writes=[P + "m_consumed_pos", "g_u", "g_stale"],
        ghost=[("end", "g_u := cdist $this.m_storage.m_active_size $this.m_pos_last_read_char (if $#p0 + 1 = $this.m_storage.m_active_size then 0 else $#p0 + 1); g_stale := false;" + PARTS)]),
    "ParserInputBuffer::reset": FnSpec(
        requires=["owned $this.m_storage.m_dynamic_storages !alive"],
        ensures=[INV, ROOM, "Seq.length !g_in = 0", "!g_rem = 0", "!g_u = 0", "not !g_stale", "$this.m_pos_last_read_char = 0", "$this.m_storage.m_active_size = csize sblk", "not $this.m_log_fully_consumed", "not $this.m_finished_reading_input", "not !g_ext",
                 "forall b. Fset.mem b !alive <-> Fset.mem b (old !alive) /\\ not (seqin (old $this.m_storage.m_dynamic_storages) b)"],
        writes=PW + BW + GH,
        ghost=[("end", "g_in := Seq.empty; g_valid := 0; g_rem := 0; g_u := 0; g_stale := false; g_ext := false;" + PARTS)]),
    "ParserInputBuffer::set_storage": FnSpec(
        requires=["owned $this.m_storage.m_dynamic_storages !alive", "Fset.mem ($#p0).cbase !alive", "not (seqin $this.m_storage.m_dynamic_storages ($#p0).cbase)",
                  "0 <= ($#p0).coff /\\ ($#p0).coff + $#p1 <= csize ($#p0).cbase", "0 <= $#p2 <= $#p1 <= 1073741823"],
        ensures=[INV, ROOM, "!g_ext", "Seq.length !g_in = $#p1", "forall i. 0 <= i < $#p1 -> Seq.get !g_in i = Map.get (Map.get !cmem ($#p0).cbase) (($#p0).coff + i)",
                 "!g_rem = $#p1 - $#p2", "!g_u = !g_rem", "$this.m_finished_reading_input = $#p3", "not $this.m_log_fully_consumed", "$this.m_storage.m_pos = $#p2", "$this.m_pos_last_read_char = $#p1",
                 "$this.m_storage.m_active_storage = $#p0"],
        writes=PW + BW + GH,
        ghost=[("end", """g_in := cslice (mget !cmem ($#p0).cbase) ($#p0).coff (($#p0).coff + $#p1); g_valid := $#p1; g_rem := $#p1 - $#p2; g_u := $#p1 - $#p2; g_stale := true; g_ext := true;
   assert { forall k. 0 <= k < $#p1 -> Seq.get !g_in k = Map.get (Map.get !cmem ($#p0).cbase) (($#p0).coff + k) };
   ghost (outside (Map.get !cmem ($#p0).cbase) ($#p0).coff $#p1 !g_in);""" + PARTS)]),
    "ParserInputBuffer::log_fully_consumed": FnSpec(ensures=["result = $this.m_log_fully_consumed"]),
    "ParserInputBuffer::set_log_fully_consumed": FnSpec(ensures=["$this.m_log_fully_consumed = $#p0"], writes=[P + "m_log_fully_consumed"]),
    "ParserInputBuffer::read_if_safe": FnSpec(
        requires=[INV, ROOM, "not !g_ext"],
        ensures=[INV, ROOM,
                 "result = 0 -> (exists n. 0 <= n /\\ Seq.length !g_in = Seq.length (old !g_in) + n /\\ !g_rem = old !g_rem + n /\\ !g_u = old !g_u + n)",
                 "forall b. b <> ($this.m_storage.m_active_storage).cbase -> Map.get !cmem b = Map.get (old !cmem) b",
                 "$this.m_pos_last_read_char = old $this.m_pos_last_read_char \\/ Seq.length !g_in > Seq.length (old !g_in)", "result = 5 -> $this.m_finished_reading_input",
                 "grows $this.m_storage.m_active_size (old $this.m_pos_last_read_char) $this.m_pos_last_read_char (old !g_u) (old !g_in) !g_in (old $this.m_finished_reading_input) $this.m_finished_reading_input",
                 "result = 0 -> (old $this.m_pos_last_read_char = 0 -> 2 * $this.m_consumed_pos > $this.m_storage.m_active_size + 1 /\\ not $this.m_finished_reading_input -> $this.m_pos_last_read_char <> 0)",
                 "result <> 0 -> !g_rem = old !g_rem /\\ !g_in = old !g_in /\\ !g_u = old !g_u"],
        writes=["cmem", P + "m_pos_last_read_char", P + "m_last_read_first_half", P + "m_finished_reading_input",
                "g_in", "g_valid", "g_rem", "g_u"]),
}

unit = Unit("inbuf", ENTRY, lambda tr: blocks.prelude(tr) + PRELUDE, single=["ParserInputBuffer", "Buffer", "Reader"],
            contracts={**blocks.contracts("cmem"), **contracts}, fieldmap=FM, enums=["ErrorCode"], hooks={"std::function": reader},
            uses="  use int.EuclideanDivision as ED\n")
contracts = unit.contracts
