"""P08, P10, P11: ReaderParser over the contracts of LogParser."""
import copy
from vt.trans import FnSpec
from . import parser, lexer
from .parser import BASE, PART, VIEW, HT, HS, SM, LOC, TEXTS, LEN, SIZE, END, FIN, PI, TILES, OPEN1, HELD, IDS, OUT

ENTRY = parser.ENTRY.replace("#include <log_surgeon/LogParser.cpp>", "#include <log_surgeon/LogParser.cpp>\n#include <log_surgeon/LogEvent.cpp>\n#include <log_surgeon/ReaderParser.cpp>")
LP = "!o_LogParser__"


def glob(x):
    return x.replace("$this.", LP)


PRELUDE = r"""
  (* a token stays where it is when more is read, and keeps its text when the storage is replaced *)
  let ghost held_read (mem mem2: map int (map int int)) (alive: fset int) (act: cptr) (size e e2 u: int) (in0 in1: seq int) (fin fin2 ht: bool) (n: int) (tok: map int r_token) (s f: map int int) (b: int)
    ensures { held mem alive act size e in0 ht n tok s f b -> grows size e e2 u in0 in1 fin fin2 -> Seq.length in0 - b <= u ->
      (forall k. k <> act.cbase -> Map.get mem2 k = Map.get mem k) -> held mem2 alive act size e2 in1 ht n tok s f b }
  = ()
  let ghost located_read (mem mem2: map int (map int int)) (alive: fset int) (act: cptr) (size e e2 u: int) (in0 in1: seq int) (fin fin2: bool) (t: r_token) (s f: int)
    ensures { located mem alive act size e in0 t s f -> grows size e e2 u in0 in1 fin fin2 -> Seq.length in0 - s <= u ->
      (forall k. k <> act.cbase -> Map.get mem2 k = Map.get mem k) -> located mem2 alive act size e2 in1 t s f }
  = ()
"""
"""
"""
MORE = "grows"
START = [f"{END} = 0 -> not !g_stale /\\ {SIZE} > 3 /\\ {LEN} = 0", "!a_sof = 0", "not !g_ext", f"{END} <> 0 -> 0 < {LEN}"]
NEW = [x for x in PART if "!ob_pos > 0" not in x and "!ob_pos = 0" not in x]
BETWEEN = [f"if {HS} then !g_ev <= !a_pos else !g_ev = !a_pos"]
