"""P15: Token."""
from vt.trans import Unit, FnSpec

ENTRY = '#include <log_surgeon/Token.cpp>\n'

PRELUDE = """
  (* n characters from offset o of a block *)
  function chars (m: map int int) (o n: int) : seq int = Seq.create n (fun i -> Map.get m (o + i))

  (* the text of a token: from start to end, continuing at the beginning of the buffer if the end precedes the start *)
  function text (m: map int (map int int)) (s e: int) (b: cptr) (size: int) : seq int =
    if s <= e then chars (Map.get m b.cbase) (b.coff + s) (e - s)
    else Seq.(++) (chars (Map.get m b.cbase) (b.coff + s) (size - s)) (chars (Map.get m b.cbase) b.coff e)

  (* the characters of the token lie in the storage *)
  predicate inside (s e: int) (b: cptr) (size: int) =
    0 <= b.coff /\\ size <= 4294967040 /\\ 0 <= s <= size /\\ 0 <= e <= size /\\
    (if s <= e then b.coff + e <= csize b.cbase else s < size /\\ b.coff + size <= csize b.cbase)

  let ghost whole (s t: seq int) ensures { Seq.(==) s t -> s = t } = ()
"""

TEXT = "text !cmem $this.m_start_pos $this.m_end_pos $this.m_buffer $this.m_buffer_size"
INS = "inside $this.m_start_pos $this.m_end_pos $this.m_buffer $this.m_buffer_size"
CACHE = f"Seq.length $this.m_wrap_around_string = 0 \\/ ($this.m_start_pos > $this.m_end_pos /\\ $this.m_wrap_around_string = {TEXT})"
NOW = f"assert {{ Seq.(==) $result ({TEXT}) }};"

contracts = {
    "Token::to_string": FnSpec(requires=[INS, CACHE], ensures=[f"result = {TEXT}", CACHE],
                               writes=["o_Token__m_wrap_around_string"], ghost=[("end", NOW)]),
    "Token::to_string_view": FnSpec(requires=[INS, CACHE], ensures=[f"result = {TEXT}", CACHE],
                                    writes=["o_Token__m_wrap_around_string"], ghost=[("end", NOW)]),
    "Token::get_char": FnSpec(requires=[INS, f"$#p0 < Seq.length ({TEXT})"], ensures=[f"result = Seq.get ({TEXT}) $#p0"]),
    "Token::get_delimiter": FnSpec(requires=[INS, f"Seq.length ({TEXT}) > 0"],
                                   ensures=["Seq.length result = 1", f"Seq.get result 0 = Seq.get ({TEXT}) 0"]),
    "Token::get_length": FnSpec(requires=[INS], ensures=[f"result = Seq.length ({TEXT})"]),
}

unit = Unit("token", ENTRY, PRELUDE, single=["Token"], contracts=contracts)
