"""P16: Buffer<Token> and LogParserOutputBuffer."""
from vt.trans import Unit, FnSpec
from vt.ctypes_ import Ty
from . import blocks

ENTRY = """#include <log_surgeon/LogParserOutputBuffer.cpp>
template class log_surgeon::Buffer<log_surgeon::Token>;
"""
FM = blocks.fieldmap(Ty("rec", (), "Token"))
FM["items"] = {"Token"}
FM["globals"] = {}
M = "mem_token"
ST = "$this.m_storage."
BO = "bufok $this.m_storage.m_active_storage $this.m_storage.m_active_size $this.m_storage.m_dynamic_storages !alive"
W = "o_Buffer__"
P = "o_LogParserOutputBuffer__"
BW = [W + x for x in ("m_dynamic_storages", "m_active_storage", "m_active_size", "m_pos")] + ["alive"]
IT = "Map.get (Map.get %s ($this.m_storage.m_active_storage).cbase) (($this.m_storage.m_active_storage).coff + %s)"
OLDIT = "Map.get (Map.get (old !%s) (old ($this.m_storage.m_active_storage)).cbase) ((old ($this.m_storage.m_active_storage)).coff + i)" % M

contracts = {
    "LogParserOutputBuffer::advance_to_next_token": FnSpec(
        requires=[BO, "0 <= $this.m_storage.m_pos < $this.m_storage.m_active_size <= 1073741823"],
        ensures=[BO, "$this.m_storage.m_pos = old $this.m_storage.m_pos + 1", "$this.m_storage.m_pos < $this.m_storage.m_active_size",
                 "$this.m_storage.m_active_size = (if old $this.m_storage.m_pos + 1 = old $this.m_storage.m_active_size then 2 * old $this.m_storage.m_active_size else old $this.m_storage.m_active_size)",
                 "forall i. 0 <= i < old $this.m_storage.m_active_size -> " + (IT % ("!" + M, "i")) + " = " + OLDIT,
                 "forall b. Fset.mem b (old !alive) -> Fset.mem b !alive /\\ Map.get !mem_token b = Map.get (old !mem_token) b"],
        writes=[M] + BW,
        ghost=[("begin", "let ghost m0 = !mem_token in let ghost p0 = $this.m_storage.m_active_storage in let ghost s0 = $this.m_storage.m_active_size in"),
               ("end", """assert { $this.m_storage.m_active_size <> s0 -> ($this.m_storage.m_active_storage).cbase <> p0.cbase };
                assert { forall i. 0 <= i < s0 -> Map.get (Map.get !mem_token ($this.m_storage.m_active_storage).cbase) i = Map.get (Map.get m0 p0.cbase) (0 + i) };""")]),
    "LogParserOutputBuffer::reset": FnSpec(
        requires=["owned $this.m_storage.m_dynamic_storages !alive"],
        ensures=[BO, "$this.m_storage.m_pos = 0", "$this.m_storage.m_active_size = csize sblk", "not $this.m_has_timestamp", "not $this.m_has_delimiters",
                 "forall b. Fset.mem b !alive <-> Fset.mem b (old !alive) /\\ not (seqin (old $this.m_storage.m_dynamic_storages) b)"],
        writes=BW + [P + "m_has_timestamp", P + "m_has_delimiters"]),
    "LogParserOutputBuffer::set_token": FnSpec(
        requires=[BO, "0 <= $#p0 < $this.m_storage.m_active_size"],
        ensures=["same_but (old !mem_token) !mem_token $this.m_storage.m_active_storage $#p0 $#p1"], writes=[M]),
    "LogParserOutputBuffer::set_curr_token": FnSpec(
        requires=[BO, "0 <= $this.m_storage.m_pos < $this.m_storage.m_active_size"],
        ensures=["same_but (old !mem_token) !mem_token $this.m_storage.m_active_storage $this.m_storage.m_pos $#p0"], writes=[M]),
    "LogParserOutputBuffer::get_token": FnSpec(
        requires=[BO, "0 <= $#p0 < $this.m_storage.m_active_size"], ensures=["result = " + IT % ("!" + M, "$#p0")]),
    "LogParserOutputBuffer::get_curr_token": FnSpec(
        requires=[BO, "0 <= $this.m_storage.m_pos < $this.m_storage.m_active_size"],
        ensures=["result = " + IT % ("!" + M, "$this.m_storage.m_pos")]),
    "LogParserOutputBuffer::set_pos": FnSpec(ensures=["$this.m_storage.m_pos = $#p0"], writes=[W + "m_pos"]),
    "LogParserOutputBuffer::pos": FnSpec(ensures=["result = $this.m_storage.m_pos"]),
    "LogParserOutputBuffer::size": FnSpec(ensures=["result = $this.m_storage.m_active_size"]),
    "LogParserOutputBuffer::has_timestamp": FnSpec(ensures=["result = $this.m_has_timestamp"]),
    "LogParserOutputBuffer::set_has_timestamp": FnSpec(ensures=["$this.m_has_timestamp = $#p0"], writes=[P + "m_has_timestamp"]),
    "LogParserOutputBuffer::has_delimiters": FnSpec(ensures=["result = $this.m_has_delimiters"]),
    "LogParserOutputBuffer::set_has_delimiters": FnSpec(ensures=["$this.m_has_delimiters = $#p0"], writes=[P + "m_has_delimiters"]),
}
unit = Unit("outbuf", ENTRY, lambda tr: blocks.prelude(tr), single=["LogParserOutputBuffer", "Buffer"], value=["Token"],
            contracts={**blocks.contracts(M), **contracts}, fieldmap=FM)
contracts = unit.contracts
