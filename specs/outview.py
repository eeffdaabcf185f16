"""P08, P11, P16: LogParserOutputBuffer seen as a list of tokens: the contracts LogParser uses."""
import copy
from vt.trans import Unit, FnSpec
from . import blocks, outbuf

VIEW = ("(bufok $this.m_storage.m_active_storage $this.m_storage.m_active_size $this.m_storage.m_dynamic_storages !alive /\\ "
        "!ob_tok = Map.get !mem_token ($this.m_storage.m_active_storage).cbase /\\ !ob_size = $this.m_storage.m_active_size /\\ !ob_pos = $this.m_storage.m_pos)")
ENTRY = outbuf.ENTRY
GHOSTS = {"ob_tok": "(map int r_token)", "ob_pos": "int", "ob_size": "int"}
GW = list(GHOSTS)
IN = "0 <= !ob_pos < !ob_size"
SAME = "!ob_size = old !ob_size /\\ !ob_pos = old !ob_pos"
SYNC = ("ob_tok := mget !mem_token ($this.m_storage.m_active_storage).cbase; ob_size := $this.m_storage.m_active_size; ob_pos := $this.m_storage.m_pos;")


def make(ok, w, sync):
    """ok: how the view relates to the storage; w: what else is written."""
    g = lambda s: [("end", s)] if sync else []
    base = [ok, IN]
    return {
        "LogParserOutputBuffer::advance_to_next_token": FnSpec(
            requires=base + ["!ob_size <= 1073741823"],
            ensures=base + ["!ob_pos = old !ob_pos + 1",
                            "!ob_size = (if (old !ob_pos) + 1 = old !ob_size then 2 * old !ob_size else old !ob_size)",
                            "forall i. 0 <= i < old !ob_size -> Map.get !ob_tok i = Map.get (old !ob_tok) i"],
            writes=w + GW, ghost=g(SYNC)),
        "LogParserOutputBuffer::set_token": FnSpec(
            requires=base + ["0 <= $#p0 < !ob_size"], ensures=base + ["!ob_tok = Map.set (old !ob_tok) $#p0 $#p1", SAME], writes=w + GW, ghost=g(SYNC)),
        "LogParserOutputBuffer::set_curr_token": FnSpec(
            requires=base, ensures=base + ["!ob_tok = Map.set (old !ob_tok) !ob_pos $#p0", SAME], writes=w + GW, ghost=g(SYNC)),
        "LogParserOutputBuffer::get_curr_token": FnSpec(requires=base, ensures=["result = Map.get !ob_tok !ob_pos"]),
        "LogParserOutputBuffer::get_token": FnSpec(requires=base + ["0 <= $#p0 < !ob_size"], ensures=["result = Map.get !ob_tok $#p0"]),
        "LogParserOutputBuffer::set_pos": FnSpec(
            requires=base + ["0 <= $#p0 < !ob_size"], ensures=base + ["!ob_pos = $#p0", "!ob_size = old !ob_size", "!ob_tok = old !ob_tok"], writes=w + GW, ghost=g(SYNC)),
        "LogParserOutputBuffer::reset": FnSpec(
            requires=[ok if ok.startswith("out_ok") else "owned $this.m_storage.m_dynamic_storages !alive"],
            ensures=base + ["!ob_pos = 0", "!ob_size = obstatic", "not $this.m_has_timestamp"],
            writes=[x for x in w + GW if x != "mem_token"] + ["o_LogParserOutputBuffer__m_has_timestamp", "o_LogParserOutputBuffer__m_has_delimiters"], ghost=g(SYNC)),
        "LogParserOutputBuffer::pos": FnSpec(requires=base, ensures=["result = !ob_pos"]),
    }


FM = {**outbuf.FM, "ghost_refs": {**outbuf.FM["ghost_refs"], **GHOSTS}}
unit = Unit("outview", ENTRY, lambda tr: blocks.prelude(tr) + "  constant obstatic : int = %d\n" % tr.const_by_name("cStaticByteBuffSize"), single=["LogParserOutputBuffer", "Buffer"], value=["Token"],
            contracts={**{q: (lambda c: (setattr(c, "noproof", True), c)[1])(copy.copy(s)) for q, s in blocks.contracts("mem_token").items()},
                       **make(VIEW, ["mem_token"] + outbuf.BW, True)}, fieldmap=FM)
contracts = unit.contracts
