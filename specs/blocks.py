"""Memory model of Buffer<Item>: a static block, blocks of the dynamic storages, and a pointer to the active one."""
from vt.trans import Val, LRef, FnSpec
from vt.ctypes_ import Ty


def fieldmap(item):
    """item: type of the stored items."""
    def dyn(fn, obj):
        return LRef("o_Buffer__m_dynamic_storages", Ty("blocks", [item]))

    def static(fn, obj):
        return Val("{ cbase = sblk; coff = 0 }", Ty("ptr", [item]))
    return {"Buffer.m_dynamic_storages": dyn, "Buffer.m_static_storage": static, "alive": True,
            "ghost_refs": {"o_Buffer__m_dynamic_storages": "(seq int)"}}


def prelude(tr):
    return """
  (* the static storage of the buffer; it is allocated as long as the buffer exists *)
  val constant sblk : int ensures { result > 0 /\\ csize result = %d }

  predicate seqin (s: seq int) (x: int) = exists i. 0 <= i < Seq.length s /\\ Seq.get s i = x

  (* the storages of a buffer: the static one is none of the dynamic ones, and all of them are allocated *)
  predicate owned (dyn: seq int) (alive: fset int) =
    Fset.mem sblk alive /\\ not (seqin dyn sblk) /\\
    (forall i. 0 <= i < Seq.length dyn -> Fset.mem (Seq.get dyn i) alive)

  (* the active storage *)
  predicate bufok (p: cptr) (size: int) (dyn: seq int) (alive: fset int) =
    owned dyn alive /\\ 0 < size <= 2147483647 /\\ p.coff = 0 /\\ size <= csize p.cbase /\\
    (p.cbase = sblk \\/ seqin dyn p.cbase)

  (* item i of the storage can be accessed *)
  predicate item (p: cptr) (i: int) (alive: fset int) =
    0 <= p.coff + i < csize p.cbase /\\ Fset.mem p.cbase alive

  let lemma bufok_items (p: cptr) (size: int) (dyn: seq int) (alive: fset int) (i: int)
    requires { bufok p size dyn alive /\\ 0 <= i < size }
    ensures { item p i alive }
  = ()
  let ghost seqin_snoc (s: seq int) (x: int)
    ensures { seqin (Seq.snoc s x) x }
    ensures { forall y. seqin s y -> seqin (Seq.snoc s x) y }
    ensures { forall y. seqin (Seq.snoc s x) y -> y = x \\/ seqin s y }
  = assert { Seq.get (Seq.snoc s x) (Seq.length s) = x };
    assert { forall y. seqin s y -> seqin (Seq.snoc s x) y
      by exists i. 0 <= i < Seq.length s /\\ Seq.get s i = y so Seq.get (Seq.snoc s x) i = y }

  (* two storages after a change of item i *)
  predicate same_but (m m2: map int (map int 'a)) (p: cptr) (i: int) (v: 'a) =
    m2 = Map.set m p.cbase (Map.set (Map.get m p.cbase) (p.coff + i) v)
""" % tr.const_by_name("cStaticByteBuffSize")


T = "$this."
BO = "bufok $this.m_active_storage $this.m_active_size $this.m_dynamic_storages !alive"


def contracts(mem):
    """mem: the memory of the items."""
    W = "o_Buffer__"
    it = "Map.get (Map.get !%s ($this.m_active_storage).cbase) (($this.m_active_storage).coff + %s)"
    return {
        "Buffer::double_size": FnSpec(
            requires=[BO, "$this.m_active_size <= 1073741823"],
            ensures=[BO, "$this.m_active_size = 2 * old $this.m_active_size", "$this.m_pos = old $this.m_pos",
                     "not (Fset.mem ($this.m_active_storage).cbase (old !alive))",
                     "!alive = Fset.add ($this.m_active_storage).cbase (old !alive)",
                     "csize ($this.m_active_storage).cbase = $this.m_active_size",
                     "$this.m_dynamic_storages = Seq.snoc (old $this.m_dynamic_storages) ($this.m_active_storage).cbase"],
            writes=["alive", W + "m_dynamic_storages", W + "m_active_storage", W + "m_active_size"],
            ghost=[("begin", "let ghost dyn0 = $this.m_dynamic_storages in"),
                   ("end", "ghost (seqin_snoc dyn0 ($this.m_active_storage).cbase); assert { owned $this.m_dynamic_storages !alive };")]),
        "Buffer::reset": FnSpec(
            requires=["owned $this.m_dynamic_storages !alive"],
            ensures=[BO, "$this.m_active_size = csize sblk", "$this.m_pos = 0", "($this.m_active_storage).cbase = sblk",
                     "Seq.length $this.m_dynamic_storages = 0",
                     "forall b. Fset.mem b !alive <-> Fset.mem b (old !alive) /\\ not (seqin (old $this.m_dynamic_storages) b)"],
            writes=["alive", W + "m_dynamic_storages", W + "m_active_storage", W + "m_active_size", W + "m_pos"]),
        "Buffer::set_value": FnSpec(
            requires=["item $this.m_active_storage $#p0 !alive"],
            ensures=["same_but (old !%s) !%s $this.m_active_storage $#p0 $#p1" % (mem, mem)], writes=[mem]),
        "Buffer::set_curr_value": FnSpec(
            requires=["item $this.m_active_storage $this.m_pos !alive"],
            ensures=["same_but (old !%s) !%s $this.m_active_storage $this.m_pos $#p0" % (mem, mem)], writes=[mem]),
        "Buffer::get_value": FnSpec(
            requires=["item $this.m_active_storage $#p0 !alive"], ensures=["result = " + it % (mem, "$#p0")]),
        "Buffer::get_curr_value": FnSpec(
            requires=["item $this.m_active_storage $this.m_pos !alive"], ensures=["result = " + it % (mem, "$this.m_pos")]),
        "Buffer::increment_pos": FnSpec(
            requires=["$this.m_pos < 4294967295"], ensures=["$this.m_pos = old $this.m_pos + 1"], writes=[W + "m_pos"]),
        "Buffer::set_pos": FnSpec(ensures=["$this.m_pos = $#p0"], writes=[W + "m_pos"]),
        "Buffer::pos": FnSpec(ensures=["result = $this.m_pos"]),
        "Buffer::size": FnSpec(ensures=["result = $this.m_active_size"]),
        "Buffer::static_size": FnSpec(ensures=["result = csize sblk"]),
        "Buffer::get_active_buffer": FnSpec(ensures=["result = $this.m_active_storage"]),
        "Buffer::set_active_buffer": FnSpec(
            ensures=["$this.m_active_storage = $#p0", "$this.m_active_size = $#p1", "$this.m_pos = $#p2"],
            writes=[W + "m_pos", W + "m_active_size", W + "m_active_storage"]),
    }
