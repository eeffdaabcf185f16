"""P17: PrefixTree and RegisterHandler."""
from vt.trans import Unit, FnSpec

ENTRY = '#include <log_surgeon/finite_automata/RegisterHandler.hpp>\n#include <log_surgeon/finite_automata/PrefixTree.cpp>\n'

PRELUDE = """
  (* a node other than the root refers to an earlier node *)
  predicate tree (n: seq r_node) =
    Seq.length n >= 1 /\\ (Seq.get n 0).node_m_parent_id = None /\\
    forall i. 0 < i < Seq.length n ->
      exists p. (Seq.get n i).node_m_parent_id = Some p /\\ 0 <= p < i

  (* the positions recorded at a node, newest first *)
  let rec ghost function hist (n: seq r_node) (i: int) : seq int
    variant { i }
  = match (Seq.get n i).node_m_parent_id with
    | None -> Seq.empty
    | Some p -> if 0 <= p < i then Seq.cons (Seq.get n i).node_m_position (hist n p) else Seq.empty
    end

  let rec ghost hist_agrees (n m: seq r_node) (i: int)
    requires { tree n /\\ 0 <= i < Seq.length n /\\ Seq.length n <= Seq.length m }
    requires { forall j. 0 <= j < Seq.length n -> Seq.get m j = Seq.get n j }
    ensures { hist m i = hist n i }
    variant { i }
  = match (Seq.get n i).node_m_parent_id with
    | None -> ()
    | Some p -> hist_agrees n m p
    end

  let rec ghost hist_below (n m: seq r_node) (k i: int)
    requires { tree n /\\ 0 <= i < k < Seq.length n /\\ Seq.length n = Seq.length m }
    requires { forall j. 0 <= j < k -> Seq.get m j = Seq.get n j }
    ensures { hist m i = hist n i }
    variant { i }
  = match (Seq.get n i).node_m_parent_id with
    | None -> ()
    | Some p -> hist_below n m k p
    end

  (* changing the position of node k changes nothing of a history but that position *)
  let rec ghost hist_set_other (n m: seq r_node) (k i: int)
    requires { tree n /\\ 0 <= i < Seq.length n /\\ 0 <= k < Seq.length n /\\ Seq.length n = Seq.length m }
    requires { forall j. 0 <= j < Seq.length n -> (Seq.get m j).node_m_parent_id = (Seq.get n j).node_m_parent_id }
    requires { forall j. 0 <= j < Seq.length n /\\ j <> k -> Seq.get m j = Seq.get n j }
    ensures { Seq.length (hist m i) = Seq.length (hist n i) }
    ensures { forall d. 0 <= d < Seq.length (hist n i) ->
                Seq.get (hist m i) d = Seq.get (hist n i) d \\/ Seq.get (hist m i) d = (Seq.get m k).node_m_position }
    variant { i }
  = match (Seq.get n i).node_m_parent_id with
    | None -> ()
    | Some p -> hist_set_other n m k p
    end

  let ghost tree_snoc (n: seq r_node) (p x: int)
    requires { tree n /\\ 0 <= p < Seq.length n }
    ensures { tree (Seq.snoc n { node_m_parent_id = Some p; node_m_position = x }) }
    ensures { hist (Seq.snoc n { node_m_parent_id = Some p; node_m_position = x }) (Seq.length n) = Seq.cons x (hist n p) }
    ensures { forall i. 0 <= i < Seq.length n ->
                hist (Seq.snoc n { node_m_parent_id = Some p; node_m_position = x }) i = hist n i }
  = let m = Seq.snoc n { node_m_parent_id = Some p; node_m_position = x } in
    for i = 0 to Seq.length n - 1 do
      invariant { forall j. 0 <= j < i -> hist m j = hist n j }
      hist_agrees n m i
    done;
    assert { (Seq.get m (Seq.length n)).node_m_parent_id = Some p };
    assert { forall i. 0 <= i < Seq.length n -> hist m i = hist n i }

  let ghost left_neutral (s: seq int)
    ensures { Seq.(++) (Seq.empty: seq int) s = s }
  = assert { Seq.(==) (Seq.(++) (Seq.empty: seq int) s) s }
  let ghost right_neutral (s: seq int)
    ensures { Seq.(++) s (Seq.empty: seq int) = s }
  = assert { Seq.(==) (Seq.(++) s (Seq.empty: seq int)) s }
  let ghost snoc_cons (s t: seq int) (x: int)
    ensures { Seq.(++) s (Seq.cons x t) = Seq.(++) (Seq.snoc s x) t }
  = assert { Seq.(==) (Seq.(++) s (Seq.cons x t)) (Seq.(++) (Seq.snoc s x) t) }

  let ghost hist_below_all (n m: seq r_node) (k: int)
    requires { tree n /\\ 0 <= k < Seq.length n /\\ Seq.length n = Seq.length m }
    requires { forall j. 0 <= j < k -> Seq.get m j = Seq.get n j }
    ensures { forall i. 0 <= i < k -> hist m i = hist n i }
  = for i = 0 to k - 1 do
      invariant { forall j. 0 <= j < i -> hist m j = hist n j }
      hist_below n m k i
    done

  let ghost hist_set_all (n m: seq r_node) (k: int)
    requires { tree n /\\ 0 <= k < Seq.length n /\\ Seq.length n = Seq.length m }
    requires { forall j. 0 <= j < Seq.length n -> (Seq.get m j).node_m_parent_id = (Seq.get n j).node_m_parent_id }
    requires { forall j. 0 <= j < Seq.length n /\\ j <> k -> Seq.get m j = Seq.get n j }
    ensures { forall i. 0 <= i < Seq.length n -> Seq.length (hist m i) = Seq.length (hist n i) }
    ensures { forall i d. 0 <= i < Seq.length n /\\ 0 <= d < Seq.length (hist n i) ->
                Seq.get (hist m i) d = Seq.get (hist n i) d \\/ Seq.get (hist m i) d = (Seq.get m k).node_m_position }
  = for i = 0 to Seq.length n - 1 do
      invariant { forall j. 0 <= j < i -> Seq.length (hist m j) = Seq.length (hist n j) }
      invariant { forall j d. 0 <= j < i /\\ 0 <= d < Seq.length (hist n j) ->
                Seq.get (hist m j) d = Seq.get (hist n j) d \\/ Seq.get (hist m j) d = (Seq.get m k).node_m_position }
      hist_set_other n m k i
    done

  let ghost tree_set (n: seq r_node) (k x: int)
    requires { tree n /\\ 0 <= k < Seq.length n }
    ensures { tree (Seq.set n k { (Seq.get n k) with node_m_position = x }) }
    ensures { forall i. 0 <= i < k -> hist (Seq.set n k { (Seq.get n k) with node_m_position = x }) i = hist n i }
    ensures { k > 0 -> exists p. (Seq.get n k).node_m_parent_id = Some p /\\ 0 <= p < k /\\
                hist n k = Seq.cons (Seq.get n k).node_m_position (hist n p) /\\
                hist (Seq.set n k { (Seq.get n k) with node_m_position = x }) k = Seq.cons x (hist n p) }
    ensures { k = 0 -> hist (Seq.set n k { (Seq.get n k) with node_m_position = x }) k = hist n k }
  = let m = Seq.set n k { (Seq.get n k) with node_m_position = x } in
    hist_below_all n m k;
    match (Seq.get n k).node_m_parent_id with
    | None -> ()
    | Some p -> assert { hist m p = hist n p };
                assert { hist n k = Seq.cons (Seq.get n k).node_m_position (hist n p) };
                assert { hist m k = Seq.cons x (hist n p) }
    end
"""

N = "$this.m_nodes"
T = "(!o_PrefixTree__m_nodes)"
R = "$this.m_registers"

contracts = {
    "PrefixTree::PrefixTree": FnSpec(
        ensures=[f"tree {N}", f"Seq.length {N} = 1", f"hist {N} 0 = Seq.empty"],
        writes=["o_PrefixTree__m_nodes"]),
    "PrefixTree::insert": FnSpec(
        requires=[f"tree {N}", f"Seq.length {N} < 4294967295"],
        ensures=[f"tree {N}", f"result = Seq.length (old {N})", f"Seq.length {N} = result + 1",
                 f"{N} = Seq.snoc (old {N}) {{ node_m_parent_id = Some $#p0; node_m_position = $#p1 }}",
                 f"0 <= $#p0 < Seq.length (old {N})",
                 f"hist {N} result = Seq.cons $#p1 (hist (old {N}) $#p0)",
                 f"forall i. 0 <= i < Seq.length (old {N}) -> hist {N} i = hist (old {N}) i"],
        raises={"Ex_out_of_range": [f"{N} = old {N}", f"$#p0 >= Seq.length {N}"]},
        ghost=[("begin", f"let ghost g_old = {N} in"),
               ("end", "ghost (tree_snoc g_old $#p0 $#p1);")],
        writes=["o_PrefixTree__m_nodes"]),
    "PrefixTree::set": FnSpec(
        requires=[f"tree {N}"],
        ensures=[f"tree {N}", f"0 <= $#p0 < Seq.length {N}", f"Seq.length {N} = Seq.length (old {N})",
                 f"$#p0 > 0 -> exists q. (Seq.get (old {N}) $#p0).node_m_parent_id = Some q /\\ 0 <= q < $#p0 /\\ "
                 f"hist (old {N}) $#p0 = Seq.cons (Seq.get (old {N}) $#p0).node_m_position (hist (old {N}) q) /\\ "
                 f"hist {N} $#p0 = Seq.cons $#p1 (hist (old {N}) q)",
                 f"$#p0 = 0 -> hist {N} $#p0 = hist (old {N}) $#p0",
                 f"forall i. 0 <= i < $#p0 -> hist {N} i = hist (old {N}) i",
                 f"forall i. 0 <= i < Seq.length {N} /\\ i <> $#p0 -> Seq.get {N} i = Seq.get (old {N}) i",
                 f"forall i d. 0 <= i < Seq.length {N} /\\ 0 <= d < Seq.length (hist {N} i) -> "
                 f"Seq.length (hist {N} i) = Seq.length (hist (old {N}) i) /\\ "
                 f"(Seq.get (hist {N} i) d = Seq.get (hist (old {N}) i) d \\/ Seq.get (hist {N} i) d = $#p1)"],
        raises={"Ex_out_of_range": [f"{N} = old {N}", f"$#p0 >= Seq.length {N}"]},
        ghost=[("begin", f"let ghost g_old = {N} in"),
               ("end", "ghost (tree_set g_old $#p0 $#p1);"),
               ("end", f"ghost (hist_set_all g_old {N} $#p0);")],
        writes=["o_PrefixTree__m_nodes"]),
    "PrefixTree::size": FnSpec(ensures=[f"result = Seq.length {N}"]),
    "PrefixTree::get_reversed_positions": FnSpec(
        requires=[f"tree {N}"],
        ensures=[f"0 <= $#p0 < Seq.length {N}", f"result = hist {N} $#p0"],
        raises={"Ex_out_of_range": [f"$#p0 >= Seq.length {N}"]},
        ghost=[("begin", "let ghost g_cur = ref $#p0 in"),
               ("loop:0:before", f"ghost (left_neutral (hist {N} $#p0));"),
               ("loop:0:begin", "let ghost g_rev = $reversed_positions in"),
               ("loop:0:after", "ghost (right_neutral $reversed_positions);"),
               ("loop:0:end", f"ghost (match (Seq.get {N} !g_cur).node_m_parent_id with Some q -> "
                              f"snoc_cons g_rev (hist {N} q) (Seq.get {N} !g_cur).node_m_position | None -> () end);"),
               ("loop:0:end", "g_cur := match (Seq.get !o_PrefixTree__m_nodes !g_cur).node_m_parent_id with Some q -> q | None -> 0 end;")],
        loops={0: {"inv": [f"0 <= !g_cur <= $#p0 /\\ !g_cur < Seq.length {N}",
                           f"$current_node = Seq.get {N} !g_cur",
                           f"hist {N} $#p0 = Seq.(++) $reversed_positions (hist {N} !g_cur)"],
                   "var": "!g_cur"}}),
    "RegisterHandler::add_register": FnSpec(
        requires=[f"tree {T}", f"Seq.length {T} < 4294967295", f"regs_ok {R} {T}"],
        ensures=[f"tree {T}", f"regs_ok {R} {T}",
                 f"Seq.length {R} = Seq.length (old {R}) + 1",
                 f"forall i. 0 <= i < Seq.length (old {R}) -> Seq.get {R} i = Seq.get (old {R}) i",
                 f"forall i. 0 <= i < Seq.length (old {R}) -> rhist {R} {T} i = rhist (old {R}) (old {T}) i",
                 f"rhist {R} {T} (Seq.length (old {R})) = Seq.cons $#p1 (hist (old {T}) $#p0)"],
        raises={"Ex_out_of_range": [f"{T} = old {T}", f"{R} = old {R}", f"$#p0 >= Seq.length {T}"]},
        writes=["o_PrefixTree__m_nodes", "o_RegisterHandler__m_registers"]),
    "RegisterHandler::set_register": FnSpec(
        requires=[f"tree {T}", f"regs_ok {R} {T}"],
        ensures=[f"tree {T}", f"regs_ok {R} {T}", f"{R} = old {R}", f"0 <= $#p0 < Seq.length {R}",
                 f"Seq.length (rhist {R} {T} $#p0) = Seq.length (rhist (old {R}) (old {T}) $#p0)",
                 f"Seq.length (rhist {R} {T} $#p0) > 0 -> Seq.get (rhist {R} {T} $#p0) 0 = $#p1",
                 f"forall d. 0 < d < Seq.length (rhist {R} {T} $#p0) -> "
                 f"Seq.get (rhist {R} {T} $#p0) d = Seq.get (rhist (old {R}) (old {T}) $#p0) d"],
        raises={"Ex_out_of_range": [f"{T} = old {T}", f"{R} = old {R}", f"$#p0 >= Seq.length {R}"]},
        writes=["o_PrefixTree__m_nodes"]),
    "RegisterHandler::copy_register": FnSpec(
        requires=[f"tree {T}", f"regs_ok {R} {T}"],
        ensures=[f"regs_ok {R} {T}", f"Seq.length {R} = Seq.length (old {R})",
                 f"0 <= $#p0 < Seq.length {R} /\\ 0 <= $#p1 < Seq.length {R}",
                 f"rhist {R} {T} $#p0 = rhist (old {R}) (old {T}) $#p1",
                 f"forall i. 0 <= i < Seq.length {R} /\\ i <> $#p0 -> rhist {R} {T} i = rhist (old {R}) (old {T}) i",
                 f"rhist {R} {T} $#p1 = rhist (old {R}) (old {T}) $#p1"],
        raises={"Ex_out_of_range": [f"{R} = old {R}", f"$#p0 >= Seq.length {R} \\/ $#p1 >= Seq.length {R}"]},
        writes=["o_RegisterHandler__m_registers"]),
    "RegisterHandler::append_position": FnSpec(
        requires=[f"tree {T}", f"Seq.length {T} < 4294967295", f"regs_ok {R} {T}"],
        ensures=[f"tree {T}", f"regs_ok {R} {T}", f"Seq.length {R} = Seq.length (old {R})", f"0 <= $#p0 < Seq.length {R}",
                 f"rhist {R} {T} $#p0 = Seq.cons $#p1 (rhist (old {R}) (old {T}) $#p0)",
                 f"forall i. 0 <= i < Seq.length {R} /\\ i <> $#p0 -> rhist {R} {T} i = rhist (old {R}) (old {T}) i"],
        raises={"Ex_out_of_range": [f"{T} = old {T}", f"{R} = old {R}", f"$#p0 >= Seq.length {R}"]},
        writes=["o_PrefixTree__m_nodes", "o_RegisterHandler__m_registers"]),
    "RegisterHandler::get_reversed_positions": FnSpec(
        requires=[f"tree {T}", f"regs_ok {R} {T}"],
        ensures=[f"0 <= $#p0 < Seq.length {R}", f"result = rhist {R} {T} $#p0"],
        raises={"Ex_out_of_range": [f"$#p0 >= Seq.length {R}"]}),
}


def prelude(tr):
    tr.need_record("Node")
    return PRELUDE + """
  predicate regs_ok (r: seq int) (n: seq r_node) = forall i. 0 <= i < Seq.length r -> 0 <= Seq.get r i < Seq.length n
  function rhist (r: seq int) (n: seq r_node) (i: int) : seq int = hist n (Seq.get r i)
"""


unit = Unit("registers", ENTRY, prelude, single=["PrefixTree", "RegisterHandler"], value=["Node"], contracts=contracts)
