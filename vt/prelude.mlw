(* Semantics of the C++ base types and of the standard containers used by the translation (trusted). *)
module P
  use export int.Int
  use export ref.Ref
  use map.Map as Map
  use export option.Option
  use seq.Seq as Seq
  use set.Fset as Fset
  use int.EuclideanDivision as ED

  type fset 'a = Fset.fset 'a
  type seq 'a = Seq.seq 'a
  type map 'a 'b = Map.map 'a 'b

  exception Ex_out_of_range
  exception Ex_invalid_argument
  exception Ex_runtime_error
  exception Ex_FileReaderOperationFailed
  exception Ex_bad_optional_access
  exception Ex_other

  let function fst (p: ('a, 'b)) : 'a = let (a, _) = p in a
  let function snd (p: ('a, 'b)) : 'b = let (_, b) = p in b

  (* integer conversions reduce modulo the width *)
  val wrap_u8 (x: int) : int
    ensures { 0 <= result <= 255 }
    ensures { 0 <= x <= 255 -> result = x }
    ensures { 256 <= x <= 511 -> result = x - 256 }
    ensures { -256 <= x < 0 -> result = x + 256 }
  val wrap_i8 (x: int) : int
    ensures { -128 <= result <= 127 }
    ensures { -128 <= x <= 127 -> result = x }
    ensures { 128 <= x <= 383 -> result = x - 256 }
    ensures { -384 <= x < -128 -> result = x + 256 }
  (* a stored value of an integer type lies in the range of the type *)
  val rd_u8 (x: int) : int ensures { result = x } ensures { 0 <= result <= 255 }
  val rd_i8 (x: int) : int ensures { result = x } ensures { -128 <= result <= 127 }
  val wrap_u16 (x: int) : int
    ensures { 0 <= result <= 65535 }
    ensures { 0 <= x <= 65535 -> result = x }
    ensures { 65536 <= x <= 131071 -> result = x - 65536 }
    ensures { -65536 <= x < 0 -> result = x + 65536 }
  val wrap_i16 (x: int) : int
    ensures { -32768 <= result <= 32767 }
    ensures { -32768 <= x <= 32767 -> result = x }
    ensures { 32768 <= x <= 98303 -> result = x - 65536 }
    ensures { -98304 <= x < -32768 -> result = x + 65536 }
  (* a stored value of an integer type lies in the range of the type *)
  val rd_u16 (x: int) : int ensures { result = x } ensures { 0 <= result <= 65535 }
  val rd_i16 (x: int) : int ensures { result = x } ensures { -32768 <= result <= 32767 }
  val wrap_u32 (x: int) : int
    ensures { 0 <= result <= 4294967295 }
    ensures { 0 <= x <= 4294967295 -> result = x }
    ensures { 4294967296 <= x <= 8589934591 -> result = x - 4294967296 }
    ensures { -4294967296 <= x < 0 -> result = x + 4294967296 }
  val wrap_i32 (x: int) : int
    ensures { -2147483648 <= result <= 2147483647 }
    ensures { -2147483648 <= x <= 2147483647 -> result = x }
    ensures { 2147483648 <= x <= 6442450943 -> result = x - 4294967296 }
    ensures { -6442450944 <= x < -2147483648 -> result = x + 4294967296 }
  (* a stored value of an integer type lies in the range of the type *)
  val rd_u32 (x: int) : int ensures { result = x } ensures { 0 <= result <= 4294967295 }
  val rd_i32 (x: int) : int ensures { result = x } ensures { -2147483648 <= result <= 2147483647 }
  val wrap_u64 (x: int) : int
    ensures { 0 <= result <= 18446744073709551615 }
    ensures { 0 <= x <= 18446744073709551615 -> result = x }
    ensures { 18446744073709551616 <= x <= 36893488147419103231 -> result = x - 18446744073709551616 }
    ensures { -18446744073709551616 <= x < 0 -> result = x + 18446744073709551616 }
  val wrap_i64 (x: int) : int
    ensures { -9223372036854775808 <= result <= 9223372036854775807 }
    ensures { -9223372036854775808 <= x <= 9223372036854775807 -> result = x }
    ensures { 9223372036854775808 <= x <= 27670116110564327423 -> result = x - 18446744073709551616 }
    ensures { -27670116110564327424 <= x < -9223372036854775808 -> result = x + 18446744073709551616 }
  (* a stored value of an integer type lies in the range of the type *)
  val rd_u64 (x: int) : int ensures { result = x } ensures { 0 <= result <= 18446744073709551615 }
  val rd_i64 (x: int) : int ensures { result = x } ensures { -9223372036854775808 <= result <= 9223372036854775807 }

  val cdiv (x y: int) : int
    requires { x >= 0 /\ y > 0 }
    ensures { result = ED.div x y } ensures { 0 <= result <= x }
    ensures { result * y <= x < result * y + y }
  val cmod (x y: int) : int
    requires { x >= 0 /\ y > 0 }
    ensures { result = ED.mod x y } ensures { 0 <= result < y }
    ensures { x < y -> result = x }
  let imin (x y: int) : int ensures { result = if x <= y then x else y } = if x <= y then x else y
  let imax (x y: int) : int ensures { result = if x <= y then y else x } = if x <= y then y else x
  let bool_eq (x y: bool) : bool ensures { result <-> (x <-> y) } = if x then y else not y

  val any_int () : int
  val any_bool () : bool

  (* maps: fields of heap objects and arrays *)
  val mget (m: map 'a 'b) (k: 'a) : 'b ensures { result = Map.get m k }
  val mset (m: map 'a 'b) (k: 'a) (v: 'b) : map 'a 'b ensures { result = Map.set m k v }
  val function aconst (v: 'b) : map int 'b
    ensures { forall i. Map.get result i = v }

  (* vectors, strings, stacks, queues *)
  val seq_size (s: seq 'a) : int ensures { result = Seq.length s } ensures { 0 <= result <= 4611686018427387903 }
  val seq_set (s: seq 'a) (i: int) (v: 'a) : seq 'a
    requires { [@expl:index in bounds] 0 <= i < Seq.length s }
    ensures { result = Seq.set s i v } 
  val seq_pop (s: seq 'a) : seq 'a
    requires { Seq.length s > 0 }
    ensures { Seq.length result = Seq.length s - 1 }
    ensures { forall i. 0 <= i < Seq.length result -> Seq.get result i = Seq.get s i }
    ensures { s = Seq.snoc result (Seq.get s (Seq.length s - 1)) }
  val seq_tail (s: seq 'a) : seq 'a
    requires { Seq.length s > 0 }
    ensures { Seq.length result = Seq.length s - 1 }
    ensures { forall i. 0 <= i < Seq.length result -> Seq.get result i = Seq.get s (i + 1) }
    ensures { s = Seq.cons (Seq.get s 0) result }
  val seq_insert (s: seq 'a) (k: int) (v: 'a) : seq 'a
    requires { 0 <= k <= Seq.length s }
    ensures { Seq.length result = Seq.length s + 1 }
    ensures { forall i. 0 <= i < k -> Seq.get result i = Seq.get s i }
    ensures { Seq.get result k = v }
    ensures { forall i. k < i < Seq.length result -> Seq.get result i = Seq.get s (i - 1) }
  val seq_elems (s: seq 'a) : fset 'a
    ensures { forall x [Fset.mem x result]. Fset.mem x result <-> exists i. 0 <= i < Seq.length s /\ Seq.get s i = x }
    ensures { forall i. 0 <= i < Seq.length s -> Fset.mem (Seq.get s i) result }
  val seq_make (n: int) (v: 'a) : seq 'a
    requires { n >= 0 }
    ensures { Seq.length result = n /\ forall i. 0 <= i < n -> Seq.get result i = v }
  predicate seq_has (s: seq 'a) (x: 'a) = exists i. 0 <= i < Seq.length s /\ Seq.get s i = x
  predicate same_elems (s t: seq 'a) =
    Seq.length s = Seq.length t /\ forall x. seq_has s x <-> seq_has t x
  (* std::sort *)
  val sort_int (s: seq int) : seq int
    ensures { same_elems s result }
    ensures { forall i j. 0 <= i < j < Seq.length result -> Seq.get result i <= Seq.get result j }
  val sort_pair (s: seq (int, int)) : seq (int, int)
    ensures { same_elems s result }
    ensures { forall i j. 0 <= i < j < Seq.length result ->
      fst (Seq.get result i) < fst (Seq.get result j) \/
      (fst (Seq.get result i) = fst (Seq.get result j) /\ snd (Seq.get result i) <= snd (Seq.get result j)) }
  val seqint_eq (s t: seq int) : bool
    ensures { result <-> s = t }
    ensures { result <-> (Seq.length s = Seq.length t /\ forall i. 0 <= i < Seq.length s -> Seq.get s i = Seq.get t i) }
  val pair_eq (x y: (int, int)) : bool ensures { result <-> x = y }
  val pair_lt (x y: (int, int)) : bool
    ensures { result <-> (let (a, b) = x in let (c, d) = y in a < c \/ (a = c /\ b < d)) }

  (* sets *)
  val constant fempty : fset 'a ensures { result = Fset.empty }
  val fmem (x: 'a) (s: fset 'a) : bool ensures { result <-> Fset.mem x s }
  val fadd (x: 'a) (s: fset 'a) : fset 'a ensures { result = Fset.add x s }
  val fremove (x: 'a) (s: fset 'a) : fset 'a ensures { result = Fset.remove x s }
  val funion (s t: fset 'a) : fset 'a ensures { result = Fset.union s t }
  val fdiff (s t: fset 'a) : fset 'a ensures { result = Fset.diff s t }
  val fset_is_empty (s: fset 'a) : bool ensures { result <-> Fset.is_empty s } ensures { result <-> s = Fset.empty }
  val fset_choose (s: fset 'a) : 'a requires { not (Fset.is_empty s) } ensures { Fset.mem result s }
  val fset_size (s: fset 'a) : int ensures { result = Fset.cardinal s } ensures { 0 <= result <= 4611686018427387903 }
  predicate lists (q: seq 'a) (s: fset 'a) =
    (forall i. 0 <= i < Seq.length q -> Fset.mem (Seq.get q i) s) /\
    (forall x. Fset.mem x s -> exists i. 0 <= i < Seq.length q /\ Seq.get q i = x) /\
    (forall i j. 0 <= i < j < Seq.length q -> Seq.get q i <> Seq.get q j) /\
    Seq.length q = Fset.cardinal s
  val set_seq (s: fset 'a) : seq 'a
    ensures { lists result s }
  val set_seq_sorted (s: fset int) : seq int
    ensures { lists result s }
    ensures { forall i j. 0 <= i < j < Seq.length result -> Seq.get result i < Seq.get result j }

  (* ordered and unordered maps *)
  type mp 'a 'b = { mdom: fset 'a; mval: map 'a 'b }
  function mp_get_ (m: mp 'a 'b) (k: 'a) : 'b = Map.get m.mval k
  predicate mp_mem_ (k: 'a) (m: mp 'a 'b) = Fset.mem k m.mdom
  val function mp_get (m: mp 'a 'b) (k: 'a) : 'b ensures { result = Map.get m.mval k }
  val predicate mp_mem (k: 'a) (m: mp 'a 'b) ensures { result <-> Fset.mem k m.mdom }
  val mp_set (m: mp 'a 'b) (k: 'a) (v: 'b) : mp 'a 'b
    ensures { result.mdom = Fset.add k m.mdom } ensures { result.mval = Map.set m.mval k v }
  val mp_erase (m: mp 'a 'b) (k: 'a) : mp 'a 'b
    ensures { result.mdom = Fset.remove k m.mdom } ensures { result.mval = m.mval }
  val constant mp_empty : mp 'a 'b ensures { result.mdom = Fset.empty }
  val mp_is_empty (m: mp 'a 'b) : bool ensures { result <-> Fset.is_empty m.mdom } ensures { result <-> m.mdom = Fset.empty }
  val mp_size (m: mp 'a 'b) : int ensures { result = Fset.cardinal m.mdom } ensures { 0 <= result <= 4611686018427387903 }
  predicate mp_lists (q: seq ('a, 'b)) (m: mp 'a 'b) =
    (forall i. 0 <= i < Seq.length q -> let (k, v) = Seq.get q i in Fset.mem k m.mdom /\ v = Map.get m.mval k) /\
    (forall k. Fset.mem k m.mdom -> exists i. 0 <= i < Seq.length q /\ Seq.get q i = (k, Map.get m.mval k)) /\
    (forall i j. 0 <= i < j < Seq.length q -> (let (k, _) = Seq.get q i in let (l, _) = Seq.get q j in k <> l)) /\
    Seq.length q = Fset.cardinal m.mdom
  val mp_seq (m: mp 'a 'b) : seq ('a, 'b) ensures { mp_lists result m }
  val mp_seq_sorted (m: mp int 'b) : seq (int, 'b) ensures { mp_lists result m }
    ensures { forall i j. 0 <= i < j < Seq.length result -> (let (k, _) = Seq.get result i in let (l, _) = Seq.get result j in k < l) }

  (* optional *)
  val function opt_get (o: option 'a) : 'a
    ensures { forall x. o = Some x -> result = x }
  val predicate opt_some (o: option 'a) ensures { result <-> o <> None }

  (* pointers into character storage: a block and an offset *)
  type cptr = { cbase: int; coff: int }
  (* the number of characters of a block *)
  val function csize (b: int) : int ensures { 0 <= result <= 9223372036854775807 } ensures { b = 0 -> result = 0 }
  val constant cnull : cptr ensures { result.cbase = 0 /\ result.coff = 0 }
  val cptr_eq (p q: cptr) : bool ensures { result <-> p = q }
  (* std::copy of the characters i to j of m to position k of d *)
  val mblit (m: map int 'a) (i j: int) (d: map int 'a) (k: int) : map int 'a
    requires { i <= j }
    ensures { forall x. k <= x < k + (j - i) -> Map.get result x = Map.get m (i + (x - k)) }
    ensures { forall x. x < k \/ x >= k + (j - i) -> Map.get result x = Map.get d x }
  val cslice (m: map int int) (i j: int) : seq int
    requires { i <= j }
    ensures { Seq.length result = j - i }
    ensures { forall k. 0 <= k < j - i -> Seq.get result k = Map.get m (i + k) }
end
