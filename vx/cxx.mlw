(* Trusted prelude: the meaning given to C++ machine integers, std::string,
   std::vector, std::map/set, floats, OpenFst and jsoncpp values.  Everything
   declared here without a body is an assumption of the verification. *)
module CxxSeq
  use export int.Int
  use export ref.Ref
  use export bool.Bool

  (* finite sequences, first-order axioms *)
  type seq 'a
  meta "infinite_type" type seq
  val function length (s: seq 'a) : int
  axiom length_nonneg: forall s: seq 'a [length s]. 0 <= length s
  val function get (s: seq 'a) (i: int) : 'a
  function ([]) (s: seq 'a) (i: int) : 'a = get s i
  predicate seq_eq (a b: seq 'a) =
    length a = length b /\ forall i. 0 <= i < length a -> get a i = get b i
  axiom seq_ext: forall a b: seq 'a [seq_eq a b]. seq_eq a b -> a = b
  val constant empty : seq 'a
  axiom empty_len: length (empty: seq 'a) = 0
  val function snoc (s: seq 'a) (x: 'a) : seq 'a
  axiom snoc_len: forall s: seq 'a, x [snoc s x]. length (snoc s x) = length s + 1
  axiom snoc_get: forall s: seq 'a, x i [get (snoc s x) i]. 0 <= i <= length s ->
    get (snoc s x) i = if i = length s then x else get s i
  function set (s: seq 'a) (i: int) (v: 'a) : seq 'a
  axiom set_len: forall s: seq 'a, i v [set s i v]. length (set s i v) = length s
  axiom set_get: forall s: seq 'a, i v j [get (set s i v) j]. 0 <= i < length s -> 0 <= j < length s ->
    get (set s i v) j = if j = i then v else get s j
  function slice (s: seq 'a) (i j: int) : seq 'a
  axiom slice_len: forall s: seq 'a, i j [slice s i j]. 0 <= i <= j <= length s -> length (slice s i j) = j - i
  axiom slice_get: forall s: seq 'a, i j k [get (slice s i j) k]. 0 <= i <= j <= length s -> 0 <= k < j - i ->
    get (slice s i j) k = get s (i + k)
  function ([..]) (s: seq 'a) (i j: int) : seq 'a = slice s i j
  predicate mem (x: 'a) (s: seq 'a)
  axiom mem_def: forall x: 'a, s [mem x s]. mem x s <-> exists i. 0 <= i < length s /\ get s i = x

  exception Cxx_continue
  exception Cxx_throw

  (* polymorphic run-time equality = logical equality *)
  val eqv (x y: 'a) : bool ensures { result <-> x = y }
  val any_int () : int
  val any_bool () : bool

  (* ---- machine integers ---- *)
  constant npos_ : int = 18446744073709551615
  let constant npos : int = 18446744073709551615
  (* unsigned 64-bit arithmetic, exact *)
  let function u64_add (a b: int) : int =
    if a + b >= 18446744073709551616 then a + b - 18446744073709551616 else a + b
  let function u64_sub (a b: int) : int =
    if a < b then a - b + 18446744073709551616 else a - b
  let function to_u64 (a: int) : int = if a < 0 then a + 18446744073709551616 else a
  let function to_u32 (a: int) : int =
    if a < 0 then a + 4294967296
    else if a >= 4294967296 then (if a >= 18446744069414584320 then a - 18446744069414584320 else a)
    else a
  (* 64-bit unsigned to int: exact on the values that fit in 31 bits and on those
     just below 2^64 (npos becomes -1) *)
  let function to_i (a: int) : int =
    if a >= 9223372036854775808 then a - 18446744073709551616 else a
  let function u32_to_i (a: int) : int =
    if a >= 2147483648 then a - 4294967296 else a
  let function b2i (b: bool) : int = if b then 1 else 0
  val function u_div (a b: int) : int
    requires { [@expl:division by zero] b <> 0 }
  val function u_mod (a b: int) : int
    requires { [@expl:division by zero] b <> 0 }
  axiom u_divmod: forall a b [u_div a b | u_mod a b]. a >= 0 -> b > 0 -> a = b * u_div a b + u_mod a b /\ 0 <= u_mod a b < b

  (* ---- checked int arithmetic, used where the function's contract asks for it *)
  val add_i32 (a b: int) : int
    requires { [@expl:int overflow] -2147483648 <= a + b <= 2147483647 }
    ensures { result = a + b }
  val sub_i32 (a b: int) : int
    requires { [@expl:int overflow] -2147483648 <= a - b <= 2147483647 }
    ensures { result = a - b }

  (* ---- std::vector ---- *)
  (* assumption: no container of the program holds 2^31 - 1 elements or more *)
  val vsize (s: seq 'a) : int
    ensures { result = length s }
    ensures { 0 <= result < 2147483647 }
  val vget (s: seq 'a) (i: int) : 'a
    requires { [@expl:index in bounds] 0 <= i < length s }
    ensures { result = s[i] }
  val vset (s: seq 'a) (i: int) (v: 'a) : seq 'a
    requires { [@expl:index in bounds] 0 <= i < length s }
    ensures { result = set s i v }
  val vresize (s: seq 'a) (n: int) (v: 'a) : seq 'a
    requires { [@expl:non-negative size] 0 <= n }
    ensures { length result = n }
    ensures { forall j. 0 <= j < n -> result[j] = if j < length s then s[j] else v }
  val vfill (n: int) (v: 'a) : seq 'a
    requires { [@expl:non-negative size] 0 <= n }
    ensures { length result = n }
    ensures { forall j. 0 <= j < n -> result[j] = v }
  val varray (n: int) : seq 'a
    requires { [@expl:non-negative size] 0 <= n }
    ensures { length result = n }
  val vslice (s: seq 'a) (i j: int) : seq 'a
    requires { [@expl:range in bounds] 0 <= i <= j <= length s }
    ensures { result = s[i .. j] }
    ensures { length result = j - i }
    ensures { forall k. 0 <= k < j - i -> result[k] = s[i+k] }
  val vcopy_into (src: seq 'a) (i j: int) (dst: seq 'a) : seq 'a
    requires { [@expl:range in bounds] 0 <= i <= j <= length src /\ j - i <= length dst }
    ensures { length result = length dst }
    ensures { forall k. 0 <= k < length dst -> result[k] = if k < j - i then src[i+k] else dst[k] }
  val vpop (s: seq 'a) : seq 'a
    requires { [@expl:vector not empty] length s > 0 }
    ensures { length result = length s - 1 }
    ensures { result = s[0 .. length s - 1] }
    ensures { forall k. 0 <= k < length result -> result[k] = s[k] }

  (* ---- std::string = sequence of char codes ---- *)
  type str = seq int
  (* ---- floats: every operation is an uninterpreted total function ---- *)
  type flt
  (* ---- std::pair ---- *)
  type pair 'a 'b = { first: 'a; second: 'b }
  type cmap 'k 'v
  type cset 'k
end

(* an exception leaves the function *)
module CxxThrow
  val leave_ () : unit ensures { false }
end

(* the identity, hidden from the substitution of the verification condition generator *)
module CxxKeep
  predicate same_ (a b: 'a)
  axiom same_def: forall a b: 'a [same_ a b]. same_ a b -> a = b
  val keep_ (x: 'a) : 'a ensures { same_ result x }
end

module CxxApp
  use export CxxSeq
  val function singleton (x: 'a) : seq 'a
  axiom singleton_def: forall x: 'a [singleton x]. length (singleton x) = 1 /\ get (singleton x) 0 = x
  val function (++) (s t: seq 'a) : seq 'a
  axiom app_len: forall s t: seq 'a [s ++ t]. length (s ++ t) = length s + length t
  axiom app_get: forall s t: seq 'a, i [get (s ++ t) i]. 0 <= i < length s + length t ->
    get (s ++ t) i = if i < length s then get s i else get t (i - length s)
  axiom app_empty: forall t: seq 'a [empty ++ t]. empty ++ t = t
end

module CxxRev
  use export CxxSeq
  function srev (s: seq 'a) : seq 'a
  axiom srev_len: forall s: seq 'a [srev s]. length (srev s) = length s
  axiom srev_get: forall s: seq 'a, i [get (srev s) i]. 0 <= i < length s -> get (srev s) i = get s (length s - 1 - i)
  val vreverse (s: seq 'a) : seq 'a
    ensures { result = srev s }
end

module CxxPerm
  use export CxxSeq
  predicate permuted (s t: seq 'a)
  function perm_of (s t: seq 'a) (i: int) : int
  function perm_inv (s t: seq 'a) (i: int) : int
  axiom permuted_len: forall s t: seq 'a [permuted s t]. permuted s t -> length t = length s
  axiom permuted_at: forall s t: seq 'a, i [permuted s t, get t i]. permuted s t -> 0 <= i < length t ->
    0 <= perm_of s t i < length s /\ get t i = get s (perm_of s t i) /\ perm_inv s t (perm_of s t i) = i
  axiom permuted_inv: forall s t: seq 'a, i [permuted s t, get s i]. permuted s t -> 0 <= i < length s ->
    0 <= perm_inv s t i < length t /\ get s i = get t (perm_inv s t i) /\ perm_of s t (perm_inv s t i) = i
  val vpermuted (s: seq 'a) : seq 'a
    ensures { permuted s result }
end

module CxxJoin
  use export CxxSeq
  use export CxxApp
  (* what std::copy to an ostream_iterator writes: every element followed by the delimiter *)
  val function each_then (s: seq str) (sep: str) : str
  axiom each_then_0: forall s sep [each_then s sep]. length s = 0 -> each_then s sep = empty
  axiom each_then_1: forall s sep n n2 [each_then (slice s 0 n2) sep, each_then (slice s 0 n) sep]. 0 <= n < length s -> n2 = n + 1 ->
    each_then (slice s 0 n2) sep = (each_then (slice s 0 n) sep ++ get s n) ++ sep
end

module CxxStr
  use export CxxSeq
  predicate match_at (s p: str) (i: int) =
    0 <= i /\ i + length p <= length s /\ forall k. 0 <= k < length p -> get s (i+k) = get p k
  predicate occurs (s p: str) = exists i. match_at s p i
  predicate starts (s p: str)
  axiom starts_def: forall s p [starts s p]. starts s p <-> match_at s p 0
  val function sfind (s p: str) (pos: int) : int
  axiom sfind_def: forall s p pos [sfind s p pos]. 0 <= pos ->
    let r = sfind s p pos in
    (r = npos_ /\ (forall i. pos <= i -> not match_at s p i)) \/
    (pos <= r < npos_ /\ match_at s p r /\ (forall i. pos <= i < r -> not match_at s p i))
  val function srfind (s p: str) (pos: int) : int
  axiom srfind_def: forall s p pos [srfind s p pos]. 0 <= pos ->
    let r = srfind s p pos in
    (r = npos_ /\ (forall i. 0 <= i <= pos -> not match_at s p i)) \/
    (0 <= r <= pos /\ r < npos_ /\ match_at s p r /\ (forall i. r < i <= pos -> not match_at s p i))
  lemma srfind_starts: forall s p [srfind s p 0]. srfind s p 0 = 0 <-> starts s p
  val substr (s: str) (pos n: int) : str
    requires { [@expl:substr position within the string] 0 <= pos <= length s }
    requires { 0 <= n }
    ensures { length result = (if pos + n <= length s then n else length s - pos) }
    ensures { result = s[pos .. pos + length result] }
    ensures { forall k. 0 <= k < length result -> result[k] = s[pos + k] }
  val str_cmp (s p: str) : int
    ensures { result = 0 <-> s = p }
  (* ICU: conversion, case mapping, conversion back *)
  type ustr
  val function u_of_utf8 (s: str) : ustr
  val function u_lower (u: ustr) : ustr
  val function u_upper (u: ustr) : ustr
  val function u_fold (u: ustr) : ustr
  val function u_to_utf8 (u: ustr) : str
  function slower (s: str) : str = u_to_utf8 (u_lower (u_of_utf8 s))
  val function srepeat (n c: int) : str       (* n copies of a character *)
  axiom srepeat_def: forall n c [srepeat n c]. 0 <= n -> length (srepeat n c) = n /\ (forall i [get (srepeat n c) i]. 0 <= i < n -> get (srepeat n c) i = c)
  val function itos (i: int) : str            (* std::to_string *)
  val function ftos (f: flt) : str
  val function replace_char (s: str) (a b: int) : str
  axiom replace_char_len: forall s a b [replace_char s a b]. length (replace_char s a b) = length s
  axiom replace_char_get: forall s a b i [get (replace_char s a b) i]. 0 <= i < length s ->
    get (replace_char s a b) i = if get s i = a then b else get s i
  val function is_upper (c: int) : bool
  val function to_upper (c: int) : int
  val function to_lower (c: int) : int
  val function is_space (c: int) : bool
  val function str_lt (a b: str) : bool
  type fmtarg = FI int | FS str | FF flt
  type fmtargs = Nil | Cons fmtarg fmtargs
  val function fmt_ (f: str) (a: fmtargs) : str
end

(* reading files: what the standard and the csv library deliver *)
module CxxRead
  use export CxxSeq
  val function file_text (name: str) : str
  val function words (s: str) : seq str                 (* what operator>> reads until the end of the stream *)
  val function line_first (s: str) : str
  val function line_rest (s: str) : str
  val function csv_rows (fmt file: str) : int
  val predicate csv_has (fmt file col: str)
  val function csv_cell (fmt file: str) (row: int) (col: str) : str
  val function csv_nth (fmt file: str) (row col: int) : str
  axiom csv_rows_nonneg: forall fmt file [csv_rows fmt file]. csv_rows fmt file >= 0
end

module CxxFlt
  use export CxxSeq
  val any_flt () : flt
  val function f_lit (s: int) (n d: int) : flt   (* literal n/d with sign s *)
  val function f_of_int (i: int) : flt
  val function f_add (a b: flt) : flt
  val function f_sub (a b: flt) : flt
  val function f_mul (a b: flt) : flt
  val function f_div (a b: flt) : flt
  val function f_neg (a: flt) : flt
  val predicate f_lt (a b: flt)
  val predicate f_le (a b: flt)
  val predicate f_eq (a b: flt)
  val function f_narrow (a: flt) : flt           (* double to float *)
  val constant f_inf : flt
  val constant f_nan : flt
  val function stof (s: str) : flt
  val function f_to_int (a: flt) : int
  (* facts about literals, true in IEEE-754 *)
  axiom f_le_lit: forall n1 d1 n2 d2 [f_le (f_lit 1 n1 d1) (f_lit 1 n2 d2)]. d1 > 0 -> d2 > 0 -> n1 >= 0 -> n2 >= 0 ->
    (f_le (f_lit 1 n1 d1) (f_lit 1 n2 d2) <-> n1 * d2 <= n2 * d1)
  axiom f_lt_lit: forall n1 d1 n2 d2 [f_lt (f_lit 1 n1 d1) (f_lit 1 n2 d2)]. d1 > 0 -> d2 > 0 -> n1 >= 0 -> n2 >= 0 ->
    (f_lt (f_lit 1 n1 d1) (f_lit 1 n2 d2) <-> n1 * d2 < n2 * d1)
  axiom f_eq_refl_lit: forall n d [f_eq (f_lit 1 n d) (f_lit 1 n d)]. d > 0 -> f_eq (f_lit 1 n d) (f_lit 1 n d)
  axiom f_int_lit: f_of_int 0 = f_lit 1 0 1
end

module CxxMap
  use export CxxSeq
  val constant mempty : cmap 'k 'v
  val predicate mmem (m: cmap 'k 'v) (k: 'k)
  val function mget (m: cmap 'k 'v) (k: 'k) : 'v
  val function madd (m: cmap 'k 'v) (k: 'k) (v: 'v) : cmap 'k 'v
  val function mremove (m: cmap 'k 'v) (k: 'k) : cmap 'k 'v
  val function mkeys (m: cmap 'k 'v) : seq 'k
  val function msize (m: cmap 'k 'v) : int
  axiom mempty_def: forall k: 'k. not mmem (mempty: cmap 'k 'v) k
  axiom madd_mem: forall m: cmap 'k 'v, k v x [mmem (madd m k v) x]. mmem (madd m k v) x <-> (x = k \/ mmem m x)
  axiom madd_eq: forall m: cmap 'k 'v, k v [madd m k v]. mget (madd m k v) k = v
  axiom madd_neq: forall m: cmap 'k 'v, k v x [mget (madd m k v) x]. x <> k -> mget (madd m k v) x = mget m x
  axiom mremove_mem: forall m: cmap 'k 'v, k x [mmem (mremove m k) x]. mmem (mremove m k) x <-> (x <> k /\ mmem m x)
  axiom mremove_neq: forall m: cmap 'k 'v, k x [mget (mremove m k) x]. x <> k -> mget (mremove m k) x = mget m x
  axiom mkeys_mem: forall m: cmap 'k 'v, k [mmem m k, mkeys m].
    mmem m k -> exists i. 0 <= i < length (mkeys m) /\ get (mkeys m) i = k
  axiom mkeys_get: forall m: cmap 'k 'v, i [get (mkeys m) i]. 0 <= i < length (mkeys m) -> mmem m (get (mkeys m) i)
  axiom mkeys_distinct: forall m: cmap 'k 'v, i j [get (mkeys m) i, get (mkeys m) j].
    0 <= i < length (mkeys m) -> 0 <= j < length (mkeys m) -> i <> j -> get (mkeys m) i <> get (mkeys m) j
  axiom msize_def: forall m: cmap 'k 'v [msize m]. msize m = length (mkeys m)
  axiom msize_add: forall m: cmap 'k 'v, k v [msize (madd m k v)]. msize (madd m k v) = if mmem m k then msize m else msize m + 1
  axiom msize_empty: msize (mempty: cmap 'k 'v) = 0
  val mfind (m: cmap 'k 'v) (k: 'k) : 'v
    requires { [@expl:key present] mmem m k }
    ensures { result = mget m k }
end

module CxxSet
  use export CxxSeq
  val constant sempty : cset 'k
  val predicate smem (s: cset 'k) (k: 'k)
  val function sadd (s: cset 'k) (k: 'k) : cset 'k
  val function sremove (s: cset 'k) (k: 'k) : cset 'k
  val function selems (s: cset 'k) : seq 'k
  axiom sempty_def: forall k: 'k. not smem (sempty: cset 'k) k
  axiom sadd_def: forall s: cset 'k, k x [smem (sadd s k) x]. smem (sadd s k) x <-> (x = k \/ smem s x)
  axiom sremove_def: forall s: cset 'k, k x [smem (sremove s k) x]. smem (sremove s k) x <-> (x <> k /\ smem s x)
  axiom selems_mem: forall s: cset 'k, k [smem s k, selems s].
    smem s k -> exists i. 0 <= i < length (selems s) /\ get (selems s) i = k
  axiom selems_get: forall s: cset 'k, i [get (selems s) i]. 0 <= i < length (selems s) -> smem s (get (selems s) i)
  axiom selems_distinct: forall s: cset 'k, i j [get (selems s) i, get (selems s) j].
    0 <= i < length (selems s) -> 0 <= j < length (selems s) -> i <> j -> get (selems s) i <> get (selems s) j
  val cset_of_seq (s: seq 'k) : cset 'k
    ensures { forall x. smem result x <-> mem x s }
end

module CxxFst
  use export CxxSeq
  use CxxFlt
  (* OpenFst: StdArc, StdVectorFst *)
  type r_StdArc = { arc_ilabel: int; arc_olabel: int; arc_weight: flt; arc_nextstate: int }
  val constant dflt_StdArc : r_StdArc                  (* not initialised *)
  type fst_t = { f_start: int; f_arcs: seq (seq r_StdArc); f_final: seq flt }
  constant w_zero_ : flt = f_inf
  constant w_one_ : flt = f_lit 1 0 1
  let constant w_zero : flt = f_inf
  let constant w_one : flt = f_lit 1 0 1
  val function fst_file (name: seq int) : fst_t        (* the automaton a file holds; OpenFst's reader is trusted, as is that the file can be read *)
  let constant fst_empty : fst_t = { f_start = -1; f_arcs = empty; f_final = empty }
  let function fst_add_state (f: fst_t) : fst_t =
    { f_start = f.f_start; f_arcs = snoc f.f_arcs empty; f_final = snoc f.f_final f_inf }
  let function fst_set_start (f: fst_t) (s: int) : fst_t = { f with f_start = s }
  val fst_set_final (f: fst_t) (s: int) (w: flt) : fst_t
    requires { [@expl:state exists] 0 <= s < length f.f_final }
    ensures { result.f_start = f.f_start /\ result.f_arcs = f.f_arcs /\ result.f_final = set f.f_final s w }
  val fst_add_arc (f: fst_t) (s: int) (a: r_StdArc) : fst_t
    requires { [@expl:state exists] 0 <= s < length f.f_arcs }
    ensures { result.f_start = f.f_start /\ result.f_final = f.f_final /\
              result.f_arcs = set f.f_arcs s (snoc (get f.f_arcs s) a) }
end

module CxxSym
  use export CxxSeq
  (* SymbolTable: an injective partial map from names to non-negative keys *)
  type symtab_t
  val constant symtab_empty : symtab_t
  val predicate sym_some (t: symtab_t)                 (* a pointer to a table: not the null pointer *)
  val function sym_find (t: symtab_t) (s: str) : int   (* -1 when absent *)
  val function sym_name (t: symtab_t) (k: int) : str   (* empty string when absent *)
  val function sym_add (t: symtab_t) (s: str) : symtab_t
  val function sym_num (t: symtab_t) : int
  val function sym_count (t: symtab_t) : int
  val function sym_avail (t: symtab_t) : int           (* greater than every key *)
  val function sym_key (t: symtab_t) (i: int) : int    (* i-th symbol in iteration order *)
  axiom sym_find_range: forall t s [sym_find t s]. sym_find t s >= -1
  axiom sym_find_name: forall t s [sym_find t s]. sym_find t s >= 0 -> sym_name t (sym_find t s) = s
  axiom sym_name_find: forall t k s [sym_name t k, sym_find t s]. s = sym_name t k -> length s > 0 -> sym_find t s = k
  axiom sym_add_find: forall t s [sym_add t s]. sym_find (sym_add t s) s >= 0
  axiom sym_add_keep: forall t s x [sym_find (sym_add t s) x]. sym_find t x >= 0 -> sym_find (sym_add t s) x = sym_find t x
  axiom sym_add_only: forall t s x [sym_find (sym_add t s) x]. x <> s -> sym_find (sym_add t s) x = sym_find t x
  axiom sym_key_name: forall t i [sym_key t i]. 0 <= i < sym_count t -> sym_key t i >= 0 /\ sym_find t (sym_name t (sym_key t i)) = sym_key t i
  axiom sym_key_all: forall t s. sym_find t s >= 0 -> exists i. 0 <= i < sym_count t /\ sym_key t i = sym_find t s
  axiom sym_avail_key: forall t i [sym_key t i, sym_avail t]. 0 <= i < sym_count t -> sym_key t i < sym_avail t
  axiom sym_avail_find: forall t s [sym_find t s, sym_avail t]. sym_find t s < sym_avail t
  axiom sym_avail_pos: forall t [sym_avail t]. 0 <= sym_avail t <= 9223372036854775807
  axiom sym_count_nonneg: forall t. 0 <= sym_count t
end

module CxxOut
  use export CxxSeq
  use export CxxMap
  (* the files written by the program: name -> content, as of the last close *)
  val out_files : ref (cmap str str)
end

module CxxJson
  use export CxxSeq
  (* Json::Value: null, scalars, objects (partial maps from strings) and arrays *)
  type json_t
  val constant j_null : json_t
  val constant j_emptyobj : json_t
  val function jget (j: json_t) (k: str) : json_t       (* null when absent *)
  val function jset (j: json_t) (k: str) (v: json_t) : json_t
  val function jat (j: json_t) (i: int) : json_t
  val function jsetat (j: json_t) (i: int) (v: json_t) : json_t
  val function jsize (j: json_t) : int
  val function jappend (j v: json_t) : json_t
  val function jelems (j: json_t) : seq json_t
  val function j_int (i: int) : json_t
  val function j_flt (f: flt) : json_t
  val function j_str (s: str) : json_t
  val function j_bool (b: bool) : json_t
  val function j_as_string (j: json_t) : str
  val json_root : ref json_t
  axiom jset_eq: forall j k v [jset j k v]. jget (jset j k v) k = v
  axiom jset_neq: forall j k v x [jget (jset j k v) x]. x <> k -> jget (jset j k v) x = jget j x
  axiom jget_null: forall k. jget j_null k = j_null
  axiom jelems_null: jelems j_null = empty
  axiom jget_emptyobj: forall k. jget j_emptyobj k = j_null
  axiom jsetat_eq: forall j i v [jsetat j i v]. 0 <= i -> jat (jsetat j i v) i = v
  axiom jsetat_neq: forall j i v x [jat (jsetat j i v) x]. 0 <= i -> 0 <= x -> x <> i -> jat (jsetat j i v) x = jat j x
  axiom jappend_elems: forall j v [jappend j v]. jelems (jappend j v) = snoc (jelems j) v
  axiom jat_elems: forall j i [jat j i]. 0 <= i < length (jelems j) -> jat j i = get (jelems j) i
  val vjsize (j: json_t) : int ensures { result = jsize j } ensures { 0 <= result < 2147483647 }
  axiom jset_some: forall j k v [jset j k v]. jset j k v <> j_null
  axiom jsetat_elems: forall j i v [jsetat j i v]. 0 <= i < length (jelems j) -> jelems (jsetat j i v) = set (jelems j) i v
  axiom j_str_string: forall s [j_str s]. j_as_string (j_str s) = s
  axiom jsize_elems: forall j [jsize j]. jsize j = length (jelems j)
end

module CxxLinked
  use export CxxSeq
end
