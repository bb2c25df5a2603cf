(* Loaders: the automaton and the token list of a transcript *)
module LoadBase
  use int.Int
  use cxx.CxxSeq
  use cxx.CxxStr
  use cxx.CxxFlt
  use cxx.CxxFst
  use cxx.CxxSym
  function folded (keep: bool) (s: str) : str = if keep then s else slower s
  (* every token is in the table, old symbols keep their key, nothing else is added *)
  predicate knows (t: symtab_t) (toks: seq str) (keep: bool) (n: int) = forall i [get toks i]. 0 <= i < n -> sym_find t (folded keep (get toks i)) >= 0
  predicate extends (t0 t: symtab_t) = forall x [sym_find t x]. sym_find t0 x >= 0 -> sym_find t x = sym_find t0 x
  predicate among (toks: seq str) (keep: bool) (x: str) (n: int) = exists i. 0 <= i < n /\ folded keep (get toks i) = x
  predicate only_adds (t0 t: symtab_t) (toks: seq str) (keep: bool) (n: int) = forall x [sym_find t x]. sym_find t x >= 0 -> sym_find t0 x < 0 -> among toks keep x n
  lemma among_more: forall toks keep x n m [among toks keep x n, among toks keep x m]. among toks keep x n -> n <= m -> among toks keep x m
  lemma among_last: forall toks keep x n m [among toks keep x n, among toks keep x m]. m = n + 1 -> 0 <= n -> folded keep (get toks n) = x -> among toks keep x m
  predicate ids (v: seq int) (t: symtab_t) (toks: seq str) (keep: bool) (n: int) =
    length v = n /\ forall i [get v i]. 0 <= i < n -> get v i = (let k = sym_find t (folded keep (get toks i)) in if k = -1 then sym_find t "<unk>" else k)
  function key_of (t: symtab_t) (s: str) : int = let k = sym_find t s in if k = -1 then sym_find t "<unk>" else k
  lemma ids_snoc: forall v x t toks n m [ids (snoc v x) t toks true m, ids v t toks true n].
    ids v t toks true n -> 0 <= n -> m = n + 1 -> x = key_of t (get toks n) -> ids (snoc v x) t toks true m
  (* a chain of one arc per token *)
  predicate arc_is (a: r_StdArc) (l: int) (w: flt) (s: int) = a.arc_ilabel = l /\ a.arc_olabel = l /\ a.arc_weight = w /\ a.arc_nextstate = s
  function cost_at (m: seq int) (i: int) : flt = if i < length m /\ get m i > 0 then f_lit 1 1 1 else f_lit 1 0 1
  predicate chain (f: fst_t) (t: symtab_t) (toks: seq str) (keep: bool) (m: seq int) (n: int) =
    f.f_start = 0 /\ forall i [get f.f_arcs i]. 0 <= i < n ->
      length (get f.f_arcs i) = 1 /\ arc_is (get (get f.f_arcs i) 0) (sym_find t (folded keep (get toks i))) (cost_at m i) (i + 1)
  predicate open_ends (f: fst_t) (k: int) = length f.f_final = k /\ length f.f_arcs = k /\ forall i [get f.f_final i]. 0 <= i < k -> get f.f_final i = f_inf
  predicate ends_at (f: fst_t) (e: int) = length f.f_final = e + 1 /\ length f.f_arcs = e + 1 /\ get f.f_final e = f_lit 1 0 1 /\ length (get f.f_arcs e) = 0 /\
    forall i [get f.f_final i]. 0 <= i < e -> get f.f_final i = f_inf
end

module FieldsBase
  use int.Int
  use cxx.CxxSeq
  predicate blank (c: int) = c = 32 \/ c = 9
  function turns (s: str) (n: int) : int = if blank (get s n) /\ (n = 0 \/ not blank (get s (n-1))) then 1 else 0
end

module FieldsDef
  use int.Int
  use cxx.CxxSeq
  use FieldsBase
  let rec ghost function fieldsd (s: str) (n: int) : int variant { n }
    ensures { 0 <= n -> 1 <= result <= n + 1 }
  = if n <= 0 then 1 else fieldsd s (n-1) + (if pure { turns s (n-1) = 1 } then 1 else 0)
end

module FieldsApi
  use int.Int
  use cxx.CxxSeq
  use FieldsBase
  (* the number of fields of a line: one more than the blank runs that follow something *)
  function fields (s: str) (n: int) : int
  axiom fields_0: forall s [fields s 0]. fields s 0 = 1
  axiom fields_s: forall s n m [fields s n, fields s m]. 0 <= n -> m = n + 1 -> fields s m = fields s n + turns s n
  axiom fields_pos: forall s n [fields s n]. 0 <= n -> 1 <= fields s n <= n + 1
end

module FieldsReal
  use FieldsDef
  clone FieldsApi with function fields = fieldsd
end
