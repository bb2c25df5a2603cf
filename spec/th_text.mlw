(* Labels: ___<id>_<class>___ where the id has no underscore *)
module LabelBase
  use cxx.CxxSeq
  use cxx.CxxStr
  predicate is_class_at (l c: str) (p: int) =
    3 <= p <= length l - 4 /\ get l p = 95 /\ (forall k. 3 <= k < p -> get l k <> 95) /\ c = slice l (p + 1) (length l - 3)
  predicate is_class (l c: str) = exists p. is_class_at l c p
  predicate wf_label (l: str) = exists p. 3 <= p <= length l - 4 /\ get l p = 95
end

module LabelDef
  use cxx.CxxSeq
  use cxx.CxxStr
  use int.Int
  use LabelBase
  let rec ghost function usc (l: str) (p: int) : int
    requires { 0 <= p }
    variant { length l - p }
    ensures { result >= p /\ (forall k. p <= k < result -> k < length l -> get l k <> 95) /\ (result < length l -> get l result = 95) }
  = if p >= length l then p else if get l p = 95 then p else usc l (p + 1)
  function class_named (l: str) : str = slice l (usc l 3 + 1) (length l - 3)
  let lemma label_splitd (l: str) (e: int)
    requires { wf_label l /\ e = length l - 3 }
    ensures { let s = slice l 3 e in let r = sfind s "_" 0 in 0 <= r < length s /\ is_class_at l (slice s (r + 1) (length s)) (r + 3) }
  = let ghost s = slice l 3 e in let ghost r = sfind s "_" 0 in let ghost p = usc l 3 in
    assert { length "_" = 1 /\ get "_" 0 = 95 };
    assert { p <= length l - 4 };
    assert { get s (p - 3) = get l p };
    assert { match_at s "_" (p - 3) };
    assert { forall i. 0 <= i < r -> i < length s -> get s i <> 95 by not match_at s "_" i };
    assert { match_at s "_" r /\ get s (r + 0) = 95 };
    assert { forall k. 3 <= k < r + 3 -> get l k <> 95 by get s (k - 3) = get l k };
    assert { seq_eq (slice s (r + 1) (length s)) (slice l (r + 4) (length l - 3)) }
end

module LabelApi
  use cxx.CxxSeq
  use cxx.CxxStr
  use LabelBase
  axiom label_split: forall l e [sfind (slice l 3 e) "_" 0]. wf_label l -> e = length l - 3 ->
    let s = slice l 3 e in let r = sfind s "_" 0 in 0 <= r < length s /\ is_class_at l (slice s (r + 1) (length s)) (r + 3)
  function class_name (l: str) : str
  axiom class_name_def: forall l c p [is_class_at l c p, class_name l]. is_class_at l c p -> class_name l = c
end

module LabelReal
  use LabelBase
  use LabelDef
  clone LabelApi with function class_name = class_named
end

module TextBase
  use cxx.CxxSeq
  use cxx.CxxStr
  predicate same_ci (a b: str) = length a = length b /\ forall q. 0 <= q < length a -> to_upper (get a q) = to_upper (get b q)
  predicate ends_ci (v e: str) = length e <= length v /\
    forall q. 0 <= q < length e -> to_lower (get e (length e - 1 - q)) = to_lower (get v (length v - 1 - q))
  predicate plain (t: str) = not occurs t "<ins>" /\ not occurs t "<del>" /\ not occurs t "<eps>" /\ not occurs t "___"
  predicate entity (t: str) = length t >= 3 /\ get t 0 = 95 /\ get t 1 = 95 /\ get t 2 = 95
  (* the id of a label: what stands between the leading underscores and the next one *)
  function label_body (t: str) : str = slice t 3 (if length t >= 6 then length t - 3 else length t)
  function label_id (t: str) : str =
    if not entity t then empty else let l = label_body t in let p = sfind l "_" 0 in if p <> npos_ /\ p > 0 then slice l 0 p else l
  predicate noisecode (t: str) = length t >= 2 /\ get t 0 = 60 /\ get t (length t - 1) = 62 /\
    forall q. 0 <= q < length t - 1 -> get t q <> 62
  predicate wraps (r l: str) = length r = length l + 6 /\
    (forall q. 0 <= q < 3 -> get r q = 95 /\ get r (length l + 3 + q) = 95) /\
    (forall q. 0 <= q < length l -> get r (3 + q) = if get l q = 58 then 95 else get l q)
end

module JoinDef
  use cxx.CxxSeq
  use cxx.CxxApp
  use cxx.CxxJoin
  use int.Int
  let rec ghost function join (e: seq str) (sep: str) (n: int) : str
    requires { 1 <= n <= length e } variant { n }
  = if n = 1 then get e 0 else (join e sep (n - 1) ++ sep) ++ get e (n - 1)
  let rec lemma join_copyd (e: seq str) (sep: str) (n: int)
    requires { 0 <= n < length e } variant { n }
    ensures { each_then (slice e 0 n) sep ++ get e n = join e sep (n + 1) }
  = if n = 0 then begin
      assert { length (slice e 0 0) = 0 };
      assert { seq_eq (each_then (slice e 0 0) sep ++ get e 0) (get e 0) }
    end else begin
      join_copyd e sep (n - 1);
      assert { each_then (slice e 0 n) sep = (each_then (slice e 0 (n - 1)) sep ++ get e (n - 1)) ++ sep }
    end
end

module JoinApi
  use cxx.CxxSeq
  use cxx.CxxApp
  use cxx.CxxJoin
  function joined (e: seq str) (sep: str) (n: int) : str
  axiom joined_1: forall e sep [joined e sep 1]. length e >= 1 -> joined e sep 1 = get e 0
  axiom joined_2: forall e sep [joined e sep 2]. length e >= 2 -> joined e sep 2 = (get e 0 ++ sep) ++ get e 1
  axiom join_copy: forall e sep n [each_then (slice e 0 n) sep]. 0 <= n < length e -> each_then (slice e 0 n) sep ++ get e n = joined e sep (n + 1)
end

module JoinReal
  use JoinDef
  clone JoinApi with function joined = join
end

module IdDef
  use cxx.CxxSeq
  use cxx.CxxStr
  use LabelBase
  use TextBase
  let lemma id_cutd (l c: str) (p e: int)
    requires { is_class_at l c p /\ p > 3 /\ e = length l - 3 }
    ensures { let s = slice l 3 e in sfind s "_" 0 = p - 3 /\ slice s 0 (p - 3) = slice l 3 p }
  = let ghost s = slice l 3 e in let ghost r = sfind s "_" 0 in
    assert { length "_" = 1 /\ get "_" 0 = 95 };
    assert { get s (p - 3) = 95 };
    assert { match_at s "_" (p - 3) };
    assert { 0 <= r <= p - 3 };
    assert { match_at s "_" r /\ get s (r + 0) = 95 };
    assert { get l (r + 3) = 95 };
    assert { r = p - 3 };
    assert { seq_eq (slice s 0 (p - 3)) (slice l 3 p) }
  let lemma id_wholed (l: str) (e: int)
    requires { length l >= 6 /\ e = length l - 3 /\ forall k. 3 <= k < e -> get l k <> 95 }
    ensures { sfind (slice l 3 e) "_" 0 = npos_ }
  = let ghost s = slice l 3 e in let ghost r = sfind s "_" 0 in
    assert { length "_" = 1 /\ get "_" 0 = 95 };
    assert { r <> npos_ -> match_at s "_" r /\ get s (r + 0) = 95 /\ get l (r + 3) = 95 }
end

module IdApi
  use cxx.CxxSeq
  use cxx.CxxStr
  use LabelBase
  use TextBase
  axiom id_cut: forall l c p e [is_class_at l c p, sfind (slice l 3 e) "_" 0]. is_class_at l c p -> p > 3 -> e = length l - 3 ->
    let s = slice l 3 e in sfind s "_" 0 = p - 3 /\ slice s 0 (p - 3) = slice l 3 p
  axiom id_whole: forall l e [sfind (slice l 3 e) "_" 0]. length l >= 6 -> e = length l - 3 -> (forall k. 3 <= k < e -> get l k <> 95) ->
    sfind (slice l 3 e) "_" 0 = npos_
end

module IdReal
  use IdDef
  clone IdApi
end

module TrimDef
  use cxx.CxxSeq
  use cxx.CxxStr
  use int.Int
  let rec ghost function lead_from (s: str) (p: int) : int
    requires { 0 <= p <= length s } variant { length s - p }
    ensures { p <= result <= length s /\ (forall q. p <= q < result -> is_space (get s q)) /\ (result < length s -> not is_space (get s result)) }
  = if p = length s then p else if is_space (get s p) then lead_from s (p + 1) else p
  let rec ghost function trail_to (s: str) (p: int) : int
    requires { 0 <= p <= length s } variant { p }
    ensures { 0 <= result <= p /\ (forall q. result <= q < p -> is_space (get s q)) /\ (result > 0 -> not is_space (get s (result - 1))) }
  = if p = 0 then 0 else if is_space (get s (p - 1)) then trail_to s (p - 1) else p
  function leadd (s: str) : int = lead_from s 0
  function traild (s: str) : int = trail_to s (length s)
end

module TrimApi
  use cxx.CxxSeq
  use cxx.CxxStr
  function lead (s: str) : int
  function trail (s: str) : int
  axiom lead_def: forall s [lead s]. 0 <= lead s <= length s /\ (forall q [get s q]. 0 <= q < lead s -> is_space (get s q)) /\
    (lead s < length s -> not is_space (get s (lead s)))
  axiom trail_def: forall s [trail s]. 0 <= trail s <= length s /\ (forall q [get s q]. trail s <= q < length s -> is_space (get s q)) /\
    (trail s > 0 -> not is_space (get s (trail s - 1)))
  predicate trimmed (s t: str) (a b: int) = 0 <= a <= b <= length s /\ t = slice s a b /\
    (forall q. 0 <= q < a -> is_space (get s q)) /\ (forall q. b <= q < length s -> is_space (get s q)) /\
    (a < b -> not is_space (get s a) /\ not is_space (get s (b - 1)))
end

module TrimReal
  use TrimDef
  clone TrimApi with function lead = leadd, function trail = traild
end
