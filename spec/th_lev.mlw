(* Levenshtein distance as the least cost of an edit script. *)
module LevDef
  (* script a b i j n : the first i tokens of a can be turned into the first j tokens of b
     by an alignment with exactly n insertions, deletions and substitutions *)
  inductive script (a b: seq int) (i j n: int) =
  | Script_empty: forall a b. script a b 0 0 0
  | Script_match: forall a b i j n. i > 0 -> j > 0 -> script a b (i-1) (j-1) n -> get a (i-1) = get b (j-1) ->
      script a b i j n
  | Script_sub: forall a b i j n. i > 0 -> j > 0 -> script a b (i-1) (j-1) (n-1) -> script a b i j n
  | Script_del: forall a b i j n. i > 0 -> j >= 0 -> script a b (i-1) j (n-1) -> script a b i j n
  | Script_ins: forall a b i j n. i >= 0 -> j > 0 -> script a b i (j-1) (n-1) -> script a b i j n

  let function min2 (x y: int) : int = if x <= y then x else y

  let rec ghost function levd (a b: seq int) (i j: int) : int
    variant { (if i < 0 then 0 else i) + (if j < 0 then 0 else j) }
  = if i <= 0 then (if j <= 0 then 0 else j)
    else if j <= 0 then i
    else min2 (levd a b (i-1) (j-1) + (if get a (i-1) = get b (j-1) then 0 else 1))
              (min2 (levd a b (i-1) j + 1) (levd a b i (j-1) + 1))
end

module LevLemmas
  use LevDef
  let rec lemma levd_nonneg (a b: seq int) (i j: int)
    requires { 0 <= i /\ 0 <= j }
    ensures { 0 <= levd a b i j }
    variant { i + j }
  = if i > 0 && j > 0 then begin levd_nonneg a b (i-1) (j-1); levd_nonneg a b (i-1) j; levd_nonneg a b i (j-1) end

  (* going one token back changes the distance by at most one *)
  let rec lemma levd_step (a b: seq int) (i j: int)
    requires { 0 <= i /\ 0 <= j }
    ensures { i > 0 -> levd a b (i-1) j <= levd a b i j + 1 }
    ensures { j > 0 -> levd a b i (j-1) <= levd a b i j + 1 }
    ensures { i > 0 /\ j > 0 -> levd a b (i-1) (j-1) <= levd a b i j }
    variant { i + j }
  = if i > 0 then levd_step a b (i-1) j;
    if j > 0 then levd_step a b i (j-1);
    if i > 0 && j > 0 then levd_step a b (i-1) (j-1)

  let rec lemma levd_sym (a b: seq int) (i j: int)
    requires { 0 <= i /\ 0 <= j }
    ensures { levd a b i j = levd b a j i }
    variant { i + j }
  = if i > 0 && j > 0 then begin levd_sym a b (i-1) (j-1); levd_sym a b (i-1) j; levd_sym a b i (j-1);
      let x = levd a b (i-1) (j-1) + (if get a (i-1) = get b (j-1) then 0 else 1) in
      let y = levd a b (i-1) j + 1 in let z = levd a b i (j-1) + 1 in
      assert { levd a b i j = min2 x (min2 y z) };
      assert { levd b a j i = min2 x (min2 z y) } end

  let rec lemma levd_upper (a b: seq int) (i j: int)
    requires { 0 <= i /\ 0 <= j }
    ensures { levd a b i j <= i \/ levd a b i j <= j }
    variant { i + j }
  = if i > 0 && j > 0 then levd_upper a b (i-1) (j-1)

  (* one step of the recurrence, as the dynamic programme uses it *)
  let ghost levd_rec (a b: seq int) (i j: int) : unit
    requires { i > 0 /\ j > 0 }
    ensures { get a (i-1) = get b (j-1) -> levd a b i j = levd a b (i-1) (j-1) }
    ensures { get a (i-1) <> get b (j-1) ->
      (levd a b i j = levd a b (i-1) (j-1) + 1 \/ levd a b i j = levd a b (i-1) j + 1 \/ levd a b i j = levd a b i (j-1) + 1) /\
      levd a b i j <= levd a b (i-1) (j-1) + 1 /\ levd a b i j <= levd a b (i-1) j + 1 /\ levd a b i j <= levd a b i (j-1) + 1 }
    ensures { levd a b (i-1) (j-1) <= levd a b i j <= levd a b (i-1) j + 1 /\ levd a b i j <= levd a b i (j-1) + 1 }
  = levd_step a b i (j-1); levd_step a b (i-1) j; levd_step a b i j

  (* the distance is attained by an edit script ... *)
  let rec lemma levd_script (a b: seq int) (i j: int)
    requires { 0 <= i /\ 0 <= j }
    ensures { script a b i j (levd a b i j) }
    variant { i + j }
  = if i > 0 && j > 0 then begin
      levd_script a b (i-1) (j-1); levd_script a b (i-1) j; levd_script a b i (j-1);
      let d = levd a b i j in
      if get a (i-1) = get b (j-1) && d = levd a b (i-1) (j-1) then assert { script a b i j d }
      else if d = levd a b (i-1) (j-1) + 1 then assert { script a b i j d }
      else if d = levd a b (i-1) j + 1 then assert { script a b i j d }
      else begin assert { d = levd a b i (j-1) + 1 }; assert { script a b i j d } end;
      assert { script a b i j (levd a b i j) }
    end
    else if i > 0 then begin levd_script a b (i-1) j; assert { script a b i j (levd a b i j) } end
    else if j > 0 then begin levd_script a b i (j-1); assert { script a b i j (levd a b i j) } end
    else assert { i = 0 /\ j = 0 /\ levd a b i j = 0 /\ script a b i j 0 }

  lemma script_nonneg: forall a b i j n [script a b i j n]. script a b i j n -> 0 <= i /\ 0 <= j

  (* ... and no edit script is shorter *)
  let rec lemma levd_least (a b: seq int) (i j n: int)
    requires { script a b i j n }
    ensures { 0 <= i /\ 0 <= j /\ levd a b i j <= n }
    variant { i + j }
  = if pure { i > 0 /\ j > 0 /\ script a b (i-1) (j-1) n } then levd_least a b (i-1) (j-1) n;
    if pure { i > 0 /\ j > 0 /\ script a b (i-1) (j-1) (n-1) } then levd_least a b (i-1) (j-1) (n-1);
    if pure { i > 0 /\ j >= 0 /\ script a b (i-1) j (n-1) } then levd_least a b (i-1) j (n-1);
    if pure { i >= 0 /\ j > 0 /\ script a b i (j-1) (n-1) } then levd_least a b i (j-1) (n-1)
end

module MapsDef
  (* taild a ma b mb i j n: the tokens of a from i on and those of b from j on can be aligned with
     exactly n errors, in such a way that the matched tokens are those with map entry 1 and the
     tokens in error (substituted, deleted, inserted) are those with map entry -1 *)
  let rec ghost predicate taild (a ma b mb: seq int) (i j n: int)
    variant { (if i > length a then 0 else length a - i) + (if j > length b then 0 else length b - j) }
  = 0 <= i && i <= length a && 0 <= j && j <= length b &&
    ((i = length a && j = length b && n = 0) ||
     (i < length a && j < length b && get a i = get b j && get ma i = 1 && get mb j = 1 && taild a ma b mb (i+1) (j+1) n) ||
     (i < length a && j < length b && get ma i = -1 && get mb j = -1 && taild a ma b mb (i+1) (j+1) (n-1)) ||
     (i < length a && get ma i = -1 && taild a ma b mb (i+1) j (n-1)) ||
     (j < length b && get mb j = -1 && taild a ma b mb i (j+1) (n-1)))

  (* the part of the maps before i, j does not matter *)
  predicate same_fromd (m k: seq int) (i: int)
  axiom same_fromd_def: forall m k i [same_fromd m k i]. same_fromd m k i <->
    length m = length k /\ forall x. i <= x < length m -> get m x = get k x
  let rec lemma taild_frame (a ma b mb ma2 mb2: seq int) (i j n: int)
    requires { same_fromd ma ma2 i /\ same_fromd mb mb2 j /\ length ma = length a /\ length mb = length b }
    requires { taild a ma b mb i j n }
    ensures { taild a ma2 b mb2 i j n }
    variant { length a - i + (length b - j) }
  = if i = length a && j = length b && n = 0 then () else
    if i < length a && j < length b && taild a ma b mb (i+1) (j+1) n && get a i = get b j && get ma i = 1 && get mb j = 1 then begin
      assert { same_fromd ma ma2 (i+1) /\ same_fromd mb mb2 (j+1) }; taild_frame a ma b mb ma2 mb2 (i+1) (j+1) n end
    else if i < length a && j < length b && taild a ma b mb (i+1) (j+1) (n-1) && get ma i = -1 && get mb j = -1 then begin
      assert { same_fromd ma ma2 (i+1) /\ same_fromd mb mb2 (j+1) }; taild_frame a ma b mb ma2 mb2 (i+1) (j+1) (n-1) end
    else if i < length a && get ma i = -1 && taild a ma b mb (i+1) j (n-1) then begin
      assert { same_fromd ma ma2 (i+1) }; taild_frame a ma b mb ma2 mb2 (i+1) j (n-1) end
    else begin
      assert { same_fromd mb mb2 (j+1) }; taild_frame a ma b mb ma2 mb2 i (j+1) (n-1) end

  let lemma taild_match (a ma b mb: seq int) (i j n: int)
    requires { 0 < i <= length a /\ 0 < j <= length b /\ length ma = length a /\ length mb = length b }
    requires { taild a ma b mb i j n /\ get a (i-1) = get b (j-1) }
    ensures { taild a (set ma (i-1) 1) b (set mb (j-1) 1) (i-1) (j-1) n }
  = let ghost na = pure { set ma (i-1) 1 } in let ghost nb = pure { set mb (j-1) 1 } in
    assert { same_fromd ma na i };
    assert { same_fromd mb nb j };
    taild_frame a ma b mb na nb i j n

  let rec lemma taild_dels (a ma b mb: seq int) (i n: int)
    requires { 0 <= i <= length a /\ taild a ma b mb i 0 n }
    requires { forall k. 0 <= k < i -> get ma k = -1 }
    ensures { taild a ma b mb 0 0 (n + i) }
    variant { i }
  = if i > 0 then begin assert { taild a ma b mb (i-1) 0 (n+1) }; taild_dels a ma b mb (i-1) (n+1) end
  let rec lemma taild_inss (a ma b mb: seq int) (j n: int)
    requires { 0 <= j <= length b /\ taild a ma b mb 0 j n }
    requires { forall k. 0 <= k < j -> get mb k = -1 }
    ensures { taild a ma b mb 0 0 (n + j) }
    variant { j }
  = if j > 0 then begin assert { taild a ma b mb 0 (j-1) (n+1) }; taild_inss a ma b mb (j-1) (n+1) end

  let rec lemma taild_sym (a ma b mb: seq int) (i j n: int)
    requires { taild a ma b mb i j n }
    ensures { taild b mb a ma j i n }
    variant { length a - i + (length b - j) }
  = if i = length a && j = length b && n = 0 then () else
    if i < length a && j < length b && taild a ma b mb (i+1) (j+1) n && get a i = get b j && get ma i = 1 && get mb j = 1 then
      taild_sym a ma b mb (i+1) (j+1) n
    else if i < length a && j < length b && taild a ma b mb (i+1) (j+1) (n-1) && get ma i = -1 && get mb j = -1 then
      taild_sym a ma b mb (i+1) (j+1) (n-1)
    else if i < length a && get ma i = -1 && taild a ma b mb (i+1) j (n-1) then
      taild_sym a ma b mb (i+1) j (n-1)
    else taild_sym a ma b mb i (j+1) (n-1)

  (* the maps describe a least-cost alignment of the two sequences *)
  predicate best_mapsd (a ma b mb: seq int) (n: int)
  axiom best_mapsd_def: forall a ma b mb n [best_mapsd a ma b mb n]. best_mapsd a ma b mb n <->
    length ma = length a /\ length mb = length b /\ taild a ma b mb 0 0 n
  lemma best_mapsd_sym: forall a ma b mb n [best_mapsd a ma b mb n].
    best_mapsd a ma b mb n -> best_mapsd b mb a ma n
  let lemma best_nil (a ma b mb: seq int) (n: int)
    requires { length a = 0 /\ n = length b /\ length ma = 0 /\ length mb = length b }
    requires { forall k. 0 <= k < length b -> get mb k = -1 }
    ensures { best_mapsd a ma b mb n }
  = assert { taild a ma b mb 0 (length b) 0 }; taild_inss a ma b mb (length b) 0
end

(* What the functions under contract see of the above; proved below (LevReal, MapsReal). *)
module LevApi
  function lev (a b: seq int) (i j: int) : int
  axiom lev_empty_l: forall a b j [lev a b 0 j]. 0 <= j -> lev a b 0 j = j
  axiom lev_empty_r: forall a b i [lev a b i 0]. 0 <= i -> lev a b i 0 = i
  axiom lev_swap: forall a b [lev a b (length a) (length b)]. lev a b (length a) (length b) = lev b a (length b) (length a)
  axiom lev_range: forall a b i j [lev a b i j]. 0 <= i -> 0 <= j -> 0 <= lev a b i j /\ (lev a b i j <= i \/ lev a b i j <= j)
  val ghost lev_rec (a b: seq int) (i j: int) : unit
    requires { i > 0 /\ j > 0 }
    ensures { get a (i-1) = get b (j-1) -> lev a b i j = lev a b (i-1) (j-1) }
    ensures { get a (i-1) <> get b (j-1) ->
      (lev a b i j = lev a b (i-1) (j-1) + 1 \/ lev a b i j = lev a b (i-1) j + 1 \/ lev a b i j = lev a b i (j-1) + 1) /\
      lev a b i j <= lev a b (i-1) (j-1) + 1 /\ lev a b i j <= lev a b (i-1) j + 1 /\ lev a b i j <= lev a b i (j-1) + 1 }
    ensures { lev a b (i-1) (j-1) <= lev a b i j <= lev a b (i-1) j + 1 /\ lev a b i j <= lev a b i (j-1) + 1 }
end

module LevReal
  use LevDef
  use LevLemmas
  clone LevApi with function lev = levd, val lev_rec = levd_rec
end

module MapsApi
  predicate tail (a ma b mb: seq int) (i j n: int)
  axiom tail_end: forall a ma b mb i j n [tail a ma b mb i j n]. i = length a -> j = length b -> n = 0 -> tail a ma b mb i j n
  axiom tail_match: forall a ma b mb i j n na nb k l m [tail a ma b mb i j n, tail a na b nb k l m].
    tail a ma b mb i j n -> k = i-1 -> l = j-1 -> m = n -> 0 <= k -> 0 <= l -> length ma = length a -> length mb = length b ->
    get a k = get b l -> na = set ma k 1 -> nb = set mb l 1 -> tail a na b nb k l m
  axiom tail_sub: forall a ma b mb i j n k l m [tail a ma b mb i j n, tail a ma b mb k l m].
    tail a ma b mb i j n -> k = i-1 -> l = j-1 -> m = n+1 -> 0 <= k -> 0 <= l ->
    get ma k = -1 -> get mb l = -1 -> tail a ma b mb k l m
  axiom tail_del: forall a ma b mb i j n k m [tail a ma b mb i j n, tail a ma b mb k j m].
    tail a ma b mb i j n -> k = i-1 -> m = n+1 -> 0 <= k -> get ma k = -1 -> tail a ma b mb k j m
  axiom tail_ins: forall a ma b mb i j n l m [tail a ma b mb i j n, tail a ma b mb i l m].
    tail a ma b mb i j n -> l = j-1 -> m = n+1 -> 0 <= l -> get mb l = -1 -> tail a ma b mb i l m
  (* the maps describe a least-cost alignment of the two sequences *)
  predicate best_maps (a ma b mb: seq int) (n: int)
  axiom best_maps_dels: forall a ma b mb i n m [tail a ma b mb i 0 n, best_maps a ma b mb m].
    tail a ma b mb i 0 n -> m = n + i -> length ma = length a -> length mb = length b ->
    (forall k. 0 <= k < i -> get ma k = -1) -> best_maps a ma b mb m
  axiom best_maps_inss: forall a ma b mb j n m [tail a ma b mb 0 j n, best_maps a ma b mb m].
    tail a ma b mb 0 j n -> m = n + j -> length ma = length a -> length mb = length b ->
    (forall k. 0 <= k < j -> get mb k = -1) -> best_maps a ma b mb m
  axiom best_maps_sym: forall a ma b mb n [best_maps a ma b mb n]. best_maps a ma b mb n -> best_maps b mb a ma n
  axiom best_maps_nil_l: forall a ma b mb n [best_maps a ma b mb n]. length a = 0 -> n = length b -> length ma = 0 -> length mb = length b ->
    (forall k. 0 <= k < length b -> get mb k = -1) -> best_maps a ma b mb n
end

module MapsReal
  use LevDef
  use MapsDef
  lemma d0: forall a ma b mb i n. taild a ma b mb i 0 n -> 0 <= i <= length a /\ 0 <= length b
  lemma d1: forall a ma b mb j n. taild a ma b mb 0 j n -> 0 <= j <= length b /\ 0 <= length a
  clone MapsApi with predicate tail = taild, predicate best_maps = best_mapsd
end

