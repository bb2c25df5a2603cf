(* How often a word is matched or put in, over an alignment and its entities *)
module CountBase
  use int.Int
  use cxx.CxxSeq
  use cxx.CxxMap
  use cxx.CxxSet
  use th_text.TextBase
  use th_rev.RevBase
  function ntok (a: r_wer_alignment) : int = length a.wer_alignment_tokens
  function tok (a: r_wer_alignment) (i: int) : pair str str = get a.wer_alignment_tokens i
  (* kind 0: the word is matched; kind 1: the word stands on the hypothesis side of an unequal row *)
  function hit (p: pair str str) (k: int) (w: str) : int =
    if plain p.second /\ p.second = w /\ (if k = 0 then p.first = p.second else p.first <> p.second) then 1 else 0
  function cval (m: cmap str int) (w: str) : int = if mmem m w then mget m w else 0
  function labelled_as (a: r_wer_alignment) (c: str) (j: int) : bool = (rclass a j).wer_alignment_classLabel = c
end

module CountDef
  use int.Int
  use cxx.CxxSeq
  use th_text.TextBase
  use th_rev.RevBase
  use CountBase
  let rec ghost function lfindd (a: r_wer_alignment) (c: str) (m: int) : int variant { rlabels a - m }
    ensures { m <= result /\ (m <= rlabels a -> result <= rlabels a) /\ (result < rlabels a -> labelled_as a c result) /\ forall j. m <= j < result -> j < rlabels a -> not labelled_as a c j }
  = if pure { m >= rlabels a } then m else if pure { labelled_as a c m } then m else lfindd a c (m + 1)
  let ghost function firstlabeld (a: r_wer_alignment) (c: str) : int
  = lfindd a c 0
  let rec ghost function cntd (a: r_wer_alignment) (n k: int) (w: str) : int variant { nest a, n }
    ensures { 0 <= result }
  = if n <= 0 then 0 else
    let t = pure { tok a (n-1) } in
    let r = cntd a (n-1) k w + pure { hit t k w } in
    if pure { entity t.first } then
      let j = lfindd a t.first 0 in
      if pure { j < rlabels a } then let b = pure { rclass a j } in r + cntd b (pure { ntok b }) k w else r
    else r
  let rec ghost function massd (a: r_wer_alignment) (n: int) : int variant { nest a, n }
    ensures { 0 <= result }
  = if n <= 0 then 0 else
    let t = pure { tok a (n-1) } in
    let r = massd a (n-1) + 1 in
    if pure { entity t.first } then
      let j = lfindd a t.first 0 in
      if pure { j < rlabels a } then let b = pure { rclass a j } in r + massd b (pure { ntok b }) else r
    else r
  let rec lemma mass_mono_d (a: r_wer_alignment) (n m: int) requires { 0 <= n <= m } ensures { massd a n <= massd a m } variant { m }
  = if n < m then mass_mono_d a n (m-1)
  let rec lemma cnt_mass_d (a: r_wer_alignment) (n k: int) (w: str) ensures { cntd a n k w <= massd a n } variant { nest a, n }
  = if n > 0 then begin
      cnt_mass_d a (n-1) k w;
      let t = pure { tok a (n-1) } in
      if pure { entity t.first } then
        let j = lfindd a t.first 0 in
        if pure { j < rlabels a } then let b = pure { rclass a j } in cnt_mass_d b (pure { ntok b }) k w
    end
  let rec lemma lfind_frame (a b: r_wer_alignment) (c: str) (m: int) requires { same_rows a b } ensures { lfindd a c m = lfindd b c m } variant { rlabels a - m }
  = if pure { m < rlabels a } then if not (pure { labelled_as a c m }) then lfind_frame a b c (m+1)
  let rec lemma cnt_frame_d (a b: r_wer_alignment) (n k: int) (w: str) requires { same_rows a b } ensures { cntd a n k w = cntd b n k w } variant { n }
  = if n > 0 then begin cnt_frame_d a b (n-1) k w;
      assert { tok a (n-1) = tok b (n-1) };
      let t = pure { tok a (n-1) } in lfind_frame a b t.first 0;
      assert { rclass a (lfindd a t.first 0) = rclass b (lfindd a t.first 0) } end
  let rec lemma mass_frame_d (a b: r_wer_alignment) (n: int) requires { same_rows a b } ensures { massd a n = massd b n } variant { n }
  = if n > 0 then begin mass_frame_d a b (n-1);
      assert { tok a (n-1) = tok b (n-1) };
      let t = pure { tok a (n-1) } in lfind_frame a b t.first 0;
      assert { rclass a (lfindd a t.first 0) = rclass b (lfindd a t.first 0) } end
  function innerd (a: r_wer_alignment) (c: str) (k: int) (w: str) : int =
    if entity c /\ firstlabeld a c < rlabels a then (let b = rclass a (firstlabeld a c) in cntd b (ntok b) k w) else 0
  function massind (a: r_wer_alignment) (c: str) : int =
    if entity c /\ firstlabeld a c < rlabels a then (let b = rclass a (firstlabeld a c) in massd b (ntok b)) else 0
end

module CountApi
  use int.Int
  use cxx.CxxSeq
  use th_text.TextBase
  use th_rev.RevBase
  use CountBase
  function firstlabel (a: r_wer_alignment) (c: str) : int
  axiom firstlabel_here: forall a c j [rclass a j, firstlabel a c]. 0 <= j < rlabels a -> labelled_as a c j -> firstlabel a c <= j
  axiom firstlabel_def: forall a c [firstlabel a c]. 0 <= firstlabel a c <= rlabels a /\ (firstlabel a c < rlabels a -> labelled_as a c (firstlabel a c))
  function cnt (a: r_wer_alignment) (n k: int) (w: str) : int
  function inner (a: r_wer_alignment) (c: str) (k: int) (w: str) : int
  axiom inner_def: forall a c k w [inner a c k w].
    inner a c k w = if entity c /\ firstlabel a c < rlabels a then cnt (rclass a (firstlabel a c)) (ntok (rclass a (firstlabel a c))) k w else 0
  axiom cnt_0: forall a k w [cnt a 0 k w]. cnt a 0 k w = 0
  axiom cnt_s: forall a n m k w [cnt a n k w, cnt a m k w]. 0 <= n -> m = n + 1 -> cnt a m k w = cnt a n k w + hit (tok a n) k w + inner a (tok a n).first k w
  axiom cnt_nonneg: forall a n k w [cnt a n k w]. 0 <= cnt a n k w
  function mass (a: r_wer_alignment) (n: int) : int
  function massin (a: r_wer_alignment) (c: str) : int
  axiom massin_def: forall a c [massin a c].
    massin a c = if entity c /\ firstlabel a c < rlabels a then mass (rclass a (firstlabel a c)) (ntok (rclass a (firstlabel a c))) else 0
  axiom mass_0: forall a [mass a 0]. mass a 0 = 0
  axiom mass_s: forall a n m [mass a n, mass a m]. 0 <= n -> m = n + 1 -> mass a m = mass a n + 1 + massin a (tok a n).first
  axiom mass_mono: forall a n m [mass a n, mass a m]. 0 <= n <= m -> mass a n <= mass a m
  axiom cnt_frame: forall a b n k w [same_rows a b, cnt a n k w | same_rows a b, cnt b n k w]. same_rows a b -> cnt a n k w = cnt b n k w
  axiom mass_frame: forall a b n [same_rows a b, mass a n | same_rows a b, mass b n]. same_rows a b -> mass a n = mass b n
  axiom cnt_mass: forall a n k w [cnt a n k w]. cnt a n k w <= mass a n
end

module CountReal
  use CountDef
  clone CountApi with function firstlabel = firstlabeld, function cnt = cntd, function inner = innerd, function mass = massd, function massin = massind
end

module CountSpec
  use int.Int
  use cxx.CxxSeq
  use cxx.CxxMap
  use cxx.CxxSet
  use th_text.TextBase
  use th_rev.RevBase
  use CountBase
  use CountApi
  (* the counters m are the counters m0 and what the first n rows add *)
  predicate added (m0 m: cmap str int) (a: r_wer_alignment) (n k: int) =
    forall w [mget m w | mmem m w | cval m w]. cval m w = cval m0 w + cnt a n k w /\ (mmem m w <-> mmem m0 w \/ cnt a n k w > 0)
  predicate room (m: cmap str int) (a: r_wer_alignment) = forall w [mget m w | mmem m w | cval m w]. 0 <= cval m w /\ cval m w + mass a (ntok a) < 9223372036854775808
  predicate noted (s0 s: cset str) (a: r_wer_alignment) (n: int) =
    forall w [smem s w]. smem s w <-> smem s0 w \/ cnt a n 0 w > 0 \/ cnt a n 1 w > 0
  (* … and the row n itself, without its entity *)
  predicate addedh (m0 m: cmap str int) (a: r_wer_alignment) (n k: int) =
    forall w [mget m w | mmem m w | cval m w]. cval m w = cval m0 w + cnt a n k w + hit (tok a n) k w /\ (mmem m w <-> mmem m0 w \/ cnt a n k w > 0 \/ hit (tok a n) k w > 0)
  predicate notedh (s0 s: cset str) (a: r_wer_alignment) (n: int) =
    forall w [smem s w]. smem s w <-> smem s0 w \/ cnt a n 0 w > 0 \/ cnt a n 1 w > 0 \/ hit (tok a n) 0 w > 0 \/ hit (tok a n) 1 w > 0
  predicate enters (a: r_wer_alignment) (n j: int) = entity (tok a n).first /\ j = firstlabel a (tok a n).first /\ j < rlabels a
  lemma added_in: forall m0 m1 m2 a n m k j [addedh m0 m1 a n k, added m1 m2 (rclass a j) (ntok (rclass a j)) k, added m0 m2 a m k].
    0 <= n -> m = n + 1 -> enters a n j -> addedh m0 m1 a n k -> added m1 m2 (rclass a j) (ntok (rclass a j)) k -> added m0 m2 a m k
  lemma added_out: forall m0 m1 a n m k [addedh m0 m1 a n k, added m0 m1 a m k].
    0 <= n -> m = n + 1 -> (not entity (tok a n).first \/ firstlabel a (tok a n).first >= rlabels a) -> addedh m0 m1 a n k -> added m0 m1 a m k
  lemma noted_in: forall m0 m1 m2 a n m j [notedh m0 m1 a n, noted m1 m2 (rclass a j) (ntok (rclass a j)), noted m0 m2 a m].
    0 <= n -> m = n + 1 -> enters a n j -> notedh m0 m1 a n -> noted m1 m2 (rclass a j) (ntok (rclass a j)) -> noted m0 m2 a m
  lemma noted_out: forall m0 m1 a n m [notedh m0 m1 a n, noted m0 m1 a m].
    0 <= n -> m = n + 1 -> (not entity (tok a n).first \/ firstlabel a (tok a n).first >= rlabels a) -> notedh m0 m1 a n -> noted m0 m1 a m
  let lemma room_at (m0 m1: cmap str int) (a: r_wer_alignment) (n k j: int) (w: str)
    requires { 0 <= n < ntok a /\ enters a n j /\ room m0 a /\ addedh m0 m1 a n k }
    ensures { 0 <= cval m1 w /\ cval m1 w + mass (rclass a j) (ntok (rclass a j)) < 9223372036854775808 }
  = assert { cval m1 w = cval m0 w + cnt a n k w + hit (tok a n) k w };
    assert { 0 <= cval m0 w /\ cval m0 w + mass a (ntok a) < 9223372036854775808 };
    assert { cnt a n k w <= mass a n };
    assert { mass a (n+1) = mass a n + 1 + massin a (tok a n).first };
    assert { mass a (n+1) <= mass a (ntok a) };
    assert { massin a (tok a n).first = mass (rclass a j) (ntok (rclass a j)) }
  lemma room_in: forall m0 m1 a n k j [addedh m0 m1 a n k, room m1 (rclass a j)].
    0 <= n < ntok a -> enters a n j -> room m0 a -> addedh m0 m1 a n k -> room m1 (rclass a j)
end
