(* From NLP rows to tokens: entities, punctuation, alternatives *)
module CtorBase
  use int.Int
  use cxx.CxxSeq
  use cxx.CxxApp
  use cxx.CxxStr
  use cxx.CxxJson
  use th_load.LoadBase
  function row (rs: seq r_RawNlpRecord) (i: int) : r_RawNlpRecord = get rs i
  function lab (rs: seq r_RawNlpRecord) (i: int) : str = (row rs i).rawNlpRecord_best_label
  function lid (rs: seq r_RawNlpRecord) (i: int) : str = (row rs i).rawNlpRecord_best_label_id
  function tok (rs: seq r_RawNlpRecord) (i: int) : str = (row rs i).rawNlpRecord_token
  function pun (rs: seq r_RawNlpRecord) (i: int) : str = (row rs i).rawNlpRecord_punctuation
  function spk (rs: seq r_RawNlpRecord) (i: int) : str = (row rs i).rawNlpRecord_speakerId
  (* row i belongs to an entity; it continues the entity of the row before it; it begins one *)
  predicate has (rs: seq r_RawNlpRecord) (p: bool) (i: int) = p /\ lab rs i <> empty
  predicate cont (rs: seq r_RawNlpRecord) (p: bool) (i: int) = has rs p i /\ i > 0 /\ lab rs i = lab rs (i-1)
  predicate opens (rs: seq r_RawNlpRecord) (p: bool) (i: int) = has rs p i /\ not cont rs p i
  (* rows of one label have one label id *)
  predicate one_id (rs: seq r_RawNlpRecord) = forall i j [lab rs i, lab rs j]. 0 <= i < length rs -> 0 <= j < length rs -> lab rs i = lab rs j -> lid rs i = lid rs j
  predicate marked (rs: seq r_RawNlpRecord) (u: bool) (i: int) = u /\ pun rs i <> empty
  function emit (rs: seq r_RawNlpRecord) (p: bool) (i: int) : int = if cont rs p i then 0 else 1
  function mark (rs: seq r_RawNlpRecord) (u: bool) (i: int) : int = if marked rs u i then 1 else 0
  function starts (rs: seq r_RawNlpRecord) (p: bool) (id: str) (i: int) : int = if opens rs p i /\ lid rs i = id then 1 else 0
  function nick (l: str) : str = replace_char (("___" ++ l) ++ "___") 58 95
  function own (rs: seq r_RawNlpRecord) (p keep: bool) (i: int) : str = if has rs p i then nick (lab rs i) else folded keep (tok rs i)
  (* the tags of a row get the entity type the side car gives them *)
  function tagged (side: json_t) (t: r_WerTagEntry) : r_WerTagEntry =
    if side <> j_null then { t with werTagEntry_entity_type = j_as_string (jget (jget side t.werTagEntry_tag_id) "entity_type") } else t
  predicate tagged_to (side: json_t) (a b: seq r_WerTagEntry) (n: int) =
    length b = length a /\ (forall k [get b k]. 0 <= k < n -> get b k = tagged side (get a k)) /\ (forall k [get b k]. n <= k < length a -> get b k = get a k)
  predicate retagged (side: json_t) (r x: r_RawNlpRecord) =
    x = { r with rawNlpRecord_wer_tags = x.rawNlpRecord_wer_tags } /\ tagged_to side r.rawNlpRecord_wer_tags x.rawNlpRecord_wer_tags (length r.rawNlpRecord_wer_tags)
  function punct_row (s: str) : r_RawNlpRecord =
    { rawNlpRecord_token = empty; rawNlpRecord_speakerId = s; rawNlpRecord_punctuation = empty; rawNlpRecord_prepunctuation = empty; rawNlpRecord_ts = empty; rawNlpRecord_endTs = empty; rawNlpRecord_casing = empty; rawNlpRecord_labels = empty; rawNlpRecord_best_label = empty; rawNlpRecord_best_label_id = empty; rawNlpRecord_wer_tags = empty; rawNlpRecord_confidence = empty }
  (* the alternatives of a label id, the words of an alternative *)
  function cl (norm: json_t) (id: str) : json_t = jget (jget norm id) "candidates"
  function verb (c: json_t) : seq json_t = jelems (jget c "verbalization")
end

module CtorDef
  use int.Int
  use cxx.CxxSeq
  use CtorBase
  let rec ghost function tposd (rs: seq r_RawNlpRecord) (p u: bool) (n: int) : int variant { n } ensures { 0 <= result }
  = if n <= 0 then 0 else tposd rs p u (n-1) + pure { emit rs p (n-1) + mark rs u (n-1) }
  let rec lemma tpos_mono_d (rs: seq r_RawNlpRecord) (p u: bool) (m n: int) requires { 0 <= m <= n } ensures { tposd rs p u m <= tposd rs p u n } variant { n - m }
  = if m < n then tpos_mono_d rs p u m (n-1)
  let rec ghost function rposd (rs: seq r_RawNlpRecord) (u: bool) (n: int) : int variant { n } ensures { 0 <= result }
  = if n <= 0 then 0 else rposd rs u (n-1) + 1 + pure { mark rs u (n-1) }
  let rec lemma rpos_mono_d (rs: seq r_RawNlpRecord) (u: bool) (m n: int) requires { 0 <= m <= n } ensures { rposd rs u m <= rposd rs u n } variant { n - m }
  = if m < n then rpos_mono_d rs u m (n-1)
  let rec ghost function runsd (rs: seq r_RawNlpRecord) (p: bool) (id: str) (n: int) : int variant { n } ensures { 0 <= result }
  = if n <= 0 then 0 else runsd rs p id (n-1) + pure { starts rs p id (n-1) }
  let rec lemma runs_mono_d (rs: seq r_RawNlpRecord) (p: bool) (id: str) (m n: int) requires { 0 <= m <= n } ensures { runsd rs p id m <= runsd rs p id n } variant { n - m }
  = if m < n then runs_mono_d rs p id m (n-1)
  let rec ghost function startd (rs: seq r_RawNlpRecord) (p: bool) (n: int) : int variant { n } ensures { 0 <= n -> 0 <= result <= n }
  = if n <= 0 then 0 else if pure { cont rs p n } then startd rs p (n-1) else n
  let rec lemma start_here_d (rs: seq r_RawNlpRecord) (p: bool) (n: int)
    requires { 0 <= n } requires { has rs p n } ensures { opens rs p (startd rs p n) /\ lab rs (startd rs p n) = lab rs n } variant { n }
  = if pure { cont rs p n } then start_here_d rs p (n-1)
  let rec lemma start_after_d (rs: seq r_RawNlpRecord) (p: bool) (m n: int)
    requires { 0 <= m <= n } requires { not cont rs p m } ensures { m <= startd rs p n } variant { n - m }
  = if m < n then start_after_d rs p m (n-1)
end

module CtorApi
  use int.Int
  use cxx.CxxSeq
  use CtorBase
  (* where the token of row i stands; where the row stands; how often an entity of an id begins in the first n rows; where the entity of row n begins *)
  function tpos (rs: seq r_RawNlpRecord) (p u: bool) (n: int) : int
  axiom tpos_0: forall rs p u [tpos rs p u 0]. tpos rs p u 0 = 0
  axiom tpos_s: forall rs p u n m [tpos rs p u n, tpos rs p u m]. 0 <= n -> m = n + 1 -> tpos rs p u m = tpos rs p u n + emit rs p n + mark rs u n
  axiom tpos_mono: forall rs p u m n [tpos rs p u m, tpos rs p u n]. 0 <= m <= n -> tpos rs p u m <= tpos rs p u n
  axiom tpos_pos: forall rs p u n [tpos rs p u n]. 0 <= tpos rs p u n
  function rpos (rs: seq r_RawNlpRecord) (u: bool) (n: int) : int
  axiom rpos_0: forall rs u [rpos rs u 0]. rpos rs u 0 = 0
  axiom rpos_s: forall rs u n m [rpos rs u n, rpos rs u m]. 0 <= n -> m = n + 1 -> rpos rs u m = rpos rs u n + 1 + mark rs u n
  axiom rpos_mono: forall rs u m n [rpos rs u m, rpos rs u n]. 0 <= m <= n -> rpos rs u m <= rpos rs u n
  axiom rpos_pos: forall rs u n [rpos rs u n]. 0 <= rpos rs u n
  function runs (rs: seq r_RawNlpRecord) (p: bool) (id: str) (n: int) : int
  axiom runs_0: forall rs p id [runs rs p id 0]. runs rs p id 0 = 0
  axiom runs_s: forall rs p id n m [runs rs p id n, runs rs p id m]. 0 <= n -> m = n + 1 -> runs rs p id m = runs rs p id n + starts rs p id n
  axiom runs_mono: forall rs p id m n [runs rs p id m, runs rs p id n]. 0 <= m <= n -> runs rs p id m <= runs rs p id n
  axiom runs_pos: forall rs p id n [runs rs p id n]. 0 <= runs rs p id n
  function start (rs: seq r_RawNlpRecord) (p: bool) (n: int) : int
  axiom start_open: forall rs p n [start rs p n]. 0 <= n -> not cont rs p n -> start rs p n = n
  axiom start_cont: forall rs p n m [start rs p n, start rs p m]. 0 <= n -> m = n + 1 -> cont rs p m -> start rs p m = start rs p n
  axiom start_range: forall rs p n [start rs p n]. 0 <= n -> 0 <= start rs p n <= n
  axiom start_here: forall rs p n [start rs p n]. 0 <= n -> has rs p n -> opens rs p (start rs p n) /\ lab rs (start rs p n) = lab rs n
  axiom start_after: forall rs p m n [start rs p n, start rs p m]. 0 <= m <= n -> not cont rs p m -> m <= start rs p n
end

module CtorReal
  use CtorDef
  clone CtorApi with function tpos = tposd, function rpos = rposd, function runs = runsd, function start = startd
end

module CtorSpec
  use int.Int
  use cxx.CxxSeq
  use cxx.CxxStr
  use cxx.CxxJson
  use CtorBase
  use CtorApi
  (* the tokens and speakers of the first n rows *)
  predicate at_token (ts ss: seq str) (rs: seq r_RawNlpRecord) (p u keep: bool) (i: int) =
    (not cont rs p i -> get ts (tpos rs p u i) = own rs p keep i /\ get ss (tpos rs p u i) = spk rs i) /\
    (marked rs u i -> get ts (tpos rs p u (i+1) - 1) = pun rs i /\ get ss (tpos rs p u (i+1) - 1) = spk rs i)
  predicate token_list (ts ss: seq str) (rs: seq r_RawNlpRecord) (p u keep: bool) (n: int) =
    length ts = tpos rs p u n /\ length ss = tpos rs p u n /\ forall i [row rs i]. 0 <= i < n -> at_token ts ss rs p u keep i
  function plus_own (ts: seq str) (rs: seq r_RawNlpRecord) (p: bool) (n: int) (x: str) : seq str = if cont rs p n then ts else snoc ts x
  function plus_pun (ts: seq str) (rs: seq r_RawNlpRecord) (u: bool) (n: int) (x: str) : seq str = if marked rs u n then snoc ts x else ts
  let lemma tokens_next (ts ss: seq str) (rs: seq r_RawNlpRecord) (p u keep: bool) (n: int)
    requires { 0 <= n } requires { token_list ts ss rs p u keep n }
    ensures { token_list (plus_pun (plus_own ts rs p n (own rs p keep n)) rs u n (pun rs n)) (plus_pun (plus_own ss rs p n (spk rs n)) rs u n (spk rs n)) rs p u keep (n+1) }
  = let ghost t2 = pure { plus_pun (plus_own ts rs p n (own rs p keep n)) rs u n (pun rs n) } in
    let ghost s2 = pure { plus_pun (plus_own ss rs p n (spk rs n)) rs u n (spk rs n) } in
    assert { tpos rs p u (n+1) = tpos rs p u n + emit rs p n + mark rs u n };
    assert { length t2 = tpos rs p u (n+1) /\ length s2 = tpos rs p u (n+1) };
    assert { at_token t2 s2 rs p u keep n };
    assert { forall i [row rs i]. 0 <= i < n -> at_token t2 s2 rs p u keep i
      by at_token ts ss rs p u keep i /\ tpos rs p u (i+1) <= tpos rs p u n /\ tpos rs p u (i+1) = tpos rs p u i + emit rs p i + mark rs u i }
  (* the kept rows *)
  predicate at_row (ws rs: seq r_RawNlpRecord) (side: json_t) (u: bool) (i: int) =
    retagged side (row rs i) (get ws (rpos rs u i)) /\ (marked rs u i -> get ws (rpos rs u i + 1) = punct_row (spk rs i))
  predicate row_list (ws rs: seq r_RawNlpRecord) (side: json_t) (u: bool) (n: int) =
    length ws = rpos rs u n /\ forall i [row rs i]. 0 <= i < n -> at_row ws rs side u i
  function plus_row (ws rs: seq r_RawNlpRecord) (u: bool) (n: int) (x: r_RawNlpRecord) : seq r_RawNlpRecord =
    if marked rs u n then snoc (snoc ws x) (punct_row (spk rs n)) else snoc ws x
  let lemma rows_next (ws rs: seq r_RawNlpRecord) (side: json_t) (u: bool) (n: int) (x: r_RawNlpRecord)
    requires { 0 <= n } requires { row_list ws rs side u n } requires { retagged side (row rs n) x }
    ensures { row_list (plus_row ws rs u n x) rs side u (n+1) }
  = let ghost w2 = pure { plus_row ws rs u n x } in
    assert { rpos rs u (n+1) = rpos rs u n + 1 + mark rs u n };
    assert { length w2 = rpos rs u (n+1) };
    assert { at_row w2 rs side u n };
    assert { forall i [row rs i]. 0 <= i < n -> at_row w2 rs side u i
      by at_row ws rs side u i /\ rpos rs u (i+1) <= rpos rs u n /\ rpos rs u (i+1) = rpos rs u i + 1 + mark rs u i }
  predicate recorded (xs rs: seq r_RawNlpRecord) (side: json_t) (n: int) =
    length xs = length rs /\ (forall i [get xs i]. 0 <= i < n -> retagged side (row rs i) (get xs i)) /\ (forall i [get xs i]. n <= i < length rs -> get xs i = row rs i)
  lemma recorded_next: forall xs rs side n m x [recorded (set xs n x) rs side m, recorded xs rs side n].
    0 <= n < length rs -> m = n + 1 -> recorded xs rs side n -> retagged side (row rs n) x -> recorded (set xs n x) rs side m
  (* the alternatives: those there were, and one per entity, with its words *)
  function slot (norm0: json_t) (rs: seq r_RawNlpRecord) (p: bool) (i: int) : int = jsize (cl norm0 (lid rs i)) + runs rs p (lid rs i) (i+1) - 1
  function said (norm0 norm: json_t) (rs: seq r_RawNlpRecord) (p: bool) (i: int) : seq json_t = verb (jat (cl norm (lid rs i)) (slot norm0 rs p i))
  predicate alt_sizes (norm0 norm: json_t) (rs: seq r_RawNlpRecord) (p: bool) (n: int) =
    forall id [cl norm id]. jsize (cl norm id) = jsize (cl norm0 id) + runs rs p id n
  predicate alt_old (norm0 norm: json_t) = forall id k [jat (cl norm id) k]. 0 <= k < jsize (cl norm0 id) -> jat (cl norm id) k = jat (cl norm0 id) k
  predicate alt_word (norm0 norm: json_t) (rs: seq r_RawNlpRecord) (p: bool) (i: int) =
    i - start rs p i < length (said norm0 norm rs p i) /\ get (said norm0 norm rs p i) (i - start rs p i) = j_str (tok rs i)
  predicate alt_words (norm0 norm: json_t) (rs: seq r_RawNlpRecord) (p: bool) (n: int) =
    forall i [row rs i]. 0 <= i < n -> has rs p i -> alt_word norm0 norm rs p i
  predicate alt_ends (norm0 norm: json_t) (rs: seq r_RawNlpRecord) (p: bool) (n: int) =
    forall i [row rs i]. 0 <= i < n -> has rs p i -> (i = n - 1 \/ not cont rs p (i+1)) -> length (said norm0 norm rs p i) = i - start rs p i + 1
  predicate alts (norm0 norm: json_t) (rs: seq r_RawNlpRecord) (p: bool) (n: int) =
    norm <> j_null /\ alt_sizes norm0 norm rs p n /\ alt_old norm0 norm /\ alt_words norm0 norm rs p n /\ alt_ends norm0 norm rs p n
  function open_alt (norm: json_t) (id: str) (w: json_t) : json_t = jset norm id (jset (jget norm id) "candidates" (jappend (cl norm id) w))
  function grown (c x: json_t) : json_t = jset c "verbalization" (jappend (jget c "verbalization") x)
  function grow_alt (norm: json_t) (id: str) (idx: int) (x: json_t) : json_t =
    jset norm id (jset (jget norm id) "candidates" (jsetat (cl norm id) idx (grown (jat (cl norm id) idx) x)))
  lemma cl_open: forall norm id w id2 [cl (open_alt norm id w) id2]. cl (open_alt norm id w) id2 = if id2 = id then jappend (cl norm id) w else cl norm id2
  lemma cl_grow: forall norm id idx x id2 [cl (grow_alt norm id idx x) id2].
    cl (grow_alt norm id idx x) id2 = if id2 = id then jsetat (cl norm id) idx (grown (jat (cl norm id) idx) x) else cl norm id2
  lemma verb_grown: forall c x [verb (grown c x)]. verb (grown c x) = snoc (verb c) x
  let lemma runs_some (rs: seq r_RawNlpRecord) (p: bool) (i: int)
    requires { 0 <= i < length rs } requires { has rs p i } requires { one_id rs } ensures { 1 <= runs rs p (lid rs i) (i+1) }
  = assert { opens rs p (start rs p i) /\ lab rs (start rs p i) = lab rs i };
    assert { lid rs (start rs p i) = lid rs i };
    assert { runs rs p (lid rs i) (start rs p i + 1) = runs rs p (lid rs i) (start rs p i) + 1 };
    assert { runs rs p (lid rs i) (start rs p i + 1) <= runs rs p (lid rs i) (i+1) }
  lemma slot_range: forall norm0 norm rs p n i [alt_sizes norm0 norm rs p n, slot norm0 rs p i]. alt_sizes norm0 norm rs p n -> one_id rs -> 0 <= i < n <= length rs -> has rs p i ->
    jsize (cl norm0 (lid rs i)) <= slot norm0 rs p i < jsize (cl norm (lid rs i))
  (* the entity of row i is over before the entity of row n begins *)
  let lemma slot_before (norm0: json_t) (rs: seq r_RawNlpRecord) (p: bool) (i n: int)
    requires { 0 <= i < n < length rs } requires { has rs p i /\ has rs p n } requires { i + 1 <= n /\ not cont rs p (i+1) } requires { lid rs i = lid rs n } requires { one_id rs }
    ensures { slot norm0 rs p i < slot norm0 rs p n }
  = assert { start rs p (i+1) = i + 1 };
    assert { i + 1 <= start rs p n <= n };
    assert { opens rs p (start rs p n) /\ lab rs (start rs p n) = lab rs n };
    assert { lid rs (start rs p n) = lid rs n };
    assert { runs rs p (lid rs n) (i+1) <= runs rs p (lid rs n) (start rs p n) };
    assert { runs rs p (lid rs n) (start rs p n + 1) = runs rs p (lid rs n) (start rs p n) + 1 };
    assert { runs rs p (lid rs n) (start rs p n + 1) <= runs rs p (lid rs n) (n+1) }
  let lemma said_open (norm0 norm w: json_t) (rs: seq r_RawNlpRecord) (p: bool) (i n: int)
    requires { alts norm0 norm rs p n } requires { 0 <= i < n <= length rs } requires { has rs p i } requires { one_id rs }
    ensures { said norm0 (open_alt norm (lid rs n) w) rs p i = said norm0 norm rs p i }
  = assert { 0 <= slot norm0 rs p i < jsize (cl norm (lid rs i)) };
    assert { lid rs i = lid rs n -> jat (jappend (cl norm (lid rs n)) w) (slot norm0 rs p i) = jat (cl norm (lid rs n)) (slot norm0 rs p i) };
    assert { jat (cl (open_alt norm (lid rs n) w) (lid rs i)) (slot norm0 rs p i) = jat (cl norm (lid rs i)) (slot norm0 rs p i) }
  let lemma said_new (norm0 norm w: json_t) (rs: seq r_RawNlpRecord) (p: bool) (n: int)
    requires { alts norm0 norm rs p n } requires { 0 <= n } requires { opens rs p n }
    ensures { said norm0 (open_alt norm (lid rs n) w) rs p n = verb w }
  = assert { runs rs p (lid rs n) (n+1) = runs rs p (lid rs n) n + 1 };
    assert { jsize (cl norm (lid rs n)) = jsize (cl norm0 (lid rs n)) + runs rs p (lid rs n) n };
    assert { slot norm0 rs p n = jsize (cl norm (lid rs n)) };
    assert { length (jelems (cl norm (lid rs n))) = slot norm0 rs p n };
    assert { jelems (jappend (cl norm (lid rs n)) w) = snoc (jelems (cl norm (lid rs n))) w };
    assert { jat (cl (open_alt norm (lid rs n) w) (lid rs n)) (slot norm0 rs p n) = w }
  let lemma sizes_open (norm0 norm w: json_t) (rs: seq r_RawNlpRecord) (p: bool) (n: int)
    requires { alt_sizes norm0 norm rs p n } requires { 0 <= n } requires { opens rs p n }
    ensures { alt_sizes norm0 (open_alt norm (lid rs n) w) rs p (n+1) }
  = assert { forall id [cl (open_alt norm (lid rs n) w) id]. jsize (cl (open_alt norm (lid rs n) w) id) = jsize (cl norm0 id) + runs rs p id (n+1)
      by jsize (cl norm id) = jsize (cl norm0 id) + runs rs p id n /\ runs rs p id (n+1) = runs rs p id n + starts rs p id n /\
         jsize (cl (open_alt norm (lid rs n) w) id) = jsize (cl norm id) + (if id = lid rs n then 1 else 0) }
  let lemma old_open (norm0 norm w: json_t) (rs: seq r_RawNlpRecord) (p: bool) (n: int) (id: str) (k: int)
    requires { alt_sizes norm0 norm rs p n } requires { alt_old norm0 norm } requires { 0 <= k < jsize (cl norm0 id) } requires { 0 <= n }
    ensures { jat (cl (open_alt norm (lid rs n) w) id) k = jat (cl norm0 id) k }
  = assert { k < jsize (cl norm id) }; assert { jat (cl norm id) k = jat (cl norm0 id) k };
    assert { id = lid rs n -> jat (jappend (cl norm id) w) k = jat (cl norm id) k }
  let lemma alts_open (norm0 norm w: json_t) (rs: seq r_RawNlpRecord) (p: bool) (n: int)
    requires { alts norm0 norm rs p n } requires { 0 <= n < length rs } requires { opens rs p n } requires { one_id rs } requires { verb w = snoc empty (j_str (tok rs n)) }
    ensures { alts norm0 (open_alt norm (lid rs n) w) rs p (n+1) }
  = assert { alt_sizes norm0 (open_alt norm (lid rs n) w) rs p (n+1) };
    assert { alt_old norm0 (open_alt norm (lid rs n) w) };
    assert { start rs p n = n };
    assert { alt_word norm0 (open_alt norm (lid rs n) w) rs p n };
    assert { alt_words norm0 (open_alt norm (lid rs n) w) rs p (n+1) };
    assert { alt_ends norm0 (open_alt norm (lid rs n) w) rs p (n+1) }
  (* one more word for the entity of row n *)
  function next_alt (norm: json_t) (rs: seq r_RawNlpRecord) (n: int) : json_t = grow_alt norm (lid rs n) (jsize (cl norm (lid rs n)) - 1) (j_str (tok rs n))
  let lemma last_slot (norm0 norm: json_t) (rs: seq r_RawNlpRecord) (p: bool) (n: int)
    requires { alts norm0 norm rs p n } requires { 0 < n < length rs } requires { cont rs p n } requires { one_id rs }
    ensures { slot norm0 rs p n = jsize (cl norm (lid rs n)) - 1 } ensures { slot norm0 rs p (n-1) = slot norm0 rs p n } ensures { lid rs (n-1) = lid rs n } ensures { 0 <= slot norm0 rs p n }
  = assert { has rs p (n-1) /\ lid rs (n-1) = lid rs n };
    assert { jsize (cl norm (lid rs n)) = jsize (cl norm0 (lid rs n)) + runs rs p (lid rs n) n };
    assert { runs rs p (lid rs n) (n+1) = runs rs p (lid rs n) n };
    assert { jsize (cl norm0 (lid rs (n-1))) <= slot norm0 rs p (n-1) }
  let lemma said_same (norm0 norm: json_t) (rs: seq r_RawNlpRecord) (p: bool) (i n: int)
    requires { alts norm0 norm rs p n } requires { 0 <= i < n < length rs } requires { has rs p i } requires { cont rs p n } requires { one_id rs }
    requires { lid rs i <> lid rs n \/ slot norm0 rs p i <> slot norm0 rs p n }
    ensures { said norm0 (next_alt norm rs n) rs p i = said norm0 norm rs p i }
  = assert { 0 <= slot norm0 rs p i };
    assert { slot norm0 rs p n = jsize (cl norm (lid rs n)) - 1 };
    assert { jat (cl (next_alt norm rs n) (lid rs i)) (slot norm0 rs p i) = jat (cl norm (lid rs i)) (slot norm0 rs p i) }
  let lemma said_more (norm0 norm: json_t) (rs: seq r_RawNlpRecord) (p: bool) (i n: int)
    requires { alts norm0 norm rs p n } requires { 0 <= i <= n < length rs } requires { has rs p i } requires { cont rs p n } requires { one_id rs }
    requires { lid rs i = lid rs n /\ slot norm0 rs p i = slot norm0 rs p n }
    ensures { said norm0 (next_alt norm rs n) rs p i = snoc (said norm0 norm rs p i) (j_str (tok rs n)) }
  = assert { slot norm0 rs p n = jsize (cl norm (lid rs n)) - 1 };
    assert { jat (cl (next_alt norm rs n) (lid rs i)) (slot norm0 rs p i) = grown (jat (cl norm (lid rs i)) (slot norm0 rs p i)) (j_str (tok rs n)) }
  let lemma sizes_cont (norm0 norm: json_t) (rs: seq r_RawNlpRecord) (p: bool) (n: int)
    requires { alts norm0 norm rs p n } requires { 0 < n < length rs } requires { cont rs p n } requires { one_id rs }
    ensures { alt_sizes norm0 (next_alt norm rs n) rs p (n+1) }
  = assert { 0 <= jsize (cl norm (lid rs n)) - 1 };
    assert { forall id [cl (next_alt norm rs n) id]. jsize (cl (next_alt norm rs n) id) = jsize (cl norm0 id) + runs rs p id (n+1)
      by jsize (cl norm id) = jsize (cl norm0 id) + runs rs p id n /\ runs rs p id (n+1) = runs rs p id n /\ jsize (cl (next_alt norm rs n) id) = jsize (cl norm id) }
  let lemma old_cont (norm0 norm: json_t) (rs: seq r_RawNlpRecord) (p: bool) (n: int) (id: str) (k: int)
    requires { alts norm0 norm rs p n } requires { 0 < n < length rs } requires { cont rs p n } requires { one_id rs } requires { 0 <= k < jsize (cl norm0 id) }
    ensures { jat (cl (next_alt norm rs n) id) k = jat (cl norm0 id) k }
  = assert { jat (cl norm id) k = jat (cl norm0 id) k };
    assert { jsize (cl norm0 (lid rs (n-1))) <= slot norm0 rs p (n-1) };
    assert { jsize (cl norm0 (lid rs n)) <= slot norm0 rs p n };
    assert { id = lid rs n -> k <> slot norm0 rs p n }
  let lemma word_cont (norm0 norm: json_t) (rs: seq r_RawNlpRecord) (p: bool) (i n: int)
    requires { alts norm0 norm rs p n } requires { 0 <= i <= n < length rs } requires { has rs p i } requires { cont rs p n } requires { one_id rs }
    ensures { alt_word norm0 (next_alt norm rs n) rs p i }
  = if i < n then assert { alt_word norm0 norm rs p i }
    else begin
      assert { start rs p n = start rs p (n-1) };
      assert { said norm0 norm rs p n = said norm0 norm rs p (n-1) };
      assert { length (said norm0 norm rs p (n-1)) = n - 1 - start rs p (n-1) + 1 }
    end;
    if pure { lid rs i = lid rs n /\ slot norm0 rs p i = slot norm0 rs p n } then said_more norm0 norm rs p i n else said_same norm0 norm rs p i n
  let lemma end_cont (norm0 norm: json_t) (rs: seq r_RawNlpRecord) (p: bool) (i n: int)
    requires { alts norm0 norm rs p n } requires { 0 <= i <= n < length rs } requires { has rs p i } requires { cont rs p n } requires { one_id rs } requires { i = n \/ not cont rs p (i+1) }
    ensures { length (said norm0 (next_alt norm rs n) rs p i) = i - start rs p i + 1 }
  = if i < n then begin
      if pure { lid rs i = lid rs n } then slot_before norm0 rs p i n;
      said_same norm0 norm rs p i n
    end else begin
      assert { start rs p n = start rs p (n-1) };
      assert { said norm0 norm rs p n = said norm0 norm rs p (n-1) };
      assert { length (said norm0 norm rs p (n-1)) = n - 1 - start rs p (n-1) + 1 };
      said_more norm0 norm rs p n n
    end
  let lemma alts_cont (norm0 norm: json_t) (rs: seq r_RawNlpRecord) (p: bool) (n: int)
    requires { alts norm0 norm rs p n } requires { 0 < n < length rs } requires { cont rs p n } requires { one_id rs }
    ensures { alts norm0 (next_alt norm rs n) rs p (n+1) }
  = assert { alt_sizes norm0 (next_alt norm rs n) rs p (n+1) };
    assert { alt_old norm0 (next_alt norm rs n) };
    assert { alt_words norm0 (next_alt norm rs n) rs p (n+1) };
    assert { alt_ends norm0 (next_alt norm rs n) rs p (n+1) }
  let lemma alts_none (norm0 norm: json_t) (rs: seq r_RawNlpRecord) (p: bool) (n: int)
    requires { alts norm0 norm rs p n } requires { 0 <= n < length rs } requires { not has rs p n }
    ensures { alts norm0 norm rs p (n+1) }
  = assert { forall id [runs rs p id (n+1)]. runs rs p id (n+1) = runs rs p id n };
    assert { alt_sizes norm0 norm rs p (n+1) };
    assert { alt_words norm0 norm rs p (n+1) };
    assert { alt_ends norm0 norm rs p (n+1) }
  lemma alts_0: forall norm rs p [alts norm norm rs p 0]. norm <> j_null -> alts norm norm rs p 0
end
