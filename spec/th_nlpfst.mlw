(* The automaton of an NLP transcript: one step per token; an entity is a step, its alternatives, and a step *)
module NfstBase
  use int.Int
  use cxx.CxxSeq
  use cxx.CxxStr
  use cxx.CxxFlt
  use cxx.CxxFst
  use cxx.CxxSym
  use cxx.CxxJson
  use th_text.TextBase
  use th_load.LoadBase
  use th_nlpload.NlpSym
  function clen (norm: json_t) (t: str) (c: int) : int = length (cand norm t c)
  predicate one_arc (a: seq (seq r_StdArc)) (s l: int) (w: flt) (t: int) = length (get a s) = 1 /\ arc_is (get (get a s) 0) l w t
  function eps_of (t: symtab_t) : int = if sym_find t "<eps>" = -1 then 0 else sym_find t "<eps>"
end

module NfstDef
  use int.Int
  use cxx.CxxSeq
  use cxx.CxxJson
  use th_text.TextBase
  use th_nlpload.NlpSym
  use NfstBase
  let rec ghost function woffd (norm: json_t) (t: str) (c: int) : int variant { c } ensures { 0 <= result }
  = if c <= 0 then 0 else woffd norm t (c-1) + pure { clen norm t (c-1) }
  let rec lemma woff_mono_d (norm: json_t) (t: str) (c d: int) requires { 0 <= c <= d } ensures { woffd norm t c <= woffd norm t d } variant { d - c }
  = if c < d then woff_mono_d norm t c (d-1)
  let ghost function widthd (norm: json_t) (t: str) : int ensures { 0 <= result }
  = if pure { entity t } then 2 + woffd norm t (pure { ncands norm t }) else 0
  let rec ghost function nxd (norm: json_t) (ts: seq str) (k: int) : int variant { k } ensures { 1 <= result }
  = if k <= 0 then 1 else nxd norm ts (k-1) + 1 + widthd norm (pure { get ts (k-1) })
  let rec lemma nx_mono_d (norm: json_t) (ts: seq str) (j k: int) requires { 0 <= j <= k } ensures { nxd norm ts j + (k - j) <= nxd norm ts k } variant { k - j }
  = if j < k then nx_mono_d norm ts j (k-1)
  let ghost function pvd (norm: json_t) (ts: seq str) (k: int) : int
  = if k <= 0 then 0 else if pure { entity (get ts (k-1)) } then nxd norm ts (k-1) + 2 else nxd norm ts (k-1)
end

module NfstApi
  use int.Int
  use cxx.CxxSeq
  use cxx.CxxJson
  use th_text.TextBase
  use th_nlpload.NlpSym
  use NfstBase
  (* the words of the first c alternatives; the states an entity needs; the state after the k-th token's step; the state it leaves *)
  function woff (norm: json_t) (t: str) (c: int) : int
  axiom woff_0: forall norm t [woff norm t 0]. woff norm t 0 = 0
  axiom woff_s: forall norm t c d [woff norm t c, woff norm t d]. 0 <= c -> d = c + 1 -> woff norm t d = woff norm t c + clen norm t c
  axiom woff_mono: forall norm t c d [woff norm t c, woff norm t d]. 0 <= c <= d -> woff norm t c <= woff norm t d
  axiom woff_pos: forall norm t c [woff norm t c]. 0 <= woff norm t c
  function width (norm: json_t) (t: str) : int
  axiom width_def: forall norm t [width norm t]. width norm t = if entity t then 2 + woff norm t (ncands norm t) else 0
  function nx (norm: json_t) (ts: seq str) (k: int) : int
  axiom nx_0: forall norm ts [nx norm ts 0]. nx norm ts 0 = 1
  axiom nx_s: forall norm ts k m [nx norm ts k, nx norm ts m]. 0 <= k -> m = k + 1 -> nx norm ts m = nx norm ts k + 1 + width norm (get ts k)
  axiom nx_mono: forall norm ts j k [nx norm ts j, nx norm ts k]. 0 <= j <= k -> nx norm ts j + (k - j) <= nx norm ts k
  axiom nx_pos: forall norm ts k [nx norm ts k]. 1 <= nx norm ts k
  function pv (norm: json_t) (ts: seq str) (k: int) : int
  axiom pv_0: forall norm ts [pv norm ts 0]. pv norm ts 0 = 0
  axiom pv_s: forall norm ts k m [nx norm ts k, pv norm ts m]. 0 <= k -> m = k + 1 -> pv norm ts m = if entity (get ts k) then nx norm ts k + 2 else nx norm ts k
end

module NfstReal
  use NfstDef
  clone NfstApi with function woff = woffd, function width = widthd, function nx = nxd, function pv = pvd
end

module NfstSpec
  use int.Int
  use cxx.CxxSeq
  use cxx.CxxStr
  use cxx.CxxFlt
  use cxx.CxxFst
  use cxx.CxxSym
  use cxx.CxxJson
  use th_text.TextBase
  use th_load.LoadBase
  use th_nlpload.NlpSym
  use NfstBase
  use NfstApi
  lemma pv_range: forall norm ts k [pv norm ts k]. 0 <= k -> 0 <= pv norm ts k < nx norm ts k
  function wkey (y: symtab_t) (norm: json_t) (keep: bool) (t: str) (c w: int) : int = key_of y (candword norm keep t c w)
  (* alternative c of an entity t that was entered at state b, as a path from b to b + 1 *)
  function wst (norm: json_t) (t: str) (b c w: int) : int = b + 3 + woff norm t c + w
  predicate alt_word (a: seq (seq r_StdArc)) (y: symtab_t) (norm: json_t) (keep: bool) (t: str) (b c w: int) =
    one_arc a (wst norm t b c (w-1)) (wkey y norm keep t c w) (f_lit 1 0 1) (wst norm t b c w)
  predicate alt_entry (a: seq (seq r_StdArc)) (y: symtab_t) (norm: json_t) (keep: bool) (t: str) (b c: int) =
    if clen norm t c > 0 then arc_is (get (get a b) c) (wkey y norm keep t c 0) (f_lit 1 0 1) (wst norm t b c 0)
    else arc_is (get (get a b) c) (eps_of y) (f_lit 1 0 1) (b + 1)
  predicate alt_exit (a: seq (seq r_StdArc)) (y: symtab_t) (norm: json_t) (t: str) (b c: int) =
    clen norm t c > 0 -> one_arc a (wst norm t b c (clen norm t c - 1)) (eps_of y) (f_lit 1 0 1) (b + 1)
  predicate alt_words (a: seq (seq r_StdArc)) (y: symtab_t) (norm: json_t) (keep: bool) (t: str) (b c n: int) =
    forall w [alt_word a y norm keep t b c w]. 1 <= w < n -> alt_word a y norm keep t b c w
  predicate alt_path (a: seq (seq r_StdArc)) (y: symtab_t) (norm: json_t) (keep: bool) (t: str) (b c: int) =
    alt_entry a y norm keep t b c /\ alt_words a y norm keep t b c (clen norm t c) /\ alt_exit a y norm t b c
  predicate alt_paths (a: seq (seq r_StdArc)) (y: symtab_t) (norm: json_t) (keep: bool) (t: str) (b n: int) =
    forall c [clen norm t c]. 0 <= c < n -> alt_path a y norm keep t b c
  (* an entity: its alternatives, then its tag once more *)
  predicate entity_part (a: seq (seq r_StdArc)) (y: symtab_t) (norm: json_t) (keep: bool) (t: str) (b: int) =
    length (get a b) = ncands norm t /\ alt_paths a y norm keep t b (ncands norm t) /\ one_arc a (b + 1) (key_of y t) (f_lit 1 0 1) (b + 2)
  predicate token_step (a: seq (seq r_StdArc)) (y: symtab_t) (norm: json_t) (keep: bool) (ts: seq str) (m: seq int) (k: int) =
    one_arc a (pv norm ts k) (key_of y (get ts k)) (cost_at m k) (nx norm ts k) /\
    (entity (get ts k) -> entity_part a y norm keep (get ts k) (nx norm ts k))
  predicate steps (a: seq (seq r_StdArc)) (y: symtab_t) (norm: json_t) (keep: bool) (ts: seq str) (m: seq int) (n: int) =
    forall k [get ts k]. 0 <= k < n -> token_step a y norm keep ts m k
  (* a and b differ at most at state s and from state e on *)
  predicate same_but (a b: seq (seq r_StdArc)) (s e: int) = length a >= e /\ length b >= e /\ forall i [get b i]. 0 <= i < e -> i <> s -> get b i = get a i
  let lemma word_keep (a b: seq (seq r_StdArc)) (y: symtab_t) (norm: json_t) (keep: bool) (t: str) (x c n s e w: int)
    requires { 0 <= c } requires { 0 <= x } requires { 1 <= w < n } requires { same_but a b s e } requires { s < x + 3 \/ s >= x + 3 + woff norm t c + n - 1 } requires { x + 3 + woff norm t c + n - 1 <= e }
    requires { alt_words a y norm keep t x c n }
    ensures { alt_word b y norm keep t x c w }
  = assert { alt_word a y norm keep t x c w };
    let ghost q = pure { wst norm t x c (w-1) } in
    assert { x + 3 <= q < x + 3 + woff norm t c + n - 1 };
    assert { get b q = get a q }
  lemma word_kept: forall a b y norm keep t x c n s e w [alt_word b y norm keep t x c w, same_but a b s e, alt_words a y norm keep t x c n].
    0 <= c -> 0 <= x -> 1 <= w < n -> same_but a b s e -> (s < x + 3 \/ s >= x + 3 + woff norm t c + n - 1) -> x + 3 + woff norm t c + n - 1 <= e -> alt_words a y norm keep t x c n ->
    alt_word b y norm keep t x c w
  let lemma words_keep (a b: seq (seq r_StdArc)) (y: symtab_t) (norm: json_t) (keep: bool) (t: str) (x c n s e: int)
    requires { 0 <= c } requires { 0 <= x } requires { same_but a b s e } requires { s < x + 3 \/ s >= x + 3 + woff norm t c + n - 1 } requires { x + 3 + woff norm t c + n - 1 <= e }
    requires { alt_words a y norm keep t x c n }
    ensures { alt_words b y norm keep t x c n }
  = assert { forall w [alt_word b y norm keep t x c w]. 1 <= w < n -> alt_word b y norm keep t x c w }
  (* the alternatives so far are not touched by a change at the entry (an arc added), or at states behind them *)
  predicate grows (a b: seq (seq r_StdArc)) (x n: int) = length (get b x) >= n /\ length (get a x) >= n /\ forall i [get (get b x) i]. 0 <= i < n -> get (get b x) i = get (get a x) i
  let lemma path_keep (a b: seq (seq r_StdArc)) (y: symtab_t) (norm: json_t) (keep: bool) (t: str) (x c n s e: int)
    requires { 0 <= x } requires { 0 <= c < n } requires { same_but a b s e } requires { grows a b x n } requires { s < x + 1 \/ s = x + 2 \/ s >= x + 3 + woff norm t n } requires { x + 3 + woff norm t n <= e }
    requires { alt_path a y norm keep t x c }
    ensures { alt_path b y norm keep t x c }
  = assert { woff norm t (c+1) = woff norm t c + clen norm t c };
    assert { woff norm t (c+1) <= woff norm t n };
    words_keep a b y norm keep t x c (pure { clen norm t c }) s e;
    assert { get (get b x) c = get (get a x) c };
    assert { alt_entry b y norm keep t x c };
    assert { clen norm t c > 0 -> get b (wst norm t x c (clen norm t c - 1)) = get a (wst norm t x c (clen norm t c - 1)) };
    assert { alt_exit b y norm t x c }
  let lemma paths_keep (a b: seq (seq r_StdArc)) (y: symtab_t) (norm: json_t) (keep: bool) (t: str) (x n s e: int)
    requires { 0 <= x } requires { 0 <= n } requires { same_but a b s e } requires { grows a b x n } requires { s < x + 1 \/ s = x + 2 \/ s >= x + 3 + woff norm t n } requires { x + 3 + woff norm t n <= e }
    requires { alt_paths a y norm keep t x n }
    ensures { alt_paths b y norm keep t x n }
  = assert { forall c [clen norm t c]. 0 <= c < n -> alt_path b y norm keep t x c by alt_path a y norm keep t x c }
  (* finished tokens are not touched by a change at the current state, or behind *)
  let lemma step_keep (a b: seq (seq r_StdArc)) (y: symtab_t) (norm: json_t) (keep: bool) (ts: seq str) (m: seq int) (k n: int)
    requires { 0 <= k < n } requires { same_but a b (pv norm ts n) (nx norm ts n) } requires { token_step a y norm keep ts m k }
    ensures { token_step b y norm keep ts m k }
  = assert { nx norm ts (k+1) = nx norm ts k + 1 + width norm (get ts k) };
    assert { nx norm ts (k+1) <= nx norm ts n };
    assert { 0 <= pv norm ts k < nx norm ts k };
    assert { pv norm ts (k+1) = if entity (get ts k) then nx norm ts k + 2 else nx norm ts k };
    assert { n > k + 1 -> (pv norm ts n >= nx norm ts (k+1) by nx norm ts (k+1) <= nx norm ts (n-1)) };
    assert { pv norm ts n >= pv norm ts (k+1) };
    assert { get b (pv norm ts k) = get a (pv norm ts k) };
    if pure { entity (get ts k) } then begin
      let x = nx norm ts k in let t = pure { get ts k } in
      assert { width norm t = 2 + woff norm t (ncands norm t) };
      assert { get b x = get a x /\ get b (x+1) = get a (x+1) };
      paths_keep a b y norm keep t x (pure { ncands norm t }) (pv norm ts n) (nx norm ts n)
    end
  let lemma steps_keep (a b: seq (seq r_StdArc)) (y: symtab_t) (norm: json_t) (keep: bool) (ts: seq str) (m: seq int) (n: int)
    requires { 0 <= n } requires { same_but a b (pv norm ts n) (nx norm ts n) } requires { steps a y norm keep ts m n }
    ensures { steps b y norm keep ts m n }
  = assert { forall k [get ts k]. 0 <= k < n -> token_step b y norm keep ts m k by token_step a y norm keep ts m k }
  (* b is a with new states up to e and one more arc at p *)
  predicate linked (a b: seq (seq r_StdArc)) (e p l: int) (w: flt) (t: int) =
    0 <= p < length a /\ length a <= e /\ length b = e /\ get b p = snoc (get a p) { arc_ilabel = l; arc_olabel = l; arc_weight = w; arc_nextstate = t } /\
    (forall i [get b i]. 0 <= i < length a -> i <> p -> get b i = get a i) /\ (forall i [get b i]. length a <= i < e -> get b i = empty)
  (* between two alternatives; w words into alternative c *)
  predicate frame_of (a: seq (seq r_StdArc)) (y: symtab_t) (t: str) (x: int) =
    length a >= x + 3 /\ one_arc a (x+1) (key_of y t) (f_lit 1 0 1) (x+2) /\ get a (x+2) = empty
  predicate between (a: seq (seq r_StdArc)) (y: symtab_t) (norm: json_t) (keep: bool) (t: str) (x c: int) =
    length a = x + 3 + woff norm t c /\ length (get a x) = c /\ alt_paths a y norm keep t x c /\ frame_of a y t x
  predicate inside (a: seq (seq r_StdArc)) (y: symtab_t) (norm: json_t) (keep: bool) (t: str) (x c w: int) =
    length a = wst norm t x c w /\ length (get a x) = (if w > 0 then c + 1 else c) /\ alt_paths a y norm keep t x c /\ frame_of a y t x /\
    alt_words a y norm keep t x c w /\
    (w > 0 -> get a (wst norm t x c (w-1)) = empty /\ arc_is (get (get a x) c) (wkey y norm keep t c 0) (f_lit 1 0 1) (wst norm t x c 0))
  function at_state (norm: json_t) (t: str) (x c w: int) : int = if w = 0 then x else wst norm t x c (w-1)
  lemma alt_begin: forall a y norm keep t x c [inside a y norm keep t x c 0]. between a y norm keep t x c -> inside a y norm keep t x c 0
  let lemma alt_step (a b: seq (seq r_StdArc)) (y: symtab_t) (norm: json_t) (keep: bool) (t: str) (x c w: int)
    requires { 0 <= x } requires { 0 <= c } requires { 0 <= w < clen norm t c } requires { inside a y norm keep t x c w }
    requires { linked a b (length a + 1) (at_state norm t x c w) (wkey y norm keep t c w) (f_lit 1 0 1) (wst norm t x c w) }
    ensures { inside b y norm keep t x c (w+1) }
  = let ghost p = pure { at_state norm t x c w } in
    let ghost e = pure { wst norm t x c w } in
    assert { 0 <= p < length a };
    assert { length b = e + 1 };
    assert { forall i [get b i]. 0 <= i < e -> i <> p -> get b i = get a i };
    assert { same_but a b p e };
    assert { get b e = empty };
    assert { grows a b x c };
    paths_keep a b y norm keep t x c p e;
    words_keep a b y norm keep t x c w p e;
    assert { w > 0 -> alt_word b y norm keep t x c w };
    assert { alt_words b y norm keep t x c (w+1) };
    assert { frame_of b y t x };
    assert { w = 0 -> get (get b x) c = { arc_ilabel = wkey y norm keep t c w; arc_olabel = wkey y norm keep t c w; arc_weight = f_lit 1 0 1; arc_nextstate = e } };
    assert { w > 0 -> get b x = get a x };
    assert { arc_is (get (get b x) c) (wkey y norm keep t c 0) (f_lit 1 0 1) (wst norm t x c 0) }
  let lemma alt_close (a b: seq (seq r_StdArc)) (y: symtab_t) (norm: json_t) (keep: bool) (t: str) (x c w: int)
    requires { 0 <= x } requires { 0 <= c } requires { w = clen norm t c } requires { inside a y norm keep t x c w }
    requires { linked a b (length a) (at_state norm t x c w) (eps_of y) (f_lit 1 0 1) (x+1) }
    ensures { between b y norm keep t x (c+1) }
  = let ghost p = pure { at_state norm t x c w } in
    let ghost e = pure { wst norm t x c w } in
    assert { 0 <= p < length a };
    assert { woff norm t (c+1) = woff norm t c + w };
    assert { length b = e };
    assert { e = x + 3 + woff norm t (c+1) };
    assert { clen norm t c = w };
    assert { same_but a b p e };
    assert { length (get a x) >= c };
    assert { w > 0 -> get b x = get a x };
    assert { w = 0 -> p = x };
    assert { w = 0 -> get b x = snoc (get a x) { arc_ilabel = eps_of y; arc_olabel = eps_of y; arc_weight = f_lit 1 0 1; arc_nextstate = x+1 } };
    assert { length (get b x) >= c };
    assert { forall i [get (get b x) i]. 0 <= i < c -> get (get b x) i = get (get a x) i };
    assert { grows a b x c };
    paths_keep a b y norm keep t x c p e;
    words_keep a b y norm keep t x c w p e;
    assert { w > 0 -> get (get b (wst norm t x c (w-1))) 0 = { arc_ilabel = eps_of y; arc_olabel = eps_of y; arc_weight = f_lit 1 0 1; arc_nextstate = x+1 } };
    assert { alt_exit b y norm t x c };
    assert { w > 0 -> get b x = get a x };
    assert { alt_entry b y norm keep t x c };
    assert { alt_path b y norm keep t x c };
    assert { frame_of b y t x };
    assert { length (get b x) = c + 1 };
    assert { alt_paths b y norm keep t x (c+1) }
  (* finished tokens, the step of token k made, its entity not yet *)
  predicate entered (a: seq (seq r_StdArc)) (y: symtab_t) (norm: json_t) (keep: bool) (ts: seq str) (m: seq int) (k: int) =
    steps a y norm keep ts m k /\ one_arc a (pv norm ts k) (key_of y (get ts k)) (cost_at m k) (nx norm ts k) /\ length a >= nx norm ts k + 1
  let lemma entered_keep (a b: seq (seq r_StdArc)) (y: symtab_t) (norm: json_t) (keep: bool) (ts: seq str) (m: seq int) (k: int)
    requires { 0 <= k } requires { entered a y norm keep ts m k } requires { length b >= length a } requires { forall i [get b i]. 0 <= i < nx norm ts k -> get b i = get a i }
    ensures { entered b y norm keep ts m k }
  = assert { same_but a b (pv norm ts k) (nx norm ts k) };
    steps_keep a b y norm keep ts m k;
    assert { get b (pv norm ts k) = get a (pv norm ts k) }
  let lemma enter (a b: seq (seq r_StdArc)) (y: symtab_t) (norm: json_t) (keep: bool) (ts: seq str) (m: seq int) (k: int)
    requires { 0 <= k } requires { steps a y norm keep ts m k } requires { length a = nx norm ts k } requires { get a (pv norm ts k) = empty }
    requires { linked a b (length a + 1) (pv norm ts k) (key_of y (get ts k)) (cost_at m k) (nx norm ts k) }
    ensures { entered b y norm keep ts m k }
  = assert { same_but a b (pv norm ts k) (nx norm ts k) };
    steps_keep a b y norm keep ts m k
  lemma step_plain: forall a y norm keep ts m k n [entered a y norm keep ts m k, steps a y norm keep ts m n]. 0 <= k -> n = k + 1 -> entered a y norm keep ts m k -> not entity (get ts k) -> steps a y norm keep ts m n
  lemma step_entity: forall a y norm keep ts m k n x c [entered a y norm keep ts m k, steps a y norm keep ts m n, between a y norm keep (get ts k) x c].
    0 <= k -> n = k + 1 -> x = nx norm ts k -> c = ncands norm (get ts k) -> entered a y norm keep ts m k -> between a y norm keep (get ts k) x c -> steps a y norm keep ts m n
end
