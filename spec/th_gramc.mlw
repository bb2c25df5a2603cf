(* The statistics of words and word pairs *)
module GramcBase
  use int.Int
  use cxx.CxxSeq
  use cxx.CxxMap
  use cxx.CxxSet
  use cxx.CxxFlt
  use cxx.CxxStr
  use th_text.TextBase
  use th_rev.RevBase
  use th_count.CountBase
  function part (c n: int) : flt = if n <> 0 then f_mul (f_div (f_of_int c) (f_of_int n)) (f_lit 1 100 1) else f_lit 1 0 1
  function counter (c d fp fn i: int) : r_gram_error_counter =
    { gram_error_counter_correct = c; gram_error_counter_del = d; gram_error_counter_subst_fp = fp; gram_error_counter_subst_fn = fn; gram_error_counter_ins = i;
      gram_error_counter_precision = part c (c + i + fp); gram_error_counter_recall = part c (c + d + fn) }
  (* what a row of two words (or word pairs) counts for; 0 correct, 1 replaced, 2 put in its place, 3 deleted, 4 inserted *)
  function bkind (p: pair str str) (k: int) (w: str) : int =
    if (if k = 0 then p.first = p.second /\ p.first = w
        else if k = 1 then p.first <> p.second /\ plain p.first /\ plain p.second /\ p.first = w
        else if k = 2 then p.first <> p.second /\ plain p.first /\ plain p.second /\ p.second = w
        else if k = 3 then sfind p.second "<del>" 0 <> npos_ /\ p.first = w
        else if k = 4 then sfind p.first "<ins>" 0 <> npos_ /\ p.second = w
        else if k = 5 then p.first = w
        else p.second = w) then 1 else 0
  function whit (s: seq str) (i: int) (w: str) : int = if get s i = w then 1 else 0
  predicate listed (st: seq (pair str r_gram_error_counter)) (w: str) = exists k [get st k]. 0 <= k < length st /\ (get st k).first = w
  lemma listed_at: forall st k [get st k]. 0 <= k < length st -> listed st (get st k).first
  predicate apart (e: seq str) (n: int) = forall x y [get e x, get e y]. 0 <= x < y < n -> get e x <> get e y
  function score (c d fp fn i: cmap str int) (w: str) : int = cval c w + cval i w + cval d w + cval fp w + cval fn w
  function entry (c d fp fn i: cmap str int) (w: str) : pair str r_gram_error_counter =
    { first = w; second = counter (cval c w) (cval d w) (cval fp w) (cval fn w) (cval i w) }
  (* less precise first, then lower recall, then by word *)
  predicate before (p q: pair str r_gram_error_counter) =
    if not (f_eq p.second.gram_error_counter_precision q.second.gram_error_counter_precision) then f_lt p.second.gram_error_counter_precision q.second.gram_error_counter_precision
    else if not (f_eq p.second.gram_error_counter_recall q.second.gram_error_counter_recall) then f_lt p.second.gram_error_counter_recall q.second.gram_error_counter_recall
    else str_lt p.first q.first
  predicate ranked (s: seq (pair str r_gram_error_counter)) = forall i j [get s i, get s j]. 0 <= i < j < length s -> not before (get s j) (get s i)
end

module GramcDef
  use int.Int
  use cxx.CxxSeq
  use cxx.CxxMap
  use th_count.CountBase
  use GramcBase
  let rec ghost function pocc (t: seq (pair str str)) (n k: int) (w: str) : int variant { n } ensures { 0 <= result /\ (0 <= n -> result <= n) }
  = if n <= 0 then 0 else pocc t (n-1) k w + pure { bkind (get t (n-1)) k w }
  let rec ghost function wocc (s: seq str) (n: int) (w: str) : int variant { n } ensures { 0 <= result /\ (0 <= n -> result <= n) }
  = if n <= 0 then 0 else wocc s (n-1) w + pure { whit s (n-1) w }
  let rec ghost function keptd (e: seq str) (c d fp fn i: cmap str int) (thr n: int) : seq (pair str r_gram_error_counter) variant { n }
  = if n <= 0 then pure { (empty: seq (pair str r_gram_error_counter)) } else
    let r = keptd e c d fp fn i thr (n-1) in
    if pure { score c d fp fn i (get e (n-1)) >= thr } then snoc r (pure { entry c d fp fn i (get e (n-1)) }) else r
  let rec lemma kept_sound_d (e: seq str) (c d fp fn i: cmap str int) (thr n k: int)
    requires { 0 <= k < length (keptd e c d fp fn i thr n) } variant { n }
    ensures { exists j. 0 <= j < n /\ score c d fp fn i (get e j) >= thr /\ get (keptd e c d fp fn i thr n) k = entry c d fp fn i (get e j) }
  = if n > 0 then
      if pure { k < length (keptd e c d fp fn i thr (n-1)) } then kept_sound_d e c d fp fn i thr (n-1) k
      else assert { get (keptd e c d fp fn i thr n) k = entry c d fp fn i (get e (n-1)) }
  let rec lemma kept_complete_d (e: seq str) (c d fp fn i: cmap str int) (thr n j: int)
    requires { 0 <= j < n /\ score c d fp fn i (get e j) >= thr } variant { n }
    ensures { listed (keptd e c d fp fn i thr n) (get e j) }
  = if j < n - 1 then begin kept_complete_d e c d fp fn i thr (n-1) j;
      assert { forall k [get (keptd e c d fp fn i thr (n-1)) k]. 0 <= k < length (keptd e c d fp fn i thr (n-1)) -> get (keptd e c d fp fn i thr n) k = get (keptd e c d fp fn i thr (n-1)) k } end
    else assert { get (keptd e c d fp fn i thr n) (length (keptd e c d fp fn i thr (n-1))) = entry c d fp fn i (get e j) }
  let rec lemma kept_distinct_d (e: seq str) (c d fp fn i: cmap str int) (thr n k l: int)
    requires { apart e n } requires { 0 <= k < l < length (keptd e c d fp fn i thr n) } variant { n }
    ensures { (get (keptd e c d fp fn i thr n) k).first <> (get (keptd e c d fp fn i thr n) l).first }
  = if n > 0 then
      if pure { l < length (keptd e c d fp fn i thr (n-1)) } then kept_distinct_d e c d fp fn i thr (n-1) k l
      else begin kept_sound_d e c d fp fn i thr (n-1) k; assert { get (keptd e c d fp fn i thr n) l = entry c d fp fn i (get e (n-1)) } end
end

module GramcApi
  use int.Int
  use cxx.CxxSeq
  use cxx.CxxMap
  use th_count.CountBase
  use GramcBase
  function po (t: seq (pair str str)) (n k: int) (w: str) : int
  axiom po_0: forall t n k w [po t n k w]. n <= 0 -> po t n k w = 0
  axiom po_s: forall t n m k w [po t n k w, po t m k w]. 0 <= n -> m = n + 1 -> po t m k w = po t n k w + bkind (get t n) k w
  axiom po_range: forall t n k w [po t n k w]. 0 <= po t n k w /\ (0 <= n -> po t n k w <= n)
  function wo (s: seq str) (n: int) (w: str) : int
  axiom wo_0: forall s n w [wo s n w]. n <= 0 -> wo s n w = 0
  axiom wo_s: forall s n m w [wo s n w, wo s m w]. 0 <= n -> m = n + 1 -> wo s m w = wo s n w + whit s n w
  axiom wo_range: forall s n w [wo s n w]. 0 <= wo s n w /\ (0 <= n -> wo s n w <= n)
  function kept (e: seq str) (c d fp fn i: cmap str int) (thr n: int) : seq (pair str r_gram_error_counter)
  axiom kept_0: forall e c d fp fn i thr [kept e c d fp fn i thr 0]. kept e c d fp fn i thr 0 = empty
  axiom kept_s: forall e c d fp fn i thr n m [kept e c d fp fn i thr n, kept e c d fp fn i thr m]. 0 <= n -> m = n + 1 ->
    kept e c d fp fn i thr m = if score c d fp fn i (get e n) >= thr then snoc (kept e c d fp fn i thr n) (entry c d fp fn i (get e n)) else kept e c d fp fn i thr n
  axiom kept_sound: forall e c d fp fn i thr n k [get (kept e c d fp fn i thr n) k]. 0 <= k < length (kept e c d fp fn i thr n) ->
    exists j. 0 <= j < n /\ score c d fp fn i (get e j) >= thr /\ get (kept e c d fp fn i thr n) k = entry c d fp fn i (get e j)
  axiom kept_complete: forall e c d fp fn i thr n j [kept e c d fp fn i thr n, get e j]. 0 <= j < n -> score c d fp fn i (get e j) >= thr ->
    listed (kept e c d fp fn i thr n) (get e j)
  axiom kept_distinct: forall e c d fp fn i thr n k l [get (kept e c d fp fn i thr n) k, get (kept e c d fp fn i thr n) l].
    apart e n -> 0 <= k < l < length (kept e c d fp fn i thr n) ->
    (get (kept e c d fp fn i thr n) k).first <> (get (kept e c d fp fn i thr n) l).first
end

module GramcReal
  use GramcDef
  clone GramcApi with function po = pocc, function wo = wocc, function kept = keptd
end

module GramcSpec
  use int.Int
  use cxx.CxxSeq
  use cxx.CxxMap
  use cxx.CxxSet
  use cxx.CxxPerm
  use th_text.TextBase
  use th_rev.RevBase
  use th_count.CountBase
  use th_count.CountApi
  use th_count.CountSpec
  use GramcBase
  use GramcApi
  predicate st_distinct (st: seq (pair str r_gram_error_counter)) =
    forall k l [get st k, get st l]. 0 <= k < l < length st -> (get st k).first <> (get st l).first
  (* the list st has exactly one entry for every listed word that occurs often enough, and no other *)
  predicate st_entry (x: pair str r_gram_error_counter) (words: cset str) (c d fp fn i: cmap str int) (thr: int) =
    smem words x.first /\ score c d fp fn i x.first >= thr /\ x = entry c d fp fn i x.first
  predicate st_sound (st: seq (pair str r_gram_error_counter)) (words: cset str) (c d fp fn i: cmap str int) (thr: int) =
    forall k [get st k]. 0 <= k < length st -> st_entry (get st k) words c d fp fn i thr
  predicate st_full (st: seq (pair str r_gram_error_counter)) (words: cset str) (c d fp fn i: cmap str int) (thr: int) =
    forall w [smem words w | listed st w]. smem words w -> score c d fp fn i w >= thr -> listed st w
  predicate stat_list (st: seq (pair str r_gram_error_counter)) (words: cset str) (c d fp fn i: cmap str int) (thr: int) =
    st_sound st words c d fp fn i thr /\ st_full st words c d fp fn i thr /\ st_distinct st
  lemma selems_apart: forall words: cset str, n [apart (selems words) n]. n = length (selems words) -> apart (selems words) n
  lemma kept_st_sound: forall words c d fp fn i thr n [kept (selems words) c d fp fn i thr n]. n = length (selems words) -> st_sound (kept (selems words) c d fp fn i thr n) words c d fp fn i thr
  let lemma kept_has (words: cset str) (c d fp fn i: cmap str int) (thr n: int) (w: str)
    requires { n = length (selems words) } requires { smem words w } requires { score c d fp fn i w >= thr }
    ensures { listed (kept (selems words) c d fp fn i thr n) w }
  = assert { exists j. 0 <= j < n /\ get (selems words) j = w };
    assert { exists j. 0 <= j < n /\ get (selems words) j = w /\ score c d fp fn i (get (selems words) j) >= thr }
  lemma kept_st_full: forall words c d fp fn i thr n [kept (selems words) c d fp fn i thr n]. n = length (selems words) -> st_full (kept (selems words) c d fp fn i thr n) words c d fp fn i thr
  let lemma kept_pair (words: cset str) (c d fp fn i: cmap str int) (thr n k l: int)
    requires { n = length (selems words) } requires { 0 <= k < l < length (kept (selems words) c d fp fn i thr n) }
    ensures { (get (kept (selems words) c d fp fn i thr n) k).first <> (get (kept (selems words) c d fp fn i thr n) l).first }
  = assert { apart (selems words) n };
    assert { get (kept (selems words) c d fp fn i thr n) k = get (kept (selems words) c d fp fn i thr n) k };
    assert { get (kept (selems words) c d fp fn i thr n) l = get (kept (selems words) c d fp fn i thr n) l }
  lemma kept_st_distinct: forall words c d fp fn i thr n [kept (selems words) c d fp fn i thr n]. n = length (selems words) -> st_distinct (kept (selems words) c d fp fn i thr n)
  lemma kept_all: forall words c d fp fn i thr n [kept (selems words) c d fp fn i thr n]. n = length (selems words) -> stat_list (kept (selems words) c d fp fn i thr n) words c d fp fn i thr
  lemma permuted_listed: forall s t: seq (pair str r_gram_error_counter), w [permuted s t, listed s w]. permuted s t -> listed s w -> listed t w
  lemma permuted_sound: forall s t words c d fp fn i thr [permuted s t, st_sound s words c d fp fn i thr].
    permuted s t -> st_sound s words c d fp fn i thr -> st_sound t words c d fp fn i thr
  lemma permuted_full: forall s t words c d fp fn i thr [permuted s t, st_full s words c d fp fn i thr].
    permuted s t -> st_full s words c d fp fn i thr -> st_full t words c d fp fn i thr
  let lemma perm_apart (s t: seq (pair str r_gram_error_counter)) (k l: int)
    requires { permuted s t } requires { st_distinct s } requires { 0 <= k < l < length t }
    ensures { (get t k).first <> (get t l).first }
  = assert { get t k = get s (perm_of s t k) };
    assert { get t l = get s (perm_of s t l) };
    assert { perm_inv s t (perm_of s t k) = k };
    assert { perm_inv s t (perm_of s t l) = l };
    assert { perm_of s t k <> perm_of s t l };
    assert { perm_of s t k < perm_of s t l \/ perm_of s t l < perm_of s t k }
  lemma permuted_distinct: forall s t: seq (pair str r_gram_error_counter) [permuted s t, st_distinct s].
    permuted s t -> st_distinct s -> st_distinct t
  lemma stat_permuted: forall s t words c d fp fn i thr [permuted s t, stat_list s words c d fp fn i thr].
    permuted s t -> stat_list s words c d fp fn i thr -> stat_list t words c d fp fn i thr
  (* counters of a list of words, of the rows of a list of pairs *)
  predicate wcounts (m: cmap str int) (s: seq str) (n: int) = forall w [mget m w | mmem m w | cval m w]. cval m w = wo s n w /\ (mmem m w <-> wo s n w > 0)
  predicate pcounts (m: cmap str int) (t: seq (pair str str)) (n k: int) = forall w [mget m w | mmem m w | cval m w]. cval m w = po t n k w /\ (mmem m w <-> po t n k w > 0)
  predicate matched (m: cmap str int) (a: r_wer_alignment) = forall w [mget m w | mmem m w | cval m w]. cval m w = cnt a (ntok a) 0 w /\ (mmem m w <-> cnt a (ntok a) 0 w > 0)
  (* the words of an alignment: matched, or on one side of an error *)
  predicate words_to (s: cset str) (a: r_wer_alignment) (nd ns ni: int) =
    forall w [smem s w]. smem s w <-> cnt a (ntok a) 0 w > 0 \/ cnt a (ntok a) 1 w > 0 \/ wo a.wer_alignment_del_words nd w > 0 \/
      po a.wer_alignment_sub_words ns 5 w > 0 \/ po a.wer_alignment_sub_words ns 6 w > 0 \/ wo a.wer_alignment_ins_words ni w > 0
  function udel (a: r_wer_alignment) (w: str) : int = wo a.wer_alignment_del_words (length a.wer_alignment_del_words) w
  function uins (a: r_wer_alignment) (w: str) : int = wo a.wer_alignment_ins_words (length a.wer_alignment_ins_words) w
  function usub (a: r_wer_alignment) (k: int) (w: str) : int = po a.wer_alignment_sub_words (length a.wer_alignment_sub_words) k w
  function uok (a: r_wer_alignment) (w: str) : int = cnt a (ntok a) 0 w
  predicate uword (a: r_wer_alignment) (w: str) = uok a w > 0 \/ cnt a (ntok a) 1 w > 0 \/ udel a w > 0 \/ usub a 5 w > 0 \/ usub a 6 w > 0 \/ uins a w > 0
  function uscore (a: r_wer_alignment) (w: str) : int = uok a w + uins a w + udel a w + usub a 6 w + usub a 5 w
  predicate uentry (x: pair str r_gram_error_counter) (a: r_wer_alignment) (thr: int) =
    uword a x.first /\ uscore a x.first >= thr /\ x.second = counter (uok a x.first) (udel a x.first) (usub a 6 x.first) (usub a 5 x.first) (uins a x.first)
  predicate unigrams_of (st: seq (pair str r_gram_error_counter)) (a: r_wer_alignment) (thr: int) =
    (forall k [get st k]. 0 <= k < length st -> uentry (get st k) a thr) /\
    (forall w [uword a w | listed st w]. uword a w -> uscore a w >= thr -> listed st w) /\
    st_distinct st
  predicate all_unigrams (words: cset str) (c d fp fn i: cmap str int) (a: r_wer_alignment) =
    matched c a /\ wcounts d a.wer_alignment_del_words (length a.wer_alignment_del_words) /\ wcounts i a.wer_alignment_ins_words (length a.wer_alignment_ins_words) /\
    pcounts fp a.wer_alignment_sub_words (length a.wer_alignment_sub_words) 6 /\ pcounts fn a.wer_alignment_sub_words (length a.wer_alignment_sub_words) 5 /\
    words_to words a (length a.wer_alignment_del_words) (length a.wer_alignment_sub_words) (length a.wer_alignment_ins_words)
  lemma uwords_eq: forall words c d fp fn i a w [all_unigrams words c d fp fn i a, uword a w | all_unigrams words c d fp fn i a, smem words w].
    all_unigrams words c d fp fn i a -> (smem words w <-> uword a w)
  lemma uscore_eq: forall words c d fp fn i a w [all_unigrams words c d fp fn i a, uscore a w | all_unigrams words c d fp fn i a, score c d fp fn i w].
    all_unigrams words c d fp fn i a -> score c d fp fn i w = uscore a w
  lemma uentry_eq: forall words c d fp fn i a thr x [all_unigrams words c d fp fn i a, st_entry x words c d fp fn i thr].
    all_unigrams words c d fp fn i a -> st_entry x words c d fp fn i thr -> uentry x a thr
  lemma unigrams_done: forall st words c d fp fn i thr a [all_unigrams words c d fp fn i a, unigrams_of st a thr].
    stat_list st words c d fp fn i thr -> all_unigrams words c d fp fn i a -> unigrams_of st a thr
end

module GramcPairs
  use int.Int
  use cxx.CxxSeq
  use cxx.CxxMap
  use cxx.CxxSet
  use th_text.TextBase
  use th_rev.RevBase
  use th_count.CountBase
  use th_bigram.BigramBase
  use th_bigram.BigramApi
  use th_bigram.BigramSpec
  use GramcBase
  use GramcApi
  use GramcSpec
  predicate bword (f: seq (pair str str)) (w: str) = bocc f (length f - 1) 0 w > 0 \/ bocc f (length f - 1) 1 w > 0
  function bcnt (t: seq (pair str str)) (k: int) (w: str) : int = po t (length t) k w
  function bscore (t: seq (pair str str)) (w: str) : int = bcnt t 0 w + bcnt t 4 w + bcnt t 3 w + bcnt t 2 w + bcnt t 1 w
  predicate bentry (x: pair str r_gram_error_counter) (t f: seq (pair str str)) (thr: int) =
    bword f x.first /\ bscore t x.first >= thr /\ x.second = counter (bcnt t 0 x.first) (bcnt t 3 x.first) (bcnt t 2 x.first) (bcnt t 1 x.first) (bcnt t 4 x.first)
  predicate bigrams_of (st: seq (pair str r_gram_error_counter)) (t f: seq (pair str str)) (thr: int) =
    (forall k [get st k]. 0 <= k < length st -> bentry (get st k) t f thr) /\
    (forall w [bword f w | listed st w]. bword f w -> bscore t w >= thr -> listed st w) /\
    st_distinct st
  predicate all_bigrams (words: cset str) (c d fp fn i: cmap str int) (t f: seq (pair str str)) =
    pcounts c t (length t) 0 /\ pcounts fn t (length t) 1 /\ pcounts fp t (length t) 2 /\ pcounts d t (length t) 3 /\ pcounts i t (length t) 4 /\ bnoted words f (length f - 1)
  lemma bwords_eq: forall words c d fp fn i t f w [all_bigrams words c d fp fn i t f, bword f w | all_bigrams words c d fp fn i t f, smem words w].
    all_bigrams words c d fp fn i t f -> (smem words w <-> bword f w)
  lemma bscore_eq: forall words c d fp fn i t f w [all_bigrams words c d fp fn i t f, bscore t w | all_bigrams words c d fp fn i t f, score c d fp fn i w].
    all_bigrams words c d fp fn i t f -> score c d fp fn i w = bscore t w
  lemma bentry_eq: forall words c d fp fn i t f thr x [all_bigrams words c d fp fn i t f, st_entry x words c d fp fn i thr].
    all_bigrams words c d fp fn i t f -> st_entry x words c d fp fn i thr -> bentry x t f thr
  lemma bigrams_done: forall st words c d fp fn i thr t f [all_bigrams words c d fp fn i t f, bigrams_of st t f thr].
    stat_list st words c d fp fn i thr -> all_bigrams words c d fp fn i t f -> bigrams_of st t f thr
end
