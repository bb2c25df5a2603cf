(* What a WER report says about a sequence of stitches.  kind: 0 insertions, 1 deletions, 2 substitutions, 3 reference words *)
module WerBase
  predicate is_ins (st: r_Stitching) = starts st.stitching_comment "ins"
  predicate is_del (st: r_Stitching) = starts st.stitching_comment "del"
  predicate is_sub (st: r_Stitching) = starts st.stitching_comment "sub"
  function rate (err nref nhyp: int) : flt =
    if nref > 0 then f_div (f_of_int err) (f_of_int nref) else if nhyp > 0 then f_inf else f_neg f_nan
  function rate0 (err nref nhyp: int) : flt =
    if nref > 0 then f_div (f_of_int err) (f_of_int nref) else if nhyp > 0 then f_inf else f_lit 1 0 1
  predicate says (j: json_t) (ins del sub nref: int) =
    jget j "insertions" = j_int ins /\ jget j "deletions" = j_int del /\ jget j "substitutions" = j_int sub /\
    jget j "numWordsInReference" = j_int nref /\ jget j "numErrors" = j_int (ins + del + sub) /\
    jget j "wer" = j_flt (rate (ins + del + sub) nref 0)
  predicate wkey (k: str) = k = "insertions" \/ k = "deletions" \/ k = "substitutions" \/ k = "numWordsInReference" \/ k = "numErrors" \/ k = "wer"
  predicate is_wr (w: r_WerResult) (ins del sub nref: int) =
    w.werResult_insertions = ins /\ w.werResult_deletions = del /\ w.werResult_substitutions = sub /\
    w.werResult_numWordsInReference = nref /\ w.werResult_numWordsInHypothesis = 0
  (* everything in the log but root.wer.<section> *)
  predicate only_section (before after: json_t) (section: str) =
    (forall k. k <> "wer" -> jget after k = jget before k) /\
    (forall k. k <> section -> jget (jget after "wer") k = jget (jget before "wer") k)
end

module ClassBase
  use WerBase
  use th_text.LabelBase
  use th_text.LabelApi
  (* sum of one count over the first n label alignments of class c *)
  function fld (a: r_wer_alignment) (kind: int) : int =
    if kind = 0 then a.wer_alignment_insertions else if kind = 1 then a.wer_alignment_deletions
    else if kind = 2 then a.wer_alignment_substitutions else a.wer_alignment_numWordsInReference
  predicate wf_labels (s: seq b_wer_alignment) = forall i [get s i]. 0 <= i < length s -> wf_label (unbox_wer_alignment (get s i)).wer_alignment_classLabel
  function cone (a: r_wer_alignment) (c: str) (kind: int) : int = if class_name a.wer_alignment_classLabel = c then fld a kind else 0
end

module ClassDef
  use th_text.LabelApi
  use ClassBase
  let rec ghost function csumd (s: seq b_wer_alignment) (c: str) (kind n: int) : int
    variant { n }
  = if n <= 0 then 0 else csumd s c kind (n-1) + cone (unbox_wer_alignment (get s (n-1))) c kind
  predicate chasd (s: seq b_wer_alignment) (c: str) (n: int) =
    exists i. 0 <= i < n /\ class_name (unbox_wer_alignment (get s i)).wer_alignment_classLabel = c
end

module ClassApi
  use WerBase
  use ClassBase
  use th_text.LabelApi
  function csum (s: seq b_wer_alignment) (c: str) (kind n: int) : int
  axiom csum_0: forall s c kind [csum s c kind 0]. csum s c kind 0 = 0
  axiom csum_s: forall s c kind n n2 [csum s c kind n, csum s c kind n2]. 0 <= n -> n2 = n + 1 -> csum s c kind n2 = csum s c kind n + cone (unbox_wer_alignment (get s n)) c kind
  (* class c occurs among the first n *)
  predicate chas (s: seq b_wer_alignment) (c: str) (n: int)
  axiom chas_0: forall s c [chas s c 0]. not chas s c 0
  axiom chas_s: forall s c n n2 [chas s c n, chas s c n2]. 0 <= n -> n2 = n + 1 -> (chas s c n2 <-> chas s c n \/ class_name (unbox_wer_alignment (get s n)).wer_alignment_classLabel = c)
  predicate is_csum (w: r_WerResult) (s: seq b_wer_alignment) (c: str) (n: int) =
    is_wr w (csum s c 0 n) (csum s c 1 n) (csum s c 2 n) (csum s c 3 n)
  predicate says_csum (j: json_t) (s: seq b_wer_alignment) (c: str) (n: int) =
    says j (csum s c 0 n) (csum s c 1 n) (csum s c 2 n) (csum s c 3 n)
  predicate cls_keys (m: cmap str r_WerResult) (s: seq b_wer_alignment) (n: int) = forall c [mmem m c]. mmem m c <-> chas s c n
  predicate cls_ok (m: cmap str r_WerResult) (s: seq b_wer_alignment) (n: int) (c: str) =
    (mmem m c -> is_csum (mget m c) s c n) /\ (not mmem m c -> csum s c 0 n = 0 /\ csum s c 1 n = 0 /\ csum s c 2 n = 0 /\ csum s c 3 n = 0)
  predicate cls_all (m: cmap str r_WerResult) (s: seq b_wer_alignment) (n: int) = forall c [mmem m c]. cls_ok m s n c
end

module ClassReal
  use ClassBase
  use ClassDef
  clone ClassApi with function csum = csumd, predicate chas = chasd
end

(* counting over rows; s_seq = the stitched table *)
module RowsBase
  use WerBase
  (* what one row adds: 0 insertions, 1 deletions, 2 substitutions, 3 reference words *)
  function rone (st: r_Stitching) (kind: int) : int =
    if kind = 0 then (if is_ins st then 1 else 0) else if kind = 1 then (if is_del st then 1 else 0)
    else if kind = 2 then (if is_sub st then 1 else 0) else (if is_ins st then 0 else 1)
  predicate eos (st: r_Stitching) =
    st.stitching_nlpRow.rawNlpRecord_punctuation = "." \/ st.stitching_nlpRow.rawNlpRecord_punctuation = "?" \/ st.stitching_nlpRow.rawNlpRecord_punctuation = "!"
end

module RowsDef
  use RowsBase
  (* number of sentence ends among the first n rows *)
  let rec ghost function nsentd (s: seq r_Stitching) (n: int) : int
    variant { n }
  = if n <= 0 then 0 else nsentd s (n-1) + (if eos (get s (n-1)) then 1 else 0)
  (* sum of the counts of the first n rows *)
  let rec ghost function ssumd (s: seq r_Stitching) (kind n: int) : int
    variant { n }
  = if n <= 0 then 0 else ssumd s kind (n-1) + rone (get s (n-1)) kind
  (* the row after the k-th sentence end, among the first n rows *)
  let rec ghost function spos (s: seq r_Stitching) (k n: int) : int
    variant { n }
  = if n <= 0 then 0 else if eos (get s (n-1)) && nsentd s n = k then n else spos s k (n-1)
  let ghost function sstartd (s: seq r_Stitching) (k: int) : int = if k <= 0 then 0 else spos s k (length s)
  let rec lemma nsentd_mono (s: seq r_Stitching) (m n: int)
    requires { 0 <= m <= n }
    ensures { 0 <= nsentd s m <= nsentd s n }
    variant { n }
  = if m < n then nsentd_mono s m (n-1) else if n > 0 then nsentd_mono s (n-1) (n-1)
  let rec lemma spos_at (s: seq r_Stitching) (p n: int)
    requires { 0 <= p < n <= length s }
    requires { eos (get s p) }
    ensures { spos s (nsentd s (p+1)) n = p + 1 }
    variant { n }
  = if n > p + 1 then begin nsentd_mono s (p+1) (n-1); spos_at s p (n-1) end
end

module RowsApi
  use WerBase
  use RowsBase
  function ssum (s: seq r_Stitching) (kind n: int) : int
  axiom ssum_0: forall s kind [ssum s kind 0]. ssum s kind 0 = 0
  axiom ssum_s: forall s kind n [ssum s kind (n+1)]. 0 <= n -> ssum s kind (n+1) = ssum s kind n + rone (get s n) kind
  function nsent (s: seq r_Stitching) (n: int) : int
  axiom nsent_0: forall s [nsent s 0]. nsent s 0 = 0
  axiom nsent_s: forall s n [nsent s (n+1)]. 0 <= n -> nsent s (n+1) = nsent s n + (if eos (get s n) then 1 else 0)
  (* the first row of the k-th sentence *)
  function sstart (s: seq r_Stitching) (k: int) : int
  axiom sstart_0: forall s [sstart s 0]. sstart s 0 = 0
  axiom sstart_s: forall s n [nsent s (n+1)]. 0 <= n < length s -> eos (get s n) -> sstart s (nsent s (n+1)) = n + 1
  (* what rows lo .. hi-1 add up to *)
  predicate is_range (w: r_WerResult) (s: seq r_Stitching) (lo hi: int) =
    is_wr w (ssum s 0 hi - ssum s 0 lo) (ssum s 1 hi - ssum s 1 lo) (ssum s 2 hi - ssum s 2 lo) (ssum s 3 hi - ssum s 3 lo)
  predicate says_range (j: json_t) (s: seq r_Stitching) (lo hi: int) =
    says j (ssum s 0 hi - ssum s 0 lo) (ssum s 1 hi - ssum s 1 lo) (ssum s 2 hi - ssum s 2 lo) (ssum s 3 hi - ssum s 3 lo)
end

module RowsReal
  use WerBase
  use RowsBase
  use RowsDef
  clone RowsApi with function ssum = ssumd, function nsent = nsentd, function sstart = sstartd
end

(* which speaker a row belongs to: the last one named so far; rows before the first named speaker go to that one *)
module SpkBase
  use WerBase
  use RowsBase
  predicate streq (a b: str) = a = b
  function spk (st: r_Stitching) : str = st.stitching_nlpRow.rawNlpRecord_speakerId
  (* a reference word of a speaker is a row with a speaker that is no insertion *)
  function swgt (st: r_Stitching) (kind: int) : int =
    if kind = 3 then (if is_ins st || length (spk st) = 0 then 0 else 1) else rone st kind
end

module SpkDef
  use WerBase
  use RowsBase
  use SpkBase
  let rec ghost function curd (s: seq r_Stitching) (n: int) : str
    variant { n }
  = if n <= 0 then empty else if length (spk (get s (n-1))) > 0 then spk (get s (n-1)) else curd s (n-1)
  let rec ghost function ffirst (s: seq r_Stitching) (n: int) : str
    variant { n }
  = if n <= 0 then empty else if length (ffirst s (n-1)) > 0 then ffirst s (n-1) else spk (get s (n-1))
  let ghost function firstd (s: seq r_Stitching) : str = ffirst s (length s)
  let ghost function attd (s: seq r_Stitching) (i: int) : str = if length (curd s (i+1)) > 0 then curd s (i+1) else firstd s
  let rec ghost function asumd (s: seq r_Stitching) (x: str) (kind n: int) : int
    variant { n }
  = if n <= 0 then 0 else asumd s x kind (n-1) + (if streq (attd s (n-1)) x then swgt (get s (n-1)) kind else 0)
  let rec lemma cur_first (s: seq r_Stitching) (n: int)
    requires { 0 <= n /\ length (curd s n) = 0 }
    ensures { ffirst s n = empty }
    variant { n }
  = if n > 0 then begin cur_first s (n-1); assert { seq_eq (spk (get s (n-1))) empty } end
    else assert { seq_eq (ffirst s n) empty }
  let rec lemma first_keep (s: seq r_Stitching) (m n: int)
    requires { 0 <= m <= n /\ length (ffirst s m) > 0 }
    ensures { ffirst s n = ffirst s m }
    variant { n }
  = if m < n then first_keep s m (n-1)
  let lemma curd_empty (s: seq r_Stitching) (n: int)
    requires { 0 <= n /\ length (curd s n) = 0 }
    ensures { curd s n = empty }
  = assert { seq_eq (curd s n) empty }
  let rec lemma cur_speaks (s: seq r_Stitching) (n: int)
    requires { 0 <= n /\ length (curd s n) > 0 }
    ensures { exists i. 0 <= i < n /\ spk (get s i) = curd s n }
    variant { n }
  = if n > 0 && length (spk (get s (n-1))) = 0 then cur_speaks s (n-1) else assert { 0 <= n - 1 < n /\ spk (get s (n-1)) = curd s n }
  let lemma first_at (s: seq r_Stitching) (n: int)
    requires { 0 <= n < length s /\ length (curd s n) = 0 /\ length (spk (get s n)) > 0 }
    ensures { firstd s = spk (get s n) }
  = cur_first s n; assert { ffirst s (n+1) = spk (get s n) }; first_keep s (n+1) (length s)
end

module SpkApi
  use WerBase
  use RowsBase
  use SpkBase
  function cur (s: seq r_Stitching) (n: int) : str
  axiom cur_0: forall s [cur s 0]. cur s 0 = empty
  axiom cur_empty: forall s n [cur s n]. 0 <= n -> length (cur s n) = 0 -> cur s n = empty
  axiom cur_s: forall s n [cur s (n+1)]. 0 <= n -> cur s (n+1) = if length (spk (get s n)) > 0 then spk (get s n) else cur s n
  function firstsp (s: seq r_Stitching) : str
  axiom firstsp_at: forall s n [cur s n, firstsp s]. 0 <= n < length s -> length (cur s n) = 0 -> length (spk (get s n)) > 0 -> firstsp s = spk (get s n)
  axiom firstsp_none: forall s. length (cur s (length s)) = 0 -> firstsp s = empty
  (* asum s x kind n: what the rows among the first n that belong to speaker x add up to *)
  function att (s: seq r_Stitching) (i: int) : str
  axiom att_def: forall s i [att s i]. 0 <= i -> att s i = if length (cur s (i+1)) > 0 then cur s (i+1) else firstsp s
  function asum (s: seq r_Stitching) (x: str) (kind n: int) : int
  axiom asum_0: forall s x kind [asum s x kind 0]. asum s x kind 0 = 0
  axiom asum_s: forall s x kind n [asum s x kind (n+1)]. 0 <= n -> asum s x kind (n+1) = asum s x kind n + (if att s n = x then swgt (get s n) kind else 0)
  predicate says_spk (j: json_t) (s: seq r_Stitching) (x: str) (n: int) =
    says j (asum s x 0 n) (asum s x 1 n) (asum s x 2 n) (asum s x 3 n)
  (* x speaks in the first n rows *)
  predicate speaks (s: seq r_Stitching) (x: str) (n: int)
  axiom speaks_0: forall s x [speaks s x 0]. not speaks s x 0
  axiom speaks_s: forall s x n m [speaks s x m, get s n]. 0 <= n -> m = n + 1 -> (speaks s x m <-> speaks s x n \/ (length x > 0 /\ spk (get s n) = x))
  axiom speaks_len: forall s x n [speaks s x n]. speaks s x n -> length x > 0
  axiom speaks_cur: forall s n [cur s n]. 0 <= n -> length (cur s n) > 0 -> speaks s (cur s n) n
  axiom speaks_none: forall s. (forall i. 0 <= i < length s -> length (spk (get s i)) = 0) -> length (cur s (length s)) = 0
  predicate is_spk (w: r_WerResult) (s: seq r_Stitching) (x: str) (n: int) =
    is_wr w (asum s x 0 n) (asum s x 1 n) (asum s x 2 n) (asum s x 3 n)
  (* m holds the finished counts of the first n rows, a b c d those of `last` not yet added *)
  predicate okm (s: seq r_Stitching) (m: cmap str r_WerResult) (last: str) (a b c d n: int)
  axiom okm_0: forall s m l a b c d n [okm s m l a b c d n]. n = 0 -> a = 0 -> b = 0 -> c = 0 -> d = 0 -> (forall x. not mmem m x) -> okm s m l a b c d n
  axiom okm_row: forall s m l a b c d n a2 b2 c2 d2 n2 [okm s m l a b c d n, okm s m l a2 b2 c2 d2 n2].
    okm s m l a b c d n -> 0 <= n -> n2 = n + 1 -> att s n = l -> a2 = a + swgt (get s n) 0 -> b2 = b + swgt (get s n) 1 -> c2 = c + swgt (get s n) 2 -> d2 = d + swgt (get s n) 3 ->
    okm s m l a2 b2 c2 d2 n2
  predicate flush (m m2: cmap str r_WerResult) (l: str) (a b c d: int) =
    (forall x. mmem m2 x <-> (mmem m x \/ x = l)) /\ (forall x. x <> l -> mget m2 x = mget m x) /\
    (mmem m l -> (mget m l).werResult_numWordsInHypothesis = 0 -> is_wr (mget m2 l) ((mget m l).werResult_insertions + a) ((mget m l).werResult_deletions + b) ((mget m l).werResult_substitutions + c) ((mget m l).werResult_numWordsInReference + d)) /\
    (not mmem m l -> is_wr (mget m2 l) a b c d)
  axiom okm_flush: forall s m l a b c d n m2 l2 a2 b2 c2 d2 n2 [okm s m l a b c d n, okm s m2 l2 a2 b2 c2 d2 n2].
    okm s m l a b c d n -> flush m m2 l a b c d -> 0 <= n -> n2 = n + 1 -> att s n = l2 ->
    a2 = swgt (get s n) 0 -> b2 = swgt (get s n) 1 -> c2 = swgt (get s n) 2 -> d2 = swgt (get s n) 3 -> okm s m2 l2 a2 b2 c2 d2 n2
  axiom okm_get: forall s m l a b c d n m2 x [okm s m l a b c d n, mget m2 x].
    okm s m l a b c d n -> flush m m2 l a b c d -> mmem m2 x -> is_spk (mget m2 x) s x n
end

module SpkReal
  use WerBase
  use RowsBase
  use SpkBase
  use SpkDef
  predicate speaksd (s: seq r_Stitching) (x: str) (n: int) = exists i. 0 <= i < n /\ length x > 0 /\ spk (get s i) = x
  predicate okmd (s: seq r_Stitching) (m: cmap str r_WerResult) (last: str) (a b c d n: int) =
    forall x. let w = mget m x in
    (mmem m x -> asumd s x 0 n = w.werResult_insertions + (if x = last then a else 0) /\ asumd s x 1 n = w.werResult_deletions + (if x = last then b else 0) /\
      asumd s x 2 n = w.werResult_substitutions + (if x = last then c else 0) /\ asumd s x 3 n = w.werResult_numWordsInReference + (if x = last then d else 0) /\ w.werResult_numWordsInHypothesis = 0) /\
    (not mmem m x -> asumd s x 0 n = (if x = last then a else 0) /\ asumd s x 1 n = (if x = last then b else 0) /\ asumd s x 2 n = (if x = last then c else 0) /\ asumd s x 3 n = (if x = last then d else 0))
  clone SpkApi with function cur = curd, function firstsp = firstd, function att = attd, function asum = asumd, predicate speaks = speaksd, predicate okm = okmd
end

(* per tag: every tag of a row counts the row for the tag's id *)
module TagDef
  use WerBase
  use RowsBase
  use SpkBase
  function tagid (st: r_Stitching) (j: int) : str = (get st.stitching_nlpRow.rawNlpRecord_wer_tags j).werTagEntry_tag_id
  let rec ghost function trowd (st: r_Stitching) (x: str) (kind m: int) : int
    variant { m }
  = if m <= 0 then 0 else trowd st x kind (m-1) + (if streq (tagid st (m-1)) x then rone st kind else 0)
  let rec ghost function tsumd (s: seq r_Stitching) (x: str) (kind n: int) : int
    variant { n }
  = if n <= 0 then 0 else tsumd s x kind (n-1) + trowd (get s (n-1)) x kind (length (get s (n-1)).stitching_nlpRow.rawNlpRecord_wer_tags)
  predicate rowhasd (st: r_Stitching) (x: str) (m: int) = exists j. 0 <= j < m /\ tagid st j = x
  predicate hasd (s: seq r_Stitching) (x: str) (n: int) = exists i. 0 <= i < n /\ rowhasd (get s i) x (length (get s i).stitching_nlpRow.rawNlpRecord_wer_tags)
end

module TagApi
  use WerBase
  use RowsBase
  function ntags (st: r_Stitching) : int = length st.stitching_nlpRow.rawNlpRecord_wer_tags
  function tag (st: r_Stitching) (j: int) : str = (get st.stitching_nlpRow.rawNlpRecord_wer_tags j).werTagEntry_tag_id
  (* what the first m tags of a row add to tag x *)
  function trow (st: r_Stitching) (x: str) (kind m: int) : int
  axiom trow_0: forall st x kind [trow st x kind 0]. trow st x kind 0 = 0
  axiom trow_s: forall st x kind m m2 [trow st x kind m, trow st x kind m2]. 0 <= m -> m2 = m + 1 -> trow st x kind m2 = trow st x kind m + (if tag st m = x then rone st kind else 0)
  function tsum (s: seq r_Stitching) (x: str) (kind n: int) : int
  axiom tsum_0: forall s x kind [tsum s x kind 0]. tsum s x kind 0 = 0
  axiom tsum_s: forall s x kind n n2 [tsum s x kind n, tsum s x kind n2]. 0 <= n -> n2 = n + 1 -> tsum s x kind n2 = tsum s x kind n + trow (get s n) x kind (ntags (get s n))
  predicate rowhas (st: r_Stitching) (x: str) (m: int)
  axiom rowhas_0: forall st x [rowhas st x 0]. not rowhas st x 0
  axiom rowhas_s: forall st x m m2 [rowhas st x m2, rowhas st x m]. 0 <= m -> m2 = m + 1 -> (rowhas st x m2 <-> rowhas st x m \/ tag st m = x)
  predicate has (s: seq r_Stitching) (x: str) (n: int)
  axiom has_0: forall s x [has s x 0]. not has s x 0
  axiom has_s: forall s x n n2 [has s x n, has s x n2]. 0 <= n -> n2 = n + 1 -> (has s x n2 <-> has s x n \/ rowhas (get s n) x (ntags (get s n)))
  (* m holds the counts of the first n rows and of the first k tags of row n *)
  predicate tags_ok (m: cmap str r_WerResult) (s: seq r_Stitching) (n k: int) (x: str) =
    (mmem m x -> is_wr (mget m x) (tsum s x 0 n + trow (get s n) x 0 k) (tsum s x 1 n + trow (get s n) x 1 k) (tsum s x 2 n + trow (get s n) x 2 k) (tsum s x 3 n + trow (get s n) x 3 k)) /\
    (not mmem m x -> tsum s x 0 n + trow (get s n) x 0 k = 0 /\ tsum s x 1 n + trow (get s n) x 1 k = 0 /\ tsum s x 2 n + trow (get s n) x 2 k = 0 /\ tsum s x 3 n + trow (get s n) x 3 k = 0)
  predicate tags_all (m: cmap str r_WerResult) (s: seq r_Stitching) (n k: int) = forall x [mmem m x]. tags_ok m s n k x
  predicate keys_all (m: cmap str r_WerResult) (s: seq r_Stitching) (n k: int) = forall x [mmem m x]. mmem m x <-> has s x n \/ rowhas (get s n) x k
  predicate says_tag (j: json_t) (s: seq r_Stitching) (x: str) (n: int) = says j (tsum s x 0 n) (tsum s x 1 n) (tsum s x 2 n) (tsum s x 3 n)
end

module TagReal
  use WerBase
  use RowsBase
  use TagDef
  clone TagApi with function trow = trowd, function tsum = tsumd, predicate rowhas = rowhasd, predicate has = hasd
end

(* speaker switches and the words around them *)
module SwBase
  use WerBase
  use RowsBase
  use RowsApi
  use SpkBase
  use SpkApi
  lemma kinds_excl: forall st [is_ins st | is_del st | is_sub st]. not (is_ins st /\ is_del st) /\ not (is_ins st /\ is_sub st) /\ not (is_del st /\ is_sub st)
  (* row i names another speaker than the rows before it *)
  predicate sw_at (s: seq r_Stitching) (i: int) =
    length (cur s i) > 0 /\ length (spk (get s i)) > 0 /\ spk (get s i) <> cur s i
  predicate inwin (sw: seq int) (c r: int) = exists k. 0 <= k < length sw /\ get sw k - c <= r < get sw k + c
  predicate instrict (sw: seq int) (c r: int) = exists k. 0 <= k < length sw /\ get sw k - c < r < get sw k + c
  (* what row p adds: reference words in a window, insertions strictly inside one *)
  function wone (s: seq r_Stitching) (sw: seq int) (c p kind: int) : int =
    if is_ins (get s p) then (if kind = 0 && instrict sw c (ssum s 3 p) then 1 else 0)
    else if not inwin sw c (ssum s 3 p) then 0 else rone (get s p) kind
  predicate increasing (sw: seq int) = forall i j. 0 <= i < j < length sw -> get sw i < get sw j
end

module SwDef
  use RowsBase
  use RowsApi
  use SpkBase
  use SpkApi
  use SwBase
  let rec ghost function nswd (s: seq r_Stitching) (n: int) : int
    variant { n }
  = if n <= 0 then 0 else nswd s (n-1) + (if sw_at s (n-1) then 1 else 0)
  let rec lemma nswd_mono (s: seq r_Stitching) (i n: int)
    requires { 0 <= i < n }
    ensures { nswd s i <= nswd s n }
    ensures { sw_at s i -> nswd s i < nswd s n }
    variant { n }
  = if i < n - 1 then nswd_mono s i (n-1)
  let rec lemma nswd_nonneg (s: seq r_Stitching) (n: int)
    ensures { 0 <= nswd s n }
    variant { n }
  = if n > 0 then nswd_nonneg s (n-1)
  let rec ghost function wsumd (s: seq r_Stitching) (sw: seq int) (c kind n: int) : int
    variant { n }
  = if n <= 0 then 0 else wsumd s sw c kind (n-1) + wone s sw c (n-1) kind
  let ghost ssum_step (s: seq r_Stitching) (m n: int) : unit
    requires { 0 <= m /\ n = m + 1 }
    ensures { ssum s 3 n = ssum s 3 m + rone (get s m) 3 }
  = assert { ssum s 3 (m + 1) = ssum s 3 m + rone (get s m) 3 }
  let rec lemma ssum_mono (s: seq r_Stitching) (m n: int)
    requires { 0 <= m <= n }
    ensures { ssum s 3 m <= ssum s 3 n }
    variant { n }
  = if m < n then begin ssum_mono s m (n-1); ssum_step s (n-1) n end
  let rec ghost swidx (s: seq r_Stitching) (n k: int) : int
    requires { 0 <= n /\ 0 <= k < nswd s n }
    ensures { 0 <= result < n /\ sw_at s result /\ nswd s result = k }
    variant { n }
  = if k < nswd s (n-1) then swidx s (n-1) k else n - 1
  predicate switchesd (s: seq r_Stitching) (sw: seq int) (n: int) =
    length sw = nswd s n /\ forall i. 0 <= i < n -> sw_at s i -> get sw (nswd s i) = ssum s 3 i
  let lemma switches_at (s: seq r_Stitching) (a b: seq int) (n k: int)
    requires { 0 <= n /\ switchesd s a n /\ switchesd s b n /\ 0 <= k < length a }
    ensures { get a k = get b k }
  = let i = swidx s n k in assert { get a (nswd s i) = ssum s 3 i /\ get b (nswd s i) = ssum s 3 i }
  let lemma switches_eq (s: seq r_Stitching) (a b: seq int) (n: int)
    requires { 0 <= n /\ switchesd s a n /\ switchesd s b n }
    ensures { a = b }
  = assert { forall k. 0 <= k < nswd s n -> get a k = get b k }; assert { seq_eq a b }
  let lemma switches_posd (s: seq r_Stitching) (a: seq int) (n k: int)
    requires { 0 <= n /\ switchesd s a n /\ 0 <= k < length a }
    ensures { 0 <= get a k }
  = let i = swidx s n k in assert { get a (nswd s i) = ssum s 3 i }; ssum_mono s 0 i
  predicate past (s: seq r_Stitching) (sw: seq int) (c n: int) = forall k. 0 <= k < length sw -> get sw k + c <= ssum s 3 n
  let rec lemma wsumd_rest (s: seq r_Stitching) (sw: seq int) (c kind n m: int)
    requires { 0 <= n <= m }
    requires { past s sw c n }
    ensures { wsumd s sw c kind m = wsumd s sw c kind n }
    variant { m }
  = if n < m then begin wsumd_rest s sw c kind n (m-1); ssum_mono s n (m-1);
      assert { not inwin sw c (ssum s 3 (m-1)) }; assert { not instrict sw c (ssum s 3 (m-1)) } end
  let rec lemma wsumd_none (s: seq r_Stitching) (sw: seq int) (c kind m: int)
    requires { 0 <= m }
    requires { c <= 0 }
    ensures { wsumd s sw c kind m = 0 }
    variant { m }
  = if 0 < m then begin wsumd_none s sw c kind (m-1); 
      assert { not inwin sw c (ssum s 3 (m-1)) }; assert { not instrict sw c (ssum s 3 (m-1)) } end
end

module SwApi
  use WerBase
  use RowsBase
  use RowsApi
  use SpkBase
  use SpkApi
  use SwBase
  (* sw lists, for every switch among the first n rows, how many reference words precede it *)
  predicate switches (s: seq r_Stitching) (sw: seq int) (n: int)
  axiom switches_0: forall s sw [switches s sw 0]. switches s sw 0 <-> length sw = 0
  axiom switches_s: forall s a n b n2 [switches s a n, switches s b n2]. 0 <= n -> n2 = n + 1 -> switches s a n ->
    b = (if sw_at s n then snoc a (ssum s 3 n) else a) -> switches s b n2
  axiom switches_unique: forall s a b n [switches s a n, switches s b n]. 0 <= n -> switches s a n -> switches s b n -> a = b
  axiom switches_pos: forall s a n k [switches s a n, get a k]. 0 <= n -> switches s a n -> 0 <= k < length a -> 0 <= get a k
  function wsum (s: seq r_Stitching) (sw: seq int) (c kind n: int) : int
  axiom wsum_0: forall s sw c kind [wsum s sw c kind 0]. wsum s sw c kind 0 = 0
  axiom wsum_s: forall s sw c kind n n2 [wsum s sw c kind n, wsum s sw c kind n2]. 0 <= n -> n2 = n + 1 -> wsum s sw c kind n2 = wsum s sw c kind n + wone s sw c n kind
  axiom wsum_rest: forall s sw c kind n m [wsum s sw c kind n, wsum s sw c kind m].
    0 <= n <= m -> (forall k. 0 <= k < length sw -> get sw k + c <= ssum s 3 n) -> wsum s sw c kind m = wsum s sw c kind n
  axiom wsum_none: forall s sw c kind m [wsum s sw c kind m]. 0 <= m -> c <= 0 -> wsum s sw c kind m = 0
  predicate is_w (w: r_WerResult) (s: seq r_Stitching) (sw: seq int) (c n: int) =
    is_wr w (wsum s sw c 0 n) (wsum s sw c 1 n) (wsum s sw c 2 n) (wsum s sw c 3 n)
  predicate says_w (j: json_t) (s: seq r_Stitching) (sw: seq int) (c n: int) =
    says j (wsum s sw c 0 n) (wsum s sw c 1 n) (wsum s sw c 2 n) (wsum s sw c 3 n)
end

module SwReal
  use RowsBase
  use RowsApi
  use SpkBase
  use SpkApi
  use SwBase
  use SwDef
  clone SwApi with predicate switches = switchesd, function wsum = wsumd
end

(* capital letters *)
module UcDef
  let rec ghost function ucsd (s: str) (n: int) : int
    variant { n }
  = if n <= 0 then 0 else ucsd s (n-1) + (if is_upper (get s (n-1)) then 1 else 0)
  let rec lemma ucsd_nonneg (s: str) (n: int)
    ensures { 0 <= ucsd s n }
    variant { n }
  = if n > 0 then ucsd_nonneg s (n-1)
  let rec lemma ucsd_mono (s: str) (i n: int)
    requires { 0 <= i <= n }
    ensures { ucsd s i <= ucsd s n }
    variant { n }
  = if i < n then ucsd_mono s i (n-1)
end

module UcApi
  (* number of capital letters among the first n *)
  function ucs (s: str) (n: int) : int
  axiom ucs_0: forall s [ucs s 0]. ucs s 0 = 0
  axiom ucs_s: forall s n n2 [ucs s n, ucs s n2]. 0 <= n -> n2 = n + 1 -> ucs s n2 = ucs s n + (if is_upper (get s n) then 1 else 0)
  axiom ucs_nonneg: forall s n [ucs s n]. 0 <= ucs s n
  axiom ucs_mono: forall s i n [ucs s i, ucs s n]. 0 <= i <= n -> ucs s i <= ucs s n
end

module UcReal
  use UcDef
  clone UcApi with function ucs = ucsd
end

module CaseBase
  use UcApi
  predicate skip_ (st: r_Stitching) = st.stitching_hyptk = "<del>" \/ st.stitching_reftk = "<ins>"
  predicate same_ (st: r_Stitching) = st.stitching_reftk = st.stitching_hyptk
  function hup (st: r_Stitching) : int = ucs st.stitching_hyp_orig (length st.stitching_hyp_orig)
  function rup (st: r_Stitching) : int = ucs st.stitching_nlpRow.rawNlpRecord_token (length st.stitching_nlpRow.rawNlpRecord_token)
  (* 0 true positive, 1 false positive, 2 false negative, 3 not counted *)
  function casek (st: r_Stitching) : int =
    if skip_ st then 3 else if st.stitching_nlpRow.rawNlpRecord_casing = "LC" then (if hup st > 0 then 1 else 3)
    else if rup st = hup st then 0 else if rup st > hup st then 2 else 1
  (* m: 0 the word matches, 1 it is substituted *)
  function caseone (st: r_Stitching) (m kind: int) : int =
    if casek st = kind && ((same_ st && m = 0) || (not same_ st && m = 1)) then 1 else 0
end

module CaseDef
  use CaseBase
  let rec ghost function ccntd (s: seq r_Stitching) (m kind n: int) : int
    variant { n }
  = if n <= 0 then 0 else ccntd s m kind (n-1) + caseone (get s (n-1)) m kind
end

module CaseApi
  use CaseBase
  function ccnt (s: seq r_Stitching) (m kind n: int) : int
  axiom ccnt_0: forall s m kind [ccnt s m kind 0]. ccnt s m kind 0 = 0
  axiom ccnt_s: forall s m kind n n2 [ccnt s m kind n, ccnt s m kind n2]. 0 <= n -> n2 = n + 1 -> ccnt s m kind n2 = ccnt s m kind n + caseone (get s n) m kind
  predicate says_case (j: json_t) (tp fp fn: int) =
    jget j "true_positive" = j_int tp /\ jget j "false_positive" = j_int fp /\ jget j "false_negative" = j_int fn /\
    jget j "precision" = j_flt (f_div (f_of_int tp) (f_of_int (tp + fp))) /\ jget j "recall" = j_flt (f_div (f_of_int tp) (f_of_int (tp + fn)))
end

module CaseReal
  use CaseBase
  use CaseDef
  clone CaseApi with function ccnt = ccntd
end

(* statistics per word and word pair *)
module GramBase
  predicate says_gram (j: json_t) (u: r_gram_error_counter) =
    jget j "correct" = j_int u.gram_error_counter_correct /\ jget j "insertions" = j_int u.gram_error_counter_ins /\
    jget j "deletions" = j_int u.gram_error_counter_del /\ jget j "substitutions_fp" = j_int u.gram_error_counter_subst_fp /\
    jget j "substitutions_fn" = j_int u.gram_error_counter_subst_fn /\ jget j "precision" = j_flt u.gram_error_counter_precision /\
    jget j "recall" = j_flt u.gram_error_counter_recall
  predicate distinct1 (s: seq (pair str r_gram_error_counter)) =
    forall i j [get s i, get s j]. 0 <= i < j < length s -> (get s i).first <> (get s j).first
  predicate grams_upto (j: json_t) (s: seq (pair str r_gram_error_counter)) (n: int) =
    forall i [get s i]. 0 <= i < n -> says_gram (jget j (get s i).first) (get s i).second
  predicate others_kept (a b: json_t) (s: seq (pair str r_gram_error_counter)) (n: int) =
    forall w [jget b w]. (forall i. 0 <= i < n -> (get s i).first <> w) -> jget b w = jget a w
end
