(* The side-by-side report *)
module SbsBase
  use cxx.CxxSeq
  use cxx.CxxStr
  predicate noop (r: r_Stitching) = r.stitching_reftk = "!!noop-token!!"
  predicate differ (r: r_Stitching) = r.stitching_reftk <> r.stitching_hyptk
  predicate op_word (t: str) = length t = 0 \/ t = "<ins>" \/ t = "<del>" \/ t = "<sub>"
  function tag_step (t: str) (w: r_WerTagEntry) : str = ((((t ++ "###") ++ w.werTagEntry_tag_id) ++ "_") ++ w.werTagEntry_entity_type) ++ "###|"
  function header : str = (empty ++ fmt_ "{0:>20}\t{1:20}\t{2}\t{3}\t{4}" (Cons (FS "ref_token") (Cons (FS "hyp_token") (Cons (FS "IsErr") (Cons (FS "Class") (Cons (FS "Wer_Tag_Entities") Nil)))))) ++ "\n"
  function add_ref (t: str) (r: r_Stitching) : str = if op_word r.stitching_reftk then t else t ++ (r.stitching_reftk ++ " ")
  function add_hyp (t: str) (r: r_Stitching) : str = if op_word r.stitching_hyptk then t else t ++ (" " ++ r.stitching_hyptk)
  function group_of (rr hh: str) : str =
    fmt_ "{0}<->{1}" (Cons (FS (if length rr = 0 then "*** " else rr)) (Cons (FS (if length hh = 0 then " ***" else hh)) Nil))
  function group_line (g: pair int str) : str = fmt_ "{0:>20}\t{1}" (Cons (FI g.first) (Cons (FS g.second) Nil))
  function between (t: str) : str = (((t ++ srepeat 60 45) ++ "\n") ++ fmt_ "{0:>20}\t{1:20}" (Cons (FS "Line") (Cons (FS "Group") Nil))) ++ "\n"
end

module SbsDef
  use cxx.CxxSeq
  use cxx.CxxStr
  use int.Int
  use SbsBase
  let rec ghost function tagtextd (w: seq r_WerTagEntry) (n: int) : str variant { n }
  = if n <= 0 then empty else tag_step (tagtextd w (n-1)) (get w (n-1))
  (* the line of a row *)
  function rlined (r: r_Stitching) : str =
    fmt_ "{0:>20}\t{1:20}\t{2}\t{3}\t{4}" (Cons (FS r.stitching_reftk) (Cons (FS r.stitching_hyptk) (Cons (FS (if differ r then "ERR" else empty))
      (Cons (FS (if r.stitching_classLabel <> "global" then r.stitching_classLabel else empty))
      (Cons (FS (tagtextd r.stitching_nlpRow.rawNlpRecord_wer_tags (length r.stitching_nlpRow.rawNlpRecord_wer_tags))) Nil)))))
  let rec ghost function textd (s: seq r_Stitching) (n: int) : str variant { n }
  = if n <= 0 then header else if noop (get s (n-1)) then textd s (n-1) else (textd s (n-1) ++ rlined (get s (n-1))) ++ "\n"
  let rec ghost function nextd (s: seq r_Stitching) (n: int) : int variant { n }
    ensures { 2 <= result /\ (0 <= n -> result <= n + 2) }
  = if n <= 0 then 2 else if noop (get s (n-1)) then nextd s (n-1) else nextd s (n-1) + 1
  let rec ghost function fromd (s: seq r_Stitching) (n: int) : int variant { n }
    ensures { 0 <= result }
  = if n <= 0 then 0 else if noop (get s (n-1)) then fromd s (n-1)
    else if differ (get s (n-1)) then (if fromd s (n-1) = 0 then nextd s (n-1) else fromd s (n-1)) else 0
  let rec ghost function refd (s: seq r_Stitching) (n: int) : str variant { n }
  = if n <= 0 then empty else if noop (get s (n-1)) then refd s (n-1)
    else if differ (get s (n-1)) then add_ref (refd s (n-1)) (get s (n-1)) else if fromd s (n-1) > 0 then empty else refd s (n-1)
  let rec ghost function hypd (s: seq r_Stitching) (n: int) : str variant { n }
  = if n <= 0 then empty else if noop (get s (n-1)) then hypd s (n-1)
    else if differ (get s (n-1)) then add_hyp (hypd s (n-1)) (get s (n-1)) else if fromd s (n-1) > 0 then empty else hypd s (n-1)
  let rec ghost function groupsd (s: seq r_Stitching) (n: int) : seq (pair int str) variant { n }
  = if n <= 0 then empty else if noop (get s (n-1)) then groupsd s (n-1)
    else if (not differ (get s (n-1))) && fromd s (n-1) > 0 then snoc (groupsd s (n-1)) { first = fromd s (n-1); second = group_of (refd s (n-1)) (hypd s (n-1)) }
    else groupsd s (n-1)
  let ghost function alld (s: seq r_Stitching) : seq (pair int str)
  = let ghost n = length s in if fromd s n > 0 then snoc (groupsd s n) { first = fromd s n; second = group_of (refd s n) (hypd s n) } else groupsd s n
  let rec ghost function tailtextd (b: str) (g: seq (pair int str)) (n: int) : str variant { n }
  = if n <= 0 then b else (tailtextd b g (n-1) ++ group_line (get g (n-1))) ++ "\n"
  let ghost function sbsd (s: seq r_Stitching) : str = tailtextd (between (textd s (length s))) (alld s) (length (alld s))
end

module SbsApi
  use cxx.CxxSeq
  use cxx.CxxStr
  use SbsBase
  (* the tags of a row, one after the other *)
  function tagtext (w: seq r_WerTagEntry) (n: int) : str
  axiom tagtext_0: forall w [tagtext w 0]. tagtext w 0 = empty
  axiom tagtext_s: forall w n m [tagtext w n, tagtext w m]. 0 <= n -> m = n + 1 -> tagtext w m = tag_step (tagtext w n) (get w n)
  (* the line of a row: both words, whether they differ, the class, the tags *)
  function rline (r: r_Stitching) : str
  axiom rline_def: forall r [rline r]. rline r = fmt_ "{0:>20}\t{1:20}\t{2}\t{3}\t{4}" (Cons (FS r.stitching_reftk) (Cons (FS r.stitching_hyptk) (Cons (FS (if differ r then "ERR" else empty))
      (Cons (FS (if r.stitching_classLabel <> "global" then r.stitching_classLabel else empty))
      (Cons (FS (tagtext r.stitching_nlpRow.rawNlpRecord_wer_tags (length r.stitching_nlpRow.rawNlpRecord_wer_tags))) Nil)))))
  (* the first n rows: text, number of the next line, first line of the open group, its words on both sides, the closed groups *)
  function text (s: seq r_Stitching) (n: int) : str
  function next (s: seq r_Stitching) (n: int) : int
  function from (s: seq r_Stitching) (n: int) : int
  function gref (s: seq r_Stitching) (n: int) : str
  function ghyp (s: seq r_Stitching) (n: int) : str
  function groups (s: seq r_Stitching) (n: int) : seq (pair int str)
  axiom text_0: forall s [text s 0]. text s 0 = header
  axiom next_0: forall s [next s 0]. next s 0 = 2
  axiom from_0: forall s [from s 0]. from s 0 = 0
  axiom gref_0: forall s [gref s 0]. gref s 0 = empty
  axiom ghyp_0: forall s [ghyp s 0]. ghyp s 0 = empty
  axiom groups_0: forall s [groups s 0]. groups s 0 = empty
  axiom next_pos: forall s n [next s n]. 0 <= n -> 2 <= next s n <= n + 2
  axiom from_pos: forall s n [from s n]. 0 <= n -> 0 <= from s n
  axiom text_s: forall s n m [text s n, text s m]. 0 <= n -> m = n + 1 -> text s m = if noop (get s n) then text s n else (text s n ++ rline (get s n)) ++ "\n"
  axiom next_s: forall s n m [next s n, next s m]. 0 <= n -> m = n + 1 -> next s m = if noop (get s n) then next s n else next s n + 1
  axiom from_s: forall s n m [from s n, from s m]. 0 <= n -> m = n + 1 -> from s m =
    if noop (get s n) then from s n else if differ (get s n) then (if from s n = 0 then next s n else from s n) else 0
  axiom gref_s: forall s n m [gref s n, gref s m]. 0 <= n -> m = n + 1 -> gref s m =
    if noop (get s n) then gref s n else if differ (get s n) then add_ref (gref s n) (get s n) else if from s n > 0 then empty else gref s n
  axiom ghyp_s: forall s n m [ghyp s n, ghyp s m]. 0 <= n -> m = n + 1 -> ghyp s m =
    if noop (get s n) then ghyp s n else if differ (get s n) then add_hyp (ghyp s n) (get s n) else if from s n > 0 then empty else ghyp s n
  axiom groups_s: forall s n m [groups s n, groups s m]. 0 <= n -> m = n + 1 -> groups s m =
    if not noop (get s n) /\ not differ (get s n) /\ from s n > 0 then snoc (groups s n) { first = from s n; second = group_of (gref s n) (ghyp s n) } else groups s n
  function all_groups (s: seq r_Stitching) : seq (pair int str)
  axiom all_def: forall s [all_groups s]. let n = length s in all_groups s =
    if from s n > 0 then snoc (groups s n) { first = from s n; second = group_of (gref s n) (ghyp s n) } else groups s n
  function tailtext (b: str) (g: seq (pair int str)) (n: int) : str
  axiom tailtext_0: forall b g [tailtext b g 0]. tailtext b g 0 = b
  axiom tailtext_s: forall b g n m [tailtext b g n, tailtext b g m]. 0 <= n -> m = n + 1 -> tailtext b g m = (tailtext b g n ++ group_line (get g n)) ++ "\n"
  function sbs (s: seq r_Stitching) : str
  axiom sbs_def: forall s [sbs s]. sbs s = tailtext (between (text s (length s))) (all_groups s) (length (all_groups s))
end

module SbsReal
  use SbsBase
  use SbsDef
  clone SbsApi with function tagtext = tagtextd, function rline = rlined, function text = textd, function next = nextd, function from = fromd, function gref = refd,
    function ghyp = hypd, function groups = groupsd, function all_groups = alld, function tailtext = tailtextd, function sbs = sbsd
end
