(* The aligned NLP output *)
module OutBase
  use cxx.CxxSeq
  use cxx.CxxStr
  use th_text.TextBase
  predicate inserted (r: r_Stitching) = sfind r.stitching_comment "ins" 0 = 0
  (* the word that is written *)
  function shown (r: r_Stitching) : str =
    if same_ci r.stitching_reftk r.stitching_nlpRow.rawNlpRecord_token then r.stitching_nlpRow.rawNlpRecord_token
    else if noisecode r.stitching_nlpRow.rawNlpRecord_token then r.stitching_nlpRow.rawNlpRecord_token
    else if inserted r then empty else r.stitching_reftk
  function ins_comment (r: r_Stitching) : str = ("ins(" ++ r.stitching_hyptk) ++ ")"
  predicate rewritten (r: r_Stitching) =
    not same_ci r.stitching_reftk r.stitching_nlpRow.rawNlpRecord_token /\ not noisecode r.stitching_nlpRow.rawNlpRecord_token /\ inserted r
  predicate written (r: r_Stitching) (add: bool) = not (inserted r /\ not add) /\ shown r <> "!!noop-token!!"
  function commented (r: r_Stitching) (add: bool) : r_Stitching =
    if rewritten r /\ add then { r with stitching_comment = ins_comment r } else r
  function out_header (t: str) : str = (t ++ "token|speaker|ts|endTs|punctuation|prepunctuation|case|tags|wer_tags|oldTs|oldEndTs|ali_comment|confidence") ++ "\n"
  function row_word (t: str) (r: r_Stitching) : str = (((t ++ shown r) ++ "|") ++ r.stitching_nlpRow.rawNlpRecord_speakerId) ++ "|"
  function row_times (t: str) (r: r_Stitching) : str =
    if r.stitching_hyptk = "<del>" then t ++ "||"
    else (((t ++ fmt_ "{0:.4f}" (Cons (FF r.stitching_start_ts) Nil)) ++ "|") ++ fmt_ "{0:.4f}" (Cons (FF r.stitching_end_ts) Nil)) ++ "|"
  function row_text (t: str) (r: r_Stitching) : str =
    ((((((((t ++ r.stitching_nlpRow.rawNlpRecord_punctuation) ++ "|") ++ r.stitching_nlpRow.rawNlpRecord_prepunctuation) ++ "|") ++ r.stitching_nlpRow.rawNlpRecord_casing) ++ "|")
      ++ r.stitching_nlpRow.rawNlpRecord_labels) ++ "|") ++ "["
  function row_end (t: str) (r: r_Stitching) : str =
    ((((((((t ++ "]|") ++ r.stitching_nlpRow.rawNlpRecord_ts) ++ "|") ++ r.stitching_nlpRow.rawNlpRecord_endTs) ++ "|") ++ r.stitching_comment) ++ "|")
      ++ r.stitching_nlpRow.rawNlpRecord_confidence) ++ "\n"
  function quoted (t: str) (w: r_WerTagEntry) : str = ((t ++ "'") ++ w.werTagEntry_tag_id) ++ "'"
  predicate done_upto (s s0: seq r_Stitching) (add: bool) (n: int) =
    length s = length s0 /\ (forall k [get s k]. 0 <= k < n -> get s k = commented (get s0 k) add) /\ (forall k [get s k]. n <= k < length s -> get s k = get s0 k)
end

module OutDef
  use cxx.CxxSeq
  use cxx.CxxStr
  use int.Int
  use OutBase
  let rec ghost function tagsd (t: str) (w: seq r_WerTagEntry) (k: int) : str variant { k }
  = if k <= 0 then t else if k < length w then quoted (tagsd t w (k-1)) (get w (k-1)) ++ ", " else quoted (tagsd t w (k-1)) (get w (k-1))
  let ghost function rowd (t: str) (r: r_Stitching) (add: bool) : str
  = let ghost w = r.stitching_nlpRow.rawNlpRecord_wer_tags in
    row_end (tagsd (row_text (row_times (row_word t r) r) r) w (length w)) (commented r add)
  let rec ghost function outd (t: str) (s: seq r_Stitching) (add: bool) (n: int) : str variant { n }
  = if n <= 0 then out_header t else if written (get s (n-1)) add then rowd (outd t s add (n-1)) (get s (n-1)) add else outd t s add (n-1)
end

module OutApi
  use cxx.CxxSeq
  use cxx.CxxStr
  use OutBase
  (* t followed by the first k of a row's tags *)
  function tags_text (t: str) (w: seq r_WerTagEntry) (k: int) : str
  axiom tags_0: forall t w [tags_text t w 0]. tags_text t w 0 = t
  axiom tags_s: forall t w k m [tags_text t w k, tags_text t w m]. 0 <= k -> m = k + 1 ->
    tags_text t w m = if m < length w then quoted (tags_text t w k) (get w k) ++ ", " else quoted (tags_text t w k) (get w k)
  function out_row (t: str) (r: r_Stitching) (add: bool) : str
  axiom out_row_def: forall t r add [out_row t r add]. let w = r.stitching_nlpRow.rawNlpRecord_wer_tags in
    out_row t r add = row_end (tags_text (row_text (row_times (row_word t r) r) r) w (length w)) (commented r add)
  (* t followed by the header and the first n rows *)
  function out_text (t: str) (s: seq r_Stitching) (add: bool) (n: int) : str
  axiom out_0: forall t s add [out_text t s add 0]. out_text t s add 0 = out_header t
  axiom out_s: forall t s add n m [out_text t s add n, out_text t s add m]. 0 <= n -> m = n + 1 ->
    out_text t s add m = if written (get s n) add then out_row (out_text t s add n) (get s n) add else out_text t s add n
end

module OutReal
  use OutBase
  use OutDef
  clone OutApi with function tags_text = tagsd, function out_row = rowd, function out_text = outd
end
