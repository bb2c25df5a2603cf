(* Fields of NLP rows *)
module FirstDef
  use cxx.CxxSeq
  use cxx.CxxStr
  use int.Int
  let rec ghost function first (s: str) (c p: int) : int
    requires { 0 <= p } variant { length s - p }
    ensures { p <= result /\ (p <= length s -> result <= length s) /\ (forall q. p <= q < result -> q < length s -> get s q <> c) /\ (result < length s -> get s result = c) }
  = if p >= length s then p else if get s p = c then p else first s c (p + 1)
  let lemma first_find_d (s l: str) (c p: int)
    requires { 0 <= p /\ length l = 1 /\ get l 0 = c /\ length s < npos_ }
    ensures { sfind s l p = (if first s c p < length s then first s c p else npos_) }
  = let ghost r = sfind s l p in let ghost f = first s c p in
    assert { forall i [get s i | match_at s l i]. match_at s l i <-> (0 <= i < length s /\ get s i = c) };
    assert { f < length s -> match_at s l f };
    assert { r <> npos_ -> match_at s l r /\ get s r = c }
end

module FirstApi
  use cxx.CxxSeq
  use cxx.CxxStr
  (* position of the first character c at or after p (the length when there is none) *)
  function first_at (s: str) (c p: int) : int
  axiom first_at_def: forall s c p [first_at s c p]. 0 <= p -> let r = first_at s c p in
    p <= r /\ (p <= length s -> r <= length s) /\ (forall q [get s q]. p <= q < r -> q < length s -> get s q <> c) /\ (r < length s -> get s r = c)
  axiom first_find: forall s l c p [sfind s l p, first_at s c p]. 0 <= p -> length l = 1 -> get l 0 = c -> length s < npos_ ->
    sfind s l p = (if first_at s c p < length s then first_at s c p else npos_)
end

module FirstReal
  use FirstDef
  clone FirstApi with function first_at = first
end

module LabelField
  use cxx.CxxSeq
  use cxx.CxxStr
  (* ['X'] or ['X',...] where X has no comma: X ends before e *)
  predicate first_label (s: str) (e: int) =
    2 <= e /\ e + 1 < length s /\ get s 0 = 91 /\ get s 1 = 39 /\ get s e = 39 /\ (forall q. 1 <= q <= e -> get s q <> 44) /\
    ((get s (e + 1) = 44 /\ e + 1 < length s - 1) \/ e + 1 = length s - 1)
end

module LabelFieldDef
  use cxx.CxxSeq
  use cxx.CxxStr
  use LabelField
  let lemma label_cutd (s: str) (e m: int)
    requires { first_label s e /\ m = length s - 1 /\ length s < npos_ }
    ensures { let t = slice s 1 m in let p = sfind t "," 0 in length t = m - 1 /\ (p = e \/ (p = npos_ /\ length t = e)) }
  = let ghost t = slice s 1 m in let ghost p = sfind t "," 0 in
    assert { length t = m - 1 };
    assert { forall i [get t i | match_at t "," i]. match_at t "," i <-> (0 <= i < length t /\ get t i = 44) };
    assert { forall i [get t i]. 0 <= i < length t -> get t i = get s (i + 1) };
    assert { forall i [match_at t "," i]. match_at t "," i -> i >= e by get s (i + 1) = 44 };
    assert { get s (e + 1) = 44 /\ e + 1 < m -> match_at t "," e by get t e = 44 }
  let lemma label_restd (s u: str) (e j m: int)
    requires { first_label s e /\ m = length s - 1 /\ u = slice (slice s 1 m) 0 e /\ j = e - 1 /\ j >= 1 }
    ensures { slice u 1 j = slice s 2 e }
  = assert { e <= m - 1 };
    assert { seq_eq (slice u 1 j) (slice s 2 e) }
end

module LabelFieldApi
  use cxx.CxxSeq
  use cxx.CxxStr
  use LabelField
  axiom label_cut: forall s e m [first_label s e, slice s 1 m]. first_label s e -> m = length s - 1 -> length s < npos_ ->
    let t = slice s 1 m in let p = sfind t "," 0 in length t = m - 1 /\ (p = e \/ (p = npos_ /\ length t = e))
  axiom label_rest: forall s u e j m [first_label s e, slice s 1 m, slice u 1 j]. first_label s e -> m = length s - 1 ->
    u = slice (slice s 1 m) 0 e -> j = e - 1 -> j >= 1 -> slice u 1 j = slice s 2 e
end

module LabelFieldReal
  use LabelFieldDef
  clone LabelFieldApi
end

module TagDef
  use cxx.CxxSeq
  use cxx.CxxStr
  use FirstApi
  use int.Int
  let rec ghost function topend (s: str) (k: int) : int
    requires { 0 <= k } variant { k }
    ensures { 2 <= result }
  = if k = 0 then 2 else first_at s 39 (first_at s 39 (topend s (k - 1)) + 1) + 1
  function tclosed (s: str) (k: int) : int = first_at s 39 (topend s k)
end

module TagApi
  use cxx.CxxSeq
  use cxx.CxxStr
  use FirstApi
  (* the k-th quoted text begins at topen k and its closing quote is at tclose k *)
  function topen (s: str) (k: int) : int
  function tclose (s: str) (k: int) : int
  axiom topen_0: forall s [topen s 0]. topen s 0 = 2
  axiom topen_pos: forall s k [topen s k]. 0 <= k -> topen s k >= 2
  axiom topen_s: forall s k k2 [topen s k2, tclose s k]. 0 <= k -> k2 = k + 1 -> topen s k2 = first_at s 39 (tclose s k + 1) + 1
  axiom tclose_def: forall s k [tclose s k]. 0 <= k -> tclose s k = first_at s 39 (topen s k)
end

module TagReal
  use TagDef
  clone TagApi with function topen = topend, function tclose = tclosed
end

module TagRows
  use cxx.CxxSeq
  use cxx.CxxStr
  use TagApi
  predicate tags_upto (w: seq r_WerTagEntry) (s: str) (n: int) =
    forall k [get w k]. 0 <= k < n -> (get w k).werTagEntry_tag_id = slice s (topen s k) (tclose s k)
end

module RowBase
  use cxx.CxxSeq
  use cxx.CxxStr
  use cxx.CxxRead
  use FirstApi
  use LabelField
  use TagApi
  use TagRows
  function nlp_fmt : str = "trim_chars<'','/t'>,no_quote_escape<'|'>"
  (* the cell of a column: empty when the file has no such column *)
  function cell (f: str) (i: int) (col: str) : str = if csv_has nlp_fmt f col then csv_cell nlp_fmt f i col else empty
  predicate keep (f col v: str) = csv_has nlp_fmt f col \/ v = empty
  predicate label_of (t l: str) = (t = "[]" -> length l = 0) /\ (length t < 2 -> l = t) /\ (forall e. first_label t e -> l = slice t 2 e)
  predicate tags_of (t: str) (w: seq r_WerTagEntry) =
    (t = "[]" -> length w = 0) /\ tags_upto w t (length w) /\ (let n = length w in tclose t n >= length t)
  predicate row_of (r: r_RawNlpRecord) (f: str) (i: int) =
    r.rawNlpRecord_token = cell f i "token" /\ r.rawNlpRecord_speakerId = cell f i "speaker" /\
    r.rawNlpRecord_ts = cell f i "ts" /\ r.rawNlpRecord_endTs = cell f i "endTs" /\
    r.rawNlpRecord_punctuation = cell f i "punctuation" /\ r.rawNlpRecord_prepunctuation = cell f i "prepunctuation" /\
    r.rawNlpRecord_casing = cell f i "case" /\ r.rawNlpRecord_confidence = cell f i "confidence" /\
    r.rawNlpRecord_labels = cell f i "tags" /\ label_of (cell f i "tags") r.rawNlpRecord_best_label /\
    r.rawNlpRecord_best_label_id = slice r.rawNlpRecord_best_label 0 (first_at r.rawNlpRecord_best_label 58 0) /\
    (if csv_has nlp_fmt f "wer_tags" then tags_of (cell f i "wer_tags") r.rawNlpRecord_wer_tags else length r.rawNlpRecord_wer_tags = 0)
  predicate rows_upto (v: seq r_RawNlpRecord) (f: str) (n: int) = forall k [get v k]. 0 <= k < n -> row_of (get v k) f k
  (* [], nothing at all, or a list of quoted labels of the form id:class *)
  predicate tag_ok (t: str) = t = "[]" \/ length t = 0 \/ exists e. first_label t e /\ e > 4 /\ get t 2 <> 58
  predicate tags_ok (f: str) = forall i [cell f i "tags"]. 0 <= i < csv_rows nlp_fmt f -> tag_ok (cell f i "tags")
end
