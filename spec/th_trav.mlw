(* The rows of an alignment, entities in place *)
module TravBase
  use cxx.CxxSeq
  use cxx.CxxStr
  use th_text.TextBase
  predicate same_str (a b: str) = a = b
  function labels (r: r_wer_alignment) : int = length r.wer_alignment_label_alignments
  function class_at (r: r_wer_alignment) (j: int) : r_wer_alignment = unbox_wer_alignment (get r.wer_alignment_label_alignments j)
  predicate first_lab (r: r_wer_alignment) (l: str) (c: int) =
    0 <= c < labels r /\ (class_at r c).wer_alignment_classLabel = l /\ forall j [class_at r j]. 0 <= j < c -> (class_at r j).wer_alignment_classLabel <> l
  predicate no_lab (r: r_wer_alignment) (l: str) (n: int) = forall j [class_at r j]. 0 <= j < n -> (class_at r j).wer_alignment_classLabel <> l
  function tok (r: r_wer_alignment) (k: int) : pair str str = get r.wer_alignment_tokens k
  function nwords (r: r_wer_alignment) : int = length r.wer_alignment_tokens
  predicate fallback (a: r_wer_alignment) = occurs a.wer_alignment_classLabel "FALLBACK"
  function noop_row (a: r_wer_alignment) : r_triple = { triple_ref = "!!noop-token!!"; triple_hyp = "!!noop-token!!"; triple_classLabel = a.wer_alignment_classLabel }
  function row_of_pair (p: pair str str) (l: str) : r_triple = { triple_ref = p.first; triple_hyp = p.second; triple_classLabel = l }
end

module TravDef
  use cxx.CxxSeq
  use cxx.CxxStr
  use int.Int
  use th_text.TextBase
  use TravBase
  let rec ghost function findlab (r: r_wer_alignment) (l: str) (j: int) : int
    requires { 0 <= j } variant { labels r - j }
    ensures { result = -1 -> forall i [class_at r i]. j <= i < labels r -> (class_at r i).wer_alignment_classLabel <> l }
    ensures { result = -1 \/ (j <= result < labels r /\ (class_at r result).wer_alignment_classLabel = l /\ forall i [class_at r i]. j <= i < result -> (class_at r i).wer_alignment_classLabel <> l) }
  = if j >= labels r then -1 else if same_str (class_at r j).wer_alignment_classLabel l then j else findlab r l (j + 1)
  let ghost function classd (r: r_wer_alignment) (k: int) : int = findlab r (tok r k).first 0
  let ghost function nrowsd (r: r_wer_alignment) (k: int) : int
    ensures { 0 <= result }
  = if not entity (tok r k).first then 1 else if classd r k < 0 then 0
    else if nwords (class_at r (classd r k)) > 0 then nwords (class_at r (classd r k)) else if fallback (class_at r (classd r k)) then 1 else 0
  let ghost function rowatd (r: r_wer_alignment) (k q: int) : r_triple
  = if not entity (tok r k).first then row_of_pair (tok r k) "global"
    else if nwords (class_at r (classd r k)) > 0 then row_of_pair (tok (class_at r (classd r k)) q) (class_at r (classd r k)).wer_alignment_classLabel
    else noop_row (class_at r (classd r k))
  let rec ghost function befored (r: r_wer_alignment) (k: int) : int variant { k } ensures { 0 <= result }
  = if k <= 0 then 0 else befored r (k-1) + nrowsd r (k-1)
  let rec ghost function flat (r: r_wer_alignment) (i k: int) : r_triple variant { k }
  = if k <= 0 then rowatd r 0 0 else if i >= befored r (k-1) then rowatd r (k-1) (i - befored r (k-1)) else flat r i (k-1)
  let ghost function flatd (r: r_wer_alignment) (i: int) : r_triple = flat r i (nwords r)
  let rec lemma mono (r: r_wer_alignment) (k m: int)
    requires { 0 <= k <= m } ensures { befored r k <= befored r m } variant { m }
  = if k < m then mono r k (m-1)
  let rec lemma flat_at (r: r_wer_alignment) (k q i n: int)
    requires { 0 <= k < n /\ 0 <= q < nrowsd r k /\ i = befored r k + q }
    ensures { flat r i n = rowatd r k q } variant { n }
  = if n - 1 > k then begin mono r (k+1) (n-1); flat_at r k q i (n-1) end
end

module TravApi
  use cxx.CxxSeq
  use cxx.CxxStr
  use th_text.TextBase
  use TravBase
  (* the entity that stands at word k: the first one with its label, -1 when there is none *)
  function class_of (r: r_wer_alignment) (k: int) : int
  axiom class_first: forall r k c [class_of r k, class_at r c]. first_lab r (tok r k).first c -> class_of r k = c
  axiom class_none: forall r k n [class_of r k, no_lab r (tok r k).first n]. n = labels r -> no_lab r (tok r k).first n -> class_of r k = -1
  (* the number of rows that stand for word k, the rows, and the number of rows before it *)
  function nrows (r: r_wer_alignment) (k: int) : int
  axiom nrows_def: forall r k [nrows r k]. nrows r k =
    if not entity (tok r k).first then 1 else if class_of r k < 0 then 0
    else let a = class_at r (class_of r k) in if nwords a > 0 then nwords a else if fallback a then 1 else 0
  function rowat (r: r_wer_alignment) (k q: int) : r_triple
  axiom rowat_def: forall r k q [rowat r k q]. rowat r k q =
    if not entity (tok r k).first then row_of_pair (tok r k) "global"
    else let a = class_at r (class_of r k) in if nwords a > 0 then row_of_pair (tok a q) a.wer_alignment_classLabel else noop_row a
  function before (r: r_wer_alignment) (k: int) : int
  axiom before_0: forall r [before r 0]. before r 0 = 0
  axiom before_pos: forall r k [before r k]. 0 <= before r k
  axiom before_s: forall r k m [before r k, before r m]. 0 <= k -> m = k + 1 -> before r m = before r k + nrows r k
  axiom before_mono: forall r k m [before r k, before r m]. 0 <= k <= m -> before r k <= before r m
  (* the i-th row of the whole *)
  function flatrow (r: r_wer_alignment) (i: int) : r_triple
  axiom flat_row: forall r k q i [rowat r k q, flatrow r i]. 0 <= k < nwords r -> 0 <= q < nrows r k -> i = before r k + q -> flatrow r i = rowat r k q
end

module TravReal
  use TravBase
  use TravDef
  clone TravApi with function class_of = classd, function nrows = nrowsd, function rowat = rowatd, function before = befored, function flatrow = flatd
end

module TravState
  use cxx.CxxSeq
  use cxx.CxxStr
  use th_text.TextBase
  use TravBase
  use TravApi
  function total (r: r_wer_alignment) : int = before r (nwords r)
  (* rows delivered so far *)
  function given (v: r_AlignmentTraversor) : int =
    if v.alignmentTraversor_currentSubclass < 0 then before v.alignmentTraversor_root (v.alignmentTraversor_currentPosInRoot + 1)
    else before v.alignmentTraversor_root v.alignmentTraversor_currentPosInRoot + v.alignmentTraversor_currentPosInSubclass + 1
  predicate trav_ok (v: r_AlignmentTraversor) =
    let r = v.alignmentTraversor_root in let p = v.alignmentTraversor_currentPosInRoot in let c = v.alignmentTraversor_currentSubclass in
    -1 <= p < nwords r /\ -1 <= c /\
    (c >= 0 -> 0 <= p /\ c < labels r /\ entity (tok r p).first /\ class_of r p = c /\ -1 <= v.alignmentTraversor_currentPosInSubclass < nrows r p)
  function tmeasure (v: r_AlignmentTraversor) : int =
    2 * (nwords v.alignmentTraversor_root - v.alignmentTraversor_currentPosInRoot) + (if v.alignmentTraversor_currentSubclass >= 0 then 1 else 0)
end
