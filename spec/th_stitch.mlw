(* Stitching: one record per row of the alignment, hypothesis material attached in order *)
module StitchBase
  use int.Int
  use cxx.CxxSeq
  use cxx.CxxStr
  use cxx.CxxFlt
  use th_text.TextBase
  use th_trav.TravBase
  use th_trav.TravApi
  use th_trav.TravState
  predicate consumes (t: r_triple) = t.triple_hyp <> "<del>" /\ t.triple_ref <> "!!noop-token!!"
  function comment_of (t: r_triple) : str =
    if t.triple_hyp = "<del>" then "del" else if t.triple_ref = "<ins>" then "ins"
    else if t.triple_hyp <> t.triple_ref then ("sub(" ++ t.triple_hyp) ++ ")" else ""
  predicate spells (s: r_Stitching) (t: r_triple) =
    s.stitching_reftk = t.triple_ref /\ s.stitching_hyptk = t.triple_hyp /\ s.stitching_classLabel = t.triple_classLabel /\ s.stitching_comment = comment_of t
  predicate bare (s: r_Stitching) =
    s.stitching_hyp_orig = "" /\ s.stitching_start_ts = f_lit 1 0 1 /\ s.stitching_end_ts = f_lit 1 0 1 /\ s.stitching_duration = f_lit 1 0 1 /\ s.stitching_confidence = f_lit 1 0 1
  predicate from_ctm (s: r_Stitching) (c: r_RawCtmRecord) =
    s.stitching_start_ts = c.rawCtmRecord_start_time_secs /\ s.stitching_duration = c.rawCtmRecord_duration_secs /\
    s.stitching_end_ts = f_add c.rawCtmRecord_start_time_secs c.rawCtmRecord_duration_secs /\ s.stitching_confidence = c.rawCtmRecord_confidence /\
    s.stitching_hyp_orig = c.rawCtmRecord_word
  predicate nlp_times (s: r_Stitching) (n: r_RawNlpRecord) =
    if length n.rawNlpRecord_ts > 0 /\ length n.rawNlpRecord_endTs > 0 then
      s.stitching_start_ts = stof n.rawNlpRecord_ts /\ s.stitching_end_ts = stof n.rawNlpRecord_endTs /\ s.stitching_duration = f_sub (stof n.rawNlpRecord_endTs) (stof n.rawNlpRecord_ts)
    else if length n.rawNlpRecord_ts > 0 then s.stitching_start_ts = stof n.rawNlpRecord_ts /\ s.stitching_end_ts = stof n.rawNlpRecord_ts
    else if length n.rawNlpRecord_endTs > 0 then s.stitching_start_ts = stof n.rawNlpRecord_endTs /\ s.stitching_end_ts = stof n.rawNlpRecord_endTs
    else true
  predicate from_nlp (s: r_Stitching) (n: r_RawNlpRecord) = s.stitching_hyp_orig = n.rawNlpRecord_token /\ nlp_times s n
  (* which hypothesis row: the number of rows before this one that take one *)
  predicate ctm_case (s: r_Stitching) (u: int) (cs: seq r_RawCtmRecord) (ns: seq r_RawNlpRecord) (os: seq str) = length cs > 0 -> length ns = 0 -> length os = 0 -> from_ctm s (get cs u)
  predicate nlp_case (s: r_Stitching) (u: int) (cs: seq r_RawCtmRecord) (ns: seq r_RawNlpRecord) (os: seq str) = length cs = 0 -> length ns > 0 -> length os = 0 -> from_nlp s (get ns u)
  predicate nlp_orig (s: r_Stitching) (u: int) (cs: seq r_RawCtmRecord) (ns: seq r_RawNlpRecord) (os: seq str) = length cs = 0 -> length ns > 0 -> length os = 0 -> s.stitching_hyp_orig = (get ns u).rawNlpRecord_token
  predicate one_case (s: r_Stitching) (u: int) (cs: seq r_RawCtmRecord) (ns: seq r_RawNlpRecord) (os: seq str) = length cs = 0 -> length ns = 0 -> length os > 0 -> s.stitching_hyp_orig = get os u
  predicate no_case (s: r_Stitching) (cs: seq r_RawCtmRecord) (ns: seq r_RawNlpRecord) (os: seq str) = length cs = 0 -> length ns = 0 -> length os = 0 -> bare s
  predicate material (s: r_Stitching) (t: r_triple) (u: int) (cs: seq r_RawCtmRecord) (ns: seq r_RawNlpRecord) (os: seq str) =
    if consumes t then
      ctm_case s u cs ns os /\ nlp_case s u cs ns os /\ one_case s u cs ns os /\ no_case s cs ns os
    else bare s
end

module StitchDef
  use int.Int
  use cxx.CxxSeq
  use cxx.CxxStr
  use StitchBase
  use th_trav.TravBase
  use th_trav.TravApi
  let rec ghost function takend (r: r_wer_alignment) (i: int) : int variant { i }
    ensures { 0 <= result /\ (0 <= i -> result <= i) }
  = if i <= 0 then 0 else takend r (i-1) + (if pure { consumes (flatrow r (i-1)) } then 1 else 0)
  let rec lemma taken_monod (r: r_wer_alignment) (k m: int)
    requires { 0 <= k <= m } ensures { takend r k <= takend r m } variant { m }
  = if k < m then taken_monod r k (m-1)
end

module StitchApi
  use int.Int
  use cxx.CxxSeq
  use StitchBase
  use th_trav.TravBase
  use th_trav.TravApi
  function taken (r: r_wer_alignment) (i: int) : int
  axiom taken_0: forall r [taken r 0]. taken r 0 = 0
  axiom taken_pos: forall r i [taken r i]. 0 <= i -> 0 <= taken r i <= i
  axiom taken_s: forall r i j [taken r i, taken r j]. 0 <= i -> j = i + 1 -> taken r j = taken r i + if consumes (flatrow r i) then 1 else 0
  axiom taken_mono: forall r k m [taken r k, taken r m]. 0 <= k <= m -> taken r k <= taken r m
end

module StitchReal
  use StitchDef
  clone StitchApi with function taken = takend
end

module StitchList
  use int.Int
  use cxx.CxxSeq
  use StitchBase
  use StitchApi
  use th_trav.TravBase
  use th_trav.TravApi
  use th_trav.TravState
  predicate opened (ss ss0: seq r_Stitching) (g: int) (t: r_triple) =
    length ss = g + 1 /\ (forall i [get ss i]. 0 <= i < g -> get ss i = get ss0 i) /\
    (let s = get ss g in s.stitching_reftk = t.triple_ref /\ s.stitching_hyptk = t.triple_hyp /\ s.stitching_classLabel = t.triple_classLabel /\ bare s)
  predicate commented (ss: seq r_Stitching) (g: int) (t: r_triple) = t.triple_hyp <> "<del>" -> (get ss g).stitching_comment = comment_of t
  predicate growing (ss ss0: seq r_Stitching) (g: int) (t: r_triple) =
    length ss = g + 1 /\ (forall i [get ss i]. 0 <= i < g -> get ss i = get ss0 i) /\ spells (get ss g) t
  predicate stitched (ss: seq r_Stitching) (r: r_wer_alignment) (cs: seq r_RawCtmRecord) (ns: seq r_RawNlpRecord) (os: seq str) (n: int) =
    length ss = n /\ forall i [get ss i]. 0 <= i < n -> spells (get ss i) (flatrow r i) /\ material (get ss i) (flatrow r i) (taken r i) cs ns os
  lemma stitched_empty: forall ss: seq r_Stitching, r, cs, ns, os. length ss = 0 -> stitched ss r cs ns os 0
end
