(* CTM rows *)
module CtmBase
  use int.Int
  use cxx.CxxSeq
  use th_load.LoadBase
  predicate ctm_tokens (toks: seq str) (rows: seq r_RawCtmRecord) (keep: bool) (n: int) =
    length toks = n /\ forall i [get toks i]. 0 <= i < n -> get toks i = folded keep (get rows i).rawCtmRecord_word
end

module CtmFile
  use int.Int
  use cxx.CxxSeq
  use cxx.CxxStr
  use cxx.CxxFlt
  use cxx.CxxRead
  function ctm_fmt : str = "trim_chars<'','/t'>,no_quote_escape<''>,throw_on_overflow,empty_line_comment"
  predicate ctm_row (r: r_RawCtmRecord) (f: str) (i: int) (conf: bool) =
    r.rawCtmRecord_recording = csv_nth ctm_fmt f i 0 /\ r.rawCtmRecord_channel = csv_nth ctm_fmt f i 1 /\
    r.rawCtmRecord_start_time_secs = stof (csv_nth ctm_fmt f i 2) /\ r.rawCtmRecord_duration_secs = stof (csv_nth ctm_fmt f i 3) /\
    r.rawCtmRecord_word = csv_nth ctm_fmt f i 4 /\ r.rawCtmRecord_confidence = if conf then stof (csv_nth ctm_fmt f i 5) else f_lit 1 1 1
  predicate ctm_rows (v: seq r_RawCtmRecord) (f: str) (conf: bool) (n: int) = length v = n /\ forall i [get v i]. 0 <= i < n -> ctm_row (get v i) f i conf
end

