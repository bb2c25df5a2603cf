(* The NLP loader: tokens, class alternatives *)
module NlpSym
  use int.Int
  use cxx.CxxSeq
  use cxx.CxxApp
  use cxx.CxxStr
  use cxx.CxxSym
  use cxx.CxxJson
  use th_text.TextBase
  use th_load.LoadBase
  predicate bracketed (t: str) = sfind t "<" 0 = 0 /\ sfind t ">" 0 = length t - 1
  (* the symbol of a token: a noise code with a colon is cut there *)
  function entry (t: str) : str =
    if not entity t /\ bracketed t /\ sfind t ":" 0 <> npos_ then slice t 0 (sfind t ":" 0) ++ ">" else t
  function cands (norm: json_t) (t: str) : json_t = jget (jget norm (label_id t)) "candidates"
  function ncands (norm: json_t) (t: str) : int = jsize (cands norm t)
  function cand (norm: json_t) (t: str) (c: int) : seq json_t = jelems (jget (jat (cands norm t) c) "verbalization")
  function candword (norm: json_t) (keep: bool) (t: str) (c w: int) : str = folded keep (j_as_string (get (cand norm t c) w))
  predicate knows_entries (s: symtab_t) (toks: seq str) (n: int) = forall i [get toks i]. 0 <= i < n -> sym_find s (entry (get toks i)) >= 0
  predicate knows_cand (s: symtab_t) (norm: json_t) (keep: bool) (t: str) (c n: int) =
    forall w [get (cand norm t c) w]. 0 <= w < n -> sym_find s (candword norm keep t c w) >= 0
  predicate knows_alts (s: symtab_t) (norm: json_t) (keep: bool) (t: str) (n: int) =
    forall c [cand norm t c]. 0 <= c < n -> knows_cand s norm keep t c (length (cand norm t c))
  predicate knows_all_alts (s: symtab_t) (norm: json_t) (keep: bool) (toks: seq str) (n: int) =
    forall i [get toks i]. 0 <= i < n -> entity (get toks i) -> knows_alts s norm keep (get toks i) (ncands norm (get toks i))
  lemma keep_cand: forall s0 s norm keep t c n [extends s0 s, knows_cand s0 norm keep t c n]. extends s0 s -> knows_cand s0 norm keep t c n -> knows_cand s norm keep t c n
  lemma keep_alts: forall s0 s norm keep t n [extends s0 s, knows_alts s0 norm keep t n]. extends s0 s -> knows_alts s0 norm keep t n -> knows_alts s norm keep t n
  lemma keep_all: forall s0 s norm keep toks n [extends s0 s, knows_all_alts s0 norm keep toks n]. extends s0 s -> knows_all_alts s0 norm keep toks n -> knows_all_alts s norm keep toks n
  lemma keep_entries: forall s0 s toks n [extends s0 s, knows_entries s0 toks n]. extends s0 s -> knows_entries s0 toks n -> knows_entries s toks n
end
