(* Pairs of adjacent words *)
module BigramBase
  use int.Int
  use cxx.CxxSeq
  use cxx.CxxApp
  use cxx.CxxSet
  use th_text.TextBase
  use th_rev.RevBase
  function tk (a: r_wer_alignment) (i: int) : pair str str = get a.wer_alignment_tokens i
  function tks (a: r_wer_alignment) : int = length a.wer_alignment_tokens
  function named (a: r_wer_alignment) (c: str) (j: int) : bool = (rclass a j).wer_alignment_classLabel = c
  (* side 0: the reference words at row i and i+1; side 1: the hypothesis words *)
  function side (p: pair str str) (k: int) : str = if k = 0 then p.first else p.second
  function bigram (f: seq (pair str str)) (i k: int) : str = (side (get f i) k ++ " ") ++ side (get f (i+1)) k
  function bhit (f: seq (pair str str)) (i k: int) (w: str) : int = if plain w /\ bigram f i k = w then 1 else 0
  (* the first n pairs of adjacent rows are listed in b *)
  predicate pairs (b f: seq (pair str str)) (n: int) =
    length b = n /\ forall i [get b i]. 0 <= i < n -> (get b i).first = bigram f i 0 /\ (get b i).second = bigram f i 1
end

module BigramDef
  use int.Int
  use cxx.CxxSeq
  use th_text.TextBase
  use th_rev.RevBase
  use BigramBase
  let rec ghost function pushalld (s t: seq (pair str str)) (n: int) : seq (pair str str) variant { n }
  = if n <= 0 then s else snoc (pushalld s t (n-1)) (pure { get t (n-1) })
  let rec ghost function labelpushd (s: seq (pair str str)) (a: r_wer_alignment) (c: str) (m: int) : seq (pair str str) variant { m }
  = if m <= 0 then s else
    let r = labelpushd s a c (m-1) in
    if pure { named a c (m-1) } then pushalld r (pure { (rclass a (m-1)).wer_alignment_tokens }) (pure { tks (rclass a (m-1)) }) else r
  let rec ghost function flatpd (a: r_wer_alignment) (n: int) : seq (pair str str) variant { n }
  = if n <= 0 then pure { (empty: seq (pair str str)) } else
    let r = flatpd a (n-1) in
    if pure { entity (tk a (n-1)).first } then labelpushd r a (pure { (tk a (n-1)).first }) (pure { rlabels a }) else snoc r (pure { tk a (n-1) })
  let rec lemma push_frame (s: seq (pair str str)) (a b: r_wer_alignment) (c: str) (m: int) requires { same_rows a b } ensures { labelpushd s a c m = labelpushd s b c m } variant { m }
  = if m > 0 then begin push_frame s a b c (m-1); assert { rclass a (m-1) = rclass b (m-1) } end
  let rec lemma flat_frame_d (a b: r_wer_alignment) (n: int) requires { same_rows a b } ensures { flatpd a n = flatpd b n } variant { n }
  = if n > 0 then begin flat_frame_d a b (n-1); assert { tk a (n-1) = tk b (n-1) /\ rlabels a = rlabels b };
      let r = flatpd a (n-1) in push_frame r a b (pure { (tk a (n-1)).first }) (pure { rlabels a }) end
  let rec ghost function boccd (f: seq (pair str str)) (n k: int) (w: str) : int variant { n }
    ensures { 0 <= result && (0 <= n -> result <= n) }
  = if n <= 0 then 0 else boccd f (n-1) k w + pure { bhit f (n-1) k w }
end

module BigramApi
  use int.Int
  use cxx.CxxSeq
  use th_text.TextBase
  use th_rev.RevBase
  use BigramBase
  function pushall (s t: seq (pair str str)) (n: int) : seq (pair str str)
  axiom pushall_0: forall s t [pushall s t 0]. pushall s t 0 = s
  axiom pushall_s: forall s t n m [pushall s t n, pushall s t m]. 0 <= n -> m = n + 1 -> pushall s t m = snoc (pushall s t n) (get t n)
  function labelpush (s: seq (pair str str)) (a: r_wer_alignment) (c: str) (m: int) : seq (pair str str)
  axiom labelpush_0: forall s a c [labelpush s a c 0]. labelpush s a c 0 = s
  axiom labelpush_s: forall s a c n m [labelpush s a c n, labelpush s a c m]. 0 <= n -> m = n + 1 ->
    labelpush s a c m = if named a c n then pushall (labelpush s a c n) (rclass a n).wer_alignment_tokens (tks (rclass a n)) else labelpush s a c n
  function flatp (a: r_wer_alignment) (n: int) : seq (pair str str)
  axiom flatp_0: forall a [flatp a 0]. flatp a 0 = empty
  axiom flatp_s: forall a n m [flatp a n, flatp a m]. 0 <= n -> m = n + 1 ->
    flatp a m = if entity (tk a n).first then labelpush (flatp a n) a (tk a n).first (rlabels a) else snoc (flatp a n) (tk a n)
  axiom flat_frame: forall a b n [same_rows a b, flatp a n | same_rows a b, flatp b n]. same_rows a b -> flatp a n = flatp b n
  function bocc (f: seq (pair str str)) (n k: int) (w: str) : int
  axiom bocc_0: forall f n k w [bocc f n k w]. n <= 0 -> bocc f n k w = 0
  axiom bocc_s: forall f n m k w [bocc f n k w, bocc f m k w]. 0 <= n -> m = n + 1 -> bocc f m k w = bocc f n k w + bhit f n k w
  axiom bocc_range: forall f n k w [bocc f n k w]. 0 <= bocc f n k w /\ (0 <= n -> bocc f n k w <= n)
end

module BigramReal
  use BigramDef
  clone BigramApi with function pushall = pushalld, function labelpush = labelpushd, function flatp = flatpd, function bocc = boccd
end

module BigramSpec
  use int.Int
  use cxx.CxxSeq
  use cxx.CxxSet
  use th_text.TextBase
  use BigramBase
  use BigramApi
  predicate bnoted (s: cset str) (f: seq (pair str str)) (n: int) =
    forall w [smem s w]. smem s w <-> bocc f n 0 w > 0 \/ bocc f n 1 w > 0
end
