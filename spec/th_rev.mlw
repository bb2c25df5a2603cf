(* Turning an alignment round *)
module RevBase
  use int.Int
  use cxx.CxxSeq
  use cxx.CxxRev
  function rlabels (r: r_wer_alignment) : int = length r.wer_alignment_label_alignments
  function rclass (r: r_wer_alignment) (j: int) : r_wer_alignment = unbox_wer_alignment (get r.wer_alignment_label_alignments j)
  predicate flipped (a b: r_wer_alignment) =
    b.wer_alignment_tokens = srev a.wer_alignment_tokens /\
    b.wer_alignment_ref_words = srev a.wer_alignment_ref_words /\ b.wer_alignment_hyp_words = srev a.wer_alignment_hyp_words /\
    b.wer_alignment_ins_words = srev a.wer_alignment_ins_words /\ b.wer_alignment_del_words = srev a.wer_alignment_del_words /\
    b.wer_alignment_sub_words = srev a.wer_alignment_sub_words /\
    b.wer_alignment_classLabel = a.wer_alignment_classLabel /\ b.wer_alignment_insertions = a.wer_alignment_insertions /\
    b.wer_alignment_deletions = a.wer_alignment_deletions /\ b.wer_alignment_substitutions = a.wer_alignment_substitutions /\
    b.wer_alignment_numWordsInReference = a.wer_alignment_numWordsInReference /\ b.wer_alignment_numWordsInHypothesis = a.wer_alignment_numWordsInHypothesis /\
    rlabels b = rlabels a
  predicate flipped_to (a b: r_wer_alignment) (n: int) = forall k [rclass b k]. 0 <= k < n -> flipped (rclass a k) (rclass b k)
  predicate same_from (a b: r_wer_alignment) (n: int) = forall k [rclass b k]. n <= k < rlabels a -> rclass b k = rclass a k
  predicate same_rows (a b: r_wer_alignment) = a.wer_alignment_tokens = b.wer_alignment_tokens /\ a.wer_alignment_label_alignments = b.wer_alignment_label_alignments
  (* alignments nest finitely *)
  function nest (a: r_wer_alignment) : int
  axiom nest_pos: forall a [nest a]. 0 <= nest a
  axiom nest_lt: forall a k [rclass a k]. 0 <= k < rlabels a -> nest (rclass a k) < nest a
end
