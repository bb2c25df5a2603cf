UNIT = "utilities.cpp"
T = ["th_text.TextBase", "th_rev.RevBase", "th_bigram.BigramBase", "th_bigram.BigramApi", "th_bigram.BigramSpec"]
A = "@topAlignment"
KEEP = "%s = { (%s) with wer_alignment_ref_bigrams = @topAlignment.wer_alignment_ref_bigrams; wer_alignment_hyp_bigrams = @topAlignment.wer_alignment_hyp_bigrams; wer_alignment_bigram_tokens = @topAlignment.wer_alignment_bigram_tokens }"
SPECS = {
    "get_bigrams/1": dict(theories=T + ["th_text.JoinApi"], sp=True,
        requires=[("no pairs yet", f"length {A}.wer_alignment_bigram_tokens = 0")],
        ensures=[("the pairs seen on either side", f"let f = flatp (old {A}) (tks (old {A})) in bnoted result f (length f - 1)"),
                 ("every pair of adjacent rows is listed, in order", f"let f = flatp (old {A}) (tks (old {A})) in pairs {A}.wer_alignment_bigram_tokens f (if length f > 0 then length f - 1 else 0)"),
                 ("the rest of the alignment is unchanged", KEEP % (A, "old " + A))],
        ghost={"entry": [f"let ghost a0 = {A} in"],
               "loop1:before": ["let ghost c1 = @class_label in let ghost f1 = @flattened_tokens in let ghost g0 = @i0 in"],
               "loop2:before": ["let ghost f2 = @flattened_tokens in let ghost t2 = @label_alignment.wer_alignment_tokens in"],
               **{"assign:bigram_" + w: ["assert { length @bi_words = 2 };", "assert { get @bi_words 0 = side (get f @it) %d };" % k, "assert { get @bi_words 1 = side (get f (@it + 1)) %d };" % k, 'assert { joined @bi_words " " 2 = (get @bi_words 0 ++ " ") ++ get @bi_words 1 };', 'assert { joined @bi_words " " 2 = bigram f @it %d };' % k, "assert { length @bi_words = 2 };", "assert { @bigram_%s = bigram f @it %d };" % (w, k)] for k, w in enumerate(("ref", "hyp"))},
               "loop3:before": ["let ghost f = @flattened_tokens in", "assert { f = flatp a0 (tks a0) };"]},
        loops={0: dict(inv=[f"{A} = a0", "@flattened_tokens = flatp a0 @i"]),
               1: dict(inv=[f"{A} = a0", "@flattened_tokens = labelpush f1 a0 c1 @i"]),
               2: dict(inv=[f"{A} = a0", "@flattened_tokens = pushall f2 t2 @i"]),
               3: dict(inv=["0 <= @it <= length f - 1", "@flattened_tokens = f", "bnoted @all_bigrams f @it", f"pairs {A}.wer_alignment_bigram_tokens f @it", KEEP % (A, "a0")], var="length f - @it")}),
}
