UNIT = "wer.cpp"
T = ["th_text.TextBase", "th_rev.RevBase", "th_count.CountBase", "th_count.CountApi", "th_count.CountSpec"]
A = "@topAlignment"
SPECS = {
    "UpdateHypCorrectAndAllwords/4": dict(theories=T, recursive=True, sp=True, variant=f"nest {A}",
        requires=[("room for the counts", f"room @hyp_words_counts {A} /\\ room @correct_words_counts {A}")],
        ensures=[("matched words", f"added (old @correct_words_counts) @correct_words_counts {A} (ntok {A}) 0"),
                 ("words of unequal rows", f"added (old @hyp_words_counts) @hyp_words_counts {A} (ntok {A}) 1"),
                 ("the words seen", f"noted (old @all_words) @all_words {A} (ntok {A})"), ("the alignment is unchanged", f"{A} = old {A}")],
        ghost={"entry": [f"let ghost a0 = {A} in let ghost h0 = @hyp_words_counts in let ghost c0 = @correct_words_counts in let ghost s0 = @all_words in"],
               "loop1:before": ["let ghost c1 = @class_label in let ghost h1 = @hyp_words_counts in let ghost d1 = @correct_words_counts in let ghost s1 = @all_words in let ghost g0 = @i0 in",
                    "assert { addedh c0 d1 a0 g0 0 };", "assert { addedh h0 h1 a0 g0 1 };", "assert { notedh s0 s1 a0 g0 };"],
               "loop1:begin": ["assert { rclass a0 @i = @label_alignment };", "assert { @label_alignment.wer_alignment_classLabel = c1 -> enters a0 g0 @i };"]},
        loops={0: dict(inv=[f"{A} = a0", "added c0 @correct_words_counts a0 @i 0", "added h0 @hyp_words_counts a0 @i 1", "noted s0 @all_words a0 @i"]),
               1: dict(inv=[f"{A} = a0", "@hyp_words_counts = h1 /\\ @correct_words_counts = d1 /\\ @all_words = s1", "@i <= firstlabel a0 c1"])}),
}
