UNIT = "wer.cpp"
T = ["th_text.TextBase", "th_rev.RevBase", "th_count.CountBase", "th_count.CountApi", "th_count.CountSpec", "th_bigram.BigramBase", "th_bigram.BigramApi", "th_bigram.BigramSpec",
     "th_gramc.GramcBase", "th_gramc.GramcApi", "th_gramc.GramcSpec", "th_gramc.GramcPairs"]
A = "@topAlignment"
O = f"(old {A})"
C = "(a.wer_alignment_numWordsInReference - a.wer_alignment_deletions - a.wer_alignment_substitutions)"
UM = "@correct_words_counts @del_words_counts @subst_fp_words_counts @subst_fn_words_counts @ins_words_counts"
BM = "@correct_bigram_counts @del_bigram_counts @subst_fp_bigram_counts @subst_fn_bigram_counts @ins_bigram_counts"
DW, SW, IW = "a0.wer_alignment_del_words", "a0.wer_alignment_sub_words", "a0.wer_alignment_ins_words"
BT = "t4"
SPECS = {
    "CalculatePrecisionRecall/2": dict(theories=T, sp=True,
        requires=[("nothing recorded yet", f"{A}.wer_alignment_unigram_stats = empty /\\ {A}.wer_alignment_bigrams_stats = empty /\\ length {A}.wer_alignment_bigram_tokens = 0"),
                  ("room for the counts", f"mass {A} (ntok {A}) < 9223372036854775808")],
        ensures=[("precision of the alignment", f"let a = {O} in {A}.wer_alignment_precision = f_div (f_of_int {C}) (f_of_int ({C} + a.wer_alignment_insertions + a.wer_alignment_substitutions))"),
                 ("recall of the alignment", f"let a = {O} in {A}.wer_alignment_recall = f_div (f_of_int {C}) (f_of_int ({C} + a.wer_alignment_substitutions + a.wer_alignment_deletions))"),
                 ("one entry with the right counts for every word seen often enough", f"unigrams_of {A}.wer_alignment_unigram_stats {O} @threshold"),
                 ("the words are ranked", f"ranked {A}.wer_alignment_unigram_stats"),
                 ("every pair of adjacent rows is listed, in order", f"let f = flatp {O} (tks {O}) in pairs {A}.wer_alignment_bigram_tokens f (if length f > 0 then length f - 1 else 0)"),
                 ("one entry with the right counts for every word pair seen often enough", f"let f = flatp {O} (tks {O}) in bigrams_of {A}.wer_alignment_bigrams_stats {A}.wer_alignment_bigram_tokens f @threshold"),
                 ("the word pairs are ranked", f"ranked {A}.wer_alignment_bigrams_stats"),
                 ("the rest of the alignment is unchanged", f"{A} = {{ {O} with wer_alignment_precision = {A}.wer_alignment_precision; wer_alignment_recall = {A}.wer_alignment_recall; wer_alignment_unigram_stats = {A}.wer_alignment_unigram_stats; wer_alignment_bigrams_stats = {A}.wer_alignment_bigrams_stats; wer_alignment_bigram_tokens = {A}.wer_alignment_bigram_tokens; wer_alignment_ref_bigrams = {A}.wer_alignment_ref_bigrams; wer_alignment_hyp_bigrams = {A}.wer_alignment_hyp_bigrams }}")],
        ghost={"entry": [f"let ghost a0 = {A} in", f"let ghost z1 = vsize {DW} in", f"let ghost z2 = vsize {SW} in", f"let ghost z3 = vsize {IW} in"],
               "loop0:before": [f"let ghost a1 = {A} in", "assert { same_rows a0 a1 };", "assert { matched @correct_words_counts a0 };", "assert { words_to @all_words a0 0 0 0 };",
                                f"assert {{ wcounts @del_words_counts {DW} 0 }};", f"assert {{ wcounts @ins_words_counts {IW} 0 }};", f"assert {{ pcounts @subst_fp_words_counts {SW} 0 6 }};", f"assert {{ pcounts @subst_fn_words_counts {SW} 0 5 }};"],
               "assign:topAlignment.wer_alignment_recall": [f"assert {{ same_rows a0 {A} }};", f"assert {{ mass {A} (ntok {A}) = mass a0 (ntok a0) }};", f"assert {{ forall w [cval (mempty: cmap str int) w]. cval (mempty: cmap str int) w = 0 }};", f"assert {{ room (mempty: cmap str int) {A} }};"],
               "assign:topAlignment.wer_alignment_unigram_stats": [f"assert {{ same_rows a0 {A} }};", f"assert {{ flatp {A} (tks {A}) = flatp a0 (tks a0) }};"],
               "loop3:begin": [f"assert {{ to_i (cval {m} @w) = cval {m} @w }};" for m in UM.split()] + ["let ghost kn = kept (selems ws) %s @threshold (@i + 1) in" % UM, f"assert {{ kn = if score {UM} @w >= @threshold then snoc (kept (selems ws) {UM} @threshold @i) (entry {UM} @w) else kept (selems ws) {UM} @threshold @i }};"],
               "decl:error_counter": ["assert { @%s = cval @%s_words_counts @w };" % (v, v) for v in ("correct", "del", "subst_fp", "subst_fn", "ins")] + [f"assert {{ @correct + @ins + @del + @subst_fp + @subst_fn = score {UM} @w }};"],
               "decl:error_counter_2": ["assert { @%s = cval @%s_bigram_counts @b };" % (v, v) for v in ("correct", "del", "subst_fp", "subst_fn", "ins")] + [f"assert {{ @correct + @ins + @del + @subst_fp + @subst_fn = score c5 d5 p5 n5 i5 @b }};"],
               "assign:error_counter.gram_error_counter_recall": ["assert { @error_counter = (entry %s @w).second };" % UM],
               "loop5:begin": [f"assert {{ to_i (cval {m} @b) = cval {m} @b }};" for m in BM.split()] + ["let ghost kn = kept (selems bs) c5 d5 p5 n5 i5 @threshold (@i + 1) in", "assert { kn = if score c5 d5 p5 n5 i5 @b >= @threshold then snoc (kept (selems bs) c5 d5 p5 n5 i5 @threshold @i) (entry c5 d5 p5 n5 i5 @b) else kept (selems bs) c5 d5 p5 n5 i5 @threshold @i };"],
               "assign:error_counter_2.gram_error_counter_recall": ["assert { @error_counter_2 = (entry c5 d5 p5 n5 i5 @b).second };"],
               "push:topAlignment.wer_alignment_unigram_stats": [f"assert {{ @error_counter = (entry {UM} @w).second }};", f"assert {{ snoc {A}.wer_alignment_unigram_stats {{ first = @w; second = @error_counter }} = kn }};"],
               "push:topAlignment.wer_alignment_bigrams_stats": ["assert { @error_counter_2 = (entry c5 d5 p5 n5 i5 @b).second };", f"assert {{ snoc {A}.wer_alignment_bigrams_stats {{ first = @b; second = @error_counter_2 }} = kn }};"],
               "loop1:before": [f"let ghost a1 = {A} in"], "loop2:before": [f"let ghost a1 = {A} in"],
               "loop3:before": [f"let ghost a1 = {A} in", f"assert {{ all_unigrams @all_words {UM} a0 }};", f"let ghost ws = @all_words in"],
               "loop3:after": [f"assert {{ stat_list {A}.wer_alignment_unigram_stats ws {UM} @threshold }};"],
               "loop4:before": [f"let ghost us = kept (selems @all_words) {UM} @threshold (length (selems @all_words)) in", f"assert {{ permuted us {A}.wer_alignment_unigram_stats }};", f"assert {{ stat_list {A}.wer_alignment_unigram_stats @all_words {UM} @threshold }};", f"assert {{ all_unigrams @all_words {UM} a0 }};", f"assert {{ unigrams_of {A}.wer_alignment_unigram_stats a0 @threshold }};",
                                f"let ghost a4 = {A} in", "let ghost t4 = a4.wer_alignment_bigram_tokens in", "let ghost z4 = vsize t4 in"],
               "loop5:before": [f"let ghost a4 = {A} in", f"let ghost t4 = {A}.wer_alignment_bigram_tokens in", "let ghost f4 = flatp a0 (tks a0) in", "assert { length f4 = length (flatp a0 (tks a0)) };", "assert { bnoted @all_bigrams f4 (length f4 - 1) };", f"assert {{ all_bigrams @all_bigrams {BM} t4 f4 }};", "let ghost c5 = @correct_bigram_counts in let ghost d5 = @del_bigram_counts in let ghost p5 = @subst_fp_bigram_counts in let ghost n5 = @subst_fn_bigram_counts in let ghost i5 = @ins_bigram_counts in let ghost bs = @all_bigrams in"],
               "loop5:after": [f"assert {{ stat_list {A}.wer_alignment_bigrams_stats bs c5 d5 p5 n5 i5 @threshold }};"],
               "return": [f"let ghost t4 = {A}.wer_alignment_bigram_tokens in", "let ghost f4 = flatp a0 (tks a0) in", "assert { pairs t4 f4 (if length f4 > 0 then length f4 - 1 else 0) };", f"let ghost vs = kept (selems @all_bigrams) {BM} @threshold (length (selems @all_bigrams)) in", f"assert {{ permuted vs {A}.wer_alignment_bigrams_stats }};", f"assert {{ stat_list {A}.wer_alignment_bigrams_stats @all_bigrams {BM} @threshold }};", f"assert {{ all_bigrams @all_bigrams {BM} t4 f4 }};"]},
        loops={0: dict(inv=[f"{A} = a1", f"wcounts @del_words_counts {DW} @i", "words_to @all_words a0 @i 0 0"]),
               1: dict(inv=[f"{A} = a1", f"pcounts @subst_fn_words_counts {SW} @i 5", f"pcounts @subst_fp_words_counts {SW} @i 6", f"words_to @all_words a0 (length {DW}) @i 0"]),
               2: dict(inv=[f"{A} = a1", f"wcounts @ins_words_counts {IW} @i", f"words_to @all_words a0 (length {DW}) (length {SW}) @i"]),
               3: dict(inv=[f"{A}.wer_alignment_unigram_stats = kept (selems ws) {UM} @threshold @i", f"{A} = {{ a1 with wer_alignment_unigram_stats = {A}.wer_alignment_unigram_stats }}"]),
               4: dict(inv=[f"{A} = a4"] + [f"pcounts @{m}_bigram_counts t4 @i {k}" for k, m in enumerate(("correct", "subst_fn", "subst_fp", "del", "ins"))]),
               5: dict(inv=["@correct_bigram_counts = c5 /\\ @del_bigram_counts = d5 /\\ @subst_fp_bigram_counts = p5 /\\ @subst_fn_bigram_counts = n5 /\\ @ins_bigram_counts = i5", f"{A}.wer_alignment_bigrams_stats = kept (selems bs) c5 d5 p5 n5 i5 @threshold @i", f"{A} = {{ a4 with wer_alignment_bigrams_stats = {A}.wer_alignment_bigrams_stats }}"])}),
}
