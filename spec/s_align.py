UNIT = "fstalign.cpp"
O = ["th_out.OutBase", "th_out.OutApi"]
SPECS = {
    "write_stitches_to_nlp/4": dict(theories=O,
        ensures=[("the file holds the rows", "@output_nlp_file = out_text (old @output_nlp_file) (old @stitches) @add_inserts (length (old @stitches))"),
                 ("only comments of written insertions change", "done_upto @stitches (old @stitches) @add_inserts (length @stitches)")],
        ghost={"entry": ["let ghost t0 = @output_nlp_file in let ghost s0 = @stitches in"],
               "loop0:begin": ["let ghost r = get s0 @i in", "assert { get @stitches @i = r };", "let ghost u = @output_nlp_file in",
                   "assert { commented r @add_inserts = r -> done_upto @stitches s0 @add_inserts (@i + 1) };"],
               "set:stitches.stitching_comment": ["assert { get @stitches @i0 = commented r @add_inserts };", "assert { done_upto @stitches s0 @add_inserts (@i0 + 1) };"],
               "loop1:before": ["let ghost w = r.stitching_nlpRow.rawNlpRecord_wer_tags in", "let ghost b = @output_nlp_file in",
                                "assert { b = row_text (row_times (row_word u r) r) r };"],
               "loop0:end": ["assert { written r @add_inserts -> @output_nlp_file = out_row u r @add_inserts };"]},
        loops={0: dict(inv=["@output_nlp_file = out_text t0 s0 @add_inserts @i", "done_upto @stitches s0 @add_inserts @i"]),
               1: dict(inv=["0 <= @it <= length w", "@output_nlp_file = tags_text b w @it"], var="length w - @it")}),
}
