UNIT = "Nlp.cpp"
F = ["th_nlp.FirstApi"]
G = ["th_nlp.FirstApi", "th_nlp.LabelField", "th_nlp.LabelFieldApi"]
Q = ["th_nlp.FirstApi", "th_nlp.TagApi", "th_nlp.TagRows"]
SPECS = {
    "NlpReader::GetLabelId/1": dict(theories=F, requires=[("empty or of the form id:class", "length @label = 0 \\/ (length @label > 2 /\\ get @label 0 <> 58)")],
        ensures=[("the id is what precedes the first colon", "result = slice @label 0 (first_at @label 58 0)"), ("label unchanged", "@label = old @label")],
        ghost={"entry": ["let ghost n = vsize @label in","assert { first_at @label 58 0 > 0 \\/ length @label = 0 };", "assert { length @label = 0 -> seq_eq (slice @label 0 0) empty };"],
               "return": ["assert { seq_eq @result (slice @label 0 (first_at @label 58 0)) };"]}),
    "NlpReader::GetBestLabel/1": dict(theories=G,
        ensures=[("no label", '@labels = "[]" -> length result = 0'), ("not a list of labels", "length @labels < 2 -> result = @labels"),
                 ("the first label in full", "forall e. first_label @labels e -> result = slice @labels 2 e"), ("labels unchanged", "@labels = old @labels")]),
    "NlpReader::GetWerTags/1": dict(theories=Q,
        ensures=[("no tags", '@wer_tags_str = "[]" -> length result = 0'),
                 ("every tag in order", "tags_upto result @wer_tags_str (length result)"),
                 ("all of them", "let n = length result in tclose @wer_tags_str n >= length @wer_tags_str"), ("the text is unchanged", "@wer_tags_str = old @wer_tags_str")],
        ghost={"entry": ["let ghost s0 = @wer_tags_str in let ghost n0 = vsize s0 in", "assert { tclose s0 0 = first_at s0 39 2 };"],
               "loop0:begin": ["let ghost n = length @wer_tags in", "assert { @pos = tclose s0 n /\\ tclose s0 n < n0 };", "let ghost o = topen s0 (n + 1) in", "assert { o = first_at s0 39 (tclose s0 n + 1) + 1 };", "assert { tclose s0 (n + 1) = first_at s0 39 o };"]},
        loops={0: dict(inv=["tags_upto @wer_tags s0 (length @wer_tags)", "@wer_tags_str = s0", "@current_pos = topen s0 (length @wer_tags)", "@current_pos <= n0 \\/ n0 < 2",
                            "let t = tclose s0 (length @wer_tags) in @pos = if t < n0 then t else npos_"], var="n0 - @current_pos")}),
    "NlpReader::read_from_disk/1": dict(theories=Q + ["th_nlp.LabelField", "th_nlp.RowBase"],
        requires=[("the labels are well formed", "tags_ok @filename")],
        ensures=[("every row of the file", "length result = csv_rows nlp_fmt @filename"), ("every cell in its own field", "rows_upto result @filename (length result)")],
        ghost={"loop0:begin": ["let ghost n = length @vect in", 'assert { tag_ok (cell @filename n "tags") };'],
               "set:vect": ["assert { row_of @record @filename n };"]},
        loops={0: dict(inv=["@input_nlp_row = length @vect", "length @vect <= csv_rows nlp_fmt @filename", "rows_upto @vect @filename (length @vect)"]
            + ['keep @filename "%s" @%s' % (c, v) for c, v in [(x, x) for x in "token speaker ts endTs punctuation prepunctuation tags wer_tags confidence".split()] + [("case", "casing")]],
                       var="csv_rows nlp_fmt @filename - length @vect")}),
}
