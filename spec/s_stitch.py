UNIT = "fstalign.cpp"
T = ["th_text.TextBase", "th_trav.TravBase", "th_trav.TravApi", "th_trav.TravState", "th_stitch.StitchBase", "th_stitch.StitchApi", "th_stitch.StitchList"]
SPECS = {
    "make_stitches/5": dict(theories=T, sp=True,
        requires=[("enough ctm rows", "length @hyp_ctm_rows > 0 -> taken @alignment (total @alignment) <= length @hyp_ctm_rows"),
                  ("enough nlp rows", "length @hyp_nlp_rows > 0 -> taken @alignment (total @alignment) <= length @hyp_nlp_rows"),
                  ("enough tokens", "length @one_best_tokens > 0 -> taken @alignment (total @alignment) <= length @one_best_tokens")],
        ensures=[("one record for every row, in order, with its hypothesis row", "stitched result @alignment @hyp_ctm_rows @hyp_nlp_rows @one_best_tokens (total @alignment)"),
                 ("the alignment is unchanged", "@alignment = old @alignment")],
        ghost={"entry": ["let ghost r = @alignment in let ghost cs = @hyp_ctm_rows in let ghost ns = @hyp_nlp_rows in let ghost os = @one_best_tokens in"],
            "loop0:begin": ["let ghost g = given @visitor - 1 in let ghost ss0 = @stitches in", "assert { 0 <= g < total r };", "assert { taken r (g+1) = taken r g + if consumes @tk_pair then 1 else 0 };", "assert { taken r (g+1) <= taken r (total r) };"],
            "set:stitches.stitching_hyptk": ["assert { opened @stitches ss0 g (flatrow r g) /\\ (get @stitches g).stitching_comment = \"\" };"],
            "set:stitches.stitching_comment": ["assert { opened @stitches ss0 g (flatrow r g) }; assert { commented @stitches g (flatrow r g) };"],
            "assign:prev_tk_classLabel": ["let ghost ss1 = @stitches in assert { opened ss1 ss0 g (flatrow r g) }; assert { commented ss1 g (flatrow r g) };"],
            **{"set:stitches." + f: ["assert { growing @stitches ss0 g (flatrow r g) };"] for f in "stitching_start_ts stitching_end_ts stitching_duration stitching_confidence stitching_hyp_orig".split()},
            "set:stitches.stitching_hyp_orig": ["assert { growing @stitches ss0 g (flatrow r g) }; let ghost e1 = get @stitches g in let ghost u = taken r g in", "assert { ctm_case e1 u cs ns os }; assert { nlp_orig e1 u cs ns os }; assert { one_case e1 u cs ns os };"],
            "set:stitches.stitching_duration": ["assert { growing @stitches ss0 g (flatrow r g) }; let ghost e1 = get @stitches g in let ghost u = taken r g in", "assert { nlp_case e1 u cs ns os };"],
            "assign:hypRowIndex": ["let ghost ss2 = @stitches in if 0 <= g then begin let ghost e2 = get ss2 g in assert { growing ss2 ss0 g (flatrow r g) }; assert { consumes (flatrow r g) }; assert { ctm_case e2 (taken r g) cs ns os }; assert { nlp_case e2 (taken r g) cs ns os }; assert { one_case e2 (taken r g) cs ns os }; assert { no_case e2 cs ns os } end;"],
            "loop0:end": ["assert { spells (get @stitches g) (flatrow r g) };", "assert { material (get @stitches g) (flatrow r g) (taken r g) cs ns os };",
               "assert { forall i. 0 <= i < g -> get @stitches i = get ss0 i };"]},
        loops={0: dict(inv=["@visitor.alignmentTraversor_root = r", "trav_ok @visitor", "0 <= given @visitor <= total r", "stitched @stitches r cs ns os (given @visitor)",
             "@hypRowIndex = taken r (given @visitor)", "@alignment = r", "@hyp_ctm_rows = cs", "@hyp_nlp_rows = ns", "@one_best_tokens = os"], var="2 * (total r - given @visitor)")}),
}
