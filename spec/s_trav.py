UNIT = "AlignmentTraversor.cpp"
T = ["th_text.TextBase", "th_trav.TravBase", "th_trav.TravApi", "th_trav.TravState"]
SPECS = {
    "AlignmentTraversor::AlignmentTraversor/1": dict(theories=T, ensures=[("at the start", "@this.alignmentTraversor_root = @topLevel /\\ trav_ok @this /\\ given @this = 0"), ("the alignment is unchanged", "@topLevel = old @topLevel")]),
    "AlignmentTraversor::Restart/0": dict(theories=T, ensures=[("at the start again", "@this.alignmentTraversor_root = (old @this).alignmentTraversor_root /\\ trav_ok @this /\\ given @this = 0")]),
    "AlignmentTraversor::NextTriple/1": dict(theories=T, recursive=True, variant="tmeasure @this",
        requires=[("in a sane state", "trav_ok @this")],
        ensures=[("the same alignment", "@this.alignmentTraversor_root = (old @this).alignmentTraversor_root"),
                 ("the next row is delivered", "result -> @triple = flatrow @this.alignmentTraversor_root (given (old @this)) /\\ given @this = given (old @this) + 1 /\\ trav_ok @this"),
                 ("not beyond the end", "result -> given @this <= total @this.alignmentTraversor_root"),
                 ("the end comes after all rows", "not result -> given (old @this) = total @this.alignmentTraversor_root")],
        ghost={"entry": ["let ghost v0 = @this in let ghost r = v0.alignmentTraversor_root in let ghost p0 = v0.alignmentTraversor_currentPosInRoot in let ghost q0 = v0.alignmentTraversor_currentPosInSubclass in",
            "let ghost p = p0 + 1 in let ghost c0 = v0.alignmentTraversor_currentSubclass in", "let ghost g0 = given v0 in",
            'assert { c0 < 0 -> p < nwords r -> not entity (tok r p).first -> rowat r p 0 = row_of_pair (tok r p) "global" };',
            "assert { c0 < 0 -> g0 = before r p };", "assert { c0 < 0 -> p < nwords r -> before r (p + 1) = before r p + nrows r p };",
            "assert { c0 >= 0 -> g0 = before r p0 + q0 + 1 /\\ before r (p0 + 1) = before r p0 + nrows r p0 };",
            "assert { c0 >= 0 -> q0 + 1 < nrows r p0 -> flatrow r g0 = rowat r p0 (q0 + 1) };"],
            "loop0:after": ["assert { let c = @this.alignmentTraversor_currentSubclass in if c >= 0 then first_lab r (tok r p).first c else no_lab r (tok r p).first (labels r) };",
                "assert { class_of r p = @this.alignmentTraversor_currentSubclass };"],
               },
        loops={0: dict(inv=["no_lab r (tok r (p0 + 1)).first @i", "@this.alignmentTraversor_root = r", "@this.alignmentTraversor_currentPosInRoot = p", "@this.alignmentTraversor_currentPosInSubclass = -1", "@this.alignmentTraversor_currentSubclass = -1"])}),
}
