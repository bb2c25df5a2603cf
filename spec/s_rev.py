UNIT = "utilities.cpp"
T = ["th_rev.RevBase"]
SPECS = {
    "wer_alignment::Reverse/0": dict(theories=T, recursive=True, variant="nest @this",
        ensures=[("rows and word lists are reversed, counts kept", "flipped (old @this) @this"),
                 ("inside every entity too", "flipped_to (old @this) @this (rlabels (old @this))")],
        ghost={"entry": ["let ghost a0 = @this in"]},
        loops={0: dict(inv=["flipped a0 @this", "flipped_to a0 @this @i", "same_from a0 @this @i"])}),
}
