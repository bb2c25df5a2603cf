UNIT = "fast-d.cpp"
LEV = ["th_lev.LevApi"]
SPECS = {
    "min/3": dict(byval=["a", "b", "c"],
        ensures=[("minimum", "result <= @a /\\ result <= @b /\\ result <= @c /\\ (result = @a \\/ result = @b \\/ result = @c)")]),
    "GetEditDistanceOnly/2": dict(
        theories=LEV, recursive=True, checked=True,
        variant="if length @seqA > length @seqB then 1 else 0",
        ensures=[("edit distance is the Levenshtein distance", "result = lev (old @seqA) (old @seqB) (length (old @seqA)) (length (old @seqB))"),
                 ("arguments unchanged", "@seqA = old @seqA /\\ @seqB = old @seqB")],
        ghost={"loop2:begin": ["lev_rec @seqA @seqB @i @j;"], "loop2:end": ["assert { get @distance @i = lev @seqA @seqB @i @j };"]},
        loops={0: dict(inv=["0 <= @i <= @lengthA + 1 /\\ length @distance = @lengthA + 1",
                            "forall k. 0 <= k < @i -> get @distance k = lev @seqA @seqB k 0"], var="@lengthA - @i"),
               1: dict(inv=["1 <= @j <= @lengthB + 1 /\\ length @distance = @lengthA + 1",
                            "forall k. 0 <= k <= @lengthA -> get @distance k = lev @seqA @seqB k (@j - 1)"], var="@lengthB - @j"),
               2: dict(inv=["1 <= @i <= @lengthA + 1 /\\ length @distance = @lengthA + 1",
                            "forall k. 0 <= k < @i -> get @distance k = lev @seqA @seqB k @j",
                            "forall k. @i <= k <= @lengthA -> get @distance k = lev @seqA @seqB k (@j - 1)",
                            "@prev_diag = lev @seqA @seqB (@i - 1) (@j - 1)"], var="@lengthA - @i")}),
    "GetEditDistance/2": dict(
        theories=LEV + ["th_lev.MapsApi"],
        ensures=[("edit distance is the Levenshtein distance", "result = lev (old @seqA) (old @seqB) (length (old @seqA)) (length (old @seqB))"),
                 ("arguments unchanged", "@seqA = old @seqA /\\ @seqB = old @seqB")]),
    "GetEditDistance/4": dict(
        theories=LEV + ["th_lev.MapsApi"], recursive=True, checked=True,
        requires=["length @mapA = 0 /\\ length @mapB = 0"],
        variant="if length @seqA > length @seqB then 1 else 0",
        ensures=[("edit distance is the Levenshtein distance", "result = lev (old @seqA) (old @seqB) (length (old @seqA)) (length (old @seqB))"),
                 ("arguments unchanged", "@seqA = old @seqA /\\ @seqB = old @seqB"),
                 ("edit maps cover both sequences", "length @mapA = length @seqA /\\ length @mapB = length @seqB"),
                 ("edit maps describe a least-cost alignment", "best_maps @seqA @mapA @seqB @mapB (lev @seqA @seqB (length @seqA) (length @seqB))")],
        ghost={"loop2:end": ["assert { get @distance @i = lev @seqA @seqB @i @j };"], "loop2:begin": ["lev_rec @seqA @seqB @i @j;"],
               "loop3:break": ["assert { tail @seqA @mapA @seqB @mapB @current_pos @seqB_track (lev @seqA @seqB @lengthA @lengthB - lev @seqA @seqB @current_pos @seqB_track) };",
                               "assert { lev @seqA @seqB @current_pos @seqB_track = @current_pos };"],
               "loop3:after": ["assert { @current_pos = 0 -> lev @seqA @seqB @current_pos @seqB_track = @seqB_track };",
                               "assert { best_maps @seqA @mapA @seqB @mapB (lev @seqA @seqB @lengthA @lengthB) };"],
               "loop3:begin": ["lev_rec @seqA @seqB @current_pos @seqB_track;"]},
        loops={0: dict(inv=["0 <= @i <= @lengthA + 1 /\\ length @distance = @lengthA + 1",
                            "forall k. 0 <= k < @i -> get @distance k = lev @seqA @seqB k 0"], var="@lengthA - @i"),
               1: dict(inv=["1 <= @j <= @lengthB + 1 /\\ length @distance = @lengthA + 1 /\\ length @distancePrev = @lengthA + 1",
                            "forall k. 0 <= k <= @lengthA -> get @distance k = lev @seqA @seqB k (@j - 1)",
                            "length @all_distances = @j - 1 /\\ forall k. 0 <= k < @j - 1 -> length (get @all_distances k) = @lengthA + 1",
                            "forall k x. 0 <= k < @j - 1 -> 0 <= x <= @lengthA -> get (get @all_distances k) x = lev @seqA @seqB x k",
                            "@j > 1 -> forall x. 0 <= x <= @lengthA -> get @distancePrev x = lev @seqA @seqB x (@j - 2)"], var="@lengthB - @j"),
               2: dict(inv=["1 <= @i <= @lengthA + 1 /\\ length @distance = @lengthA + 1",
                            "forall k. 0 <= k < @i -> get @distance k = lev @seqA @seqB k @j",
                            "forall k. @i <= k <= @lengthA -> get @distance k = lev @seqA @seqB k (@j - 1)",
                            "@prev_diag = lev @seqA @seqB (@i - 1) (@j - 1)"], var="@lengthA - @i"),
               3: dict(inv=["0 <= @current_pos <= @lengthA /\\ 1 <= @seqB_track <= @lengthB",
                            "length @distance = @lengthA + 1 /\\ length @distancePrev = @lengthA + 1",
                            "length @mapA = @lengthA /\\ length @mapB = @lengthB",
                            "tail @seqA @mapA @seqB @mapB @current_pos @seqB_track (lev @seqA @seqB @lengthA @lengthB - lev @seqA @seqB @current_pos @seqB_track)",
                            "forall k. 0 <= k <= @lengthA -> get @distance k = lev @seqA @seqB k @seqB_track",
                            "forall k. 0 <= k <= @lengthA -> get @distancePrev k = lev @seqA @seqB k (@seqB_track - 1)",
                            "forall k. 0 <= k < @current_pos -> get @mapA k = -1", "forall k. 0 <= k < @seqB_track -> get @mapB k = -1"], var="@current_pos + @seqB_track"),
               4: dict(inv=["0 <= @x <= @lengthA + 1 /\\ length @distance = @lengthA + 1", "forall k. 0 <= k < @x -> get @distance k = get @distancePrev k"], var="@lengthA - @x"),
               5: dict(inv=["0 <= @j <= @lengthA + 1 /\\ length @distancePrev = @lengthA + 1", "forall k. 0 <= k < @j -> get @distancePrev k = get @v k"], var="@lengthA - @j"),
               }),
    "MapContainsErrorStreaks/2": dict(
        theories=["th_streak.Streak"], checked=True,
        ensures=[("streak guard", "result = True <-> exists p. 0 <= p /\\ all_bad @map p (@streak_cutoff + 1)")],
        requires=["0 <= @streak_cutoff < 2147483647"],
        loops={0: dict(inv=["0 <= @x <= length @map", "0 <= @bad_match_seq_cnt <= @x",
                            "all_bad @map (@x - @bad_match_seq_cnt) @bad_match_seq_cnt",
                            "@bad_match_seq_cnt < @x -> get @map (@x - @bad_match_seq_cnt - 1) > 0",
                            "forall p. 0 <= p -> p < @x - @bad_match_seq_cnt -> not all_bad @map p (@streak_cutoff + 1)"], var="length @map - @x")}),
}
