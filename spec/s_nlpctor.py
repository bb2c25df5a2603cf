UNIT = "Nlp.cpp"
T = ["th_load.LoadBase", "th_text.TextBase", "th_nlpctor.CtorBase", "th_nlpctor.CtorApi", "th_nlpctor.CtorSpec"]
TK, SP, UC, ROWS = "@this.nlpFstLoader_mToken", "@this.nlpFstLoader_mSpeakers", "@this.nlpFstLoader_mUseCase", "@this.nlpFstLoader_mNlpRows"
NORM, SIDE = "@this.nlpFstLoader_mJsonNorm", "@this.nlpFstLoader_mWerSidecar"
ARG = "@processLabels @use_punctuation @use_case"
SPECS = {
    "NlpFstLoader::NlpFstLoader/6": dict(theories=T, sp=True,
        requires=[("a fresh loader", f"{TK} = empty"), ("there is a table of alternatives", "@normalization <> j_null"), ("rows of one label have one label id", "one_id @records")],
        ensures=[("one token per row, one per entity, one per kept punctuation mark, each with its speaker", f"token_list {TK} {SP} (old @records) {ARG} (length (old @records))"),
                 ("the rows are kept, tags resolved", f"row_list {ROWS} (old @records) @wer_sidecar @use_punctuation (length (old @records))"),
                 ("tags resolved in the caller's rows", "recorded @records (old @records) @wer_sidecar (length (old @records))"),
                 ("the words of every entity become one more alternative of its label", f"alts @normalization {NORM} (old @records) @processLabels (length (old @records))"),
                 ("settings", f"{UC} = @use_case /\\ {SIDE} = @wer_sidecar")],
        ghost={"entry": ["let ghost rs = @records in"],
               "loop0:begin": ["let ghost n0 = @i in let ghost b0 = @this in let ghost x0 = @records in", "assert { get @records @i = row rs @i };"],
               "loop0:end": ["assert { retagged @wer_sidecar (row rs n0) (get @records n0) };",
                    "assert { @records = set x0 n0 (get @records n0) };", "assert { recorded @records rs @wer_sidecar (n0 + 1) };",
                    f"assert {{ {TK} = plus_pun (plus_own b0.nlpFstLoader_mToken rs @processLabels n0 (own rs @processLabels @use_case n0)) rs @use_punctuation n0 (pun rs n0) }};",
                    f"assert {{ {SP} = plus_pun (plus_own b0.nlpFstLoader_mSpeakers rs @processLabels n0 (spk rs n0)) rs @use_punctuation n0 (spk rs n0) }};",
                    f"assert {{ {ROWS} = plus_row b0.nlpFstLoader_mNlpRows rs @use_punctuation n0 (get @records n0) }};",
                    f"assert {{ token_list {TK} {SP} rs {ARG} (n0 + 1) }};", f"assert {{ row_list {ROWS} rs @wer_sidecar @use_punctuation (n0 + 1) }};"],
               "loop1:before": ["let ghost r1 = row rs @i0 in let ghost t1 = @this in let ghost x1 = @records in"],
               },
        loops={0: dict(inv=["@this.nlpFstLoader_mUseCase = @use_case /\\ @this.nlpFstLoader_mWerSidecar = @wer_sidecar", "recorded @records rs @wer_sidecar @i", f"token_list {TK} {SP} rs {ARG} @i",
                            f"row_list {ROWS} rs @wer_sidecar @use_punctuation @i", f"alts @normalization {NORM} rs @processLabels @i", "@firstTk <-> @i = 0", "@i > 0 -> @last_label = lab rs (@i - 1)"]),
               1: dict(inv=["@this = t1 /\\ @records = x1", "tagged_to @wer_sidecar r1.rawNlpRecord_wer_tags @curr_row_tags @i"])}),
    "NlpFstLoader::NlpFstLoader/3": dict(theories=T,
        requires=[("a fresh loader", f"{TK} = empty"), ("there is a table of alternatives", "@normalization <> j_null"), ("rows of one label have one label id", "one_id @records")],
        ensures=[("entities are kept, punctuation dropped, case folded", f"token_list {TK} {SP} (old @records) true false false (length (old @records))"),
                 ("the rows are kept, tags resolved", f"row_list {ROWS} (old @records) @wer_sidecar false (length (old @records))"),
                 ("the words of every entity become one more alternative of its label", f"alts @normalization {NORM} (old @records) true (length (old @records))")]),
}
