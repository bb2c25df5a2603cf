UNIT = "wer.cpp"
B = ["th_wer.WerBase"]
L = ["th_text.LabelBase", "th_text.LabelApi"]
C = L + ["th_wer.WerBase", "th_wer.ClassBase", "th_wer.ClassApi"]
ROOT = 'jget (jget json_root "wer")'
SPECS = {
    "WerResult::NumErrors/0": dict(this="val", ensures=[("number of errors", "result = @this.werResult_insertions + @this.werResult_deletions + @this.werResult_substitutions")]),
    "WerResult::WER/0": dict(this="val", theories=B, ensures=[("error rate", "result = rate (@this.werResult_insertions + @this.werResult_deletions + @this.werResult_substitutions) @this.werResult_numWordsInReference @this.werResult_numWordsInHypothesis")]),
    "wer_alignment::NumErrors/0": dict(this="val", ensures=[("number of errors", "result = @this.wer_alignment_insertions + @this.wer_alignment_deletions + @this.wer_alignment_substitutions")]),
    "wer_alignment::WER/0": dict(this="val", theories=B, ensures=[("error rate", "result = rate0 (@this.wer_alignment_insertions + @this.wer_alignment_deletions + @this.wer_alignment_substitutions) @this.wer_alignment_numWordsInReference @this.wer_alignment_numWordsInHypothesis")]),
    "RecordWerResult/2": dict(theories=B,
        ensures=[("the recorded object carries the counts, their sum and the rate", "@wr.werResult_numWordsInHypothesis = 0 -> says @json @wr.werResult_insertions @wr.werResult_deletions @wr.werResult_substitutions @wr.werResult_numWordsInReference"),
                 ("nothing else in the object changes", "forall k. not wkey k -> jget @json k = jget (old @json) k")]),
    "RecordWer/1": dict(theories=C, json=True, requires=[("labels are well formed", "wf_labels @topAlignment.wer_alignment_label_alignments")],
        ensures=[("best WER", 'let b = jget (jget json_root "wer") "bestWER" in let a = @topAlignment in jget b "insertions" = j_int a.wer_alignment_insertions /\\ jget b "deletions" = j_int a.wer_alignment_deletions /\\ jget b "substitutions" = j_int a.wer_alignment_substitutions /\\ jget b "numWordsInReference" = j_int a.wer_alignment_numWordsInReference /\\ jget b "numErrors" = j_int (a.wer_alignment_insertions + a.wer_alignment_deletions + a.wer_alignment_substitutions) /\\ jget b "wer" = j_flt (rate0 (a.wer_alignment_insertions + a.wer_alignment_deletions + a.wer_alignment_substitutions) a.wer_alignment_numWordsInReference a.wer_alignment_numWordsInHypothesis) /\\ jget b "precision" = j_flt a.wer_alignment_precision /\\ jget b "recall" = j_flt a.wer_alignment_recall'),
                 ("alignment unchanged", "@topAlignment = old @topAlignment"),
                 ("every class has the sums over its label alignments", 'let la = @topAlignment.wer_alignment_label_alignments in forall c. chas la c (length la) -> says_csum (jget (jget (jget json_root "wer") "classWER") c) la c (length la)'),
                 ("no other class is reported", 'let la = @topAlignment.wer_alignment_label_alignments in forall c. not chas la c (length la) -> jget (jget (jget json_root "wer") "classWER") c = j_null'),
                 ("other sections unchanged", '(forall k. k <> "wer" -> jget json_root k = jget (old json_root) k) /\\ (forall k. k <> "classWER" -> k <> "bestWER" -> jget (jget json_root "wer") k = jget (jget (old json_root) "wer") k)')],
        ghost={"loop1:before": ["let ghost g0 = json_root in"]},
        loops={0: dict(inv=["cls_keys @class_results @topAlignment.wer_alignment_label_alignments @i",
                            "cls_all @class_results @topAlignment.wer_alignment_label_alignments @i"]),
               1: dict(inv=['forall j. 0 <= j < @i -> says_csum (jget (jget (jget json_root "wer") "classWER") (get @keys j)) @topAlignment.wer_alignment_label_alignments (get @keys j) (length @topAlignment.wer_alignment_label_alignments)',
                            'forall c. (forall j. 0 <= j < @i -> get @keys j <> c) -> jget (jget (jget json_root "wer") "classWER") c = j_null',
                            'only_section g0 json_root "classWER"']),
               }),
}
U = "utilities.cpp"
SPECS["GetLabelNameFromClassLabel/1"] = dict(unit=U, theories=L, requires=[("the label is well formed", "wf_label @classLabel")],
    ensures=[("class name", "result = class_name @classLabel"), ("what follows the first underscore after the id", "is_class @classLabel result")])

R = B + ["th_wer.RowsBase", "th_wer.RowsApi"]
SPECS["RecordSentenceWer/1"] = dict(theories=R, json=True,
    ensures=[("every sentence has the counts of its rows", 'forall k. 0 <= k < nsent @stitches (length @stitches) -> says_range (jat (jget (jget json_root "wer") "sentenceWer") k) @stitches (sstart @stitches k) (sstart @stitches (k+1))'),
             ("an unfinished last sentence with a reference word is reported", 'let n = nsent @stitches (length @stitches) in let z = length @stitches in ssum @stitches 3 z - ssum @stitches 3 (sstart @stitches n) > 0 -> says_range (jat (jget (jget json_root "wer") "sentenceWer") n) @stitches (sstart @stitches n) z'),
             ("nothing is reported beyond the sentences", 'let n = nsent @stitches (length @stitches) in let z = length @stitches in forall k. k >= n -> (k > n \\/ ssum @stitches 3 z - ssum @stitches 3 (sstart @stitches n) <= 0) -> jat (jget (jget json_root "wer") "sentenceWer") k = jat (jget (jget (old json_root) "wer") "sentenceWer") k'),
             ("other sections unchanged", 'only_section (old json_root) json_root "sentenceWer"')],
    ghost={"loop1:before": ["let ghost g0 = json_root in"]},
    loops={0: dict(inv=["length @sentence_wers = nsent @stitches @i",
                        "forall k. 0 <= k < length @sentence_wers -> is_range (get @sentence_wers k) @stitches (sstart @stitches k) (sstart @stitches (k+1))",
                        "is_range @curr_wer @stitches (sstart @stitches (nsent @stitches @i)) @i"]),
           1: dict(inv=["0 <= @i <= length @sentence_wers",
                        'forall k. 0 <= k < @i -> let w = get @sentence_wers k in says (jat (jget (jget json_root "wer") "sentenceWer") k) w.werResult_insertions w.werResult_deletions w.werResult_substitutions w.werResult_numWordsInReference',
                        'forall k. k >= @i -> jat (jget (jget json_root "wer") "sentenceWer") k = jat (jget (jget g0 "wer") "sentenceWer") k',
                        'only_section g0 json_root "sentenceWer"'], var="length @sentence_wers - @i")})

K = B + ["th_wer.RowsBase", "th_wer.SpkBase", "th_wer.SpkApi"]
SPW = 'jget (jget json_root "wer") "speakerWER"'
SPECS["RecordSpeakerWer/1"] = dict(theories=K, json=True,
    ensures=[("every speaker has the counts of the rows that belong to it", 'forall x. speaks @stitches x (length @stitches) -> says_spk (jget (%s) x) @stitches x (length @stitches)' % SPW),
             ("without any speaker everything goes to the empty one", '(forall i. 0 <= i < length @stitches -> length (spk (get @stitches i)) = 0) -> says_spk (jget (%s) empty) @stitches empty (length @stitches)' % SPW),
             ("nobody else is reported", 'forall x. length x > 0 -> not speaks @stitches x (length @stitches) -> jget (%s) x = jget (jget (jget (old json_root) "wer") "speakerWER") x' % SPW),
             ("other sections unchanged", 'only_section (old json_root) json_root "speakerWER"')],
    ghost={"loop1:before": ["let ghost g0 = json_root in", "assert { forall x. mmem @speaker_wers x -> is_spk (mget @speaker_wers x) @stitches x (length @stitches) };",
        "assert { forall x. speaks @stitches x (length @stitches) -> mmem @speaker_wers x };", "assert { mmem @speaker_wers (cur @stitches (length @stitches)) };"]},
    loops={0: dict(inv=["@last_speaker = cur @stitches @i",
                        "length @last_speaker = 0 -> forall x. not mmem @speaker_wers x",
                        "length @last_speaker = 0 -> okm @stitches @speaker_wers (firstsp @stitches) @insertions @deletions @substitutions @num_words_in_reference @i",
                        "length @last_speaker > 0 -> okm @stitches @speaker_wers @last_speaker @insertions @deletions @substitutions @num_words_in_reference @i",
                        "forall x. mmem @speaker_wers x -> speaks @stitches x @i",
                        "forall x. speaks @stitches x @i -> mmem @speaker_wers x \\/ x = @last_speaker"]),
           1: dict(inv=['forall j. 0 <= j < @i -> says_spk (jget (%s) (get @keys j)) @stitches (get @keys j) (length @stitches)' % SPW,
                        'forall x. (forall j. 0 <= j < @i -> get @keys j <> x) -> jget (%s) x = jget (jget (jget g0 "wer") "speakerWER") x' % SPW,
                        'only_section g0 json_root "speakerWER"'])})

T = B + ["th_wer.RowsBase", "th_wer.TagApi"]
TGW = 'jget (jget json_root "wer") "wer_tag"'
SPECS["RecordTagWer/1"] = dict(theories=T, json=True,
    ensures=[("every tag has the counts of the rows that carry it", 'forall x. has @stitches x (length @stitches) -> says_tag (jget (%s) x) @stitches x (length @stitches)' % TGW),
             ("no other tag is reported", 'forall x. not has @stitches x (length @stitches) -> jget (%s) x = jget (jget (jget (old json_root) "wer") "wer_tag") x' % TGW),
             ("other sections unchanged", 'only_section (old json_root) json_root "wer_tag"')],
    ghost={"loop2:before": ["let ghost g0 = json_root in"]},
    loops={0: dict(inv=["keys_all @wer_results @stitches @i 0", "tags_all @wer_results @stitches @i 0"]),
           1: dict(inv=["keys_all @wer_results @stitches @i0 @i", "tags_all @wer_results @stitches @i0 @i"]),
           2: dict(inv=['forall j. 0 <= j < @i -> says_tag (jget (%s) (get @keys j)) @stitches (get @keys j) (length @stitches)' % TGW,
                        'forall x. (forall j. 0 <= j < @i -> get @keys j <> x) -> jget (%s) x = jget (jget (jget g0 "wer") "wer_tag") x' % TGW,
                        'only_section g0 json_root "wer_tag"'])})

W = B + ["th_wer.RowsBase", "th_wer.RowsApi", "th_wer.SpkBase", "th_wer.SpkApi", "th_wer.SwBase", "th_wer.SwApi"]
SPECS["GetSpeakerSwitchIndices/1"] = dict(theories=W,
    ensures=[("one entry per switch: the number of reference words before it", "switches @stitches result (length @stitches)")],
    loops={0: dict(inv=["@lastSpeaker = cur @stitches @i", "@nlpRowIndex = ssum @stitches 3 @i", "switches @stitches @speakerSwitches @i"])})
SPECS["RecordSpeakerSwitchWer/2"] = dict(theories=W, json=True,
    ensures=[("the words around the switches are counted", 'forall sw. switches @stitches sw (length @stitches) -> increasing sw -> says_w (jget (jget json_root "wer") "speakerSwitchWER") @stitches sw @speaker_switch_context_size (length @stitches)'),
             ("window size", 'jget (jget (jget (jget json_root "wer") "speakerSwitchWER") "meta") "windowSize" = j_int @speaker_switch_context_size'),
             ("other sections unchanged", 'only_section (old json_root) json_root "speakerSwitchWER"')],
    ghost={"loop0:after": ["assert { increasing @switch_indices -> is_w @wer @stitches @switch_indices @speaker_switch_context_size (length @stitches) };"]},
    loops={0: dict(inv=["@nlpRowIndex = ssum @stitches 3 @i", "0 <= @switchNum <= length @switch_indices",
                        "increasing @switch_indices -> @speaker_switch_context_size > 0 -> forall k. 0 <= k < @switchNum -> get @switch_indices k + @speaker_switch_context_size <= @nlpRowIndex",
                        "increasing @switch_indices -> @speaker_switch_context_size > 0 -> @switchNum < length @switch_indices -> @nlpRowIndex < get @switch_indices @switchNum + @speaker_switch_context_size",
                        "increasing @switch_indices -> is_w @wer @stitches @switch_indices @speaker_switch_context_size @i",
                        ])})

CASE = 'jget (jget json_root "wer") "caseWER"'
def up(v):
    return dict(inv=["0 <= @i <= length @%s" % v, "@%s_upper = ucs @%s @i" % (v, v)], var="length @%s - @i" % v)
SPECS["RecordCaseWer/1"] = dict(theories=B + ["th_wer.UcApi", "th_wer.CaseBase", "th_wer.CaseApi"], json=True,
    ensures=[("matching words", 'let s = @aligned_stitches in let n = length s in says_case (jget (%s) "matching") (ccnt s 0 0 n) (ccnt s 0 1 n) (ccnt s 0 2 n)' % CASE),
             ("all words", 'let s = @aligned_stitches in let n = length s in says_case (jget (%s) "all") (ccnt s 0 0 n + ccnt s 1 0 n) (ccnt s 0 1 n + ccnt s 1 1 n) (ccnt s 0 2 n + ccnt s 1 2 n)' % CASE),
             ("other sections unchanged", 'only_section (old json_root) json_root "caseWER"')],
    ghost={"loop1:break": ["assert { ucs @hyp (@i1 + 1) > 0 };"], "loop4:break": ["assert { ucs @hyp (@i4 + 1) > 0 };"]},
    loops={0: dict(inv=["@true_positive = ccnt @aligned_stitches 0 0 @i", "@false_positive = ccnt @aligned_stitches 0 1 @i", "@false_negative = ccnt @aligned_stitches 0 2 @i",
                        "@sub_tp = ccnt @aligned_stitches 1 0 @i", "@sub_fp = ccnt @aligned_stitches 1 1 @i", "@sub_fn = ccnt @aligned_stitches 1 2 @i"]),
           1: dict(inv=["ucs @hyp @i = 0", "@false_positive = ccnt @aligned_stitches 0 1 @i0"]),
           2: up("ref"), 3: up("hyp"),
           4: dict(inv=["ucs @hyp @i = 0", "@sub_fp = ccnt @aligned_stitches 1 1 @i0"]),
           5: up("ref"), 6: up("hyp")})

UNI, BI = 'jget (jget json_root "wer") "unigrams"', 'jget (jget json_root "wer") "bigrams"'
def grams(sec, s, n):
    return ['distinct1 %s -> grams_upto (%s) %s (%s)' % (s, sec, s, n)]
US, BS = "@topAlignment.wer_alignment_unigram_stats", "@topAlignment.wer_alignment_bigrams_stats"
NOTW = '(forall k. k <> "wer" -> jget json_root k = jget (%s json_root) k) /\\ (forall k. k <> "unigrams" -> k <> "bigrams" -> jget (jget json_root "wer") k = jget (jget (%s json_root) "wer") k)'
SPECS["JsonLogUnigramBigramStats/1"] = dict(theories=B + ["th_wer.GramBase"], json=True,
    ensures=[("every word of the statistics", grams(UNI, US, "length " + US)[0]), ("every word pair of the statistics", grams(BI, BS, "length " + BS)[0]),
             ("no other word", "others_kept (%s) (%s) %s (length %s)" % (UNI.replace("json_root", "(old json_root)"), UNI, US, US)),
             ("no other word pair", "others_kept (%s) (%s) %s (length %s)" % (BI.replace("json_root", "(old json_root)"), BI, BS, BS)),
             ("other sections unchanged", NOTW % ("old", "old")), ("alignment unchanged", "@topAlignment = old @topAlignment")],
    ghost={"loop0:before": ["let ghost g0 = json_root in"], "loop1:before": ["let ghost g1 = json_root in"]},
    loops={0: dict(inv=grams(UNI, US, "@i") + ["others_kept (%s) (%s) %s @i" % (UNI.replace("json_root", "g0"), UNI, US), 'only_section g0 json_root "unigrams"']),
           1: dict(inv=grams(BI, BS, "@i") + ["others_kept (%s) (%s) %s @i" % (BI.replace("json_root", "g1"), BI, BS), 'only_section g1 json_root "bigrams"'])})

X = ["th_sbs.SbsBase"]
SPECS["AddErrorGroup/4"] = dict(theories=X, ensures=[
    ("the group is added", "@groups = snoc (old @groups) { first = old @line; second = group_of (old @ref) (old @hyp) }"),
    ("ready for the next group", "@line = 0 /\\ @ref = empty /\\ @hyp = empty")])
SPECS["WriteSbs/3"] = dict(theories=X + ["th_sbs.SbsApi"], files=True,
    ensures=[("the file holds the report", "mmem out_files @sbs_filename /\\ mget out_files @sbs_filename = sbs @stitches"),
             ("no other file is touched", "forall f. f <> @sbs_filename -> mget out_files f = mget (old out_files) f"), ("the alignment is unchanged", "@topAlignment = old @topAlignment")],
    ghost={"entry": ["let ghost n0 = vsize @stitches in"], "loop1:before": ["let ghost r = get @stitches @i0 in"],
           "loop1:after": ["assert { @tk_wer_tags = tagtext r.stitching_nlpRow.rawNlpRecord_wer_tags (length r.stitching_nlpRow.rawNlpRecord_wer_tags) };"],
           "loop0:after": ["assert { @myfile = text @stitches (length @stitches) };"],
           "loop2:before": ["assert { @groups_err = all_groups @stitches };", "assert { @myfile = between (text @stitches (length @stitches)) };"]},
    loops={0: dict(inv=["@myfile = text @stitches @i", "@offset = next @stitches @i", "@line_err = from @stitches @i", "@ref_err = gref @stitches @i", "@hyp_err = ghyp @stitches @i",
                        "@groups_err = groups @stitches @i"]),
           1: dict(inv=["@tk_wer_tags = tagtext @wer_tags @i"]),
           2: dict(inv=["@myfile = tailtext (between (text @stitches (length @stitches))) (all_groups @stitches) @i"])})
