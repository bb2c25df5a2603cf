"""property -> functions under contract, replay harness"""
ASSUME = [
    "C++ int arithmetic is mathematical except in functions marked `checked`, where every addition and subtraction carries an overflow obligation; unsigned wrap-around is modelled",
    "floating point operations are uninterpreted total functions (facts about literals only)",
    "no container holds 2^31-1 elements or more",
    "no aliasing between distinct reference parameters; no concurrency",
    "logging calls are dropped by the extraction (they have no effect on the values)",
    "std, OpenFst, jsoncpp, ICU operations behave as specified in vx/cxx.mlw",
]
ALIGN = ["AdaptedComposition.cpp", "AlignmentTraversor.cpp", "Ctm.cpp", "fast-d.cpp", "FstLoader.cpp", "fstalign.cpp", "logging.cpp", "Nlp.cpp",
         "OneBestFstLoader.cpp", "PathHeap.cpp", "StandardComposition.cpp", "SynonymEngine.cpp", "utilities.cpp", "Walker.cpp", "wer.cpp"]
FASTD = "all pairs of sequences of length <= 4 over 3 symbols, 6000 random pairs up to length 120, 120 pairs with moved, inserted, dropped or repeated blocks up to length 700"


def fastd(g, bound):
    return dict(src="h_fastd.cpp", repo=["fast-d.cpp"], san=True, libs=False, args=[g], bound=bound)


def wer(g, bound):
    return dict(src="h_wer.cpp", repo=["wer.cpp", "utilities.cpp", "AlignmentTraversor.cpp", "logging.cpp"], san=True, args=[g], bound=bound)


def load(g, bound):
    return dict(src="h_load.cpp", repo=["Nlp.cpp", "Ctm.cpp", "OneBestFstLoader.cpp", "FstLoader.cpp", "FstFileLoader.cpp", "utilities.cpp", "logging.cpp"],
                san=True, args=[g], bound=bound)


def compose(g, bound):
    return dict(src="h_compose.cpp", repo=["AdaptedComposition.cpp", "PathHeap.cpp", "utilities.cpp", "logging.cpp"], san=True, args=[g], bound=bound)


def align(g, bound):
    return dict(src="h_align.cpp", repo=ALIGN, san=True, strtk=True, args=[g], bound=bound)


def stitch(g, bound):
    return dict(src="h_stitch.cpp", repo=ALIGN, san=True, strtk=True, args=[g], bound=bound)


TABLE = "4000 random stitched tables of 1..16 rows (every 40th of 30..120 rows)"
PROPS = {
    "C01": dict(title="edit distance is exact", functions=["min/3", "GetEditDistanceOnly/2", "GetEditDistance/2", "GetEditDistance/4"],
        harness=[fastd("dist", FASTD)]),
    "C02": dict(title="edit maps describe a least-cost alignment", functions=["min/3", "GetEditDistance/4"], harness=[fastd("maps", FASTD)]),
    "C03": dict(title="error-streak guard is exact", functions=["MapContainsErrorStreaks/2"],
        harness=[fastd("streak", "all 0/1 maps of length <= 9 with cutoffs 0..5, 3000 random maps up to length 60")]),
    "C04": dict(title="loaders spell the transcript", functions=["OneBestFstLoader::OneBestFstLoader/1", "OneBestFstLoader::BuildFromString/1", "OneBestFstLoader::LoadTextFile/1", "OneBestFstLoader::addToSymbolTable/1",
            "OneBestFstLoader::convertToIntVector/1", "OneBestFstLoader::convertToFst/2", "FstLoader::AddSymbolIfNeeded/2", "CtmReader::read_from_disk/1", "read_from_disk_no_conf/1", "read_from_disk_with_conf/1",
            "CtmFstLoader::CtmFstLoader/2", "CtmFstLoader::addToSymbolTable/1", "CtmFstLoader::convertToIntVector/1", "CtmFstLoader::convertToFst/2",
            "NlpFstLoader::addToSymbolTable/1", "NlpFstLoader::convertToIntVector/1", "NlpFstLoader::NlpFstLoader/3", "NlpFstLoader::NlpFstLoader/6",
            "NlpFstLoader::GetProperSymbolId/3", "NlpFstLoader::convertToFst/2",
            "FstFileLoader::FstFileLoader/1", "FstFileLoader::addToSymbolTable/1", "FstFileLoader::convertToFst/2", "FstFileLoader::convertToIntVector/1"],
        harness=[load("load", "2500 one-best texts, 2500 CTM files, 4000 NLP files with class labels, 150 FST files, random content of up to a few dozen rows")]),
    "C05": dict(title="composition offers exactly the allowed steps", functions=["AdaptedCompositionFst::AdaptedCompositionFst/3", "AdaptedCompositionFst::SetSymbols/1", "AdaptedCompositionFst::IsEntityLabel/1", "AdaptedCompositionFst::IsSynonymLabel/1", "AdaptedCompositionFst::Start/0",
            "AdaptedCompositionFst::DoesComposedStateExist/1", "AdaptedCompositionFst::DoesComposedStateExist/2", "AdaptedCompositionFst::GetOrCreateComposedState/2", "AdaptedCompositionFst::Final/1", "AdaptedCompositionFst::IsEntityReacheable/3", "AdaptedCompositionFst::TryGetArcsAtState/2"],
        harness=[compose("compose", "12000 random pairs of automata of up to 8 states with class and synonym entry symbols, every reachable state pair examined")]),
    "C06": dict(title="path search finds a near-minimal alignment", functions=[],
        harness=[compose("heap", "8000 random operation sequences on the path heap"),
                 align("align-linear,align-standard", "4300 random transcript pairs of up to 16 words, and long ones with few edits")]),
    "C07": dict(title="the alignment report counts and spells correctly", functions=["wer_alignment::NumErrors/0", "wer_alignment::Reverse/0"],
        harness=[align("align-linear,align-class", "6500 random transcript pairs, with class alternatives in the reference")]),
    "C08": dict(title="stitching keeps every row, in order", functions=["AlignmentTraversor::AlignmentTraversor/1", "AlignmentTraversor::Restart/0", "AlignmentTraversor::NextTriple/1", "make_stitches/5"],
        harness=[stitch("traverse,stitch", "8000 alignments traversed, 6000 stitched, up to a few dozen rows")]),
    "C09": dict(title="reference rows are attached in order", functions=[],
        harness=[stitch("attach", "8000 random alignments against NLP references")]),
    "C10": dict(title="aligned NLP output", functions=["write_stitches_to_nlp/4"],
        harness=[stitch("write", "3000 random tables written and read back"), align("handle", "1200 runs of the wer and align commands")]),
    "C11": dict(title="WER, precision and recall are what the counts say", functions=["WerResult::NumErrors/0", "WerResult::WER/0", "wer_alignment::NumErrors/0", "wer_alignment::WER/0", "RecordWerResult/2", "GetLabelNameFromClassLabel/1", "RecordWer/1"],
        harness=[wer("wer", "3000 random alignments with up to a dozen class alternatives")]),
    "C12": dict(title="per-speaker, per-sentence and per-tag counts", functions=["WerResult::NumErrors/0", "WerResult::WER/0", "RecordWerResult/2", "RecordSentenceWer/1", "RecordSpeakerWer/1", "RecordTagWer/1"],
        harness=[wer("sent,speaker,tag", TABLE + " for each of the three breakdowns")]),
    "C13": dict(title="error rate around speaker switches", functions=["WerResult::NumErrors/0", "WerResult::WER/0", "RecordWerResult/2", "GetSpeakerSwitchIndices/1", "RecordSpeakerSwitchWer/2"], harness=[wer("switch", TABLE + ", context 0..12")]),
    "C14": dict(title="capitalisation statistics", functions=["RecordCaseWer/1"], harness=[wer("case", TABLE)]),
    "C15": dict(title="unigram and bigram statistics", functions=["UpdateHypCorrectAndAllwords/4", "get_bigrams/1", "CalculatePrecisionRecall/2", "JsonLogUnigramBigramStats/1"], harness=[wer("grams", "3000 random pairs of word sequences")]),
    "C16": dict(title="synonyms only add alternatives", functions=["SeekForward/5", "SynonymEngine::ApplyToFst/2"],
        harness=[align("align-syn,syn-fst", "3000 random references with random synonym tables, 6000 random reference graphs of up to 7 states with 1..4 rules")]),
    "C17": dict(title="NLP rows are parsed faithfully", functions=["NlpReader::GetLabelId/1", "NlpReader::GetBestLabel/1", "NlpReader::GetWerTags/1", "NlpReader::read_from_disk/1"], harness=[load("parse", "2000 NLP files, 3000 label and tag fields, random content")]),
    "C18": dict(title="text normalisation and token classes", functions=["iequals/2", "EndsWithCaseInsensitive/2", "ltrim/1", "rtrim/1", "trim/1", "trim_copy/1", "string_join/2", "isValidNgram/1",
        "isEntityLabel/1", "isSynonymLabel/1", "IsNoisecodeToken/1", "getLabelIdFromToken/1", "GetClassLabel/1", "UnicodeLowercase/1", "GetLabelNameFromClassLabel/1"], harness=[load("text", "30000 random strings, ASCII and multi-byte")]),
    "C19": dict(title="side-by-side report", functions=["AddErrorGroup/4", "WriteSbs/3"], harness=[wer("sbs", TABLE)]),
}
NOT_APPLICABLE = {}
PART = ("The contracts on the functions named in the evidence file are discharged for all inputs on every run; "
        "the remaining functions of this property are outside the verifier so far and have a bounded check (stated in the evidence, never counted as proved).")
for _p in PROPS.values():
    _p.setdefault("level", "proof")
    if _p["level"] == "other":
        _p.setdefault("explanation", PART)
        _p.setdefault("note", PART + " Trusts vx/cxx.mlw, the extraction, Why3, z3, cvc5.")
for _k in [f"C{i:02d}" for i in range(4, 20) if i not in (4, 5, 8, 11, 12, 13, 14, 15, 17, 18, 19)]:
    PROPS[_k].update(level="other", explanation=PART, note=PART + " Trusts vx/cxx.mlw, the extraction, Why3, z3, cvc5.")
