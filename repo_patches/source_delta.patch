From fdb8ffd0840b7a0d1df8afd887a5648f396659cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:48 +0000
Subject: [PATCH 1/9] fix: report an error streak that runs to the end of the
 map

---
 src/fast-d.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fast-d.cpp b/src/fast-d.cpp
index 128d927..205b952 100644
--- a/src/fast-d.cpp
+++ b/src/fast-d.cpp
@@ -296,5 +296,5 @@ bool MapContainsErrorStreaks(std::vector<int> map, int streak_cutoff) {
       bad_match_seq_cnt = 0;
     }
   }
-  return false;
+  return bad_match_seq_cnt > streak_cutoff;
 }
-- 
2.43.0


From c607054df647d36df25f7a1a5c101f6641c87877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:48 +0000
Subject: [PATCH 2/9] fix: keep the distance rows when the backtracking of the
 edit maps stays on a row

---
 src/fast-d.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/fast-d.cpp b/src/fast-d.cpp
index 205b952..5b4a9e4 100644
--- a/src/fast-d.cpp
+++ b/src/fast-d.cpp
@@ -193,6 +193,11 @@ int GetEditDistance(std::vector<int> &seqA, std::vector<int> &mapA, std::vector<
       break;
     }
 
+    if (is_del) {
+      // we stay on the same row, the two distance vectors are still the right ones
+      continue;
+    }
+
     // ok, we stop reflecting on the best path to take, now we need to update
     // the distance vectors.  Step 1, distancePrev becomes the new distance
     // now, we only have to go up to current_pos, because everything on the
-- 
2.43.0


From 2ed30167e1431d07beac94191bdd099040481762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:19 +0000
Subject: [PATCH 3/9] fix: per-speaker WER counted insertions inside a class as
 reference words

---
 src/wer.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/wer.cpp b/src/wer.cpp
index 1b2f066..7517436 100644
--- a/src/wer.cpp
+++ b/src/wer.cpp
@@ -134,7 +134,8 @@ void RecordSpeakerWer(const vector<Stitching> &stitches) {
     insertions += stitch.comment.rfind("ins", 0) == 0;
     deletions += stitch.comment.rfind("del", 0) == 0;
     substitutions += stitch.comment.rfind("sub", 0) == 0;
-    num_words_in_reference += speaker_id.empty() ? 0 : 1;
+    // an insertion inside a class carries a speaker too, but it is not a reference word
+    num_words_in_reference += (speaker_id.empty() || stitch.comment.rfind("ins", 0) == 0) ? 0 : 1;
   }
 
   if (speaker_wers.find(last_speaker) == speaker_wers.end()) {
-- 
2.43.0


From 1f89433f7e659b6d48dd8133590fa5ced52326e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:01 +0000
Subject: [PATCH 4/9] fix: the first label of an NLP row with several labels
 lost its last characters

---
 src/Nlp.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Nlp.cpp b/src/Nlp.cpp
index 0bf287f..36ba984 100644
--- a/src/Nlp.cpp
+++ b/src/Nlp.cpp
@@ -396,7 +396,7 @@ std::string NlpReader::GetBestLabel(std::string &labels) {
     // chop before the 1st comma, if needed
     auto pos = trimmed.find(",");
     if (pos > 0) {
-      trimmed = trimmed.substr(0, pos - 2);
+      trimmed = trimmed.substr(0, pos);
     }
 
     // remove the leading/ending single-quote
-- 
2.43.0


From 877ad3cf9e72a6f6ec11a985094ee261edd9e19b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:39 +0000
Subject: [PATCH 5/9] fix: label tables were too small for a symbol table with
 gaps between its ids

---
 src/AdaptedComposition.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/AdaptedComposition.cpp b/src/AdaptedComposition.cpp
index f444974..efa866b 100644
--- a/src/AdaptedComposition.cpp
+++ b/src/AdaptedComposition.cpp
@@ -405,10 +405,10 @@ bool AdaptedCompositionFst::TryGetArcsAtState(StateId fromStateId, vector<fst::S
 void AdaptedCompositionFst::SetSymbols(fst::SymbolTable *symbols) {
   symbols_ = symbols;
   synonyms_label_ids.clear();
-  synonyms_label_ids.resize(symbols->NumSymbols(), false);
+  synonyms_label_ids.resize(symbols->AvailableKey(), false);
 
   entity_label_ids.clear();
-  entity_label_ids.resize(symbols->NumSymbols(), false);
+  entity_label_ids.resize(symbols->AvailableKey(), false);
 
   // mostly for optimization purpose
   logger_->debug("{}:{} we created 2 vector<bool> of {} items", __FILE__, __LINE__, symbols->NumSymbols());
-- 
2.43.0


From d9b3181238a4f639b0ef3a9a4c63535a0b6d9363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:39 +0000
Subject: [PATCH 6/9] fix: asking for a composed state that was never created
 looked at state 0 instead

---
 src/AdaptedComposition.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/AdaptedComposition.cpp b/src/AdaptedComposition.cpp
index efa866b..7c9a00b 100644
--- a/src/AdaptedComposition.cpp
+++ b/src/AdaptedComposition.cpp
@@ -81,7 +81,7 @@ bool AdaptedCompositionFst::DoesComposedStateExist(StateId a) {
                    reversed_composed_states.size(), a);
   }
 
-  auto itr = reversed_composed_states.find(0);
+  auto itr = reversed_composed_states.find(a);
   if (itr == reversed_composed_states.end()) {
     return false;
   } else {
-- 
2.43.0


From be638dbbce963180920de735833748ff077da648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:24 +0000
Subject: [PATCH 7/9] fix: the epsilon at the end of an NLP hypothesis was
 aligned as a word

---
 src/fstalign.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/fstalign.cpp b/src/fstalign.cpp
index 37ee686..dd68ce2 100644
--- a/src/fstalign.cpp
+++ b/src/fstalign.cpp
@@ -198,6 +198,7 @@ wer_alignment Fstalign(FstLoader& refLoader, FstLoader& hypLoader, SynonymEngine
     best_alignments = walker.walkComposed(composed_fst, symbol, options, alignerOptions.numBests);
   } else if (alignerOptions.composition_approach == "adapted") {
     RmEpsilon(&refFst, true);
+    RmEpsilon(&hypFst, true);
     ReverseOLabelCompare<StdArc> comparer;
     ArcSort(&refFst, comparer);
     AdaptedCompositionFst composed_fst(refFst, hypFst, symbol);
-- 
2.43.0


From d685b0bea2ac5e3088271325db93b49eec2b953c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:51 +0000
Subject: [PATCH 8/9] fix: the align command logged uninitialised precision and
 recall

---
 src/utilities.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/utilities.h b/src/utilities.h
index dbe794d..8f7eee2 100644
--- a/src/utilities.h
+++ b/src/utilities.h
@@ -78,8 +78,8 @@ struct wer_alignment {
   vector<string> ins_words;
   vector<pair<string, string>> sub_words;
 
-  precision_t precision;
-  recall_t recall;
+  precision_t precision = 0.0f;
+  recall_t recall = 0.0f;
   // map<string, pair<precision_t, recall_t>> unigram_stats;
   vector<pair<string, gram_error_counter>> unigram_stats;
 
-- 
2.43.0


From d9f52ac81e438b4a0d0ac0110e2351d0da7ff18c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:31 +0000
Subject: [PATCH 9/9] fix: two empty transcripts crashed the bigram statistics

---
 src/utilities.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/utilities.cpp b/src/utilities.cpp
index a1ebc31..74c091f 100644
--- a/src/utilities.cpp
+++ b/src/utilities.cpp
@@ -158,6 +158,11 @@ unordered_set<string> get_bigrams(wer_alignment &topAlignment) {
     }
   }
 
+  // an empty alignment has no pairs of adjacent tokens
+  if (flattened_tokens.empty()) {
+    return all_bigrams;
+  }
+
   for (auto it = flattened_tokens.begin(); it != std::prev(flattened_tokens.end()); ++it) {
     bi_words = {it->first, std::next(it)->first};
     bigram_ref = string_join(bi_words, " ");
-- 
2.43.0

