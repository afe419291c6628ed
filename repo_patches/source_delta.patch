From 20068946d2f13a536fcc18ea59d650d9529b8ce8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:31 +0000
Subject: [PATCH 01/10] fix: don't walk before the start of an empty alignment
 when collecting bigrams

---
 src/utilities.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/utilities.cpp b/src/utilities.cpp
index a1ebc31..df48224 100644
--- a/src/utilities.cpp
+++ b/src/utilities.cpp
@@ -158,6 +158,11 @@ unordered_set<string> get_bigrams(wer_alignment &topAlignment) {
     }
   }
 
+  // there are no bigrams (and no last token) when nothing was aligned
+  if (flattened_tokens.empty()) {
+    return all_bigrams;
+  }
+
   for (auto it = flattened_tokens.begin(); it != std::prev(flattened_tokens.end()); ++it) {
     bi_words = {it->first, std::next(it)->first};
     bigram_ref = string_join(bi_words, " ");
-- 
2.43.0


From 36e038a705d2565d6ff9bae2cf7d3d76ef9e996e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:57 +0000
Subject: [PATCH 02/10] fix: keep the whole first label of an NLP row that has
 several labels

---
 src/Nlp.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Nlp.cpp b/src/Nlp.cpp
index 0bf287f..36ba984 100644
--- a/src/Nlp.cpp
+++ b/src/Nlp.cpp
@@ -396,7 +396,7 @@ std::string NlpReader::GetBestLabel(std::string &labels) {
     // chop before the 1st comma, if needed
     auto pos = trimmed.find(",");
     if (pos > 0) {
-      trimmed = trimmed.substr(0, pos - 2);
+      trimmed = trimmed.substr(0, pos);
     }
 
     // remove the leading/ending single-quote
-- 
2.43.0


From ec7bdc4993930b2c7e5078746416e7b7d8b75711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:09 +0000
Subject: [PATCH 03/10] fix: keep the original spelling of words that differ in
 the case of a non-ASCII letter

---
 src/utilities.cpp | 15 ++-------------
 1 file changed, 2 insertions(+), 13 deletions(-)

diff --git a/src/utilities.cpp b/src/utilities.cpp
index df48224..4db8868 100644
--- a/src/utilities.cpp
+++ b/src/utilities.cpp
@@ -58,20 +58,9 @@ void splitString(const std::string &str, char delimiter, StringFunction f) {
   }
 }
 
-struct iequal {
-  bool operator()(int c1, int c2) const { return std::toupper(c1) == std::toupper(c2); }
-};
-
 bool iequals(const std::string &str1, const std::string &str2) {
-  if (str1.size() != str2.size()) {
-    return false;
-  }
-
-  if (str1 == str2) {
-    return true;
-  }
-
-  return std::equal(str1.begin(), str1.end(), str2.begin(), iequal());
+  // the same lowercasing as when the tokens were loaded, not only that of ASCII letters
+  return str1 == str2 || UnicodeLowercase(str1) == UnicodeLowercase(str2);
 }
 
 // trim from start (in place)
-- 
2.43.0


From c318b55de1cac978eb2f320b67b55dc802c228e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:14 +0000
Subject: [PATCH 04/10] fix: don't count words inserted inside a class span as
 reference words of the speaker

---
 src/wer.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/wer.cpp b/src/wer.cpp
index 1b2f066..5e6d970 100644
--- a/src/wer.cpp
+++ b/src/wer.cpp
@@ -131,10 +131,12 @@ void RecordSpeakerWer(const vector<Stitching> &stitches) {
       last_speaker = speaker_id;
     }
 
-    insertions += stitch.comment.rfind("ins", 0) == 0;
+    bool ins = stitch.comment.rfind("ins", 0) == 0;
+    insertions += ins;
     deletions += stitch.comment.rfind("del", 0) == 0;
     substitutions += stitch.comment.rfind("sub", 0) == 0;
-    num_words_in_reference += speaker_id.empty() ? 0 : 1;
+    // a word inserted inside a class span has a speaker too, but it isn't a reference word
+    num_words_in_reference += (speaker_id.empty() || ins) ? 0 : 1;
   }
 
   if (speaker_wers.find(last_speaker) == speaker_wers.end()) {
-- 
2.43.0


From 29682a9684d6715808f73e1fab71b3f1e9b6914f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:00 +0000
Subject: [PATCH 05/10] fix: with the standard composition, don't make matched
 reference words more expensive than their alternatives

---
 src/fstalign.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/fstalign.cpp b/src/fstalign.cpp
index 37ee686..551919d 100644
--- a/src/fstalign.cpp
+++ b/src/fstalign.cpp
@@ -166,7 +166,10 @@ wer_alignment Fstalign(FstLoader& refLoader, FstLoader& hypLoader, SynonymEngine
     refFst = refLoader.convertToFst(symbol, {});
     hypFst = hypLoader.convertToFst(symbol, {});
   } else {
-    refFst = refLoader.convertToFst(symbol, mapA);
+    // Only the adapted composition reads a weight in the reference as 'must match'. In the standard one it would make a
+    // match more expensive than a synonym or a normalization for the same word.
+    bool is_standard = alignerOptions.composition_approach == "standard";
+    refFst = refLoader.convertToFst(symbol, is_standard ? std::vector<int>() : mapA);
     hypFst = hypLoader.convertToFst(symbol, mapB);
   }
 
-- 
2.43.0


From 3a1acb4b2968a3ef9037016ffd273aee06a46cb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:02 +0000
Subject: [PATCH 06/10] fix: don't let words matched in the first pass count as
 errors when pruning the search

---
 src/PathHeap.cpp | 2 +-
 src/PathHeap.h   | 1 +
 src/Walker.cpp   | 6 ++++++
 3 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/PathHeap.cpp b/src/PathHeap.cpp
index e86f25c..24a6cb6 100644
--- a/src/PathHeap.cpp
+++ b/src/PathHeap.cpp
@@ -100,7 +100,7 @@ bool  pruneMe = (*last_wer_index)->numErrors + 20 < (*iter)->numErrors; --> seem
 */
     // TODO: make this '20' configurable.  Also consider using (numErrors -
     // numInsertion) + 20
-    bool pruneMe = (*last_wer_index)->numErrors + 20 < (*iter)->numErrors;
+    bool pruneMe = (*last_wer_index)->numEdits + 20 < (*iter)->numEdits;
     logger->debug("{} + 20 < {} = {}", numErrorsWithoutInsertions, localCoreErr, pruneMe);
     if (pruneMe) {
       heap.erase(iter++);
diff --git a/src/PathHeap.h b/src/PathHeap.h
index bf4450b..d629e67 100644
--- a/src/PathHeap.h
+++ b/src/PathHeap.h
@@ -32,6 +32,7 @@ struct ShortlistEntry {
   int currentState = 0;
   int whereTo = 0;
   int numErrors = 0;
+  int numEdits = 0;
   int numWords = 0;
   int numInsert = 0;
   double costToGoThere = 0;
diff --git a/src/Walker.cpp b/src/Walker.cpp
index ac357a8..f1ca37d 100644
--- a/src/Walker.cpp
+++ b/src/Walker.cpp
@@ -36,6 +36,7 @@ vector<wer_alignment> Walker::walkComposed(IComposition &fst, SymbolTable &symbo
   firstEntry->costToGoThere = 0;
   firstEntry->whereTo = 0;
   firstEntry->numErrors = 0;
+  firstEntry->numEdits = 0;
   firstEntry->numInsert = 0;
   firstEntry->numWords = 0;
   firstEntry->linkToHere = nullptr;
@@ -188,8 +189,13 @@ std::shared_ptr<ShortlistEntry> Walker::enqueueIfNeeded(std::shared_ptr<Shortlis
   if (!isAnchor) {
     enqueued->numWords = currentState->numWords + 1;
     enqueued->numErrors = currentState->numErrors;
+    enqueued->numEdits = currentState->numEdits;
     if (arcCost > 0) {
       enqueued->numErrors++;
+      if (arc.ilabel != arc.olabel) {
+        // words matched in the first pass have a cost too, but that doesn't make them errors
+        enqueued->numEdits++;
+      }
       if (arc.ilabel == 0) {
         enqueued->numInsert++;
       }
-- 
2.43.0


From d6ad4a025de52e2142be0267c06bf77ab7462a1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:27 +0000
Subject: [PATCH 07/10] fix: compute precision and recall before reporting them
 from the align subcommand

---
 src/fstalign.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/fstalign.cpp b/src/fstalign.cpp
index 551919d..d121509 100644
--- a/src/fstalign.cpp
+++ b/src/fstalign.cpp
@@ -713,6 +713,7 @@ void HandleAlign(NlpFstLoader& refLoader, CtmFstLoader& hypLoader, SynonymEngine
                  AlignerOptions alignerOptions) {
   //  int numBests, string symbols_filename, string composition_approach) {
   auto topAlignment = Fstalign(refLoader, hypLoader, engine, alignerOptions);
+  CalculatePrecisionRecall(topAlignment, alignerOptions.pr_threshold);
   // dump the WER details even when we're just considering alignment
   RecordWer(topAlignment);
 
-- 
2.43.0


From 8fea14536e036660b5c584b7395facb7092071aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:26 +0000
Subject: [PATCH 08/10] fix: with the adapted composition, let a word be
 deleted next to a synonym that could be entered

---
 src/AdaptedComposition.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/AdaptedComposition.cpp b/src/AdaptedComposition.cpp
index f444974..1917125 100644
--- a/src/AdaptedComposition.cpp
+++ b/src/AdaptedComposition.cpp
@@ -283,8 +283,8 @@ bool AdaptedCompositionFst::TryGetArcsAtState(StateId fromStateId, vector<fst::S
       // for now, we enforce reacheability only for synonyms
       if (is_exit_state || !is_synonym || IsEntityReacheable(arcA.olabel, arcA.nextstate, refB)) {
         // we have an arc like __SYN-1__ or __MONEY-1__
+        // (entering it doesn't count as a match: the word next to it may still have to be deleted)
         num_entity++;
-        num_match++;
         // let's keep the weight to 0, this isn't an error
         StateId del_state_ref_id = GetOrCreateComposedState(arcA.nextstate, refB);
         out_vector->push_back(StdArc(arcA.ilabel, del_label_id_, 0.0, del_state_ref_id));
-- 
2.43.0


From 874ece8732b00f8b730f9b595b15c55961eb0012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:34 +0000
Subject: [PATCH 09/10] fix: don't split hyphens at the end of a compound into
 empty words

---
 src/SynonymEngine.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/SynonymEngine.cpp b/src/SynonymEngine.cpp
index ff5acb3..e19a478 100644
--- a/src/SynonymEngine.cpp
+++ b/src/SynonymEngine.cpp
@@ -147,12 +147,13 @@ void SynonymEngine::GenerateSynFromSymbolTable(SymbolTable &symbol) {
     auto sym = symIter.Symbol();
     symIter.Next();
     int hyphen_idx = sym.find('-');
-    if (hyphen_idx < 0) {
+    auto last_idx = sym.find_last_not_of('-');
+    if (hyphen_idx < 0 || last_idx == string::npos) {
       continue;
     }
-    if (!opts_.disable_cutoffs && hyphen_idx == sym.length() - 1) {
+    if (!opts_.disable_cutoffs && last_idx != sym.length() - 1) {
       // Cutoff rules take precedence
-      auto new_word = sym.substr(0, sym.size() - 1);
+      auto new_word = sym.substr(0, last_idx + 1);
       int id = symbol.Find(new_word);
       if (id == kNoSymbol) {
         id = symbol.AddSymbol(new_word);
@@ -169,6 +170,11 @@ void SynonymEngine::GenerateSynFromSymbolTable(SymbolTable &symbol) {
       vector<string> new_words;
       strtk::split("-", trim_copy(sym), strtk::range_to_type_back_inserter(new_words),
                    strtk::split_options::compress_delimiters);
+      new_words.erase(std::remove(new_words.begin(), new_words.end(), ""), new_words.end());
+      if (new_words.size() < 2) {
+        // A leading or trailing hyphen doesn't make it a compound
+        continue;
+      }
 
       vector<string> hyphenated = GetKeyFromString(sym);
 
-- 
2.43.0


From d216f3499c86f211ce7208984abefe4578b3e367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:26 +0000
Subject: [PATCH 10/10] fix: align without the first pass's matches when no
 path through them survives pruning

---
 src/fstalign.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/fstalign.cpp b/src/fstalign.cpp
index d121509..409e810 100644
--- a/src/fstalign.cpp
+++ b/src/fstalign.cpp
@@ -216,6 +216,14 @@ wer_alignment Fstalign(FstLoader& refLoader, FstLoader& hypLoader, SynonymEngine
     return best_alignments[0];
   }
 
+  if (alignerOptions.levenstein_first_pass) {
+    // the paths that agree with the words matched in the first pass may all have been pruned
+    logger->warn("no alignment goes through the words matched in the first pass, aligning without them");
+    AlignerOptions withoutFirstPass = alignerOptions;
+    withoutFirstPass.levenstein_first_pass = false;
+    return Fstalign(refLoader, hypLoader, engine, withoutFirstPass);
+  }
+
   throw std::runtime_error("no alignment produced");
 }
 
-- 
2.43.0

