From b61cc5d686fa9e08fb309082481abc348951473e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:15 +0000
Subject: [PATCH 01/19] fix: recompute the sentence when a prefix override
 fails

pinNodeWithAssociatedPhrase() overrides the characters of the node first and
returned without walking the grid when overriding the prefix then failed, so
the composing buffer was built from an outdated walk.
---
 src/KeyHandler.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/KeyHandler.cpp b/src/KeyHandler.cpp
index 7dff5cb..f11dad8 100644
--- a/src/KeyHandler.cpp
+++ b/src/KeyHandler.cpp
@@ -1574,10 +1574,13 @@ void KeyHandler::pinNodeWithAssociatedPhrase(
   // associated phrase.
   Formosa::Gramambular2::ReadingGrid::Candidate prefixCandidate{prefixReading,
                                                                 prefixValue};
-  if (!grid_.overrideCandidate(actualPrefixCursorIndex, prefixCandidate)) {
+  bool overridden =
+      grid_.overrideCandidate(actualPrefixCursorIndex, prefixCandidate);
+  // The split overrides above may have changed the grid even if this failed.
+  walk();
+  if (!overridden) {
     return;
   }
-  walk();
 
   // Now we've set ourselves up. Because associated phrases require the strict
   // one-reading-for-one-value rule, we can comfortably count how many readings
-- 
2.43.0


From e90cf4381664aa012fb6ae7bdd2b75b351da0fbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:15 +0000
Subject: [PATCH 02/19] fix: reset the composition when a dictionary service
 closes it

Web based dictionary services enter the Empty state, which commits the
composing buffer, but the grid kept the readings, so the committed text
reappeared (and was committed again) on the next key.
---
 src/KeyHandler.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/KeyHandler.cpp b/src/KeyHandler.cpp
index f11dad8..1e87611 100644
--- a/src/KeyHandler.cpp
+++ b/src/KeyHandler.cpp
@@ -556,8 +556,16 @@ void KeyHandler::candidateAssociatedPhraseSelected(
 void KeyHandler::dictionaryServiceSelected(std::string phrase, size_t index,
                                            InputState* currentState,
                                            StateCallback stateCallback) {
-  dictionaryServices_->lookup(std::move(phrase), index, currentState,
-                              stateCallback);
+  dictionaryServices_->lookup(
+      std::move(phrase), index, currentState,
+      [this, &stateCallback](std::unique_ptr<InputState> next) {
+        // A service that leaves the input session (entering Empty commits the
+        // composing buffer) must not leave the committed text in the grid.
+        if (dynamic_cast<InputStates::Empty*>(next.get()) != nullptr) {
+          reset();
+        }
+        stateCallback(std::move(next));
+      });
 }
 
 void KeyHandler::candidatePanelCancelled(size_t originalCursor,
-- 
2.43.0


From 482542f1fb17c36d034b43080121092b8cfbd181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:19 +0000
Subject: [PATCH 03/19] fix: do not read the replaced state when cancelling a
 list

selectedCandidateIndex was read from the SelectingDictionary and
AssociatedPhrases states after stateCallback() had already destroyed them.
---
 src/McBopomofo.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/McBopomofo.cpp b/src/McBopomofo.cpp
index 9d5e77e..663bc94 100644
--- a/src/McBopomofo.cpp
+++ b/src/McBopomofo.cpp
@@ -888,6 +888,8 @@ bool McBopomofoEngine::handleCandidateKeyEvent(
       auto* previous = selecting->previousState.get();
       auto* choosing = dynamic_cast<InputStates::ChoosingCandidate*>(previous);
       if (choosing != nullptr) {
+        // stateCallback() destroys the current state; keep what is needed.
+        size_t index = selecting->selectedCandidateIndex;
         auto copy = std::make_unique<InputStates::ChoosingCandidate>(*choosing);
         stateCallback(std::move(copy));
 
@@ -898,7 +900,6 @@ bool McBopomofoEngine::handleCandidateKeyEvent(
         auto* maybeCandidateList = dynamic_cast<fcitx::CommonCandidateList*>(
             context->inputPanel().candidateList().get());
 #endif
-        size_t index = selecting->selectedCandidateIndex;
         // Make sure fcitx5 shows the candidate page; needed when page > 0.
 #ifndef USE_LEGACY_FCITX5_API
         maybeCandidateList->setPage(static_cast<int>(index) /
@@ -923,6 +924,8 @@ bool McBopomofoEngine::handleCandidateKeyEvent(
       auto* choosing = dynamic_cast<InputStates::ChoosingCandidate*>(previous);
       auto* inputting = dynamic_cast<InputStates::Inputting*>(previous);
       if (choosing != nullptr) {
+        // stateCallback() destroys the current state; keep what is needed.
+        size_t index = associatedPhrases->selectedCandidateIndex;
         auto copy = std::make_unique<InputStates::ChoosingCandidate>(*choosing);
         stateCallback(std::move(copy));
 
@@ -933,7 +936,6 @@ bool McBopomofoEngine::handleCandidateKeyEvent(
         auto* maybeCandidateList = dynamic_cast<fcitx::CommonCandidateList*>(
             context->inputPanel().candidateList().get());
 #endif
-        size_t index = associatedPhrases->selectedCandidateIndex;
 #ifndef USE_LEGACY_FCITX5_API
         // Make sure fcitx5 shows the candidate page; needed when page > 0.
         maybeCandidateList->setPage(static_cast<int>(index) /
-- 
2.43.0


From 0d5b3437d52ce8801658a0687621e22d8d7174eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:06 +0000
Subject: [PATCH 04/19] fix: check the highlighted candidate before using its
 position

cursorIndex() is -1 when the highlighted candidate is not on the current page
(for example after paging with the mouse); Enter, Shift+Enter and the
traditional mode's selection then made fcitx throw or indexed candidates[-1].
Looking up a candidate with '?' computed its position with the size of the
current page, which is wrong on a last page that is not full.
---
 src/McBopomofo.cpp | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/src/McBopomofo.cpp b/src/McBopomofo.cpp
index 663bc94..93eabce 100644
--- a/src/McBopomofo.cpp
+++ b/src/McBopomofo.cpp
@@ -795,10 +795,22 @@ bool McBopomofoEngine::handleCandidateKeyEvent(
     if (choosingCandidate != nullptr) {
       // Enter selecting dictionary service state.
       if (keyHandler_->hasDictionaryServices()) {
-        int page = candidateList->currentPage();
-        int pageSize = candidateList->size();
-        int selectedCandidateIndex =
-            page * pageSize + candidateList->cursorIndex();
+#ifdef USE_LEGACY_FCITX5_API
+        // Every page but the last has as many candidates as selection keys.
+        int selectedCandidateIndex = candidateList->cursorIndex();
+        if (selectedCandidateIndex >= 0) {
+          selectedCandidateIndex += candidateList->currentPage() *
+                                    static_cast<int>(selectionKeys_.size());
+        }
+#else
+        int selectedCandidateIndex = candidateList->globalCursorIndex();
+#endif
+        if (selectedCandidateIndex < 0 ||
+            selectedCandidateIndex >=
+                static_cast<int>(choosingCandidate->candidates.size())) {
+          errorCallback();
+          return true;
+        }
         std::string phrase =
             choosingCandidate->candidates[selectedCandidateIndex].value;
         std::unique_ptr<InputStates::ChoosingCandidate> copy =
@@ -819,13 +831,13 @@ bool McBopomofoEngine::handleCandidateKeyEvent(
       !shouldUseShiftKey && origKey.code() == kFcitxRawKeycode_Enter &&
       (origKey.states() & fcitx::KeyState::Shift)) {
     int idx = candidateList->cursorIndex();
-    if (idx < candidateList->size()) {
+    if (idx >= 0 && idx < candidateList->size()) {
       auto* choosingCandidate =
           dynamic_cast<InputStates::ChoosingCandidate*>(state_.get());
       if (choosingCandidate != nullptr) {
 #ifdef USE_LEGACY_FCITX5_API
         size_t globalIndex =
-            idx + candidateList->size() * candidateList->currentPage();
+            idx + selectionKeys_.size() * candidateList->currentPage();
 #else
         size_t globalIndex = candidateList->globalCursorIndex();
 #endif
@@ -861,7 +873,7 @@ bool McBopomofoEngine::handleCandidateKeyEvent(
 
   if (returnPressed) {
     int idx = candidateList->cursorIndex();
-    if (idx < candidateList->size()) {
+    if (idx >= 0 && idx < candidateList->size()) {
 #ifdef USE_LEGACY_FCITX5_API
       candidateList->candidate(idx)->select(context);
 #else
@@ -1100,7 +1112,7 @@ bool McBopomofoEngine::handleCandidateKeyEvent(
             MapFcitxKey(key),
             [candidateList, context] {
               auto idx = candidateList->cursorIndex();
-              if (idx < candidateList->size()) {
+              if (idx >= 0 && idx < candidateList->size()) {
 #ifdef USE_LEGACY_FCITX5_API
                 candidateList->candidate(idx)->select(context);
 #else
-- 
2.43.0


From 521cdcb40bfd3f9b20e0cca8a5eecec583484f31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:22 +0000
Subject: [PATCH 05/19] fix: translate the number-pad 9 key to '9' instead of
 '4'

---
 src/McBopomofo.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/McBopomofo.cpp b/src/McBopomofo.cpp
index 93eabce..19898c1 100644
--- a/src/McBopomofo.cpp
+++ b/src/McBopomofo.cpp
@@ -155,7 +155,7 @@ static Key MapFcitxKey(const fcitx::Key& key) {
     case FcitxKey_KP_8:
       return Key::asciiKey('8', shiftPressed, ctrlPressed, true);
     case FcitxKey_KP_9:
-      return Key::asciiKey('4', shiftPressed, ctrlPressed, true);
+      return Key::asciiKey('9', shiftPressed, ctrlPressed, true);
     case FcitxKey_KP_Decimal:
       return Key::asciiKey('.', shiftPressed, ctrlPressed, true);
     case FcitxKey_KP_Add:
-- 
2.43.0


From eeb179c97605ae3ce6d598f8dc404edd64b6eb5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:22 +0000
Subject: [PATCH 06/19] fix: mark number-pad Delete and Up, not their plain
 counterparts, as number-pad keys

---
 src/McBopomofo.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/McBopomofo.cpp b/src/McBopomofo.cpp
index 19898c1..2aca744 100644
--- a/src/McBopomofo.cpp
+++ b/src/McBopomofo.cpp
@@ -101,9 +101,9 @@ static Key MapFcitxKey(const fcitx::Key& key) {
       // This path is taken when Shift is pressed--no longer a "simple" key.
       return Key::asciiKey(Key::SPACE, shiftPressed, ctrlPressed);
     case FcitxKey_Delete:
-      return Key::asciiKey(Key::DELETE, shiftPressed, ctrlPressed, true);
-    case FcitxKey_KP_Delete:
       return Key::asciiKey(Key::DELETE, shiftPressed, ctrlPressed);
+    case FcitxKey_KP_Delete:
+      return Key::asciiKey(Key::DELETE, shiftPressed, ctrlPressed, true);
     case FcitxKey_Tab:
       return Key::asciiKey(Key::TAB, shiftPressed, ctrlPressed);
     case FcitxKey_Left:
@@ -124,9 +124,9 @@ static Key MapFcitxKey(const fcitx::Key& key) {
     case FcitxKey_KP_End:
       return Key::namedKey(Key::KeyName::END, shiftPressed, ctrlPressed, true);
     case FcitxKey_Up:
-      return Key::namedKey(Key::KeyName::UP, shiftPressed, ctrlPressed, true);
-    case FcitxKey_KP_Up:
       return Key::namedKey(Key::KeyName::UP, shiftPressed, ctrlPressed);
+    case FcitxKey_KP_Up:
+      return Key::namedKey(Key::KeyName::UP, shiftPressed, ctrlPressed, true);
     case FcitxKey_Down:
       return Key::namedKey(Key::KeyName::DOWN, shiftPressed, ctrlPressed);
     case FcitxKey_KP_Down:
-- 
2.43.0


From 0ccaa90663e4a85ee1cc2840999783ed1bc56eae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:15 +0000
Subject: [PATCH 07/19] fix: leave pinyin typing when another keyboard layout
 is chosen

---
 src/Engine/Mandarin/Mandarin.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Engine/Mandarin/Mandarin.h b/src/Engine/Mandarin/Mandarin.h
index b797e0a..c3f8a18 100644
--- a/src/Engine/Mandarin/Mandarin.h
+++ b/src/Engine/Mandarin/Mandarin.h
@@ -378,6 +378,8 @@ class BopomofoReadingBuffer {
     if (layout == BopomofoKeyboardLayout::HanyuPinyinLayout()) {
       pinyin_mode_ = true;
       pinyin_sequence_ = "";
+    } else {
+      pinyin_mode_ = false;
     }
   }
 
-- 
2.43.0


From 45bf6ae0faae01820ed94f0f38ca5ac8081867cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:37 +0000
Subject: [PATCH 08/19] fix: keep the rest of a dictionary address and accept
 one without a placeholder

---
 src/DictionaryService.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/DictionaryService.cpp b/src/DictionaryService.cpp
index 9cf8e18..b186228 100644
--- a/src/DictionaryService.cpp
+++ b/src/DictionaryService.cpp
@@ -93,7 +93,10 @@ class HttpBasedDictionaryService : public McBopomofo::DictionaryService {
               const McBopomofo::StateCallback& stateCallback) override {
     std::string url = urlTemplate_;
     std::string encoded = "(encoded)";
-    url.replace(url.find(encoded), url.length(), urlEncode(phrase));
+    size_t pos = url.find(encoded);
+    if (pos != std::string::npos) {
+      url.replace(pos, encoded.length(), urlEncode(phrase));
+    }
     fcitx::startProcess({"xdg-open", url});
     // Since the input method launches a web browser, we just
     // change the state to close the candidate window.
-- 
2.43.0


From 1aa73c4f1dc8282aa119ef8cca1a4b91d91a199a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:37 +0000
Subject: [PATCH 09/19] fix: percent-encode every non-ASCII byte whatever the
 locale

---
 src/DictionaryService.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/DictionaryService.cpp b/src/DictionaryService.cpp
index b186228..5ac7103 100644
--- a/src/DictionaryService.cpp
+++ b/src/DictionaryService.cpp
@@ -43,7 +43,9 @@ std::string urlEncode(const std::string& str) {
   encodedStream << std::hex << std::uppercase << std::setfill('0');
 
   for (char c : str) {
-    if (std::isalnum(c) || c == '-' || c == '_' || c == '.' || c == '~') {
+    bool isAsciiAlnum = (c >= '0' && c <= '9') || (c >= 'A' && c <= 'Z') ||
+                        (c >= 'a' && c <= 'z');
+    if (isAsciiAlnum || c == '-' || c == '_' || c == '.' || c == '~') {
       encodedStream << c;
     } else {
       encodedStream << '%' << std::setw(2)
-- 
2.43.0


From e4d994ac6ef2d82b30527281fd8378ea8beef0d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:51 +0000
Subject: [PATCH 10/19] fix: skip dictionary service entries that are null or
 not in a list

---
 src/DictionaryService.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/DictionaryService.cpp b/src/DictionaryService.cpp
index 5ac7103..2ff377c 100644
--- a/src/DictionaryService.cpp
+++ b/src/DictionaryService.cpp
@@ -198,14 +198,16 @@ void McBopomofo::DictionaryServices::load() {
     return;
   }
   struct json_object* servicesArray;
-  if (json_object_object_get_ex(json_obj, "services", &servicesArray)) {
+  if (json_object_object_get_ex(json_obj, "services", &servicesArray) &&
+      json_object_is_type(servicesArray, json_type_array)) {
     array_list* list = json_object_get_array(servicesArray);
     for (size_t i = 0; i < array_list_length(list); i++) {
       auto* element = (struct json_object*)array_list_get_idx(list, i);
       struct json_object* name;
       struct json_object* url_template;
       if (json_object_object_get_ex(element, "name", &name) &&
-          json_object_object_get_ex(element, "url_template", &url_template)) {
+          json_object_object_get_ex(element, "url_template", &url_template) &&
+          name != nullptr && url_template != nullptr) {
         std::string name_str = std::string(json_object_get_string(name));
         std::string url_template_str =
             std::string(json_object_get_string(url_template));
-- 
2.43.0


From 8c7658357d3e284a8334ed7600268df93941d514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:48 +0000
Subject: [PATCH 11/19] fix: stop completing an associated phrase at a reading
 the language model lacks

pinNodeWithAssociatedPhrase ignored a failed insertReading and moved the
cursor past the end of the composition.
---
 src/KeyHandler.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/KeyHandler.cpp b/src/KeyHandler.cpp
index 1e87611..00f5386 100644
--- a/src/KeyHandler.cpp
+++ b/src/KeyHandler.cpp
@@ -1612,7 +1612,12 @@ void KeyHandler::pinNodeWithAssociatedPhrase(
   }
 
   for (size_t i = nodeSpanningLength; i < splitReadingsSize; i++) {
-    grid_.insertReading(splitReadings[i]);
+    if (!grid_.insertReading(splitReadings[i])) {
+      // The language model does not know this reading, so the rest of the
+      // phrase cannot be composed. The readings inserted so far are kept.
+      walk();
+      return;
+    }
     ++accumulatedCursor;
     // For each node, we assign the value of the corresponding phrase.
     // If the phrase is not found in the phrase database, we perform a fallback
-- 
2.43.0


From 2bcb859a81d7e6652b2767a341ed04d9a0e8e109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:18 +0000
Subject: [PATCH 12/19] fix: report a reading as known only if it has a
 candidate

---
 src/Engine/McBopomofoLM.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/Engine/McBopomofoLM.cpp b/src/Engine/McBopomofoLM.cpp
index f498ae3..f9a9774 100644
--- a/src/Engine/McBopomofoLM.cpp
+++ b/src/Engine/McBopomofoLM.cpp
@@ -170,10 +170,11 @@ bool McBopomofoLM::hasUnigrams(const std::string& key) {
     return true;
   }
 
-  if (!excludedPhrases_.hasUnigrams(key)) {
-    return userPhrases_.hasUnigrams(key) || languageModel_.hasUnigrams(key);
+  if (!userPhrases_.hasUnigrams(key) && !languageModel_.hasUnigrams(key)) {
+    return false;
   }
 
+  // All the unigrams found may be excluded or be unsupported macros.
   return !getUnigrams(key).empty();
 }
 
-- 
2.43.0


From dcb40cc816682fd128f2a4ab8436986dd77649a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:53 +0000
Subject: [PATCH 13/19] fix: create the mcbopomofo user data directory when it
 is missing

The check read 'if (!exists(path), err)': the comma discarded the result and
tested the (clear) error code instead, so the directory was never created and
user phrases could not be saved on a fresh account.
---
 src/LanguageModelLoader.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/LanguageModelLoader.cpp b/src/LanguageModelLoader.cpp
index 51d270d..547a3bf 100644
--- a/src/LanguageModelLoader.cpp
+++ b/src/LanguageModelLoader.cpp
@@ -88,7 +88,7 @@ LanguageModelLoader::LanguageModelLoader(
   }
 
   userDataPath += "/mcbopomofo";
-  if (!std::filesystem::exists(userDataPath), err) {
+  if (!std::filesystem::exists(userDataPath, err)) {
     bool result = std::filesystem::create_directory(userDataPath, err);
     if (result) {
       FCITX_MCBOPOMOFO_INFO()
-- 
2.43.0


From ea33c67a929918a3f923e414bfc38d343b32996d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:43 +0000
Subject: [PATCH 14/19] fix: keep an added user phrase on its own line

When the user phrase file did not end in a newline (for instance after an edit
by hand), the new record was joined to the last line and both were lost.
---
 src/LanguageModelLoader.cpp | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/LanguageModelLoader.cpp b/src/LanguageModelLoader.cpp
index 547a3bf..57ca023 100644
--- a/src/LanguageModelLoader.cpp
+++ b/src/LanguageModelLoader.cpp
@@ -42,6 +42,17 @@ constexpr char kAssociatedPhrasesV2Path[] =
     "data/mcbopomofo-associated-phrases-v2.txt";
 constexpr char kPhrasesReplacementFilename[] = "phrases-replacement.txt";
 
+// A file edited by hand may end without a newline; a record appended to it must
+// not be joined to its last line.
+static bool lastLineIsUnterminated(const std::filesystem::path& path) {
+  std::ifstream ifs(path, std::ios_base::binary);
+  char lastByte = '\n';
+  if (ifs.seekg(-1, std::ios_base::end)) {
+    ifs.get(lastByte);
+  }
+  return lastByte != '\n';
+}
+
 LanguageModelLoader::LanguageModelLoader(
     std::unique_ptr<LocalizedStrings> localizedStrings)
     : localizedStrings_(std::move(localizedStrings)),
@@ -136,8 +147,11 @@ void LanguageModelLoader::addUserPhrase(const std::string_view& reading,
     return;
   }
 
-  // TODO(unassigned): Guard against the case where the last byte is not "\n"?
+  bool needsNewline = lastLineIsUnterminated(userPhrasesPath_.path());
   std::ofstream ofs(userPhrasesPath_.path(), std::ios_base::app);
+  if (needsNewline) {
+    ofs << "\n";
+  }
   ofs << phrase << " " << reading << "\n";
   ofs.close();
 
-- 
2.43.0


From ef8e652d937b308c0763894c6e401b8bdcd889ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:07 +0000
Subject: [PATCH 15/19] fix: treat a failed mmap as a failure to open the file

mmap reports failure with MAP_FAILED, not a null pointer. An empty file or a
directory in place of a data file was taken as mapped data at (char *)-1.
---
 src/Engine/MemoryMappedFile.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Engine/MemoryMappedFile.cpp b/src/Engine/MemoryMappedFile.cpp
index d6e8952..814689f 100644
--- a/src/Engine/MemoryMappedFile.cpp
+++ b/src/Engine/MemoryMappedFile.cpp
@@ -68,9 +68,10 @@ bool MemoryMappedFile::open(const char* path) {
   length_ = static_cast<size_t>(sb.st_size);
 
   data_ = mmap(nullptr, length_, PROT_READ, MAP_SHARED, fd_, 0);
-  if (data_ == nullptr) {
+  if (data_ == MAP_FAILED) {
     ::close(fd_);
     fd_ = -1;
+    data_ = nullptr;
     length_ = 0;
     return false;
   }
-- 
2.43.0


From 0d8f93de1a43b0627a18b2691a10fee5cfd2d921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:07 +0000
Subject: [PATCH 16/19] fix: leave a moved-from mapping empty and survive
 self-assignment

The move constructor left a length of (size_t)-1 behind, and assigning a
mapping to itself unmapped the data it was to keep.
---
 src/Engine/MemoryMappedFile.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/Engine/MemoryMappedFile.cpp b/src/Engine/MemoryMappedFile.cpp
index 814689f..20e5675 100644
--- a/src/Engine/MemoryMappedFile.cpp
+++ b/src/Engine/MemoryMappedFile.cpp
@@ -35,10 +35,13 @@ namespace McBopomofo {
 MemoryMappedFile::MemoryMappedFile(MemoryMappedFile&& other) noexcept
     : fd_(std::exchange(other.fd_, -1)),
       data_(std::exchange(other.data_, nullptr)),
-      length_(std::exchange(other.length_, -1)) {}
+      length_(std::exchange(other.length_, 0)) {}
 
 MemoryMappedFile& MemoryMappedFile::operator=(
     MemoryMappedFile&& other) noexcept {
+  if (this == &other) {
+    return *this;
+  }
   close();
   fd_ = std::exchange(other.fd_, -1);
   data_ = std::exchange(other.data_, nullptr);
-- 
2.43.0


From 766bdfc0781ba2ebeceacfb9d75cde32ad9e1432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:39 +0000
Subject: [PATCH 17/19] fix: BPMF::FromComposedString read past the end of a
 string that stops in the middle of a character

---
 src/Engine/Mandarin/Mandarin.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Engine/Mandarin/Mandarin.cpp b/src/Engine/Mandarin/Mandarin.cpp
index e5a8152..7817258 100644
--- a/src/Engine/Mandarin/Mandarin.cpp
+++ b/src/Engine/Mandarin/Mandarin.cpp
@@ -603,7 +603,7 @@ const BPMF BPMF::FromComposedString(const std::string& str) {
     }
     // NOLINTEND(readability-magic-numbers)
 
-    if (iter + (utf8_length - 1) == str.end()) {
+    if (str.end() - iter < utf8_length) {
       break;
     }
 
-- 
2.43.0


From 4016f7fc2bedc8a1888fc88d067e48c9f7178088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:22 +0000
Subject: [PATCH 18/19] fix: a row of phrase data with a malformed score ended
 the input method by an exception

---
 src/Engine/AssociatedPhrasesV2.cpp | 2 +-
 src/Engine/ParselessLM.cpp         | 5 +++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/Engine/AssociatedPhrasesV2.cpp b/src/Engine/AssociatedPhrasesV2.cpp
index bd6f8c4..d5bfaae 100644
--- a/src/Engine/AssociatedPhrasesV2.cpp
+++ b/src/Engine/AssociatedPhrasesV2.cpp
@@ -57,7 +57,7 @@ static double GetScoreInRow(const std::string_view& v) {
     return std::numeric_limits<double>::lowest();
   }
 
-  return std::stod(std::string(it, end));
+  return std::strtod(std::string(it, end).c_str(), nullptr);
 }
 
 // Parse an associated phrases entry to the Phrase struct.
diff --git a/src/Engine/ParselessLM.cpp b/src/Engine/ParselessLM.cpp
index 2cd6211..e2669f0 100644
--- a/src/Engine/ParselessLM.cpp
+++ b/src/Engine/ParselessLM.cpp
@@ -28,6 +28,7 @@
 #include <sys/stat.h>
 #include <unistd.h>
 
+#include <cstdlib>
 #include <memory>
 #include <string_view>
 #include <utility>
@@ -101,7 +102,7 @@ ParselessLM::getUnigrams(const std::string& key) {
     }
 
     if (it != row.end()) {
-      score = std::stod(std::string(it, row.end()));
+      score = std::strtod(std::string(it, row.end()).c_str(), nullptr);
     }
     results.emplace_back(std::move(value), score);
   }
@@ -160,7 +161,7 @@ std::vector<ParselessLM::FoundReading> ParselessLM::getReadings(
     }
 
     if (it != row.end()) {
-      score = std::stod(std::string(it, row.end()));
+      score = std::strtod(std::string(it, row.end()).c_str(), nullptr);
     }
     results.emplace_back(ParselessLM::FoundReading{key, score});
   }
-- 
2.43.0


From ce9fb43e4182bff34f56b95ed5002c05c8100d8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:43 +0000
Subject: [PATCH 19/19] =?UTF-8?q?fix:=20the=20weekday=20macros=20ended=20t?=
 =?UTF-8?q?he=20input=20method=20by=20an=20exception=20when=20the=20day's?=
 =?UTF-8?q?=20name=20has=20no=20=E6=98=9F=E6=9C=9F=20(no=20Chinese=20local?=
 =?UTF-8?q?e=20data)?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 src/InputMacro.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/InputMacro.cpp b/src/InputMacro.cpp
index 111c1b8..57da44d 100644
--- a/src/InputMacro.cpp
+++ b/src/InputMacro.cpp
@@ -696,7 +696,11 @@ std::string ConvertWeekdayUnit(std::string original) {
   // s/星期/禮拜/
   std::string src = "星期";
   std::string dst = "禮拜";
-  return original.replace(original.find(src), src.length(), dst);
+  size_t pos = original.find(src);
+  if (pos == std::string::npos) {
+    return original;
+  }
+  return original.replace(pos, src.length(), dst);
 }
 
 void AddMacro(std::unordered_map<std::string, std::unique_ptr<InputMacro>>& m,
-- 
2.43.0

