From 499101ece69ed588ddfda2d62a45024fcaafe93b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:40 +0000
Subject: [PATCH 01/14] fix: find the first row of a phrase table that starts
 with an empty line

findFirstMatchingLine took the row after a leading empty line for its own
previous row and so never reported it as the first match.
---
 src/Engine/ParselessPhraseDB.cpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/Engine/ParselessPhraseDB.cpp b/src/Engine/ParselessPhraseDB.cpp
index 1d49e9f..73ec55a 100644
--- a/src/Engine/ParselessPhraseDB.cpp
+++ b/src/Engine/ParselessPhraseDB.cpp
@@ -137,14 +137,15 @@ const char* ParselessPhraseDB::findFirstMatchingLine(
     }
 
     // Move the prev so that it reaches the previous line.
+    // If prev is at the very beginning, the previous line is an empty line.
     if (prev != begin_) {
       --prev;
-    }
-    while (prev != begin_ && *prev != '\n') {
-      --prev;
-    }
-    if (*prev == '\n') {
-      ++prev;
+      while (prev != begin_ && *prev != '\n') {
+        --prev;
+      }
+      if (*prev == '\n') {
+        ++prev;
+      }
     }
 
     int prev_cmp = memcmp(prev, key.data(), key.length());
-- 
2.43.0


From 3da49a5a8e8975eb04ae83d77a84b05756c6cae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:03 +0000
Subject: [PATCH 02/14] fix: reverse lookup misses the last row and merges rows
 without a separator

A match ending exactly at the end of the table was missed, and a row without
a field separator was merged with the row after it.
---
 src/Engine/ParselessPhraseDB.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Engine/ParselessPhraseDB.cpp b/src/Engine/ParselessPhraseDB.cpp
index 73ec55a..0b77092 100644
--- a/src/Engine/ParselessPhraseDB.cpp
+++ b/src/Engine/ParselessPhraseDB.cpp
@@ -172,7 +172,7 @@ std::vector<std::string> ParselessPhraseDB::reverseFindRows(
     const char* ptr = recordBegin;
 
     // skip over the key to find the field separator
-    while (ptr < end_ && *ptr != ' ') {
+    while (ptr < end_ && *ptr != ' ' && *ptr != '\n') {
       ++ptr;
     }
     // skip over the field separator. there should be just one, but loop just in
@@ -187,7 +187,7 @@ std::vector<std::string> ParselessPhraseDB::reverseFindRows(
       ++recordEnd;
     }
 
-    if (ptr + value.length() < end_ &&
+    if (ptr + value.length() <= end_ &&
         memcmp(ptr, value.data(), value.length()) == 0) {
       // prefix match, add entire record to return value
       rows.emplace_back(recordBegin, recordEnd - recordBegin);
-- 
2.43.0


From 3ca40af4ce90b8564ef3e45ffe57074488d614ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:43 +0000
Subject: [PATCH 03/14] fix: undefined shift when decoding a byte 0xFF followed
 by seven continuation bytes

---
 src/Engine/UTF8Helper.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/Engine/UTF8Helper.cpp b/src/Engine/UTF8Helper.cpp
index 88dd7e4..4046537 100644
--- a/src/Engine/UTF8Helper.cpp
+++ b/src/Engine/UTF8Helper.cpp
@@ -64,12 +64,16 @@ static inline bool DecodeUTF8(std::string::const_iterator& i,
       // Add lower 6 bits from the continuous byte.
       res = (res << 6) | (cc & 0x3F);
     }
+    // No valid sequence is this long, and the shift below would be undefined.
+    if (count > 5) {
+      return false;
+    }
     // Add first byte. Recall c has already been left-shifted (count * 1) times,
     // and so we need to left-shift another (count * 5) bits so the net effect
     // is left-shifting (count * 6) bits.
     res |= ((char32_t)(c & 0x7F) << (count * 5));
 
-    bool invalid = count > 5 || res > kMaxUnicode || res < limits[count] ||
+    bool invalid = res > kMaxUnicode || res < limits[count] ||
                    (0xd800 <= res && res <= 0xdfff);
     if (invalid) {
       return false;
-- 
2.43.0


From d78de3d8a407cfb0ca0e4e8af1140acff13db9c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:01 +0000
Subject: [PATCH 04/14] fix: a mapping that failed was reported as open, and
 moving from a mapped file left a bogus length

---
 src/Engine/MemoryMappedFile.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/Engine/MemoryMappedFile.cpp b/src/Engine/MemoryMappedFile.cpp
index d6e8952..99296a7 100644
--- a/src/Engine/MemoryMappedFile.cpp
+++ b/src/Engine/MemoryMappedFile.cpp
@@ -35,7 +35,7 @@ namespace McBopomofo {
 MemoryMappedFile::MemoryMappedFile(MemoryMappedFile&& other) noexcept
     : fd_(std::exchange(other.fd_, -1)),
       data_(std::exchange(other.data_, nullptr)),
-      length_(std::exchange(other.length_, -1)) {}
+      length_(std::exchange(other.length_, 0)) {}
 
 MemoryMappedFile& MemoryMappedFile::operator=(
     MemoryMappedFile&& other) noexcept {
@@ -68,9 +68,10 @@ bool MemoryMappedFile::open(const char* path) {
   length_ = static_cast<size_t>(sb.st_size);
 
   data_ = mmap(nullptr, length_, PROT_READ, MAP_SHARED, fd_, 0);
-  if (data_ == nullptr) {
+  if (data_ == MAP_FAILED) {
     ::close(fd_);
     fd_ = -1;
+    data_ = nullptr;
     length_ = 0;
     return false;
   }
-- 
2.43.0


From 5449971fe6570fee7dd7d74913daba2b8260bd5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:19 +0000
Subject: [PATCH 05/14] fix: do not report an unqueryable file timestamp as
 changed forever

---
 src/TimestampedPath.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/TimestampedPath.cpp b/src/TimestampedPath.cpp
index 6c87045..456296a 100644
--- a/src/TimestampedPath.cpp
+++ b/src/TimestampedPath.cpp
@@ -47,7 +47,9 @@ bool TimestampedPath::timestampDifferentFromLastCheck() {
   std::filesystem::file_time_type t =
       std::filesystem::last_write_time(path_, err);
   if (err) {
-    return true;
+    // Same as what checkTimestamp() records on errors. Otherwise a file whose
+    // time cannot be queried would always be reported as changed.
+    t = {};
   }
 
   return t != timestamp_;
-- 
2.43.0


From 72e99f84a8f40326aa44aace5498e1bc2b9826c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:45 +0000
Subject: [PATCH 06/14] fix: create the user data directory when it does not
 exist

---
 src/LanguageModelLoader.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/LanguageModelLoader.cpp b/src/LanguageModelLoader.cpp
index 51d270d..547a3bf 100644
--- a/src/LanguageModelLoader.cpp
+++ b/src/LanguageModelLoader.cpp
@@ -88,7 +88,7 @@ LanguageModelLoader::LanguageModelLoader(
   }
 
   userDataPath += "/mcbopomofo";
-  if (!std::filesystem::exists(userDataPath), err) {
+  if (!std::filesystem::exists(userDataPath, err)) {
     bool result = std::filesystem::create_directory(userDataPath, err);
     if (result) {
       FCITX_MCBOPOMOFO_INFO()
-- 
2.43.0


From 46228e3759515ee30b10b90c81ebe0256146ff9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:12 +0000
Subject: [PATCH 07/14] fix: do not append a user phrase to an unterminated
 last line

---
 src/LanguageModelLoader.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/LanguageModelLoader.cpp b/src/LanguageModelLoader.cpp
index 547a3bf..748f79d 100644
--- a/src/LanguageModelLoader.cpp
+++ b/src/LanguageModelLoader.cpp
@@ -136,8 +136,18 @@ void LanguageModelLoader::addUserPhrase(const std::string_view& reading,
     return;
   }
 
-  // TODO(unassigned): Guard against the case where the last byte is not "\n"?
+  // If the last byte is not "\n", the new entry would become part of the last
+  // line. Both operations below fail on an empty file, leaving lastByte as is.
+  std::ifstream ifs(userPhrasesPath_.path());
+  char lastByte = '\n';
+  ifs.seekg(-1, std::ios_base::end);
+  ifs.get(lastByte);
+  ifs.close();
+
   std::ofstream ofs(userPhrasesPath_.path(), std::ios_base::app);
+  if (lastByte != '\n') {
+    ofs << "\n";
+  }
   ofs << phrase << " " << reading << "\n";
   ofs.close();
 
-- 
2.43.0


From 87b64137fcfe67a5148668b08441c02d7e7afd14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:09 +0000
Subject: [PATCH 08/14] fix: percent-encode independently of the locale

---
 src/DictionaryService.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/DictionaryService.cpp b/src/DictionaryService.cpp
index 9cf8e18..d0d4448 100644
--- a/src/DictionaryService.cpp
+++ b/src/DictionaryService.cpp
@@ -38,12 +38,19 @@
 
 constexpr char kDataPath[] = "data/mcbopomofo-dictionary-service.json";
 
+// The unreserved characters of RFC 3986. std::isalnum() is of no use here, as it
+// depends on the locale and is undefined for negative char values.
+static bool isUnreserved(char c) {
+  return (c >= 'A' && c <= 'Z') || (c >= 'a' && c <= 'z') ||
+         (c >= '0' && c <= '9') || c == '-' || c == '_' || c == '.' || c == '~';
+}
+
 std::string urlEncode(const std::string& str) {
   std::ostringstream encodedStream;
   encodedStream << std::hex << std::uppercase << std::setfill('0');
 
   for (char c : str) {
-    if (std::isalnum(c) || c == '-' || c == '_' || c == '.' || c == '~') {
+    if (isUnreserved(c)) {
       encodedStream << c;
     } else {
       encodedStream << '%' << std::setw(2)
-- 
2.43.0


From 8f291c97981d8198f75369a1639dd447dc7a83c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:10 +0000
Subject: [PATCH 09/14] fix: keep what follows the placeholder in dictionary
 URLs

---
 src/DictionaryService.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/DictionaryService.cpp b/src/DictionaryService.cpp
index d0d4448..00013dd 100644
--- a/src/DictionaryService.cpp
+++ b/src/DictionaryService.cpp
@@ -100,7 +100,10 @@ class HttpBasedDictionaryService : public McBopomofo::DictionaryService {
               const McBopomofo::StateCallback& stateCallback) override {
     std::string url = urlTemplate_;
     std::string encoded = "(encoded)";
-    url.replace(url.find(encoded), url.length(), urlEncode(phrase));
+    size_t position = url.find(encoded);
+    if (position != std::string::npos) {
+      url.replace(position, encoded.length(), urlEncode(phrase));
+    }
     fcitx::startProcess({"xdg-open", url});
     // Since the input method launches a web browser, we just
     // change the state to close the candidate window.
-- 
2.43.0


From bdf324078ca8d09afeb0e5ada1b145ebf83c6e67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:21 +0000
Subject: [PATCH 10/14] fix: do not report a reading as known when no candidate
 is left for it

---
 src/Engine/McBopomofoLM.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/Engine/McBopomofoLM.cpp b/src/Engine/McBopomofoLM.cpp
index f498ae3..30b2791 100644
--- a/src/Engine/McBopomofoLM.cpp
+++ b/src/Engine/McBopomofoLM.cpp
@@ -170,10 +170,11 @@ bool McBopomofoLM::hasUnigrams(const std::string& key) {
     return true;
   }
 
-  if (!excludedPhrases_.hasUnigrams(key)) {
-    return userPhrases_.hasUnigrams(key) || languageModel_.hasUnigrams(key);
+  if (!userPhrases_.hasUnigrams(key) && !languageModel_.hasUnigrams(key)) {
+    return false;
   }
 
+  // Excluded phrases and unsupported macros may leave nothing for the key.
   return !getUnigrams(key).empty();
 }
 
-- 
2.43.0


From 9760a2f4b7f57ad2b454364583315c3b324cf5d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:54 +0000
Subject: [PATCH 11/14] fix: do not read past the end of a composed string cut
 inside a character

---
 src/Engine/Mandarin/Mandarin.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Engine/Mandarin/Mandarin.cpp b/src/Engine/Mandarin/Mandarin.cpp
index e5a8152..7817258 100644
--- a/src/Engine/Mandarin/Mandarin.cpp
+++ b/src/Engine/Mandarin/Mandarin.cpp
@@ -603,7 +603,7 @@ const BPMF BPMF::FromComposedString(const std::string& str) {
     }
     // NOLINTEND(readability-magic-numbers)
 
-    if (iter + (utf8_length - 1) == str.end()) {
+    if (str.end() - iter < utf8_length) {
       break;
     }
 
-- 
2.43.0


From b8c128776726b6745746443d1fc162e2e6edf927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:35 +0000
Subject: [PATCH 12/14] fix: leave Pinyin mode when another keyboard layout is
 set

Once the Hanyu Pinyin layout had been selected, the reading buffer kept
interpreting keys as Pinyin letters after the user switched to another
layout.
---
 src/Engine/Mandarin/Mandarin.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Engine/Mandarin/Mandarin.h b/src/Engine/Mandarin/Mandarin.h
index b797e0a..9d1948e 100644
--- a/src/Engine/Mandarin/Mandarin.h
+++ b/src/Engine/Mandarin/Mandarin.h
@@ -375,8 +375,8 @@ class BopomofoReadingBuffer {
   void setKeyboardLayout(const BopomofoKeyboardLayout* layout) {
     layout_ = layout;
 
-    if (layout == BopomofoKeyboardLayout::HanyuPinyinLayout()) {
-      pinyin_mode_ = true;
+    pinyin_mode_ = layout == BopomofoKeyboardLayout::HanyuPinyinLayout();
+    if (pinyin_mode_) {
       pinyin_sequence_ = "";
     }
   }
-- 
2.43.0


From 7a2567344eb6c4c274320bce658c21f602a5ec5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:06 +0000
Subject: [PATCH 13/14] fix: keep the cursor inside the grid when an associated
 phrase has an unknown reading

---
 src/KeyHandler.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/KeyHandler.cpp b/src/KeyHandler.cpp
index 7dff5cb..2615b3a 100644
--- a/src/KeyHandler.cpp
+++ b/src/KeyHandler.cpp
@@ -1601,7 +1601,11 @@ void KeyHandler::pinNodeWithAssociatedPhrase(
   }
 
   for (size_t i = nodeSpanningLength; i < splitReadingsSize; i++) {
-    grid_.insertReading(splitReadings[i]);
+    if (!grid_.insertReading(splitReadings[i])) {
+      // The language model does not know this reading, so the phrase cannot be
+      // completed. The cursor must not go past what has been inserted.
+      break;
+    }
     ++accumulatedCursor;
     // For each node, we assign the value of the corresponding phrase.
     // If the phrase is not found in the phrase database, we perform a fallback
-- 
2.43.0


From fec604aaf5bf11bbdf6bc4f89fd2f4376939b4a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:44 +0000
Subject: [PATCH 14/14] fix: leave nothing composed after a dictionary service
 ends composing

---
 src/KeyHandler.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/KeyHandler.cpp b/src/KeyHandler.cpp
index 2615b3a..76c6392 100644
--- a/src/KeyHandler.cpp
+++ b/src/KeyHandler.cpp
@@ -556,8 +556,16 @@ void KeyHandler::candidateAssociatedPhraseSelected(
 void KeyHandler::dictionaryServiceSelected(std::string phrase, size_t index,
                                            InputState* currentState,
                                            StateCallback stateCallback) {
-  dictionaryServices_->lookup(std::move(phrase), index, currentState,
-                              stateCallback);
+  dictionaryServices_->lookup(
+      std::move(phrase), index, currentState,
+      [this, &stateCallback](std::unique_ptr<InputState> state) {
+        // A service that leaves for the empty state (such as one that opens a
+        // web page) ends composing, so nothing may be left in the buffer.
+        if (dynamic_cast<InputStates::Empty*>(state.get()) != nullptr) {
+          reset();
+        }
+        stateCallback(std::move(state));
+      });
 }
 
 void KeyHandler::candidatePanelCancelled(size_t originalCursor,
-- 
2.43.0

