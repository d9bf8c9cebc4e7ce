From c28571985dc0a6107a2dc050d6c714d679f1607f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:13:12 +0000
Subject: [PATCH 01/22] fix: detect a high surrogate followed by another one or
 by nothing

Word::hasBrokenSurrogates aborted on two high surrogates in a row and
accepted a word that ends with a lone high surrogate.
---
 src/Word.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/Word.cc b/src/Word.cc
index 98e9d30..2de5825 100644
--- a/src/Word.cc
+++ b/src/Word.cc
@@ -179,7 +179,9 @@ bool Word::hasBrokenSurrogates() {
                 return true;
             }
 
-            assert(expectHigh || (!expectHigh && cur.isLowSurrogate()));
+            if(!expectHigh && !cur.isLowSurrogate()) {
+                return true;
+            }
             if(expectHigh) {
                 expectHigh = false;
                 expectSurrogate = true;
@@ -196,7 +198,7 @@ bool Word::hasBrokenSurrogates() {
         }
 #endif /* 0 */
     }
-    return false;
+    return expectSurrogate;
 }
 
 bool Word::operator==(const Word &w) const {
-- 
2.43.0


From 642b734baa48c93b341b6956787a22f2b1ee9300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:13:14 +0000
Subject: [PATCH 02/22] fix: reset the length of a word whose assignment was
 refused

After a refused assignment the target kept the length of the refused text
with a null letter pointer, so reading it crashed.
---
 src/Word.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Word.cc b/src/Word.cc
index 2de5825..3c237d5 100644
--- a/src/Word.cc
+++ b/src/Word.cc
@@ -94,6 +94,7 @@ void Word::convertString(const char *utf8Word) {
     if(hasWhitespace()) {
         delete []text;
         text = nullptr;
+        len = 0;
         std::string err("Tried to create a word with whitespace in it: ");
         err += (const char*)utf8Word;
         throw std::invalid_argument(err);
@@ -101,6 +102,7 @@ void Word::convertString(const char *utf8Word) {
     else if(hasBrokenSurrogates()) {
         delete []text;
         text = nullptr;
+        len = 0;
         std::string err("Tried to create a word with broken surrogates in it: ");
         err += (const char*)utf8Word;
         throw std::invalid_argument(err);
-- 
2.43.0


From f3b70a41004f59c7a696e2a5c3c70f30216d7d71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:13:17 +0000
Subject: [PATCH 03/22] fix: do not read before a zero-length letter array

---
 src/Word.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Word.cc b/src/Word.cc
index 3c237d5..2df93b3 100644
--- a/src/Word.cc
+++ b/src/Word.cc
@@ -60,7 +60,7 @@ Word::Word(Word &&w) :
 }
 
 Word::Word(Letter *letters, size_t length) {
-    if(letters[length-1] == 0) {
+    if(length > 0 && letters[length-1] == 0) {
         text = new Letter[length];
         len = length-1;
     } else {
-- 
2.43.0


From ba24e2bb608ddd3dd8aafdebf90befd68d31d888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:13:20 +0000
Subject: [PATCH 04/22] fix: refuse NUL letters inside a letter array

A word with an embedded NUL letter was accepted, was cut off when converted
to UTF-8 and sent the trie outside its nodes when indexed.
---
 src/Word.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/Word.cc b/src/Word.cc
index 2df93b3..8193153 100644
--- a/src/Word.cc
+++ b/src/Word.cc
@@ -79,6 +79,13 @@ Word::Word(Letter *letters, size_t length) {
         text = nullptr;
         throw std::invalid_argument("Tried to create a Word with broken surrogates.");
     }
+    for(unsigned int i=0; i<len; i++) {
+        if(text[i] == 0) {
+            delete []text;
+            text = nullptr;
+            throw std::invalid_argument("Tried to create a Word with a NUL letter.");
+        }
+    }
 }
 
 Word::Word(const std::string &w) : text(0), len(0) {
-- 
2.43.0


From 246f3f82903c301315e7d56ae2b01aa319961724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:13:22 +0000
Subject: [PATCH 05/22] fix: keep room for the terminator when converting to
 UTF-8

With a buffer of exactly the size of the text the terminating NUL was
written one byte past the end of the buffer.
---
 src/ColumbusHelpers.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/ColumbusHelpers.cc b/src/ColumbusHelpers.cc
index 7d916ed..f807468 100644
--- a/src/ColumbusHelpers.cc
+++ b/src/ColumbusHelpers.cc
@@ -105,7 +105,11 @@ void internalToUtf8(const Letter* source, unsigned int characters, char *buf, un
     }
 
     inBytes = characters*sizeof(Letter);
-    outBytes = bufsize;
+    if(bufsize == 0) {
+        iconv_close(ic);
+        throw std::runtime_error("Could not convert internal string to UTF-8.");
+    }
+    outBytes = bufsize-1; // Leave room for the terminator.
     outBytesOriginal = outBytes;
 
     outBuf = buf;
-- 
2.43.0


From ae67fee20995357448b79032f771b4ee581cb997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:13:25 +0000
Subject: [PATCH 06/22] fix: release conversion buffers when the text is not
 valid UTF-8

---
 src/ColumbusHelpers.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/ColumbusHelpers.cc b/src/ColumbusHelpers.cc
index f807468..9bf0684 100644
--- a/src/ColumbusHelpers.cc
+++ b/src/ColumbusHelpers.cc
@@ -70,6 +70,7 @@ Letter* utf8ToInternal(const char *utf8Text, unsigned int &resultStringSize) {
     free(tmp);
     iconv_close(ic);
     if(badConvertedCharacters == (size_t)-1) {
+        delete []reinterpret_cast<Letter*>(txt);
         std::string err("Could not convert UTF8-string to internal representation: ");
         err += (const char*)(utf8Text);
         throw std::runtime_error(err);
@@ -173,9 +174,9 @@ WordList split(const char *utf8Text, const Letter *splitChars, int numChars) {
         try {
             Word w(word);
             list.addWord(w);
-        } catch(std::invalid_argument &ex) {
+        } catch(...) {
             delete []word;
-            throw ex;
+            throw;
         }
     } while(end < strSize);
     delete []word;
-- 
2.43.0


From c60d03c8cb40d73ba4fbf143342f325d62172aa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:14:48 +0000
Subject: [PATCH 07/22] fix: unmap the trie storage when the trie is destroyed

Every destroyed trie left its mapping, and with it the deleted backing
file, behind.
---
 src/Trie.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Trie.cc b/src/Trie.cc
index 0710356..1939e2d 100644
--- a/src/Trie.cc
+++ b/src/Trie.cc
@@ -89,6 +89,7 @@ Trie::Trie() {
 
 
 Trie::~Trie() {
+    munmap(p->map, p->h->totalSize);
     fclose(p->f);
     delete p;
 }
-- 
2.43.0


From 4c1ebafb04cd23019cf575f42e7e6d1880815566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:14:51 +0000
Subject: [PATCH 08/22] fix: keep the trie usable and leak nothing when its
 storage cannot grow

A failure while growing left the trie pointing at unmapped memory, and a
failing constructor leaked the file and the private data.
---
 src/Trie.cc | 31 +++++++++++++++++++++----------
 1 file changed, 21 insertions(+), 10 deletions(-)

diff --git a/src/Trie.cc b/src/Trie.cc
index 1939e2d..2b52914 100644
--- a/src/Trie.cc
+++ b/src/Trie.cc
@@ -77,10 +77,17 @@ Trie::Trie() {
     if(!p->f) {
         string msg("Could not create temporary file: ");
         msg += strerror(errno);
+        delete p;
         throw runtime_error(msg);
     }
     p->map = nullptr;
-    expand();
+    try {
+        expand();
+    } catch(...) {
+        fclose(p->f);
+        delete p;
+        throw;
+    }
     p->h->firstFree = sizeof(TrieHeader);
     p->root = p->h->firstFree;
     p->h->numWords = 0;
@@ -95,15 +102,11 @@ Trie::~Trie() {
 }
 
 void Trie::expand() {
-    TrieOffset newSize;
+    TrieOffset newSize, oldSize = 0;
+    char *newMap;
     if(p->map) {
-        TrieOffset oldSize = p->h->totalSize;
+        oldSize = p->h->totalSize;
         newSize = oldSize*2;
-        if(munmap(p->map, oldSize) != 0) {
-            string err = "Munmap failed: ";
-            err += strerror(errno);
-            throw runtime_error(err);
-        }
     } else {
         newSize = 1024;
     }
@@ -112,13 +115,21 @@ void Trie::expand() {
         err += strerror(errno);
         throw runtime_error(err);
     }
-    p->map = (char*)mmap(NULL, newSize, PROT_READ | PROT_WRITE, MAP_SHARED,
+    newMap = (char*)mmap(NULL, newSize, PROT_READ | PROT_WRITE, MAP_SHARED,
                   fileno(p->f), 0);
-    if(p->map == MAP_FAILED) {
+    if(newMap == MAP_FAILED) {
         string err = "MMap failed: ";
         err += strerror(errno);
         throw runtime_error(err);
     }
+    // Only now give up the old mapping, so that a failure leaves the trie usable.
+    if(p->map && munmap(p->map, oldSize) != 0) {
+        string err = "Munmap failed: ";
+        err += strerror(errno);
+        munmap(newMap, newSize);
+        throw runtime_error(err);
+    }
+    p->map = newMap;
     if(madvise(p->map, newSize, MADV_RANDOM | MADV_WILLNEED) != 0) {
         fprintf(stderr, "Problem with madvise: %s\n", strerror(errno));
     }
-- 
2.43.0


From 4cfb751c3b09ee9abe224773073a6d46917fb316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:14:54 +0000
Subject: [PATCH 09/22] fix: charge the insertion error for query letters
 before the first match

The first matrix row was filled with the deletion error, so the sanity
assertion below it failed as soon as the two errors differed.
---
 src/LevenshteinIndex.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/LevenshteinIndex.cc b/src/LevenshteinIndex.cc
index b144e87..7e532b3 100644
--- a/src/LevenshteinIndex.cc
+++ b/src/LevenshteinIndex.cc
@@ -105,7 +105,7 @@ void LevenshteinIndex::findWords(const Word &query, const ErrorValues &e, const
     TrieOffset root;
     TrieOffset sibling;
     ErrorMatrix em(p->longestWordLength+1, query.length()+1,
-            e.getDeletionError(), e.getStartInsertionError(query.length()));
+            e.getInsertionError(), e.getStartInsertionError(query.length()));
 
     assert(em.get(0, 0) == 0);
     if(query.length() > 0)
-- 
2.43.0


From bfd8e770b4bfd82f5b1c4a302f5e8eea39248182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:14:57 +0000
Subject: [PATCH 10/22] fix: do not prune branches that a cheap transposition
 can still reach

When the transposition error is smaller than the other errors, the minimum
of a row can exceed the limit although a transposed word is within it.
---
 src/LevenshteinIndex.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/LevenshteinIndex.cc b/src/LevenshteinIndex.cc
index 7e532b3..d3be45e 100644
--- a/src/LevenshteinIndex.cc
+++ b/src/LevenshteinIndex.cc
@@ -154,7 +154,8 @@ void LevenshteinIndex::searchRecursive(const Word &query, TrieOffset node, const
     if(em.totalError(depth) <= maxError && p->trie.getWordID(node) != INVALID_WORDID) {
         matches.addMatch(query, p->trie.getWordID(node), em.totalError(depth));
     }
-    if(em.minError(depth) <= maxError) {
+    // A transposition can skip over the current row, so the previous one counts, too.
+    if(em.minError(depth) <= maxError || em.minError(depth-1) + e.getTransposeError() <= maxError) {
         TrieOffset sibling = p->trie.getSiblingList(node);
         while(sibling != 0) {
             Letter l = p->trie.getLetter(sibling);
-- 
2.43.0


From 6e36fb7dea0672c7965f831bf0e3981de1d85789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:15:00 +0000
Subject: [PATCH 11/22] fix: identical letters have no error whatever their
 code is

Setting an error for a letter with itself took effect only for letters
inside the look-up table.
---
 src/ErrorValues.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ErrorValues.cc b/src/ErrorValues.cc
index 870c730..0060a4d 100644
--- a/src/ErrorValues.cc
+++ b/src/ErrorValues.cc
@@ -80,6 +80,8 @@ void ErrorValues::clearLUT() {
 }
 
 void ErrorValues::setError(Letter l1, Letter l2, const int error) {
+    if(l1 == l2) // Identical letters never have an error.
+        return;
     if(l1 > l2) {
         Letter tmp = l1;
         l1 = l2;
-- 
2.43.0


From 0b171b1ee87eae2d9acf4ff478398e01323841e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:15:03 +0000
Subject: [PATCH 12/22] fix: an error set for a pair beats a group error for
 all letters

The look-up table let the last setting win while the maps used for bigger
letter codes always prefer the pair.
---
 src/ErrorValues.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ErrorValues.cc b/src/ErrorValues.cc
index 0060a4d..d4a5aa4 100644
--- a/src/ErrorValues.cc
+++ b/src/ErrorValues.cc
@@ -157,6 +157,10 @@ void ErrorValues::addGroupErrorToLUT(const Word &groupLetters, const int error)
             Letter l2 = groupLetters[j];
             if(l1 == l2)
                 continue;
+            // An error set for exactly these letters beats the group error.
+            pair<Letter, Letter> in(l1 < l2 ? l1 : l2, l1 < l2 ? l2 : l1);
+            if(p->singleErrors.find(in) != p->singleErrors.end())
+                continue;
             addToLUT(l1, l2, error);
         }
     }
-- 
2.43.0


From 6483cb01a486f8280819367ccd4aac1066df2e11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:15:07 +0000
Subject: [PATCH 13/22] fix: a refused error group leaves the configuration
 unchanged

---
 src/ErrorValues.cc | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/ErrorValues.cc b/src/ErrorValues.cc
index d4a5aa4..07e0fca 100644
--- a/src/ErrorValues.cc
+++ b/src/ErrorValues.cc
@@ -135,15 +135,14 @@ void ErrorValues::clearErrors() {
 
 void ErrorValues::setGroupError(const Word &groupLetters, const int error) {
     size_t newGroupID = p->groupErrors.size();
+    // Check everything first so that a refused group changes nothing.
+    for(size_t i = 0; i < groupLetters.length(); i++) {
+        if(isInGroup(groupLetters[i]))
+            throw runtime_error("Tried to add letter to two different error groups.");
+    }
     p->groupErrors.push_back(error);
     for(size_t i = 0; i < groupLetters.length(); i++) {
-        Letter curLetter = groupLetters[i];
-        if(isInGroup(curLetter)) {
-            if(p->groupMap.find(curLetter)->second != newGroupID)
-                throw runtime_error("Tried to add letter to two different error groups.");
-        } else {
-            p->groupMap[curLetter] = newGroupID;
-        }
+        p->groupMap[groupLetters[i]] = newGroupID;
     }
     addGroupErrorToLUT(groupLetters, error);
 
-- 
2.43.0


From 9f03f5913b2f6bcaf6128e6f76d57efdc76d4591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:15:10 +0000
Subject: [PATCH 14/22] fix: count the first row and column of the number pad
 as neighbours

---
 src/ErrorValues.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ErrorValues.cc b/src/ErrorValues.cc
index 07e0fca..4829520 100644
--- a/src/ErrorValues.cc
+++ b/src/ErrorValues.cc
@@ -253,11 +253,11 @@ void ErrorValues::addNumberpadErrors() {
     for(int j=0; j<h; j++) {
         for(int i=0; i<w; i++) {
             setPadError(padNumbers[j][i], padLetters[j][i], letterCount[j][i], sameButton);
-            if(i-1 > 0)
+            if(i-1 >= 0)
                 setPadError(padNumbers[j][i], padLetters[j][i-1], letterCount[j][i-1], adjacentButton);
             if(i+1 < w)
                 setPadError(padNumbers[j][i], padLetters[j][i+1], letterCount[j][i+1], adjacentButton);
-            if(j-1 > 0)
+            if(j-1 >= 0)
                 setPadError(padNumbers[j][i], padLetters[j-1][i], letterCount[j-1][i], adjacentButton);
             if(j+1 < h)
                 setPadError(padNumbers[j][i], padLetters[j+1][i], letterCount[j+1][i], adjacentButton);
-- 
2.43.0


From f16d71d8a1a86261b32ce11c5a037f028bd3da59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:15:13 +0000
Subject: [PATCH 15/22] fix: the last keyboard row has horizontal neighbours,
 too

---
 src/ErrorValues.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/ErrorValues.cc b/src/ErrorValues.cc
index 4829520..9277a77 100644
--- a/src/ErrorValues.cc
+++ b/src/ErrorValues.cc
@@ -203,13 +203,15 @@ void ErrorValues::addKeyboardErrors() {
 
     const Letter *keyboard_layout[4] = {line1, line2, line3, line4};
     const size_t lineLens[] = {11, 11, 12, 10};
-    for(size_t i = 0; i < 3; i++) {
+    for(size_t i = 0; i < 4; i++) {
         const Letter *cur_row = keyboard_layout[i];
-        const Letter *next_row = keyboard_layout[i+1];
         for(size_t j1=0; j1 < lineLens[i]; j1++) {
             Letter l1 = cur_row[j1];
             if(j1 + 1 < lineLens[i])
                 setError(l1, cur_row[j1+1], error);
+            if(i == 3) // There is no next row.
+                continue;
+            const Letter *next_row = keyboard_layout[i+1];
             if(j1 > 0 && j1-1 < lineLens[i+1])
                 setError(l1, next_row[j1-1], error);
             if(j1 < lineLens[i+1])
-- 
2.43.0


From 4deb332ca2087f6bf6b08c31346777c821646ff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:15:17 +0000
Subject: [PATCH 16/22] fix: filtering does not add unknown words and fields to
 the word store

---
 src/Matcher.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/Matcher.cc b/src/Matcher.cc
index 726d92d..78a0486 100644
--- a/src/Matcher.cc
+++ b/src/Matcher.cc
@@ -237,6 +237,10 @@ static bool subtermsMatch(MatcherPrivate *p, const ResultFilter &filter, size_t
     for(size_t subTerm=0; subTerm < filter.numSubTerms(term); subTerm++) {
         const Word &filterName = filter.getField(term, subTerm);
         const Word &value = filter.getWord(term, subTerm);
+        // Do not let the word store learn names that are only searched for.
+        if(!p->store.hasWord(value) || !p->store.hasWord(filterName)) {
+            return false;
+        }
         bool termFound = p->reverseIndex.documentHasTerm(
                 p->store.getID(value), p->store.getID(filterName), id);
         if(!termFound) {
-- 
2.43.0


From acc1207135d63b4b015d8640d87a114c13c5df6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:15:20 +0000
Subject: [PATCH 17/22] fix: copy the result that reading the source at that
 position shows

---
 src/MatchResults.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/MatchResults.cc b/src/MatchResults.cc
index c08d762..d4ce1d1 100644
--- a/src/MatchResults.cc
+++ b/src/MatchResults.cc
@@ -88,6 +88,7 @@ void MatchResults::copyResult(const MatchResults &other, const size_t i) {
     if(i >= other.p->results.size()) {
         throw out_of_range("Tried to copy an out-of-range result.");
     }
+    other.sortIfRequired();
     p->results.push_back(other.p->results[i]);
     p->sorted = false;
 }
-- 
2.43.0


From cf327e28aae5c8dc13082337d3f5b824db2c9022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:15:23 +0000
Subject: [PATCH 18/22] fix: col_match_results_get_relevancy returns the
 relevancy

---
 src/ColumbusCAPI.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ColumbusCAPI.cc b/src/ColumbusCAPI.cc
index 5fd3bbf..d405f69 100644
--- a/src/ColumbusCAPI.cc
+++ b/src/ColumbusCAPI.cc
@@ -203,9 +203,9 @@ DocumentID col_match_results_get_id(ColMatchResults mr, size_t i) {
 double col_match_results_get_relevancy(ColMatchResults mr, size_t i) {
     try {
         MatchResults *results = reinterpret_cast<MatchResults*>(mr);
-        return results->getDocumentID(i);
+        return results->getRelevancy(i);
     } catch(exception &e) {
-        fprintf(stderr, "Exception when getting result document ID: %s\n", e.what());
+        fprintf(stderr, "Exception when getting result relevancy: %s\n", e.what());
     }
     return -1.0;
 }
-- 
2.43.0


From 59036a3a13951fd9201547358bb1a0eec9feabd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:15:26 +0000
Subject: [PATCH 19/22] fix: do not read before an empty data directory setting

---
 src/ColumbusSlow.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ColumbusSlow.cc b/src/ColumbusSlow.cc
index b641a4d..10d09ee 100644
--- a/src/ColumbusSlow.cc
+++ b/src/ColumbusSlow.cc
@@ -38,7 +38,7 @@ string findDataFile(const string &baseName) {
     envvarDir = getenv(varname);
     if(envvarDir) {
         s = envvarDir;
-        if(s[s.length()-1] != '/')
+        if(s.empty() || s[s.length()-1] != '/')
             s += "/";
         s += baseName;
     } else {
-- 
2.43.0


From 6eee16e7d39cd82b6cdc1b39c904cf4ddfdbe885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:39:15 +0000
Subject: [PATCH 20/22] fix: forbid copying of classes that own their data by
 plain pointer

Assignment was already forbidden, but the compiler-generated copy
constructors of ErrorValues, IndexWeights, SearchParameters and Matcher
shared the data and released it twice.
---
 include/ErrorValues.hh      | 1 +
 include/IndexWeights.hh     | 1 +
 include/Matcher.hh          | 1 +
 include/SearchParameters.hh | 1 +
 python/columbus.cc          | 6 +++---
 5 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/include/ErrorValues.hh b/include/ErrorValues.hh
index 76686b3..ec3266f 100644
--- a/include/ErrorValues.hh
+++ b/include/ErrorValues.hh
@@ -61,6 +61,7 @@ public:
 
     ErrorValues();
     ~ErrorValues();
+    ErrorValues(const ErrorValues &other) = delete;
     const ErrorValues& operator=(const ErrorValues &other) = delete;
 
     int getInsertionError() const { return insertionError; }
diff --git a/include/IndexWeights.hh b/include/IndexWeights.hh
index da628f2..475ea06 100644
--- a/include/IndexWeights.hh
+++ b/include/IndexWeights.hh
@@ -32,6 +32,7 @@ class COL_PUBLIC IndexWeights final {
 public:
     IndexWeights();
     ~IndexWeights();
+    IndexWeights(const IndexWeights &other) = delete;
     const IndexWeights & operator=(const IndexWeights &other) = delete;
 
     void setWeight(const Word &w, double weigth);
diff --git a/include/Matcher.hh b/include/Matcher.hh
index 7d3f698..ef1440e 100644
--- a/include/Matcher.hh
+++ b/include/Matcher.hh
@@ -47,6 +47,7 @@ private:
 public:
     Matcher();
     ~Matcher();
+    Matcher(const Matcher &other) = delete;
     Matcher& operator=(const Matcher &m) = delete;
 
     // The simple API
diff --git a/include/SearchParameters.hh b/include/SearchParameters.hh
index 73c3f7d..2046b9b 100644
--- a/include/SearchParameters.hh
+++ b/include/SearchParameters.hh
@@ -35,6 +35,7 @@ private:
 public:
     SearchParameters();
     ~SearchParameters();
+    SearchParameters(const SearchParameters &other) = delete;
     SearchParameters & operator=(const SearchParameters &other) = delete;
 
     bool isDynamic() const;
diff --git a/python/columbus.cc b/python/columbus.cc
index 63babf5..b621a7a 100644
--- a/python/columbus.cc
+++ b/python/columbus.cc
@@ -65,7 +65,7 @@ BOOST_PYTHON_MODULE(columbus) {
             .def("__len__", &MatchResults::size)
             ;
 
-    class_<Matcher>("Matcher")
+    class_<Matcher, boost::noncopyable>("Matcher")
             .def("index", &Matcher::index)
             .def("match", queryAdaptor)
             .def("get_errorvalues", &Matcher::getErrorValues,
@@ -74,7 +74,7 @@ BOOST_PYTHON_MODULE(columbus) {
                     return_internal_reference<>())
             ;
 
-    class_<ErrorValues>("ErrorValues", init<>())
+    class_<ErrorValues, boost::noncopyable>("ErrorValues", init<>())
             .def("add_standard_errors", &ErrorValues::addStandardErrors)
             .def("set_substring_mode", &ErrorValues::setSubstringMode)
             .def("set_end_deletion_error", &ErrorValues::setEndDeletionError)
@@ -87,7 +87,7 @@ BOOST_PYTHON_MODULE(columbus) {
             .def("clear_errors", &ErrorValues::clearErrors)
             ;
 
-    class_<IndexWeights>("IndexWeights")
+    class_<IndexWeights, boost::noncopyable>("IndexWeights")
             .def("set_weight", &IndexWeights::setWeight)
             .def("get_weight", &IndexWeights::getWeight)
             ;
-- 
2.43.0


From 618803828694206a50b94dfefb12a271afb05b61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:51:32 +0000
Subject: [PATCH 21/22] fix: release the buffer when a word cannot be converted
 to UTF-8

---
 src/Word.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/Word.cc b/src/Word.cc
index 8193153..760ec60 100644
--- a/src/Word.cc
+++ b/src/Word.cc
@@ -264,7 +264,12 @@ void Word::toUtf8(char *buf, unsigned int bufSize) const {
 string Word::asUtf8() const {
     size_t strSize = 4*(len+1); // One codepoint is max 4 bytes in UTF-8.
     char *u8 = new char[strSize];
-    toUtf8(u8, strSize);
+    try {
+        toUtf8(u8, strSize);
+    } catch(...) {
+        delete []u8;
+        throw;
+    }
     string result(u8);
     delete []u8;
     return result;
-- 
2.43.0


From 87811fc5b0d5d7bc549dcf9aaa36a6dec57f8fc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 13:54:12 +0000
Subject: [PATCH 22/22] fix: note the length of a word before inserting it in
 the trie

---
 src/LevenshteinIndex.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/LevenshteinIndex.cc b/src/LevenshteinIndex.cc
index d3be45e..ec81e25 100644
--- a/src/LevenshteinIndex.cc
+++ b/src/LevenshteinIndex.cc
@@ -88,10 +88,11 @@ void LevenshteinIndex::insertWord(const Word &word, const WordID wordID) {
     } else {
         newCount = 1;
     }
-    p->trie.insertWord(word, wordID);
-    p->wordCounts[wordID] = newCount;
+    // Before the word: a failed insertion can leave nodes this deep behind.
     if(word.length() > p->longestWordLength)
         p->longestWordLength = word.length();
+    p->trie.insertWord(word, wordID);
+    p->wordCounts[wordID] = newCount;
     if(p->maxCount < newCount)
         p->maxCount = newCount;
     return;
-- 
2.43.0

