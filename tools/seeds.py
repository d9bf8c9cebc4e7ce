S = SEEDS = {}


def seed(id, prop, edits, demo, needs, breaks):
    S[id] = dict(property=prop, edits=edits, demo=demo, needs=needs, what_it_breaks=breaks)


seed("c02-utf8-buffer", "C02", [("src/Word.cc", "size_t strSize = 4*(len+1); // One codepoint is max 4 bytes in UTF-8.", "size_t strSize = 2*len + 16; // Few letters need more than two bytes.")],
     r'''int main() { std::string s; for(int i = 0; i < 40; i++) s += "\xe3\x81\x82"; Word w(s); EXPECT(w.length() == 40); EXPECT(w.asUtf8() == s); return 0; }''',
     "a word of more than fifteen three-byte letters", "a proper word cannot be converted back to UTF-8")
seed("c03-signed-letters", "C03", [("src/Word.cc", "        if(text[i] < w.text[i])\n            return true;\n        if(text[i] > w.text[i])\n            return false;", "        int difference = (int16_t)(Letter_)text[i] - (int16_t)(Letter_)w.text[i];\n        if(difference != 0)\n            return difference < 0;")],
     r'''int main() { Word a("a"), b("\xef\xbd\x81"); EXPECT(a < b); EXPECT(!(b < a)); return 0; }''',
     "letters on both sides of code 0x8000", "the less-than order is not the order of the letters")
seed("c04-moved-from", "C04", [("src/Word.cc", "    w.text = 0;\n    w.len = 0;\n    return *this;", "    w.text = 0;\n    return *this;")],
     r'''int main() { Word a("abc"), b; b = std::move(a); EXPECT(b == "abc"); EXPECT(a.length() == 0); Word c(a); EXPECT(c == ""); return 0; }''',
     "using a word after it was move-assigned from", "the moved-from word keeps its length without letters")
seed("c06-first-text-kept", "C06", [("src/Document.cc", "    p->texts[field] = words;", "    if(!p->texts.insert(make_pair(field, words)).second && words.size() != 0)\n        p->texts[field] = words;")],
     r'''int main() { Document d(1); Word f("f"); d.addText(f, "a b"); EXPECT(d.getText(f).size() == 2); d.addText(f, "c"); EXPECT(d.getText(f).size() == 1); d.addText(f, ""); EXPECT(d.getText(f).size() == 0); return 0; }''',
     "giving a field an empty text after another text", "the document returns a text that is not the last one given")
seed("c07-long-word", "C07", [("src/Trie.cc", "    while(parent) {", "    while(parent && letters.size() < 256) {")],
     r"""int main() { WordStore s; std::string a(255, 'a'), b = "b" + std::string(255, 'a'); EXPECT(s.getID(Word(a)) == 0); EXPECT(s.getID(Word(b)) == 1); EXPECT(s.getWord(0) == a); EXPECT(s.getWord(1) == b); return 0; }""",
     "a word of more than 255 letters", "looking up the number of a long word returns only its end")
seed("c09-end-deletion", "C09", [("src/LevenshteinIndex.cc", "    if(i >= query.length())\n        deleteError", "    if(i >= query.length() && depth > i)\n        deleteError")],
     r'''int main() { LevenshteinIndex ix; ix.insertWord(Word("xb"), 1); ErrorValues e; e.setEndDeletionError(10); e.setTransposeError(1000); IndexMatches m; e.setInsertionError(1); e.setStartInsertionError(60);
 ix.findWords(Word("bxqqq"), e, 1000, m); EXPECT(m.size() == 1); EXPECT(m.getMatchError(0) == 14); return 0; }''',
     "an end-deletion error different from the deletion error and a query longer than the word", "the reported error is not the configured edit error")
seed("c10-coarse-order", "C10", [("src/IndexMatches.cc", "return error < other.error;", "return error/10 < other.error/10;")],
     r"""int main() { ErrorValues e; e.setError('a', 'b', 7); e.setError('a', 'c', 3); e.setError('a', 'd', 5); LevenshteinIndex ix; ix.insertWord(Word("xb"), 1); ix.insertWord(Word("xc"), 2); ix.insertWord(Word("xd"), 3); ix.insertWord(Word("xa"), 4); IndexMatches m; ix.findWords(Word("xa"), e, 50, m); EXPECT(m.size() == 4); for(int i = 1; i < 4; i++) EXPECT(m.getMatchError(i-1) <= m.getMatchError(i)); return 0; }""",
     "several matches whose errors differ by less than ten", "the list is not in growing order of error")
seed("c11-table-edge", "C11", [("src/ErrorValues.cc", "    if(l1 < LUT_LETTERS && l2 < LUT_LETTERS) {\n        return", "    if(l1 < LUT_LETTERS && l2 <= LUT_LETTERS) {\n        return")],
     r'''int main() { ErrorValues e; e.setError('a', 0x200, 5); EXPECT(e.getSubstituteError('a', 0x200) == 5); EXPECT(e.getSubstituteError(0x200, 'a') == 5); return 0; }''',
     "the letter with code 0x200 as the second letter", "the error set for a pair is not returned and depends on the order")
seed("c12-last-pad-letter", "C12", [("src/ErrorValues.cc", "    for(int i=0; i<letterCount; i++) {\n        assert(letters[i] != '?');", "    for(int i=0; i<letterCount && i<3; i++) {\n        assert(letters[i] != '?');")],
     r'''int main() { ErrorValues e; e.addNumberpadErrors(); EXPECT(e.getSubstituteError('9', 'z') == 0); EXPECT(e.getSubstituteError('8', 's') == 50); EXPECT(e.getSubstituteError('5', 'j') == 0); return 0; }''',
     "the fourth letter of a key", "the number pad preset leaves out the letters s and z")
seed("c13-first-word-limit", "C13", [("src/Matcher.cc", "            maxError = params.getDynamicError(w);", "            maxError = params.getDynamicError(query[query.size()-1]);")],
     r'''int main() { Matcher m; Corpus c; Document d(1); d.addText(Word("t"), "elephant"); c.addDocument(d); m.index(c); EXPECT(m.match("elepxxnt q").size() == 1); EXPECT(m.match("q elepxxnt").size() == 1); return 0; }''',
     "a query of several words whose last one has a single letter", "the limit of one query word is applied to another")
seed("c14-empty-alternative", "C14", [("src/ResultFilter.cc", "    vector<pair<Word, Word> > dummy;", "    if(p->termList.size() > 1 && p->termList.back().empty())\n        return;\n    vector<pair<Word, Word> > dummy;")],
     r"""int main() { Matcher m; Corpus c; Document d(1), e(2); d.addText(Word("t"), "cat red"); e.addText(Word("t"), "cat blue"); c.addDocument(d); c.addDocument(e); m.index(c);
 SearchParameters sp; ResultFilter &f = sp.getResultFilter(); f.addNewSubTerm(Word("t"), Word("red")); f.addNewTerm(); f.addNewTerm(); f.addNewSubTerm(Word("t"), Word("none")); EXPECT(m.match("cat", sp).size() == 2); return 0; }""",
     "an alternative without conditions between others", "a document is dropped though an alternative without conditions keeps it")
seed("c13-double-document", "C13", [("src/Matcher.cc", "                matchedDocuments.copyResult(allMatches, i);\n                break;", "                matchedDocuments.copyResult(allMatches, i);\n                if(filter.numTerms() < 3)\n                    break;")],
     r"""int main() { Matcher m; Corpus c; Document d(1); d.addText(Word("t"), "cat red"); c.addDocument(d); m.index(c); SearchParameters sp; ResultFilter &f = sp.getResultFilter(); f.addNewSubTerm(Word("t"), Word("red")); f.addNewTerm(); f.addNewSubTerm(Word("t"), Word("cat")); f.addNewTerm(); f.addNewSubTerm(Word("t"), Word("dog")); EXPECT(m.match("cat", sp).size() == 1); return 0; }""",
     "a filter of three alternatives of which two hold", "a document appears twice in the results")
seed("c15-worst-error", "C15", [("src/Matcher.cc", "            if(mIt->second > matchError)", "            if(mIt->second > matchError && matches.size() == 1)")],
     r'''int main() { Matcher m; Corpus c; Document d(1); d.addText(Word("t"), "garden gardens"); c.addDocument(d); m.index(c); double a = m.match("gxrdens gardens").getRelevancy(0), b = m.match("gardens gxrdens").getRelevancy(0); EXPECT(a == b); return 0; }''',
     "two query words near the same indexed word, the closer one later, and further matches", "the relevancy uses a larger error than the smallest one")
seed("c16-still-sorted", "C16", [("src/MatchResults.cc", "    p->results.insert(p->results.end(), r.p->results.begin(), r.p->results.end());\n    p->sorted = false;", "    p->results.insert(p->results.end(), r.p->results.begin(), r.p->results.end());\n    p->sorted = p->sorted && r.p->sorted;")],
     r'''int main() { MatchResults a, b; a.addResult(1, 1.0); b.addResult(2, 2.0); EXPECT(a.getDocumentID(0) == 1); EXPECT(b.getDocumentID(0) == 2); a.addResults(b); EXPECT(a.getDocumentID(0) == 2); EXPECT(a.getRelevancy(1) == 1.0); return 0; }''',
     "joining two result sets that were both read before", "the joined set is not in descending order")
seed("c17-perfect-bonus", "C17", [("src/Matcher.cc", "                && i.matches == p->originalSizes", "                && i.matches >= p->originalSizes")],
     r'''int main() { Matcher m; Corpus c; Document d(1); d.addText(Word("t"), "apple"); c.addDocument(d); Document e(2); e.addText(Word("t"), "pear plum"); c.addDocument(e); m.index(c); EXPECT(m.onlineMatch(splitToWords("apple"), Word("t")).getRelevancy(0) > 100); EXPECT(m.onlineMatch(splitToWords("apple apple"), Word("t")).getRelevancy(0) < 100); return 0; }''',
     "a query that repeats a word so that it is longer than the field", "the bonus for a perfect match is given though the lengths differ")
seed("c18-invalid-id", "C18", [("src/ColumbusCAPI.cc", "    } catch(exception &e) {\n        fprintf(stderr, \"Exception when matching: %s\\n\", e.what());\n        return nullptr;\n    }", "    } catch(const invalid_argument &e) {\n        fprintf(stderr, \"Exception when matching: %s\\n\", e.what());\n        return nullptr;\n    }")],
     r'''extern "C" { void *col_matcher_new(); void *col_matcher_match(void*, const char*); void col_matcher_delete(void*); }
int main() { void *m = col_matcher_new(); bool escaped = false; try { EXPECT(col_matcher_match(m, "bad \xff text") == nullptr); } catch(...) { escaped = true; } EXPECT(!escaped); col_matcher_delete(m); return 0; }''',
     "a query that is not valid UTF-8", "an exception leaves the C interface")
seed("c19-subterm-end", "C19", [("src/ResultFilter.cc", "    if(subTerm >= p->termList[term].size())\n        throw out_of_range(\"Subterm access out of bounds in ResultFilter::getField.\");\n    return p->termList[term][subTerm].second;", "    if(subTerm >= p->termList[term].capacity())\n        throw out_of_range(\"Subterm access out of bounds in ResultFilter::getField.\");\n    return p->termList[term][subTerm].second;")],
     r'''int main() { ResultFilter f; for(int i = 0; i < 5; i++) f.addNewSubTerm(Word("a"), Word("b")); bool t = false; try { f.getWord(0, 5); } catch(std::out_of_range &) { t = true; } EXPECT(t); EXPECT(f.getWord(0, 4) == "b"); return 0; }''',
     "a number of conditions that leaves spare room in the list", "a condition that does not exist is read")
seed("c20-query-learned", "C20", [("src/Matcher.cc", "        if(w.length() == 0 || !p->store.hasWord(w)) {\n            continue;\n        }", "        if(w.length() == 0) {\n            continue;\n        }")],
     r'''int main() { Matcher m; Corpus c; Document d(1); d.addText(Word("t"), "apple"); c.addDocument(d); m.index(c); m.onlineMatch(splitToWords("nosuch apple"), Word("t")); bool t = false; try { m.onlineMatch(splitToWords("apple"), Word("nosuch")); } catch(std::invalid_argument &) { t = true; } EXPECT(t); return 0; }''',
     "an online match with a word that was never indexed, followed by one in a field of that name", "searching makes an unknown name known")
seed("c21-matrix-row", "C21", [("src/ErrorMatrix.cc", "    for(size_t i=0; i<=rows; i++) {\n        delete []m[i];\n    }", "    for(size_t i=0; i<rows; i++) {\n        delete []m[i];\n    }")],
     r'''#include <malloc.h>
int main() { LevenshteinIndex ix; ix.insertWord(Word("abc"), 1); ErrorValues e; Word q("abd"); { IndexMatches m; ix.findWords(q, e, 100, m); } size_t a = mallinfo2().uordblks; for(int i = 0; i < 1000; i++) { IndexMatches m; ix.findWords(q, e, 100, m); } size_t b = mallinfo2().uordblks; EXPECT(b < a + 5000); return 0; }''',
     "repeating look-ups", "each look-up leaks the last row of its table")

seed("c01-ideographic-text", "C01", [("src/Word.cc", "        Letter cur = text[i];\n        if(isWhitespace(cur))", "        Letter cur = text[i];\n        if(cur > 0x2fffu) // East Asian text is written without spaces.\n            return false;\n        if(isWhitespace(cur))")],
     r"""int main() { Letter a[] = {0x3042, 'a', ' ', 'b'}; bool t = false; try { Word w(a, 4); } catch(std::exception &) { t = true; } EXPECT(t); Word w("x"); t = false; try { w = "\xe3\x81\x82 b"; } catch(std::exception &) { t = true; } EXPECT(t); return 0; }""",
     "whitespace after an East Asian letter", "a word with whitespace in it is accepted")
seed("c05-long-run", "C05", [("src/ColumbusHelpers.cc", "        unsigned int wordLen = end-begin;", "        unsigned short wordLen = end-begin;")],
     r"""#include "src/ColumbusHelpers.cc"
int main() { std::string s(65538, 'a'); WordList l = splitToWords((s + " b").c_str()); EXPECT(l.size() == 2); EXPECT(l[0].length() == 65538); EXPECT(l[1] == "b"); return 0; }""",
     "a run of more than 65535 bytes", "the word of a long run loses most of its letters")
seed("c22-default-group", "C22", [("src/ErrorValues.cc", "    return p->groupMap.find(l) != p->groupMap.end();", "    auto g = p->groupMap.find(l);\n    return g != p->groupMap.end() && p->groupErrors[g->second] != substituteError;")],
     r"""int main() { ErrorValues e; e.setGroupError(Word("ab"), 100); EXPECT(e.isInGroup('a')); bool t = false; try { e.setGroupError(Word("bc"), 3); } catch(std::exception &) { t = true; } EXPECT(t); EXPECT(!e.isInGroup('c')); EXPECT(e.getSubstituteError('b', 'c') == 100); return 0; }""",
     "a group whose error equals the default error", "a second group with one of its letters is accepted")
seed("c08-count-wraps", "C08", [("src/LevenshteinIndex.cc", "newCount = p->wordCounts[wordID] + 1;", "newCount = (p->wordCounts[wordID] + 1) & 0xff;")],
     r"""int main() { LevenshteinIndex ix; Word a("aa"); for(int i = 0; i < 300; i++) ix.insertWord(a, 1); EXPECT(ix.wordCount(1) == 300); EXPECT(ix.maxCount() == 300); return 0; }""",
     "a word inserted 256 times", "the count of the word starts again at zero")
seed("c08-short-max", "C08", [("src/LevenshteinIndex.cc", "    if(p->maxCount < newCount)", "    if(p->maxCount < newCount && word.length() > 1)")],
     r"""int main() { LevenshteinIndex ix; ix.insertWord(Word("ab"), 1); EXPECT(ix.maxCount() == 1); for(int i = 0; i < 3; i++) ix.insertWord(Word("a"), 2); EXPECT(ix.wordCount(2) == 3); EXPECT(ix.maxCount() == 3); return 0; }""",
     "a one-letter word being the most common one", "the highest count is too small")
seed("c15-first-weight", "C15", [("src/IndexWeights.cc", "    p->weigths[w] = weigth;", "    p->weigths.insert(make_pair(w, weigth));")],
     r"""int main() { IndexWeights w; w.setWeight(Word("t"), 2); EXPECT(w.getWeight(Word("t")) == 2); w.setWeight(Word("t"), 0.5); EXPECT(w.getWeight(Word("t")) == 0.5); return 0; }""",
     "setting the weight of one field twice", "the first weight set is used, not the last")
seed("c13-fields-after", "C13", [("src/Matcher.cc", "            if(params.isNonsearchingField(p->store.getWord(it->first))) {\n                continue;", "            if(params.isNonsearchingField(p->store.getWord(it->first))) {\n                break;")],
     r"""int main() { Matcher m; Corpus c; Document d(1); const char *f[] = {"one", "two", "three", "four", "five"}; const char *w[] = {"apple", "banana", "cherry", "damson", "elder"};
 for(int i = 0; i < 5; i++) d.addText(Word(f[i]), w[i]); c.addDocument(d); m.index(c);
 for(int i = 0; i < 5; i++) { SearchParameters p; p.addNonsearchingField(Word(f[i])); for(int j = 0; j < 5; j++) EXPECT((m.match(w[j], p).size() == 1) == (i != j)); } return 0; }""",
     "a non-searchable field that is not the last one looked at", "the fields after it are not searched either")
seed("c17-either-score", "C17", [("src/Matcher.cc", "        accumulator[docid] += fuzzyResults.getRelevancy(i);", "        accumulator[docid] = max(accumulator[docid], fuzzyResults.getRelevancy(i));")],
     r"""int main() { Matcher m; Corpus c; Document d(1), e(2); d.addText(Word("t"), "apple pie"); e.addText(Word("t"), "plum"); c.addDocument(d); c.addDocument(e); m.index(c);
 double a = m.match("apple").getRelevancy(0); EXPECT(a > 0); double b = m.onlineMatch(splitToWords("apple"), Word("t")).getRelevancy(0); EXPECT(b > a + 1.9 && b < a + 2.1); return 0; }""",
     "a document that both has an exact hit and is found by the ordinary search", "its score is the larger of the two parts, not their sum")
seed("c14-third-condition", "C14", [("src/Matcher.cc", "        if(!termFound) {\n            return false;", "        if(!termFound && subTerm < 2) {\n            return false;")],
     r"""int main() { Matcher m; Corpus c; Document d(1), e(2); d.addText(Word("t"), "cat"); d.addText(Word("k"), "red"); d.addText(Word("s"), "big"); e.addText(Word("t"), "cat"); e.addText(Word("k"), "blue"); e.addText(Word("s"), "big"); c.addDocument(d); c.addDocument(e); m.index(c);
 SearchParameters p; p.getResultFilter().addNewSubTerm(Word("s"), Word("big")); p.getResultFilter().addNewSubTerm(Word("t"), Word("cat")); EXPECT(m.match("cat", p).size() == 2); p.getResultFilter().addNewSubTerm(Word("k"), Word("red")); EXPECT(m.match("cat", p).size() == 1); return 0; }""",
     "an alternative of three conditions of which only the last one fails", "the document is kept though a condition does not hold")
