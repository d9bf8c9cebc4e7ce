#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the long lines stay editable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=state or [], mechanism=mech, observe_at=observe or [], hook_needed=hook)))
m = lambda n, w: dict(name=n, where=w)
s = lambda n, me, w: dict(name=n, meaning=me, where=w)

prop("C01", "A word never holds whitespace, NUL letters or broken surrogates",
 "Whatever text or letter array it is built from or assigned, a word that exists contains no space, tab, line feed, carriage return or NUL letter, and every surrogate in it belongs to a high-then-low pair. Input that would break this, and only such input (or text that is not valid UTF-8), is refused with an exception. A refused assignment leaves its target a usable word that still satisfies the rule, and no other word is affected.",
 ["inputs"], "All byte strings and all letter arrays of any length (zero included), given to every way of making or assigning a word.",
 "Tests try a dozen fixed strings; the rule is over every letter sequence, including ones that end or start inside a surrogate pair and objects that survive a failed assignment.",
 ["src/Word.cc", "include/Word.hh", "include/ColumbusCore.hh.in", "src/ColumbusHelpers.cc"],
 [m("whitespace and surrogate scans after every conversion", "src/Word.cc: convertString, Word(Letter*,size_t), hasWhitespace, hasBrokenSurrogates"), m("surrogate classification", "include/ColumbusCore.hh.in: isHighSurrogate/isLowSurrogate")],
 [s("letters and length", "the word's content", "include/Word.hh: text, len")], ["constructors and assignments of words; letters read back by index"])

prop("C02", "Text converts to lower-case words and back without loss or overrun",
 "A word made from valid UTF-8 text has exactly the letters of that text in order, each mapped to lower case, and converting it back yields the UTF-8 form of those letters. Converting a word into a caller's buffer never writes outside the stated size, terminates what it writes, and fails with an exception when the text and its terminator do not fit; text that is not valid UTF-8 is refused with an exception.",
 ["inputs"], "All UTF-8 and non-UTF-8 byte strings of any length, and all buffer sizes including zero and the exact fit.",
 "Tests use a few short strings and buffers far larger than needed, so the exact-fit and shrinking-allocation boundaries and long texts are never sampled.",
 ["src/ColumbusHelpers.cc", "src/Word.cc"],
 [m("iconv conversion into a sized buffer, then per-letter lower-casing", "src/ColumbusHelpers.cc: utf8ToInternal"), m("bounded conversion out", "src/ColumbusHelpers.cc: internalToUtf8; src/Word.cc: toUtf8, asUtf8")])

prop("C03", "Word comparison is exact equality and lexicographic total order",
 "Two words are equal exactly when they have the same length and the same letters; inequality is its negation. The less-than relation is the strict lexicographic order of the letters, so for any two words exactly one of less, equal, greater holds and it is transitive. Equal words always have equal hash values, and comparing with text compares with the word's UTF-8 form.",
 ["inputs"], "All pairs and triples of words of any length, an object compared with itself included.",
 "A handful of fixed pairs cannot establish order laws that ordered and hashed containers of words need for every pair.",
 ["src/Word.cc"], [m("element-wise comparison", "src/Word.cc: operator==, operator!=, operator<"), m("hash over the letter bytes", "src/Word.cc: hash")])

prop("C04", "Copies, moves and joins of words are faithful and independent",
 "A copied or copy-assigned word equals its source and stays so whatever later happens to the source; a moved-from word is left empty and the target holds the old value; assigning a word to itself by copy changes nothing. Joining two words yields the letters of the first followed by the letters of the second and leaves both unchanged. No operation reads or frees memory it does not own.",
 ["inputs", "histories"], "All words, including empty and moved-from ones, and all aliasing of source and target.",
 "Aliasing, empty operands and lifetime after the source dies are cross products tests do not enumerate.",
 ["src/Word.cc", "include/Word.hh"], [m("deep copy", "src/Word.cc: duplicateFrom, copy constructor, operator=(const Word&)"), m("pointer hand-over", "src/Word.cc: move constructor, operator=(Word&&)"), m("concatenation", "src/Word.cc: join")])

prop("C05", "Splitting text yields exactly its whitespace-separated words, in order",
 "Splitting a text gives the words of its maximal runs of non-separator bytes, in order, none lost, merged, duplicated or empty, whatever separators lead, trail or repeat. A text that contains an invalid run makes the split fail with an exception instead of returning a partial list. Splitting never reads beyond the text's terminator.",
 ["inputs"], "All NUL-terminated texts of any length and any separator placement.",
 "Tests split a few literal sentences; scanning loops can be wrong only at ends, long runs or buffer growth.",
 ["src/ColumbusHelpers.cc"], [m("two-index scan with a growing buffer", "src/ColumbusHelpers.cc: split, splitToWords, isInList, isWhitespace")])

prop("C06", "Lists, documents and corpora hold exactly what was put in",
 "A word list returns its words in insertion order; a document returns, for each field, the last text given to it, and lists each field name once; a corpus returns its documents in insertion order. Copying or assigning any of these yields an equal, independent value, and adding to a container copies what is added. Word counts of a document equal the number of occurrences in the named field, or over all fields; asking for a field that does not exist fails with an exception.",
 ["inputs", "histories"], "All sequences of additions, copies and assignments with any words, fields and identifiers.",
 "Tests perform one or two additions and read them back; value semantics over arbitrary histories is not sampled.",
 ["src/WordList.cc", "src/Document.cc", "src/Corpus.cc"], [m("owned containers behind each class", "src/WordList.cc, src/Document.cc, src/Corpus.cc")],
 [s("field map", "field name to text", "src/Document.cc: DocumentPrivate::texts")])

prop("C07", "The word store numbers distinct words uniquely and permanently",
 "Asking for a word's number returns the same number for equal words and different numbers for different words; numbers are given out densely from zero in order of first appearance. A number once given keeps meaning the same word for ever, through any growth of the storage, and looking the number up returns that word. A word or number is reported as known exactly when it was given out before, and merely asking does not make it known.",
 ["inputs", "histories"], "All histories of look-ups and insertions of non-empty words sharing arbitrary prefixes, while the trie fits in its 32-bit offsets.",
 "Tests insert a few words; the guarantee is over all histories and over every growth step of the backing file.",
 ["src/WordStore.cc", "src/Trie.cc"], [m("trie with parent links and sibling lists", "src/Trie.cc: insertWord, findWord, getWord, addNewNode, addNewSibling"), m("growth by remapping", "src/Trie.cc: append, expand"), m("number assignment", "src/WordStore.cc: getID")],
 [s("trie storage", "flat file of nodes and sibling records", "src/Trie.cc: TriePrivate::map"), s("node index", "number to trie node", "src/WordStore.cc: wordIndex")])

prop("C08", "An index knows exactly the words inserted and how often",
 "After any sequence of insertions an index reports a word as present exactly when it was inserted, counts each number as often as it was inserted (zero if never), reports the highest such count, and reports the number of distinct words. Inserting an empty word changes nothing, and inserting one word never changes the presence or count of another.",
 ["inputs", "histories"], "All insertion sequences of words sharing arbitrary prefixes, each word always with the same number.",
 "Tests insert up to a few words; shared-prefix and growth interactions are unbounded.",
 ["src/LevenshteinIndex.cc", "src/Trie.cc"], [m("per-number counters", "src/LevenshteinIndex.cc: insertWord, wordCount, maxCount"), m("trie membership", "src/Trie.cc: hasWord, findWord, insertWord")],
 [s("counts", "number to insert count; maximum", "src/LevenshteinIndex.cc: LevenshteinIndexPrivate")])

prop("C09", "Every fuzzy match reported carries its exact edit error, within the limit",
 "Each match a fuzzy look-up reports names a word of the index whose weighted restricted Damerau-Levenshtein error to the query, under the configured insertion, deletion, end-deletion, start-insertion, substitution and transposition errors, equals the reported error and does not exceed the requested limit. The look-up never aborts or accesses memory outside its tables for any non-negative error configuration.",
 ["inputs", "configurations"], "All indexes, queries, limits and non-negative error settings whose total error stays within the int range.",
 "The existing tests compare distances for some fixed pairs with default errors; the recurrence must hold for every pair, depth and weight.",
 ["src/LevenshteinIndex.cc", "src/ErrorMatrix.cc", "include/ErrorMatrix.hh", "include/ErrorValues.hh"], [m("one matrix row per trie level, shared by depth-first search", "src/LevenshteinIndex.cc: findWords, searchRecursive, findOptimalError; src/ErrorMatrix.cc")],
 [s("error matrix", "row = depth of trie path, column = query prefix", "src/ErrorMatrix.cc: m")])

prop("C10", "Fuzzy look-up misses no word within the limit and sorts by error",
 "A fuzzy look-up reports every word of the index whose error to the query does not exceed the limit, each exactly once, and the reported list is in growing order of error. This holds for every non-negative error configuration: abandoning a branch of the search never loses a match.",
 ["inputs", "configurations"], "All indexes, queries, limits and non-negative error settings whose total error stays within the int range.",
 "Pruning is only wrong for particular combinations of weights, limits and branch shapes; the tests use default weights and tiny tries.",
 ["src/LevenshteinIndex.cc", "src/ErrorMatrix.cc", "src/IndexMatches.cc"], [m("pruning by row minimum", "src/LevenshteinIndex.cc: searchRecursive; src/ErrorMatrix.cc: minError"), m("sorting", "src/IndexMatches.cc: sort")])

prop("C11", "Substitution error is symmetric, zero on identity and follows one precedence",
 "For any two letters the substitution error does not depend on their order, is zero when they are identical, and otherwise is the value last set for that pair if there is one, else the error of the group both belong to, else the default. The same rule applies to every letter code, whichever internal path serves it. Clearing the errors makes every pair default again, and setting one pair or group changes no other pair.",
 ["inputs", "histories"], "All letter pairs over the whole letter range and all sequences of pair, group and clear operations.",
 "Two different look-up paths (a table for small codes, maps for the rest) must agree after every history; tests read a few pairs after one operation.",
 ["src/ErrorValues.cc", "include/ErrorValues.hh"], [m("table for letters below 512, maps for the others", "src/ErrorValues.cc: getSubstituteError, substituteErrorSlow, setError, setGroupError, addToLUT, addGroupErrorToLUT, clearErrors")],
 [s("look-up table", "errors of small letters", "src/ErrorValues.cc: lut"), s("pair and group maps", "errors of all letters", "src/ErrorValues.cc: singleErrors, groupMap, groupErrors")])

prop("C12", "Typing presets cover exactly the neighbouring keys and accented letters",
 "The keyboard preset gives the typo error to exactly the pairs of keys that are horizontal neighbours in any row or touch in the next row of the documented layout. The number pad preset gives error zero between a digit and the letters on its own key, and the adjacent-key error between a digit and the letters of the keys directly left, right, above and below. The accent preset groups exactly the letters that share a line of the data file, and reports failure when the data file cannot be found.",
 ["inputs", "configurations"], "All letter pairs, under each preset and any data directory setting (unset, empty, with or without trailing slash).",
 "Tests look at two or three key pairs; a boundary condition in a layout loop drops a whole row or column unnoticed.",
 ["src/ErrorValues.cc", "src/ColumbusSlow.cc", "share/latinAccentedLetterGroups.txt"], [m("layout tables and neighbour loops", "src/ErrorValues.cc: addKeyboardErrors, addNumberpadErrors, setPadError, addAccents"), m("data file search", "src/ColumbusSlow.cc: findDataFile")])

prop("C13", "A search returns exactly the documents with a close enough word",
 "A search returns a document exactly when one of its searchable fields contains an indexed word whose error to some query word is within the limit for that query word, and it passes the filter; each such document appears once. Fields marked as non-searchable never contribute, and the limit is the default error for one-letter query words and twice the default otherwise, or always twice the default when dynamic limits are off. An empty query returns nothing, and documents indexed earlier stay findable after later indexing.",
 ["inputs", "histories"], "All corpora, indexing histories, queries and search parameters.",
 "Tests use corpora of three short documents; the result set is defined over all corpora and queries.",
 ["src/Matcher.cc", "src/SearchParameters.cc"], [m("per-field index, reverse index", "src/Matcher.cc: buildIndexes, addToIndex, ReverseIndex"), m("match collection", "src/Matcher.cc: matchIndexes, addMatches, gatherMatchedDocuments, relevancyMatch, match"), m("limits and excluded fields", "src/SearchParameters.cc: getDynamicError, isNonsearchingField")],
 [s("indexes", "field number to word index", "src/Matcher.cc: MatcherPrivate::indexes"), s("reverse index", "field and word to documents", "src/Matcher.cc: ReverseIndex")])

prop("C14", "A result filter keeps documents satisfying all conditions of some alternative",
 "With a filter made of alternatives, each a list of field-and-word conditions, a found document is kept exactly when for at least one alternative every condition holds, that is, the named field of the document was indexed with exactly that word. A fresh filter, and any alternative without conditions, keeps every document. Filtering does not change a kept document's relevancy.",
 ["inputs"], "All filters (any number of alternatives and conditions, unknown fields and words included) over all indexed corpora.",
 "Tests use one or two conditions; the boolean structure and unknown names are not enumerated.",
 ["src/Matcher.cc", "src/ResultFilter.cc"], [m("alternative of conjunctions", "src/Matcher.cc: subtermsMatch, match"), m("filter storage", "src/ResultFilter.cc")])

prop("C15", "Relevancy adds up weight, closeness and rarity of each matched word",
 "A found document's relevancy is the sum, over every searchable field and every distinct word of that field within the limit that the document's field contains, of the field's weight (1 unless set) times 100/(100+smallest error to any query word) times 1 - occurrences/(highest occurrences+1), both counted in that field's index. So a smaller error or a rarer word never lowers the sum, and a field's last set weight is the one used and affects no other field.",
 ["inputs", "configurations"], "All corpora, queries, weights and error settings (real arithmetic; rounding is not part of the statement).",
 "Tests only compare the order of two or three documents for one corpus.",
 ["src/Matcher.cc", "src/IndexWeights.cc"], [m("score of one matched word", "src/Matcher.cc: calculateRelevancy"), m("best error per word and field", "src/Matcher.cc: addMatches"), m("summation", "src/Matcher.cc: gatherMatchedDocuments"), m("weights", "src/IndexWeights.cc")])

prop("C16", "Results are a ranking: descending relevancy, nothing lost or invented",
 "Reading results by position gives every added result exactly once with its own identifier and relevancy, in descending order of relevancy, equal ones in the order they were added. Adding another set of results or copying one of them by position transfers exactly the results that reading the source at that position shows. Copying, assigning and moving result sets preserve this.",
 ["inputs", "histories"], "All interleavings of adding, copying, merging and reading, with equal relevancies included.",
 "Sorting happens lazily, so the outcome could depend on the history of reads; tests use one fixed sequence.",
 ["src/MatchResults.cc"], [m("lazy stable sort", "src/MatchResults.cc: sortIfRequired, addResult, addResults, copyResult, getDocumentID, getRelevancy")],
 [s("sorted flag", "whether the list is in order", "src/MatchResults.cc: MatchResultsPrivate::sorted")])

prop("C17", "Online matching adds exact-hit bonuses to the ordinary score",
 "An online match returns the documents of the ordinary search together with every document whose primary field contains a query word exactly; each one's score is its ordinary relevancy (zero if not found) plus two for each query word its primary field contains, plus one hundred if every query word hits and the field has as many words as the query. Naming a field that was never indexed fails with an exception.",
 ["inputs", "histories"], "All corpora, queries and primary fields.",
 "Only one fixed corpus and a perfect match are tested.",
 ["src/Matcher.cc"], [m("exact counts, bonus and merge", "src/Matcher.cc: countExacts, onlineMatch")], [s("original sizes", "number of words of a field of a document", "src/Matcher.cc: originalSizes")])

prop("C18", "The C interface mirrors the C++ one and lets no exception escape",
 "Every C function has exactly the effect and result of the C++ operation it stands for, on the object behind its handle. A failing operation lets no C++ exception out and returns its documented neutral value (null handle, zero, the invalid identifier, -1 relevancy or weight 1), and leaves other objects unaffected.",
 ["inputs"], "All calls with valid handles and any text, index or size, failing ones included.",
 "The C tests call most functions once on the success path and some not at all.",
 ["src/ColumbusCAPI.cc", "include/columbus.h"], [m("wrappers with catch blocks", "src/ColumbusCAPI.cc")])

prop("C19", "Positions out of range are refused, never read",
 "Reading a letter, list entry, document, stored word, match, result, or filter condition at a position that does not exist fails with an out-of-range exception, and at every position that exists succeeds. A refused access changes nothing.",
 ["inputs"], "All sizes (zero included) and all positions up to the largest representable.",
 "Boundary positions for all sizes cannot be sampled; an off-by-one reads foreign memory silently.",
 ["src/Word.cc", "src/WordList.cc", "src/Corpus.cc", "src/WordStore.cc", "src/IndexMatches.cc", "src/MatchResults.cc", "src/ResultFilter.cc", "src/ErrorMatrix.cc"],
 [m("range checks in accessors", "operator[], getDocument, getWord, getMatch, getMatchError, getDocumentID, getRelevancy, copyResult, getField, numSubTerms, set")])

prop("C20", "Searching changes nothing that later calls can observe",
 "Running any search, with any query, parameters and filter, leaves the indexed words, documents, weights, error settings and known fields as they were, so repeating any call gives the same answer and a field or word that was never indexed stays unknown.",
 ["inputs", "histories"], "All sequences of searches on any index, with filters and queries naming unknown words and fields.",
 "Tests never compare the state before and after a search.",
 ["src/Matcher.cc", "src/LevenshteinIndex.cc", "src/WordStore.cc"], [m("look-ups without insertion", "src/Matcher.cc: subtermsMatch, countExacts, onlineMatch, matchIndexes; src/LevenshteinIndex.cc: findWords")])

prop("C21", "Everything acquired is released, also when an operation fails",
 "Destroying an object releases all memory, mappings and file handles it acquired, each exactly once. An operation that fails with an exception releases everything it had acquired for itself.",
 ["inputs", "fault_sequences"], "All objects and histories; failures caused by invalid text, invalid words and refused mapping or file operations (memory exhaustion is excluded).",
 "Tests do not look at memory, mappings or handles, and do not take failure paths.",
 ["src/Trie.cc", "src/ColumbusHelpers.cc", "src/Word.cc", "src/ErrorMatrix.cc", "src/Matcher.cc", "src/ErrorValues.cc"], [m("destructors", "src/Trie.cc: ~Trie; src/ErrorMatrix.cc; src/Matcher.cc: ~Matcher; src/Word.cc"), m("clean-up on failure", "src/ColumbusHelpers.cc: utf8ToInternal, split; src/Word.cc: convertString")])

prop("C22", "A refused error-group setting leaves the configuration unchanged",
 "Adding an error group one of whose letters already belongs to another group fails with an exception, and then every substitution error and every letter's group membership is as before. Adding a group of fresh letters succeeds and makes exactly those letters grouped.",
 ["inputs", "histories"], "All sequences of group additions with any overlap, including repeated letters within one group.",
 "No test adds an overlapping group; a partial update shows only in pairs read later.",
 ["src/ErrorValues.cc"], [m("overlap check before the update", "src/ErrorValues.cc: setGroupError, isInGroup")])

prop("C23", "The Python module behaves as the C++ library it wraps",
 "Each Python class and method of the module has the effect and result of the C++ operation of the same name, and C++ exceptions surface as Python exceptions.",
 ["inputs", "histories"], "All Python programs using the module.",
 "The Python tests call a few methods once.",
 ["python/columbus.cc"], [m("Boost.Python declarations", "python/columbus.cc")])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
            f.write(json.dumps(p) + "\n")
