#!/usr/bin/env python3
"""refac.py [IDS]: behaviour-preserving edits; every listed check has to stay quiet on each (scratch copies only)."""
import json, os, re, shutil, subprocess, sys, tempfile, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = {}


BY = {'Matcher': 'C13 C14 C15 C17 C20', 'MatchResults': 'C16 C19 C21', 'ResultFilter': 'C14 C19 C21', 'SearchParameters': 'C13 C14 C21', 'ErrorValues': 'C11 C12 C22 C21', 'WordStore': 'C07 C19 C21',
      'LevenshteinIndex': 'C08 C09 C10 C13 C20 C21', 'Word': 'C01 C02 C03 C04 C19 C21', 'ColumbusHelpers': 'C01 C02 C05 C21', 'Document': 'C06 C19 C21', 'WordList': 'C06 C19 C21', 'Corpus': 'C06 C19 C21',
      'IndexMatches': 'C09 C10 C19 C21', 'IndexWeights': 'C15 C21', 'MatcherStatistics': 'C21', 'Trie': 'C07 C08', 'ErrorMatrix': 'C09 C10 C21', 'ColumbusCAPI': 'C18 C21', 'ColumbusSlow': 'C01 C02'}


def refac(name, file, *edits):
    R[name] = (file, BY[re.match('src/(.*).cc', file).group(1)].split(), edits)


refac('m-addmatches', 'src/Matcher.cc', ("""    MatchIndIterator it = bestIndexMatches.find(indexID);
    map<WordID, int> *indexMatches;
    if(it == bestIndexMatches.end()) {
        map<WordID, int> tmp;
        bestIndexMatches[indexID] = tmp;
        it = bestIndexMatches.find(indexID);
    }
    indexMatches = &(it->second);
""", """    map<WordID, int> *indexMatches = &bestIndexMatches[indexID];
"""), ("""            if(mIt->second > matchError)
                (*indexMatches)[matchWordID] = matchError;
""", """            if(matchError < mIt->second)
                mIt->second = matchError;
"""))
refac('m-subterms', 'src/Matcher.cc', ("static bool subtermsMatch(", """static bool conditionHolds(MatcherPrivate *p, const Word &filterName, const Word &value, DocumentID id) {
    if(!p->store.hasWord(filterName))
        return false;
    if(!p->store.hasWord(value))
        return false;
    const WordID valueID = p->store.getID(value);
    const WordID nameID = p->store.getID(filterName);
    return p->reverseIndex.documentHasTerm(valueID, nameID, id);
}

static bool subtermsMatch("""), ("""        // Do not let the word store learn names that are only searched for.
        if(!p->store.hasWord(value) || !p->store.hasWord(filterName)) {
            return false;
        }
        bool termFound = p->reverseIndex.documentHasTerm(
                p->store.getID(value), p->store.getID(filterName), id);
        if(!termFound) {
            return false;
        }
""", """        if(!conditionHolds(p, filterName, value, id))
            return false;
"""))
refac('m-reverse', 'src/Matcher.cc', ("""    return revIt->second.find(id) != revIt->second.end();""", """    return revIt->second.count(id) > 0;"""),
      ("""    if(revIt == reverseIndex.end())
        return;
    DocumentSet &docSet = revIt->second;
    for(auto docIter = docSet.begin(); docIter != docSet.end(); docIter++) {
        result.push_back(*docIter);
    }
""", """    if(revIt != reverseIndex.end()) {
        for(const auto &doc : revIt->second)
            result.push_back(doc);
    }
"""), ("""        DocumentSet tmp;
        tmp.insert(id);
        reverseIndex[p] = tmp;
    } else {
        revIt->second.insert(id);
    }
""", """        reverseIndex[p].insert(id);
        return;
    }
    revIt->second.insert(id);
"""))
refac('m-relevancy', 'src/Matcher.cc', ("static double calculateRelevancy(", """static double frequencyFactor(const size_t count, const size_t maximum) {
    return 1.0 - double(count)/(maximum+1);
}

static double calculateRelevancy("""), ("""    double errorMultiplier = 100.0/(100.0+error); // Should be adjusted for maxError or word length.
    size_t indexCount""", """    size_t indexCount"""), ("""    double frequencyMultiplier = 1.0 - double(indexCount)/(indexMaxCount+1);
    double indexWeightMultiplier = p->weights.getWeight(p->store.getWord(indexID));
    return errorMultiplier*frequencyMultiplier*indexWeightMultiplier;
""", """    const Word name = p->store.getWord(indexID);
    const double indexWeightMultiplier = p->weights.getWeight(name);
    const double errorMultiplier = 100.0/(100.0+error); // Should be adjusted for maxError or word length.
    return errorMultiplier*frequencyFactor(indexCount, indexMaxCount)*indexWeightMultiplier;
"""))
refac('m-matchindexes', 'src/Matcher.cc', ("static void matchIndexes(", """static int allowedError(const SearchParameters &params, const Word &w, const int extraError) {
    const int base = params.isDynamic() ? params.getDynamicError(w) : 2*LevenshteinIndex::getDefaultError();
    return base + extraError;
}

static void matchIndexes("""), ("""        int maxError;
        if(params.isDynamic())
            maxError = params.getDynamicError(w);
        else
            maxError = 2*LevenshteinIndex::getDefaultError();
        maxError += extraError;
""", """        const int maxError = allowedError(params, w, extraError);
"""), ("""            if(params.isNonsearchingField(p->store.getWord(it->first))) {
                continue;
            }
""", """            const Word fieldName = p->store.getWord(it->first);
            if(params.isNonsearchingField(fieldName))
                continue;
"""))
refac('m-matchindexes2', 'src/Matcher.cc', ("""        for(IndIterator it = p->indexes.begin(); it != p->indexes.end(); it++) {
            if(params.isNonsearchingField(p->store.getWord(it->first))) {
                continue;
            }
            IndexMatches m;
            it->second->findWords(w, p->e, maxError, m);
            addMatches(p, bestIndexMatches, w, it->first, m);
            debugMessage("Matched word %s in index %s with error %d and got %lu matches.\\n",
                    w.asUtf8().c_str(), p->store.getWord(it->first).asUtf8().c_str(), maxError, (unsigned long) m.size());
        }
""", """        for(auto &ind : p->indexes) {
            if(!params.isNonsearchingField(p->store.getWord(ind.first))) {
                IndexMatches m;
                ind.second->findWords(w, p->e, maxError, m);
                addMatches(p, bestIndexMatches, w, ind.first, m);
            }
        }
"""))
refac('m-gather', 'src/Matcher.cc', ("""                auto doc = matchedDocuments.find(curDoc);
                if(doc == matchedDocuments.end())
                    matchedDocuments[curDoc] = relevancy;
                else
                    matchedDocuments[curDoc] += relevancy;
""", """                matchedDocuments[curDoc] += relevancy;
"""))
refac('m-gather2', 'src/Matcher.cc', ("static void gatherMatchedDocuments(", """static void addRelevancy(map<DocumentID, double> &matchedDocuments, const DocumentID id, const double relevancy) {
    auto doc = matchedDocuments.find(id);
    if(doc != matchedDocuments.end()) {
        doc->second += relevancy;
        return;
    }
    matchedDocuments[id] = relevancy;
}

static void gatherMatchedDocuments("""), ("""                auto doc = matchedDocuments.find(curDoc);
                if(doc == matchedDocuments.end())
                    matchedDocuments[curDoc] = relevancy;
                else
                    matchedDocuments[curDoc] += relevancy;
""", """                addRelevancy(matchedDocuments, curDoc, relevancy);
"""))
refac('m-match', 'src/Matcher.cc', ("MatchResults Matcher::match(const WordList &query, const SearchParameters &params) {", """static bool passes(MatcherPrivate *p, const ResultFilter &filter, DocumentID id) {
    const size_t n = filter.numTerms();
    for(size_t term=0; term < n; ++term) {
        if(subtermsMatch(p, filter, term, id))
            return true;
    }
    return false;
}

MatchResults Matcher::match(const WordList &query, const SearchParameters &params) {"""), ("""        for(size_t term=0; term < filter.numTerms(); term++) {
            if(subtermsMatch(p, filter, term, id)) {
                matchedDocuments.copyResult(allMatches, i);
                break;
            }
        }
""", """        if(passes(p, filter, id))
            matchedDocuments.copyResult(allMatches, i);
"""))
refac('m-match2', 'src/Matcher.cc', ("""    for(int i=0; i<maxIterations; i++) {
        MatchResults matches;
        relevancyMatch(query, params, i*increment, matches);
        if(matches.size() >= minMatches || i == maxIterations-1) {
            allMatches.addResults(matches);
            break;
        }
    }
""", """    {
        MatchResults matches;
        relevancyMatch(query, params, 0, matches);
        allMatches.addResults(matches);
    }
"""), ("""    const int maxIterations = 1;
    const int increment = LevenshteinIndex::getDefaultError();
    const size_t minMatches = 10;
""", ""), ("        for(size_t term=0; term < filter.numTerms(); term++) {\n            if(subtermsMatch", "        size_t term = 0;\n        while(term < filter.numTerms()) {\n            if(subtermsMatch"),
      ("                break;\n            }\n        }\n    }\n    return matchedDocuments;", "                break;\n            }\n            ++term;\n        }\n    }\n    return matchedDocuments;"))
refac('m-online', 'src/Matcher.cc', ("""    vector<DocCount> stats;
    for(const auto &i : countExacts(p, query, indexID)) {
        DocCount c;
        pair<DocumentID, WordID> key;
        exactMatched.insert(i.first);
        key.first = i.first;
        key.second = indexID;
        c.id = i.first;
        c.matches = i.second;
        stats.push_back(c);
    }
    for(const auto &i: stats) {
        accumulator[i.id] = 2*i.matches;
        if(i.matches == query.size()
                && i.matches == p->originalSizes[make_pair(i.id, indexID)]) { // Perfect match.
            accumulator[i.id] += 100;
        }
    }
""", """    const map<DocumentID, size_t> exacts = countExacts(p, query, indexID);
    for(const auto &i : exacts) {
        accumulator[i.first] = 2*i.second;
        if(i.second == query.size()
                && i.second == p->originalSizes[make_pair(i.first, indexID)]) { // Perfect match.
            accumulator[i.first] += 100;
        }
    }
"""), ("    set<DocumentID> exactMatched;\n", ""))
refac('m-online2', 'src/Matcher.cc', ("""    // Merge in fuzzy matches.
    MatchResults fuzzyResults = match(query);
    for(size_t i = 0; i<fuzzyResults.size(); i++) {
        DocumentID docid = fuzzyResults.getDocumentID(i);
        accumulator[docid] += fuzzyResults.getRelevancy(i);
    }
    for(const auto &i : accumulator) {
        results.addResult(i.first, i.second);
    }
    return results;
""", """    // Merge in fuzzy matches.
    const MatchResults fuzzyResults = match(query);
    const size_t n = fuzzyResults.size();
    size_t i = 0;
    while(i < n) {
        const double relevancy = fuzzyResults.getRelevancy(i);
        accumulator[fuzzyResults.getDocumentID(i)] += relevancy;
        i++;
    }
    for(auto it = accumulator.begin(); it != accumulator.end(); ++it)
        results.addResult(it->first, it->second);
    return results;
"""), ("""        string msg("Index named ");
        msg += primaryIndex.asUtf8();
        msg += " is not known";
        throw invalid_argument(msg);
""", """        throw invalid_argument("Index named " + primaryIndex.asUtf8() + " is not known");
"""), ("""        if(w.length() == 0 || !p->store.hasWord(w)) {
            continue;
        }
        WordID curWord = p->store.getID(w);
        vector<DocumentID> exacts;
        p->reverseIndex.findDocuments(curWord, indexID, exacts);
        for(const auto &i : exacts) {
            matchCounts[i]++; // Default is zero initialisation.
        }
""", """        if(w.length() > 0 && p->store.hasWord(w)) {
            const WordID curWord = p->store.getID(w);
            vector<DocumentID> exacts;
            p->reverseIndex.findDocuments(curWord, indexID, exacts);
            for(size_t k=0; k<exacts.size(); k++) {
                matchCounts[exacts[k]] += 1;
            }
        }
"""))
refac('m-build', 'src/Matcher.cc', ("""            pair<DocumentID, WordID> lengths;
            lengths.first = d.getID();
            lengths.second = fieldID;
            p->originalSizes[lengths] = text.size();
""", """            const DocumentID id = d.getID();
            p->originalSizes[make_pair(id, fieldID)] = text.size();
"""), ("""    LevenshteinIndex *target;
    IndIterator it = p->indexes.find(indexID);
    if(it == p->indexes.end()) {
        target = new LevenshteinIndex();
        p->indexes[indexID] = target;
    } else {
        target = it->second;
    }
    target->insertWord(word, wordID);
""", """    IndIterator it = p->indexes.find(indexID);
    if(it != p->indexes.end()) {
        it->second->insertWord(word, wordID);
        return;
    }
    LevenshteinIndex *target = new LevenshteinIndex();
    p->indexes[indexID] = target;
    target->insertWord(word, wordID);
"""))
refac('mr', 'src/MatchResults.cc', ("""    pair<double, DocumentID> n;
    n.first = relevancy;
    n.second = id;
    p->results.push_back(n);
    p->sorted = false;
""", """    p->sorted = false;
    p->results.push_back(make_pair(relevancy, id));
"""), ("""    if(i>=p->results.size()) {
        throw out_of_range("Access out of bounds in MatchResults::getDocumentID.");
    }
    sortIfRequired();
    return p->results[i].second;
""", """    const size_t n = p->results.size();
    if(i < n) {
        sortIfRequired();
        return p->results[i].second;
    }
    throw out_of_range("Access out of bounds in MatchResults::getDocumentID.");
"""), ("        return a.first < b.first;", "        return b.first > a.first;"))
refac('rf', 'src/ResultFilter.cc', ("ResultFilter::ResultFilter() {", """static void checkTerm(const vector<vector<pair<Word, Word>>> &list, const size_t term, const size_t subTerm) {
    if(term >= list.size())
        throw out_of_range("Term access out of bounds in ResultFilter::getField.");
    if(subTerm >= list[term].size())
        throw out_of_range("Subterm access out of bounds in ResultFilter::getField.");
}

ResultFilter::ResultFilter() {"""), ("""    if(term >= numTerms())
        throw out_of_range("Term access out of bounds in ResultFilter::getField.");
    if(subTerm >= p->termList[term].size())
        throw out_of_range("Subterm access out of bounds in ResultFilter::getField.");
    return p->termList[term][subTerm].first;
""", """    checkTerm(p->termList, term, subTerm);
    const pair<Word, Word> &sub = p->termList[term][subTerm];
    return sub.first;
"""), ("""    if(term >= numTerms())
        throw out_of_range("Term access out of bounds in ResultFilter::getField.");
    if(subTerm >= p->termList[term].size())
        throw out_of_range("Subterm access out of bounds in ResultFilter::getField.");
    return p->termList[term][subTerm].second;
""", """    checkTerm(p->termList, term, subTerm);
    return p->termList[term][subTerm].second;
"""), ("""    p->termList.back().push_back(make_pair(field, word));""", """    vector<pair<Word, Word> > &last = p->termList[p->termList.size()-1];
    last.push_back(make_pair(field, word));"""), ("""    vector<pair<Word, Word> > dummy;
    p->termList.push_back(dummy);""", "    p->termList.push_back(vector<pair<Word, Word> >());"))
refac('sp', 'src/SearchParameters.cc', ("""    return p->nosearchFields.find(w) != p->nosearchFields.end();""", """    return p->nosearchFields.count(w) != 0;"""), ("""    size_t len = w.length();
    if(len < 2)
        return LevenshteinIndex::getDefaultError();
    else
        return 2*LevenshteinIndex::getDefaultError();
""", """    const int unit = LevenshteinIndex::getDefaultError();
    return w.length() >= 2 ? unit*2 : unit;
"""))
refac('ev', 'src/ErrorValues.cc', ("""    if(l1 == l2) // Identical letters never have an error.
        return;
    if(l1 > l2) {
        Letter tmp = l1;
        l1 = l2;
        l2 = tmp;
    }
    pair<Letter, Letter> in(l1, l2);
    p->singleErrors[in] = error;
    addToLUT(l1, l2, error);
""", """    if(l1 != l2) { // Identical letters never have an error.
        const Letter small = l1 < l2 ? l1 : l2;
        const Letter large = l1 < l2 ? l2 : l1;
        p->singleErrors[make_pair(small, large)] = error;
        addToLUT(small, large, error);
    }
"""), ("""    auto g1 = p->groupMap.find(l2);
    if(g1 != p->groupMap.end()) {
        auto g2 = p->groupMap.find(l1);
        if(g2 != p->groupMap.end()) {
            if(g1->second == g2->second) {
                return p->groupErrors[g1->second];
            }
        }
    }
    return substituteError;
""", """    auto g1 = p->groupMap.find(l2);
    if(g1 == p->groupMap.end())
        return substituteError;
    auto g2 = p->groupMap.find(l1);
    if(g2 == p->groupMap.end() || g1->second != g2->second)
        return substituteError;
    return p->groupErrors[g2->second];
"""), ("""    p->singleErrors.clear();
    p->groupErrors.clear();
    p->groupMap.clear();
""", """    p->groupMap.clear();
    p->groupErrors.clear();
    p->singleErrors.clear();
"""))
refac('ev2', 'src/ErrorValues.cc', ("""        for(size_t j=i; j<groupLetters.length(); j++) {
            Letter l1 = groupLetters[i];
            Letter l2 = groupLetters[j];
            if(l1 == l2)
                continue;
            // An error set for exactly these letters beats the group error.
            pair<Letter, Letter> in(l1 < l2 ? l1 : l2, l1 < l2 ? l2 : l1);
            if(p->singleErrors.find(in) != p->singleErrors.end())
                continue;
            addToLUT(l1, l2, error);
        }
""", """        const Letter l1 = groupLetters[i];
        for(size_t j=i+1; j<groupLetters.length(); j++) {
            const Letter l2 = groupLetters[j];
            if(l1 == l2)
                continue;
            // An error set for exactly these letters beats the group error.
            pair<Letter, Letter> in(l1 < l2 ? l1 : l2, l1 < l2 ? l2 : l1);
            if(p->singleErrors.find(in) == p->singleErrors.end())
                addToLUT(l1, l2, error);
        }
"""), ("""    for(int i=0; i<LUT_LETTERS; i++) {
        for(int j=0; j<LUT_LETTERS; j++) {
            p->lut[LUT_OFFSET(i, j)] = i == j ? 0 : substituteError;
        }
    }
""", """    for(int i=0; i<LUT_LETTERS; i++) {
        for(int j=0; j<LUT_LETTERS; j++) {
            int error = substituteError;
            if(i == j)
                error = 0;
            p->lut[LUT_OFFSET(i, j)] = error;
        }
    }
"""))
refac('ws', 'src/WordStore.cc', ("""    if(p->words.hasWord(w)) {
        return p->words.getWordID(p->words.findWord(w));
    }
    TrieOffset node = p->words.insertWord(w, p->wordIndex.size());
    p->wordIndex.push_back(node);
    WordID result = p->wordIndex.size()-1;
    return result;
""", """    if(!p->words.hasWord(w)) {
        const WordID result = p->wordIndex.size();
        p->wordIndex.push_back(p->words.insertWord(w, result));
        return result;
    }
    const TrieOffset node = p->words.findWord(w);
    return p->words.getWordID(node);
"""), ("""    if(!hasWord(id)) {
        throw out_of_range("Tried to access non-existing WordID in WordStore.");
    }
    return p->words.getWord(p->wordIndex[id]);
""", """    if(id >= p->wordIndex.size())
        throw out_of_range("Tried to access non-existing WordID in WordStore.");
    const TrieOffset node = p->wordIndex[id];
    return p->words.getWord(node);
"""))
refac('li', 'src/LevenshteinIndex.cc', ("""    auto it = p->wordCounts.find(wordID);
    size_t newCount;
    if(it != p->wordCounts.end()) {
        newCount = p->wordCounts[wordID] + 1;
    } else {
        newCount = 1;
    }
""", """    size_t newCount = 1;
    auto it = p->wordCounts.find(wordID);
    if(it != p->wordCounts.end())
        newCount += it->second;
"""), ("""    auto i = p->wordCounts.find(queryID);
    if(i == p->wordCounts.end())
        return 0;
    return i->second;
""", """    auto i = p->wordCounts.find(queryID);
    return i != p->wordCounts.end() ? i->second : 0;
"""), ("""    return min(insertError, min(deleteError, min(substituteError, transposeError)));""", """    int best = insertError;
    if(deleteError < best)
        best = deleteError;
    if(substituteError < best)
        best = substituteError;
    return transposeError < best ? transposeError : best;"""), ("""    int insertError = em.get(depth, i-1) + e.getInsertionError();
    int deleteError;
    if(i >= query.length())
        deleteError = em.get(depth-1, i) + e.getEndDeletionError();
    else
        deleteError = em.get(depth-1, i) + e.getDeletionError();
""", """    const int deletion = i >= query.length() ? e.getEndDeletionError() : e.getDeletionError();
    const int deleteError = em.get(depth-1, i) + deletion;
    const int insertError = em.get(depth, i-1) + e.getInsertionError();
"""))
refac('li2', 'src/LevenshteinIndex.cc', ("""    if(em.totalError(depth) <= maxError && p->trie.getWordID(node) != INVALID_WORDID) {
        matches.addMatch(query, p->trie.getWordID(node), em.totalError(depth));
    }
    // A transposition can skip over the current row, so the previous one counts, too.
    if(em.minError(depth) <= maxError || em.minError(depth-1) + e.getTransposeError() <= maxError) {
        TrieOffset sibling = p->trie.getSiblingList(node);
        while(sibling != 0) {
            Letter l = p->trie.getLetter(sibling);
            TrieOffset nextNode = p->trie.getChild(sibling);
            searchRecursive(query, nextNode, e, l, letter, depth+1, em, matches, maxError);
            sibling = p->trie.getNextSibling(sibling);
        }
    }
""", """    const int total = em.totalError(depth);
    const WordID found = p->trie.getWordID(node);
    if(found != INVALID_WORDID && total <= maxError) {
        matches.addMatch(query, found, total);
    }
    // A transposition can skip over the current row, so the previous one counts, too.
    if(em.minError(depth) > maxError && em.minError(depth-1) + e.getTransposeError() > maxError)
        return;
    for(TrieOffset sibling = p->trie.getSiblingList(node); sibling != 0; sibling = p->trie.getNextSibling(sibling)) {
        searchRecursive(query, p->trie.getChild(sibling), e, p->trie.getLetter(sibling), letter, depth+1, em, matches, maxError);
    }
"""))
refac('word', 'src/Word.cc', ("""    for(unsigned int i=0; i<len; i++) {
        Letter cur = text[i];
        if(isWhitespace(cur))
            return true;
    }
    return false;
""", """    unsigned int i = 0;
    while(i < len && !isWhitespace(text[i]))
        i++;
    return i < len;
"""), ("""    size_t minLen = len < w.len ? len : w.len;
    for(size_t i=0; i<minLen; i++) {
        if(text[i] < w.text[i])
            return true;
        if(text[i] > w.text[i])
            return false;
    }
    if(w.len > len)
        return true;
    return false;
""", """    for(size_t i=0; i<len && i<w.len; i++) {
        if(text[i] != w.text[i])
            return text[i] < w.text[i];
    }
    return len < w.len;
"""), ("""    if(this == &w)
        return true;
    if(len != w.len)
        return false;
    for(unsigned int i=0; i<len; i++)
        if(text[i] != w.text[i])
            return false;
    return true;
""", """    if(len != w.len)
        return false;
    for(unsigned int i=0; i<len; ++i) {
        if(!(text[i] == w.text[i]))
            return false;
    }
    return true;
"""))
refac('word2', 'src/Word.cc', ("""    if(hasWhitespace()) {
        delete []text;
        text = nullptr;
        len = 0;
        std::string err("Tried to create a word with whitespace in it: ");
        err += (const char*)utf8Word;
        throw std::invalid_argument(err);
    }
    else if(hasBrokenSurrogates()) {
        delete []text;
        text = nullptr;
        len = 0;
        std::string err("Tried to create a word with broken surrogates in it: ");
        err += (const char*)utf8Word;
        throw std::invalid_argument(err);
    }
""", """    const bool white = hasWhitespace();
    if(white || hasBrokenSurrogates()) {
        delete []text;
        text = nullptr;
        len = 0;
        std::string err(white ? "Tried to create a word with whitespace in it: " : "Tried to create a word with broken surrogates in it: ");
        err += (const char*)utf8Word;
        throw std::invalid_argument(err);
    }
"""), ("""            if(expectHigh && !cur.isHighSurrogate()) {
                return true;
            }

            if(!expectHigh && !cur.isLowSurrogate()) {
                return true;
            }
            if(expectHigh) {
                expectHigh = false;
                expectSurrogate = true;
            }
            else { // Low surrogate
                expectHigh = true;
                expectSurrogate = false;
            }
""", """            if(expectHigh ? !cur.isHighSurrogate() : !cur.isLowSurrogate())
                return true;
            expectSurrogate = expectHigh;
            expectHigh = !expectHigh;
"""))
refac('helpers', 'src/ColumbusHelpers.cc', ("""        unsigned int wordLen = end-begin;
        if(wordLen +1 > bufSize) {
            delete[] word;
            word = new char[wordLen+1];
            bufSize = wordLen + 1;
        }
        memcpy(word, utf8Text+begin, wordLen);
        word[wordLen] = '\\0';
        try {
            Word w(word);
            list.addWord(w);
        } catch(...) {
            delete []word;
            throw;
        }
    } while(end < strSize);
    delete []word;
    return list;
""", """        std::string word(utf8Text+begin, end-begin);
        list.addWord(Word(word));
    } while(end < strSize);
    return list;
"""), ("""            delete []word;
            return list;
""", """            return list;
"""), ("""    char *word = 0;
    unsigned int bufSize = 0;
""", ""))
refac('helpers2', 'src/ColumbusHelpers.cc', ("""    do {
        begin = end;
        while(isInList(utf8Text[begin], splitChars, numChars) && begin < strSize) {
            begin++;
        }
        if(begin >= strSize) {
            delete []word;
            return list;
        }
        end = begin+1;
        while(!isInList(utf8Text[end], splitChars, numChars) && end < strSize) {
            end++;
        }
""", """    do {
        for(begin = end; begin < strSize && isInList(utf8Text[begin], splitChars, numChars); begin++) {
        }
        if(begin >= strSize)
            break;
        for(end = begin+1; end < strSize && !isInList(utf8Text[end], splitChars, numChars); end++) {
        }
"""))
refac('doc', 'src/Document.cc', ("""    TextIterC it = p->texts.find(field);
    size_t count = 0;
    if(it == p->texts.end())
        return count;
    for(size_t i = 0; i < it->second.size(); i++) {
        if(it->second[i] == w)
            count++;
    }
    return count;
""", """    TextIterC it = p->texts.find(field);
    size_t count = 0;
    if(it != p->texts.end()) {
        const WordList &text = it->second;
        const size_t n = text.size();
        for(size_t i = 0; i < n; i++)
            count += text[i] == w ? 1 : 0;
    }
    return count;
"""), ("""    for(TextIterC it = p->texts.begin(); it != p->texts.end(); it++) {
        count += wordCount(w, it->first);
    }
""", """    for(const auto &text : p->texts)
        count += wordCount(w, text.first);
"""), ("""    for(TextIter it=p->texts.begin(); it != p->texts.end(); it++) {
        list.addWord(it->first);
    }
""", """    for(const auto &text : p->texts) {
        list.addWord(text.first);
    }
"""))
refac('ms', 'src/MatcherStatistics.cc', ("""    auto it = p->totalWordCounts.find(w);
    if(it == p->totalWordCounts.end()) {
        p->totalWordCounts[w] = 1;
    } else {
        it->second++;
    }
""", """    p->totalWordCounts[w] += 1;
"""), ("""    if(it == p->totalWordCounts.end()) {
        return 0;
    } else {
        return it->second;
    }
""", """    return it != p->totalWordCounts.end() ? it->second : 0;
"""))
refac('iw', 'src/IndexWeights.cc', ("""    map<Word, double>::iterator it = p->weigths.find(w);
    if(it == p->weigths.end())
        return 1.0;
    return it->second;
""", """    const auto it = p->weigths.find(w);
    if(it != p->weigths.end())
        return it->second;
    return 1.0;
"""), ("    p->weigths[w] = weigth;", "    double &place = p->weigths[w];\n    place = weigth;"))
refac('im', 'src/IndexMatches.cc', ("""    MatchData m;
    m.matchedWord = matchedWord;
    m.error = error;
    p->matches.push_back(m);
""", """    MatchData m;
    m.error = error;
    m.matchedWord = matchedWord;
    p->matches.push_back(std::move(m));
"""), ("    std::sort(p->matches.begin(), p->matches.end());", "    if(p->matches.size() > 1)\n        std::sort(p->matches.begin(), p->matches.end());"))
refac('trie', 'src/Trie.cc', ("""        while(ptrs->sibling != 0 && ptrs->l != l) {
            sibl = ptrs->sibling;
            ptrs = (TriePtrs*)(p->map + sibl);
        }

        if(ptrs->l != l)
            return 0;
        node = ptrs->child;
""", """        while(ptrs->l != l) {
            if(ptrs->sibling == 0)
                return 0;
            sibl = ptrs->sibling;
            ptrs = (TriePtrs*)(p->map + sibl);
        }
        node = ptrs->child;
"""), ("""    if(n->word != INVALID_WORDID)
        return true;
    return false;
""", """    return n->word != INVALID_WORDID;
"""))


def main():
    ids = sys.argv[1:] or list(R)
    only = None
    if '-c' in ids:
        i = ids.index('-c')
        only = ids[i + 1].split(',')
        ids = ids[:i] + ids[i + 2:] or list(R)
    t = tempfile.mkdtemp(prefix='refac')
    try:
        for name in ids:
            file, checks, edits = R[name]
            d = os.path.join(t, 'repo')
            subprocess.check_call(['cp', '-a', '/repo', d])
            p = os.path.join(d, file)
            s = open(p).read()
            for a, b in edits:
                assert s.count(a) == 1, (name, s.count(a), a)
                s = s.replace(a, b)
            open(p, 'w').write(s)
            for c in only or checks:
                t0 = time.time()
                r = subprocess.run([sys.executable, V + '/check.py', c], env=dict(os.environ, VERIF_REPO=d), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True)
                ls = [l[:200] for l in r.stdout.splitlines() if re.match('VIOL|OK|failed obl|bounded|KNOWN|NOTE|out of', l)]
                print('%-16s %s rc=%d %.0fs %s' % (name, c, r.returncode, time.time() - t0, ' | '.join(ls)[:700]), flush=True)
            shutil.rmtree(d)
    finally:
        shutil.rmtree(t)


main()
