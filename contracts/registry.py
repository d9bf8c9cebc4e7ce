"""Which contract modules exist and which functions are verified for which property."""
import re
from z3 import *
import logic as L
import word, lists, results, errors, store, leven, search, matrix, trie, capi, matcher

N = 'Columbus::'
TRUSTED = [
    "LLVM 18 (clang front end, always-inline, sroa, early-cse, simplifycfg, globalopt): the verified text is the IR clang makes from /repo's sources; extraction drops nothing but debug data",
    "engine/*.py: the verification-condition generator", "z3 and cvc5",
    "typed memory: objects of one type do not overlap letters, bytes or objects of another type",
    "no allocation fails; words are shorter than 2^29 letters and texts shorter than 2^31 bytes; std::string arguments hold no NUL",
    "the C library, ICU, iconv and C++ standard library contracts in contracts/ext.py and contracts/stl.py",
]


def lemmas_words():
    a, b, c = Consts('a b c', L.WordS)
    lt = L.wlt
    return [("less is irreflexive", [], Not(lt(a, a))),
            ("less is asymmetric", [], Implies(lt(a, b), And(Not(lt(b, a)), a != b))),
            ("one of less, equal, greater holds", [L.lcp(b, a) >= 0], Or(lt(a, b), a == b, lt(b, a))),
            ("less is transitive", [L.lcp(a, c) >= 0], Implies(And(lt(a, b), lt(b, c)), lt(a, c)))]


PROPS = {}


def prop(pid, fns, note, lemmas=None, technique="contract-based deductive verification of the LLVM IR of the code (own VC generator, z3 and cvc5)", kinds=None, level='proof', names=None):
    # kinds, names: only obligations of these kinds or with such names belong to the property
    PROPS[pid] = dict(fns=fns, note=note, lemmas=lemmas or [], technique=technique, kinds=kinds, level=level, names=names)


W = ['Word']


def install(lib):
    word.install(lib)
    lists.install(lib)
    results.install(lib)
    errors.install(lib)
    store.install(lib)
    leven.install(lib)
    search.install(lib)
    matrix.install(lib)
    trie.install(lib)
    capi.install(lib)
    matcher.install(lib)
    base = "Every obligation of the listed functions is discharged for all inputs; assumptions are in the evidence's trusted_base. "
    prop('C01', [(r'^Columbus::Word::(Word|operator=|join)\b', W), (r'^Columbus::(utf8ToInternal|isWhitespace)\(', [])],
         base + "All constructors, assignments and join establish the word invariant, refuse exactly the bad input and leave the target usable.")
    prop('C02', [(r'^Columbus::Word::(Word\(char const|Word\(std|operator=\((char|std)|toUtf8|asUtf8)', W), (r'^Columbus::(utf8ToInternal|internalToUtf8)\(', [])],
         base + "What iconv and u_tolower compute is assumed; buffer bounds, order, lower-casing of every letter and refusals are proved.")
    prop('C05', [(r'^Columbus::(split|splitToWords|isInList|isWhitespace)\(', [])],
         base + "The list returned is the sequence of maximal separator-free runs, turned into words; exceptions exactly when some run is not a word; no read beyond the terminator.")
    prop('C06', [(r'^Columbus::WordList::', ['WordList']), (r'^Columbus::Document::', ['Document']), (r'^Columbus::Corpus::', ['Corpus'])],
         base + "The three classes are verified against sequence and map values with value semantics; what std::vector and std::map do is assumed.", lists.lemmas_lists())
    prop('C03', [(r'^Columbus::Word::(operator(==|!=|<)|hash)', W)],
         base + "Equality and order of the letters, hash as a function of the letters only; the order lemmas are proved over the same spec function.", lemmas_words())
    prop('C04', [(r'^Columbus::Word::(Word\(\)|Word\(Columbus|~Word|operator=\(Columbus|join|length)', W)],
         base + "Value, independence (ownership) and memory safety of copies, moves, joins and destruction.")
    EV = ['ErrorValues']
    prop('C11', [(r'^Columbus::ErrorValues::(ErrorValues|~ErrorValues|getSubstituteError|setError|clearErrors|setGroupError|isInGroup|get\w*Error\(|defaultError|substituteDefaultError)', EV)],
         base + "The substitute error is the specified function of the configuration (explicit pair, then shared group, then default), symmetric and zero on identity; every setter establishes exactly the configuration change specified.", errors.lemmas_sub())
    prop('C22', [(r'^Columbus::ErrorValues::(setGroupError|isInGroup)', EV)],
         base + "setGroupError: on the throwing exit the whole configuration is unchanged; on the normal exit exactly the group's letters are added.", errors.lemmas_sub())
    prop('C12', [(r'^Columbus::ErrorValues::(addKeyboardErrors|addNumberpadErrors)', []), (r'^Columbus::ErrorValues::setError', EV)],
         base + "The keyboard and number pad presets are proved to set exactly the neighbouring keys. The accent preset (addStandardErrors, addAccents: reads a data file) is outside the contracts: bounded stand-in by the harness, not counted as proved.")
    prop('C16', [(r'^Columbus::MatchResults::', ['MatchResults'])],
         base + "MatchResults is verified against a sequence value; what std::stable_sort/sort do is assumed.", results.lemmas_ranking())
    TR = [(r'^Columbus::Trie::(findWord|hasWord|get(Root|SiblingList|NextSibling|Letter|Child|WordID|Parent|SiblingTo)|hasSibling|numWords|numNodes)\(', ['Trie'])]
    GROW = [(r'^Columbus::Trie::(append|addNewNode)\(', ['TrieRaw']), (r'^Columbus::Trie::addNewSibling\(', ['Trie', 'TrieRaw'])]
    prop('C07', [(r'^Columbus::WordStore::', ['WordStore'])] + TR + GROW,
         base + "Every WordStore function is proved against the contract of Trie (a finite map from letter sequences to numbers that only grows). Trie's look-ups and accessors are proved against its memory (nodes and entries in the mapping), and so is that adding a branch (append, addNewNode, addNewSibling, and growing the mapping underneath) leaves the memory holding exactly the trie with that branch added, whatever fails; insertWord's own loop and the constructor are not proved but checked by the harness, bounded.", store.lemmas_store() + trie.lemmas_trie())
    LIX = ['LevenshteinIndex']
    prop('C08', [(r'^Columbus::LevenshteinIndex::(LevenshteinIndex|~LevenshteinIndex|insertWord|hasWord|wordCount|maxCount|numWords|numNodes|getDefaultError)\(', LIX)] + TR,
         base + "Counts, presence and the highest count after every insertion are proved against the contract of Trie (which words there are, how many, and that they stay). Trie's look-ups and accessors are proved against its memory; that inserting keeps the memory well formed is not proved but checked by the harness, bounded.")
    prop('C18', [(r'^col_', [])],
         base + "Each C function has exactly the cases of the C++ operation's contract, its failures turned into the neutral value; no exception leaves it. The contracts of the Matcher operations behind the handles are uninterpreted here.")
    EM = (r'^Columbus::ErrorMatrix::', ['ErrorMatrix'])
    look = [(r'^Columbus::LevenshteinIndex::(searchRecursive|findWords)\(', ['LevenshteinIndex', 'Word']), (r'^Columbus::IndexMatches::', ['IndexMatches']), EM] + TR
    lnote = "searchRecursive and findWords are proved against the recurrence of the weighted restricted edit error, over the contract of ErrorMatrix (a table of ints), which is proved too, and that of Trie (a tree of nodes and letters), whose accessors are proved against its memory; that inserting keeps that memory well formed is not proved but checked by the harness, bounded. Error sums are assumed to stay below 2^30; termination is not proved. "
    prop('C09', look, base + lnote + "Every record added is a word of the index with its exact error within the limit; every table access is inside the table.", search.lemmas_search() + search.lemmas_positions())
    prop('C10', look, base + lnote + "Every word within the limit is added exactly once, given-up branches hold none (lemmas), and the list is sorted by error.", search.lemmas_search() + search.lemmas_positions())
    acc = r'^Columbus::(%s)\('
    prop('C19', [(acc % r'Word::operator\[\]', W), (acc % r'WordList::operator\[\]', ['WordList']), (acc % 'Corpus::getDocument', ['Corpus']), (acc % 'WordStore::(getWord|hasWord)', ['WordStore']),
                 (acc % 'IndexMatches::(getMatch|getMatchError|getQuery|size)', ['IndexMatches']), (acc % 'MatchResults::(getDocumentID|getRelevancy|copyResult|size)', ['MatchResults']),
                 (acc % 'ResultFilter::(getField|getWord|numSubTerms|numTerms)', ['ResultFilter']), (acc % r'Document::getText', ['Document']), (acc % 'ErrorMatrix::set', ['ErrorMatrix'])],
         base + "Every accessor by position throws std::out_of_range exactly at the positions that do not exist and changes nothing then.")
    M = lambda x: (r'^Columbus::%s\(' % x, [])
    params = [(r'^Columbus::SearchParameters::', ['SearchParameters'])]
    filt = [(r'^Columbus::ResultFilter::', ['ResultFilter'])]
    matching = [M('Matcher::match'), M('Matcher::relevancyMatch'), M('matchIndexes'), M('addMatches'), M('gatherMatchedDocuments')]
    mnote = ("The searches are proved over the matcher's data (field indexes, reverse index, word store, weights, error settings) with two preconditions: every index is an object of its own whose words carry the "
             "store's numbers, and costs are not negative. That indexing establishes this from the documents is not proved but checked by the harness, bounded, like the contract of Trie underneath. "
             "Doubles are treated as reals. ")
    prop('C13', matching + [M('ReverseIndex::findDocuments'), (r'^Columbus::LevenshteinIndex::findWords\(', ['LevenshteinIndex', 'Word']), (r'^Columbus::IndexMatches::', ['IndexMatches'])] + params,
         base + mnote + "match returns exactly the documents that a searchable field's word within the limit leads to and the filter keeps, each once.", matcher.lemmas_counts() + search.lemmas_search() + search.lemmas_positions())
    prop('C14', [M('Matcher::match'), M('subtermsMatch'), M('ReverseIndex::documentHasTerm')] + filt + params,
         base + mnote + "subtermsMatch is the conjunction of an alternative's conditions; match keeps a document found iff some alternative's conditions hold, with the relevancy it had.", matcher.lemmas_counts())
    prop('C15', [M('calculateRelevancy'), M('gatherMatchedDocuments'), M('addMatches'), M('matchIndexes'), M('Matcher::relevancyMatch'), M('Matcher::match'), M('ReverseIndex::findDocuments'),
                 (r'^Columbus::IndexWeights::', ['IndexWeights']), (r'^Columbus::LevenshteinIndex::(wordCount|maxCount)\(', LIX)],
         base + mnote + "calculateRelevancy is the stated formula; the relevancy of each document is the sum of it over the collected pairs of field and word, of which there is one for each word within the limit with its smallest error.", matcher.lemmas_counts())
    prop('C17', [M('Matcher::onlineMatch'), M('countExacts'), M('ReverseIndex::findDocuments'), (r'^Columbus::MatchResults::(addResult|getDocumentID|getRelevancy|size)\(', ['MatchResults'])],
         base + mnote + "countExacts counts the query words the field contains; onlineMatch merges them with the ordinary results, each document once, with the stated score, and refuses field names the matcher does not know.", matcher.lemmas_counts())
    prop('C20', matching + [M('Matcher::onlineMatch'), M('countExacts'), M('subtermsMatch'), M('calculateRelevancy'), M('ReverseIndex::(findDocuments|documentHasTerm)'),
                            (r'^Columbus::LevenshteinIndex::(findWords|searchRecursive)\(', ['LevenshteinIndex', 'Word']), (r'^Columbus::WordStore::(hasWord|getWord|getID)', ['WordStore']), (r'^Columbus::LevenshteinIndex::(wordCount|maxCount|hasWord)\(', LIX)],
         base + mnote + "The frame of every function a search runs: nothing but the results is written, the word store has its old value, and the remembered sizes read as before (missing ones as zero).",
         kinds=('frame',), names=r'new value of (?!MatchResults|IndexMatches)|sizes stay|is unchanged')
    own = lambda cls: r'^Columbus::%s::(%s|~%s|operator=)\(' % (cls, cls, cls)
    prop('C21', [(own(c), [c]) for c in ('Word', 'WordList', 'Document', 'Corpus', 'MatchResults', 'IndexMatches', 'IndexWeights', 'ResultFilter', 'SearchParameters', 'MatcherStatistics', 'WordStore', 'LevenshteinIndex', 'ErrorValues', 'ErrorMatrix')] +
         [(r'^Columbus::Trie::~Trie', ['Trie'])] + GROW +
         [(r'^Columbus::Word::(toUtf8|asUtf8|join)', W), (r'^Columbus::WordStore::get', ['WordStore']), (r'^Columbus::LevenshteinIndex::insertWord', LIX),
          (r'^Columbus::(utf8ToInternal|internalToUtf8|split|splitToWords)\(', []), (r'^col_', [])],
         base + "At every exit, normal or by an exception, of the listed functions everything acquired is owned by the result or released, each thing once and by the matching operation. Trie's destructor and everything that grows it (file and mapping) are proved; its constructor and Matcher are not under contract here: bounded stand-in by the harness, not counted as proved.", kinds=('leak', 'release'))


def functions(lib, prop):
    """[(contract name, representations visible in its body)]"""
    out = []
    for c in sorted(lib.contracts):
        for rx, reps in PROPS[prop]['fns']:
            if re.search(rx, c):
                out.append((c, reps))
                break
    return out


COST = [(r'searchRecursive', 90), (r'setGroupError', 60), (r'clearErrors|Keyboard|Numberpad', 40), (r'::ErrorValues\(\)', 14), (r'::split\(', 100), (r'operator=\(char', 10), (r'Word\(LetterT', 10), (r'toUtf8|Internal', 5)]


def cost(c):
    return max([v for r, v in COST if re.search(r, c)] or [1])
