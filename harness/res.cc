// C18 (C interface) and C21 (resources)
#include "oracle.hh"
#include "columbus.h"
#include <sanitizer/allocator_interface.h>
#include <sys/resource.h>
#include <unistd.h>
#include <dirent.h>
#include <signal.h>
#include <fcntl.h>
using std::string; using std::vector; using std::unique_ptr;

static size_t fds() { size_t n = 0; DIR *d = opendir("/proc/self/fd"); if(!d) return 0; while(readdir(d)) n++; closedir(d); return n; }
static size_t maps() { FILE *f = fopen("/proc/self/maps", "r"); size_t n = 0; char b[4096]; if(!f) return 0; while(fgets(b, sizeof b, f)) if(strstr(b, "deleted") || strstr(b, "tmp")) n++; fclose(f); return n; }
static void corpusInto(Rng &r, Corpus &c, int n, vector<string> &words) {
    for(int i = 0; i < n; i++) { Document d(i + 1); for(int f = r.range(0, 3); f > 0; f--) { string t; for(int k = r.range(0, 8); k > 0; k--) { string w; for(int z = r.range(1, r.chance(5) ? 60 : 6); z > 0; z--) w += (char)r.range('a', 'd'); words.push_back(w); t += w + " "; } string fn = "f"; fn += (char)('0' + f); d.addText(Word(fn), t); } c.addDocument(d); }
}
static void dataDir(const char *d) { static char b[2][200]; static int k = 0; k ^= 1; snprintf(b[k], 200, "COLUMBUS_DATADIR=%s", d); putenv(b[k]); }
static void scenario(Rng &r, int k) {
    switch(k) {
    case 0: { L16 w; for(int i = r.range(1, 30); i > 0; i--) w.push_back('a'); Word a(mk(w)), b(a), c(std::move(b)), d; d = a; d = std::move(c); d = "text"; d = string("more text").substr(5); b = a.join(d); a.asUtf8(); a = a; break; }
    case 1: { static const char *bad[] = {"\xff", "a b", "ok\xed\xa0\x80", "x\ty", "\xc3", "long enough text to be allocated \xf5"}; const char *s = bad[r.below(6)]; try { Word w(s); fail("bad text accepted"); } catch(std::exception &) {} try { Word w{string(s)}; fail("bad text accepted"); } catch(std::exception &) {} Word t(W("abc")); try { t = s; fail("bad text accepted"); } catch(std::exception &) {} try { t = string(s); fail("bad text accepted"); } catch(std::exception &) {} static const L16 lb[] = {{'a', ' '}, {0xd800}, {0xdc00, 'a'}, {'a', 0xdbff}, {'a', 0, 'b'}, {9}}; const L16 &l = lb[r.below(6)]; try { mk(l); fail("bad letters accepted"); } catch(std::exception &) {} break; }
    case 2: { Word w(W("some\xc3\xa4word")); char b[4]; try { w.toUtf8(b, 4); fail("overlong text converted"); } catch(std::exception &) {} try { w.toUtf8(b, 0); fail("converted into nothing"); } catch(std::exception &) {} try { w[100]; fail("read out of range"); } catch(std::exception &) {} Word e; w.join(e); e.join(w); e.join(e); break; }
    case 3: { static const char *t[] = {"a b c", "", "   ", "aa bb \xff cc", "x \xed\xa0\x80", "one two three four five sixsixsix a b"}; try { WordList l = splitToWords(t[r.below(6)]); WordList m(l), n(std::move(l)); n = m; m = std::move(n); m = m; } catch(std::exception &) {} break; }
    case 4: { Corpus c; vector<string> ws; corpusInto(r, c, r.range(0, 5), ws); Document d(7); d.addText(W("f"), "a b c"); d.addText(W("f"), "d"); Document e(d); e = d; d = d; try { d.addText(W("g"), "a \xff"); fail("bad text accepted"); } catch(std::exception &) {} try { d.getText(W("none")); fail("missing field read"); } catch(std::exception &) {} c.addDocument(e); try { c.getDocument(1000); fail("read out of range"); } catch(std::exception &) {} break; }
    case 5: { MatchResults a; for(int i = r.range(0, 40); i > 0; i--) a.addResult(i, i % 7); MatchResults b(a), c(std::move(b)), d; d = c; d = std::move(c); d = d; d.addResults(a); if(a.size()) { d.copyResult(a, 0); a.getDocumentID(0); } try { a.getRelevancy(9999); fail("read out of range"); } catch(std::exception &) {} try { d.copyResult(a, 9999); fail("copied out of range"); } catch(std::exception &) {} break; }
    case 6: { WordStore s; for(int i = r.range(0, 200); i > 0; i--) { string w; for(int z = r.range(1, 9); z > 0; z--) w += (char)r.range('a', 'z'); s.getID(Word(w)); } try { s.getWord(100000); fail("read out of range"); } catch(std::exception &) {} try { s.getID(Word()); fail("empty word numbered"); } catch(std::exception &) {} break; }
    case 7: { LevenshteinIndex ix; ErrorValues e; for(int i = 0, n = r.range(0, 40); i < n; i++) { string w; for(int z = 0; z < 3; z++) w += (char)('a' + (i >> (2 * z)) % 4); ix.insertWord(Word(w), (i & 63) + 1000 * (i >> 6)); } IndexMatches m; ix.findWords(W("abc"), e, r.range(0, 300), m); ix.findWords(Word(), e, 100, m); m.clear(); ix.findWords(W("a-very-long-query-word-indeed"), e, 100, m); try { m.getMatch(99999); fail("read out of range"); } catch(std::exception &) {} break; }
    case 8: { ErrorValues e; e.setError('a', 'b', 3); e.setGroupError(W("abc"), 4); try { e.setGroupError(W("xyzc"), 5); fail("overlapping group accepted"); } catch(std::exception &) {} e.addKeyboardErrors(); e.addNumberpadErrors(); dataDir("/nonexistent"); try { e.addAccents(latinAccentGroup); fail("missing data file accepted"); } catch(std::exception &) {} char d[] = "/tmp/vhXXXXXX"; if(!mkdtemp(d)) fail("scratch"); dataDir(d); string f = string(d) + "/latinAccentedLetterGroups.txt"; FILE *o = fopen(f.c_str(), "w"); fputs(r.chance(50) ? "de\nfg\n\n" : "de\nxe\n", o); fclose(o); e.clearErrors(); try { e.addAccents(latinAccentGroup); } catch(std::exception &) {} unlink(f.c_str()); rmdir(d); unsetenv("COLUMBUS_DATADIR"); break; }
    case 9: { IndexWeights w; w.setWeight(W("a"), 2); w.setWeight(W("a"), 3); w.getWeight(W("q")); SearchParameters sp; sp.addNonsearchingField(W("x")); sp.addNonsearchingField(W("x")); ResultFilter f; f.addNewTerm(); f.addNewSubTerm(W("a"), W("b")); try { f.getField(7, 7); fail("read out of range"); } catch(std::exception &) {} break; }
    case 10: case 11: { Matcher m; vector<string> ws; int rounds = r.range(0, 3); for(int i = 0; i < rounds; i++) { Corpus c; corpusInto(r, c, r.range(0, 6), ws); m.index(c); } ws.push_back("aab"); m.match(r.pick(ws)); m.match((r.pick(ws) + " " + r.pick(ws)).c_str()); SearchParameters sp; sp.addNonsearchingField(W("f1")); sp.getResultFilter().addNewSubTerm(W("f2"), Word(r.pick(ws))); m.match(r.pick(ws).c_str(), sp); try { m.match("ok \xff"); fail("bad query accepted"); } catch(std::exception &) {} try { m.onlineMatch(splitToWords("a b"), W("f1")); } catch(std::exception &) {} try { m.onlineMatch(splitToWords("a b"), W("never-indexed")); fail("unknown field accepted"); } catch(std::exception &) {} Corpus bad; Document d(3); WordList l; l.addWord(W("a")); l.addWord(Word()); d.addText(W("f1"), l); bad.addDocument(d); try { m.index(bad); } catch(std::exception &) {} m.match("a"); break; }
    case 12: { // storage cannot grow
        struct rlimit old, nw; getrlimit(RLIMIT_FSIZE, &old); void (*h)(int) = signal(SIGXFSZ, SIG_IGN);
        { WordStore s; vector<string> in; bool failed = false; nw = old; nw.rlim_cur = r.chance(50) ? 4096 : 1 << r.range(10, 14); setrlimit(RLIMIT_FSIZE, &nw);
          for(int i = 0; i < 400 && !failed; i++) { string w; for(int z = 0; z < 6; z++) w += (char)r.range('a', 'z'); try { s.getID(Word(w)); in.push_back(w); } catch(std::runtime_error &) { failed = true; } }
          setrlimit(RLIMIT_FSIZE, &old); for(auto &w : in) CHECK(s.hasWord(Word(w)), "word lost when storage could not grow"); }
        nw = old; nw.rlim_cur = 100; setrlimit(RLIMIT_FSIZE, &nw);
        try { WordStore s; setrlimit(RLIMIT_FSIZE, &old); fail("store made without storage"); } catch(std::runtime_error &) {}
        try { LevenshteinIndex s; setrlimit(RLIMIT_FSIZE, &old); fail("index made without storage"); } catch(std::runtime_error &) {}
        try { Matcher s; setrlimit(RLIMIT_FSIZE, &old); fail("matcher made without storage"); } catch(std::runtime_error &) {}
        setrlimit(RLIMIT_FSIZE, &old); signal(SIGXFSZ, h); break; }
    case 13: { // no file can be opened
        struct rlimit old, nw; getrlimit(RLIMIT_NOFILE, &old); nw = old; nw.rlim_cur = 0; setrlimit(RLIMIT_NOFILE, &nw); bool t = false;
        try { WordStore s; } catch(std::runtime_error &) { t = true; } try { Matcher s; t = false; } catch(std::runtime_error &) {}
        setrlimit(RLIMIT_NOFILE, &old); CHECK(t, "store made without a file"); break; }
    }
}
void caseC21(Rng &r) {
    static bool warm = false;
    if(!warm) { for(int k = 0; k < 14; k++) { Rng q(5 + k); scenario(q, k); } warm = true; }
    int k = (int)r.below(14); Rng a = r; note("scenario %d", k);
    { Rng b = a; scenario(b, k); }
    // a second identical run must take nothing more than it gives back
    size_t h = __sanitizer_get_current_allocated_bytes(), f = fds(), mp = maps();
    for(int i = 0; i < 3; i++) { Rng b = a; scenario(b, k); }
    size_t h2 = __sanitizer_get_current_allocated_bytes(), f2 = fds(), m2 = maps();
    CHECK(f2 == f, "scenario %d keeps %zd file handles", k, (ssize_t)(f2 - f));
    CHECK(m2 == mp, "scenario %d keeps %zd mappings", k, (ssize_t)(m2 - mp));
    CHECK(h2 <= h, "scenario %d keeps %zd bytes of memory", k, (ssize_t)(h2 - h));
    nontrivial++;
}

struct Quiet { int keep; Quiet() { fflush(stderr); keep = dup(2); int n = open("/dev/null", O_WRONLY); dup2(n, 2); close(n); } ~Quiet() { fflush(stderr); dup2(keep, 2); close(keep); } };
static string rtext(Rng &r, bool words) {
    static const char *p[] = {"foo", "bar", "Foo", "baz", "\xc3\xa4\xc3\xb6", "a", "b", "foobar", "fo", "\xf0\x9f\x98\x80", "x1", "bart"};
    string s; for(int n = words ? r.range(0, 5) : 1; n > 0; n--) { s += p[r.below(12)]; if(words && n > 1) s += r.chance(90) ? " " : "\t\n"; }
    if(r.chance(8)) s += "\xff"; if(!words && r.chance(8)) s += " z"; return s;
}
void caseC18(Rng &r) {
    Quiet quiet; string *none = nullptr; (void)none;
    struct DW { ColWord c; unique_ptr<Word> x; }; vector<DW> ws; struct DD { ColDocument c; unique_ptr<Document> x; }; vector<DD> ds;
    ColCorpus cc = col_corpus_new(); Corpus xc; Corpus *inside = reinterpret_cast<Corpus*>(cc); ColMatcher cm = col_matcher_new(); Matcher xm; Matcher *insideM = reinterpret_cast<Matcher*>(cm);
    CHECK(cc && cm, "constructors gave a null handle");
    ColErrorValues ce = col_matcher_get_error_values(cm); ColIndexWeights cw = col_matcher_get_index_weights(cm);
    CHECK((void*)ce == (void*)&insideM->getErrorValues() && (void*)cw == (void*)&insideM->getIndexWeights(), "handle of another object");
    int ops = r.range(5, 40);
    try { for(int o = 0; o < ops; o++) {
        int k = r.range(0, 13); size_t wi = r.below(ws.size()), di = r.below(ds.size());
        if(k <= 1) {
            string s = rtext(r, false); note("word %s", esc(s).c_str()); Word *x = nullptr; try { x = new Word(s.c_str()); } catch(std::exception &) {}
            ColWord c = col_word_new(s.c_str()); CHECK((c != nullptr) == (x != nullptr), "col_word_new(%s) is %s", esc(s).c_str(), c ? "not null" : "null");
            if(!c) continue;
            ws.push_back({c, unique_ptr<Word>(x)}); CHECK(lettersOf(*reinterpret_cast<Word*>(c)) == lettersOf(*x) && col_word_length(c) == x->length(), "word differs");
        } else if(k == 2 && !ws.empty()) {
            unsigned n = (unsigned)r.range(0, 14); note("word as utf8 in %u bytes", n); char a[24], b[24]; memset(a, 0x5a, 24); memset(b, 0x5a, 24); bool t = false;
            try { ws[wi].x->toUtf8(b + 4, n); } catch(std::exception &) { t = true; }
            col_word_as_utf8(ws[wi].c, a + 4, n);
            CHECK(!memcmp(a, b, 24) , "col_word_as_utf8 writes something else"); (void)t;
        } else if(k == 3) { DocumentID id = r.chance(50) ? r.below(50) : r.next(); note("document %lu", (unsigned long)id); ds.push_back({col_document_new(id), unique_ptr<Document>(new Document(id))}); CHECK(ds.back().c, "null document"); CHECK(col_document_get_id(ds.back().c) == id, "id differs"); }
        else if(k <= 5 && !ds.empty() && !ws.empty()) {
            string t = rtext(r, true); note("document %zu addText %s", di, esc(t).c_str()); bool thr = false; try { ds[di].x->addText(*ws[wi].x, t.c_str()); } catch(std::exception &) { thr = true; }
            col_document_add_text(ds[di].c, ws[wi].c, t.c_str()); (void)thr;
            Document *d = reinterpret_cast<Document*>(ds[di].c); CHECK(d->fieldCount() == ds[di].x->fieldCount(), "field count differs"); WordList l; ds[di].x->getFieldNames(l); for(size_t i = 0; i < l.size(); i++) CHECK(d->getText(l[i]) == ds[di].x->getText(l[i]), "text differs");
        } else if(k == 6 && !ds.empty()) { note("corpus add %zu", di); col_corpus_add_document(cc, ds[di].c); xc.addDocument(*ds[di].x); CHECK(inside->size() == xc.size() && inside->getDocument(xc.size() - 1).getID() == ds[di].x->getID(), "corpus differs"); }
        else if(k == 7) { note("index"); bool t = false; try { xm.index(xc); } catch(std::exception &) { t = true; } col_matcher_index(cm, cc); (void)t; }
        else if(k == 8 && !ws.empty()) { double v = r.range(-3, 9) * 0.5; note("weight %zu %g", wi, v); CHECK(col_index_weights_get_weight(cw, ws[wi].c) == xm.getIndexWeights().getWeight(*ws[wi].x), "weight differs"); col_index_weights_set_weight(cw, ws[wi].c, v); xm.getIndexWeights().setWeight(*ws[wi].x, v); CHECK(col_index_weights_get_weight(cw, ws[wi].c) == v, "weight not set"); }
        else if(k == 9) { note("substring mode"); col_error_values_set_substring_mode(ce); xm.getErrorValues().setSubstringMode(); }
        else if(k == 10 && r.chance(30)) { static const char *dirs[] = {"/nonexistent"}; const char *share = getenv("VERIF_SHARE"); setenv("COLUMBUS_DATADIR", r.chance(60) && share ? share : dirs[0], 1); note("standard errors from %s", getenv("COLUMBUS_DATADIR")); bool t = false; try { xm.getErrorValues().addStandardErrors(); } catch(std::exception &) { t = true; } (void)t; col_error_values_add_standard_errors(ce); unsetenv("COLUMBUS_DATADIR"); for(int a : {(int)'a', (int)'q', (int)'1', 0xe4, 0xe5, 0x3b1, 0x3ac, 0x101}) for(int b : {(int)'s', (int)'w', (int)'a', (int)'2', 0x3ac, 0xe4, 0x3b1, 0x101}) CHECK(insideM->getErrorValues().getSubstituteError(Letter((uint16_t)a), Letter((uint16_t)b)) == xm.getErrorValues().getSubstituteError(Letter((uint16_t)a), Letter((uint16_t)b)), "error values differ for %x %x", a, b); }
        else {
            string q = rtext(r, true); note("match %s", esc(q).c_str()); MatchResults x; bool t = false; try { x = xm.match(q.c_str()); } catch(std::exception &) { t = true; }
            ColMatchResults c = col_matcher_match(cm, q.c_str()); CHECK((c == nullptr) == t, "col_matcher_match(%s) is %s", esc(q).c_str(), c ? "not null" : "null"); if(!c) continue;
            size_t n = x.size(); CHECK(col_match_results_size(c) == n, "number of results is %zu, expected %zu", col_match_results_size(c), n); nontrivial += n > 0;
            for(size_t i = 0; i < n; i++) { CHECK(col_match_results_get_id(c, i) == x.getDocumentID(i), "id at %zu differs", i); CHECK(col_match_results_get_relevancy(c, i) == x.getRelevancy(i), "relevancy at %zu is %g, expected %g", i, col_match_results_get_relevancy(c, i), x.getRelevancy(i)); }
            for(size_t i : {n, n + 1, (size_t)-1}) { CHECK(col_match_results_get_id(c, i) == INVALID_DOCID, "id at position %zu is not the invalid one", i); CHECK(col_match_results_get_relevancy(c, i) == -1.0, "relevancy at position %zu is not -1", i); }
            CHECK(col_match_results_size(c) == n, "size changed"); col_match_results_delete(c);
        }
    } } catch(std::exception &e) { fail("an exception left the C interface: %s", e.what()); }
    ColMatchResults e = col_match_results_new(); CHECK(e && col_match_results_size(e) == 0 && col_match_results_get_id(e, 0) == INVALID_DOCID && col_match_results_get_relevancy(e, 0) == -1.0, "fresh results wrong"); col_match_results_delete(e);
    ErrorValues &a = insideM->getErrorValues(), &b = xm.getErrorValues(); CHECK(a.getEndDeletionError() == b.getEndDeletionError() && a.getInsertionError() == b.getInsertionError() && a.getTransposeError() == b.getTransposeError(), "error settings differ"); for(size_t n : {0, 2, 3, 9}) CHECK(a.getStartInsertionError(n) == b.getStartInsertionError(n), "start insertion error differs");
    // what was put in by copy survives the handles
    for(auto &w : ws) { CHECK(lettersOf(*reinterpret_cast<Word*>(w.c)) == lettersOf(*w.x), "word changed"); col_word_delete(w.c); }
    for(auto &d : ds) col_document_delete(d.c);
    for(size_t i = 0; i < xc.size(); i++) CHECK(inside->getDocument(i).getID() == xc.getDocument(i).getID() && inside->getDocument(i).fieldCount() == xc.getDocument(i).fieldCount(), "corpus changed");
    col_corpus_delete(cc);
    ColMatchResults f = col_matcher_match(cm, "foo"); MatchResults g = xm.match("foo"); CHECK(f && col_match_results_size(f) == g.size(), "matcher depends on deleted objects"); col_match_results_delete(f);
    col_matcher_delete(cm);
}
#define D(n) void case##n(Rng &);
D(C01) D(C02) D(C03) D(C04) D(C05) D(C06) D(C07) D(C08) D(C09) D(C10) D(C11) D(C12) D(C13) D(C14) D(C15) D(C16) D(C17) D(C19) D(C20) D(C22)
#define P(n, q, t, r) {#n, case##n, q, t, r},
Prop props[] = {
    P(C01, 120000, 1440000, "random texts (valid, with whitespace, malformed) and letter arrays, constructed and assigned, against an independent decoder")
    P(C02, 40000, 480000, "random texts converted and converted back into buffers of every size around the need")
    P(C03, 60000, 720000, "families of related words compared pairwise with vector order")
    P(C04, 60000, 720000, "random histories of copies, moves, joins, assignments and deletions of words")
    P(C05, 200000, 2400000, "random texts and separator sets against a reference splitter")
    P(C06, 60000, 720000, "random histories of lists, documents and corpora against a value model")
    P(C07, 12000, 144000, "random histories of a word store against a map")
    P(C08, 20000, 240000, "random insertion histories of an index against counts")
    P(C09, 40000, 480000, "random dictionaries, error configurations, queries and limits against the full edit-distance table")
    P(C10, 40000, 480000, "random dictionaries, error configurations, queries and limits against brute force")
    P(C11, 16000, 192000, "random histories of pair and group settings against the precedence rule")
    P(C12, 2400, 28800, "presets and random accent data files against tables written from the documented layouts")
    P(C13, 20000, 240000, "random matchers, parameters and queries against a reference search")
    P(C14, 20000, 240000, "random filters against a reference evaluation")
    P(C15, 20000, 240000, "random matchers and weights against the relevancy formula")
    P(C16, 160000, 1920000, "random histories of result sets against stable descending order")
    P(C17, 20000, 240000, "random online matches against the reference score")
    P(C18, 24000, 288000, "random histories through the C interface beside the same calls in C++")
    P(C19, 3000, 36000, "every accessor at positions around the size and at word-size boundaries")
    P(C20, 20000, 240000, "random searches repeated and compared, with the settings read back")
    P(C21, 12000, 144000, "scenarios with successes, refusals and injected resource failures, measuring heap, mappings and handles")
    P(C22, 20000, 240000, "random group settings, some overlapping, against a model")
    {nullptr, nullptr, 0, 0, nullptr}};
