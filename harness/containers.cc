#include "common.hh"
using std::string; using std::unique_ptr; using std::vector; using std::map;
typedef vector<L16> MList;
static L16 lw(Rng &r) { static const char *p[] = {"a","b","ab","ba","abc","foo","bar","foobar","x","\xc3\xa4","\xc3\xa4\xc3\xb6","\xf0\x9f\x98\x80","zz","zzz","title","name"}; L16 w; get16(p[r.below(16)], w); if(r.chance(10)) for(int i = r.range(0, 40); i > 0; i--) w.push_back('a' + (uint16_t)r.below(3)); return w; }
static void sameList(const WordList &l, const MList &m, const char *what) {
    CHECK(l.size() == m.size(), "%s: size %zu, expected %zu", what, l.size(), m.size());
    for(size_t i = 0; i < m.size(); i++) CHECK(lettersOf(l[i]) == m[i], "%s: word %zu is %s, expected %s", what, i, show(l[i]).c_str(), show(m[i]).c_str());
}
template<class F> static bool oor(F f) { try { f(); } catch(std::out_of_range &) { return true; } catch(std::exception &e) { fail("wrong kind of exception: %s", e.what()); } return false; }

struct MDoc { DocumentID id; map<L16, MList> t; };
static void sameDoc(const Document &d, const MDoc &m, Rng &r, const char *what) {
    CHECK(d.getID() == m.id, "%s: id", what);
    CHECK(d.fieldCount() == m.t.size(), "%s: field count %zu, expected %zu", what, d.fieldCount(), m.t.size());
    WordList names; d.getFieldNames(names);
    std::set<L16> seen; CHECK(names.size() == m.t.size(), "%s: number of field names", what);
    for(size_t i = 0; i < names.size(); i++) { L16 n = lettersOf(names[i]); CHECK(m.t.count(n) && seen.insert(n).second, "%s: field name %s wrong or repeated", what, show(n).c_str()); }
    for(auto &e : m.t) sameList(d.getText(mk(e.first)), e.second, what);
    L16 q = lw(r);
    size_t total = 0; for(auto &e : m.t) { size_t c = std::count(e.second.begin(), e.second.end(), q); total += c; CHECK(d.wordCount(mk(q), mk(e.first)) == c, "%s: wordCount of %s in %s is %zu, expected %zu", what, show(q).c_str(), show(e.first).c_str(), d.wordCount(mk(q), mk(e.first)), c); }
    CHECK(d.totalWordCount(mk(q)) == total, "%s: totalWordCount of %s is %zu, expected %zu", what, show(q).c_str(), d.totalWordCount(mk(q)), total);
    L16 f = lw(r);
    if(!m.t.count(f)) {
        bool t = false; try { d.getText(mk(f)); } catch(std::exception &) { t = true; }
        CHECK(t, "%s: text of missing field returned", what);
        CHECK(d.wordCount(mk(q), mk(f)) == 0, "%s: words counted in a missing field", what);
        CHECK(d.fieldCount() == m.t.size(), "%s: asking created a field", what);
    }
}
void caseC06(Rng &r) {
    vector<unique_ptr<WordList>> ls; vector<MList> lm;
    vector<unique_ptr<Document>> ds; vector<MDoc> dm;
    Corpus c; vector<MDoc> cm;
    ls.emplace_back(new WordList()); lm.emplace_back();
    int ops = r.range(8, 60);
    for(int o = 0; o < ops; o++) {
        size_t i = r.below(ls.size()), j = r.below(ls.size()), di = r.below(ds.size()), dj = r.below(ds.size());
        int k = r.range(0, 15);
        if(k <= 4) { L16 w = r.chance(3) ? L16() : lw(r); note("list %zu add %s", i, show(w).c_str()); Word x(mk(w)); ls[i]->addWord(x); x = W("changed"); lm[i].push_back(w); }
        else if(k == 5) { note("list copy %zu", i); ls.emplace_back(new WordList(*ls[i])); lm.push_back(MList(lm[i])); }
        else if(k == 6) { note("list assign %zu = %zu", i, j); *ls[i] = *ls[j]; lm[i] = MList(lm[j]); }
        else if(k == 7) { note("list move %zu via temporary", i); WordList t(*ls[i]); WordList u(std::move(t)); sameList(u, lm[i], "moved list"); WordList v; v = std::move(u); sameList(v, lm[i], "move-assigned list"); *ls[j] = std::move(v); lm[j] = MList(lm[i]); }
        else if(k == 8) { CHECK((*ls[i] == *ls[j]) == (lm[i] == lm[j]) && (*ls[i] != *ls[j]) == (lm[i] != lm[j]), "list comparison wrong"); }
        else if(k == 9) { DocumentID id = r.chance(30) ? r.next() : r.below(100); note("new document %lu", (unsigned long)id); ds.emplace_back(new Document(id)); dm.push_back(MDoc{id, {}}); }
        else if(k == 10 && !ds.empty()) {
            L16 f = lw(r), w; int mode = r.range(0, 2); MList words; string txt;
            for(int n = r.range(0, 7); n > 0; n--) { L16 x = lower(lw(r)); words.push_back(x); txt += to8(x); txt += r.chance(80) ? " " : " \t\n"; }
            note("document %zu addText mode %d field %s text %s", di, mode, show(f).c_str(), esc(txt).c_str());
            Word fw(mk(f));
            if(mode == 0) { WordList l; for(auto &x : words) l.addWord(mk(x)); ds[di]->addText(fw, l); l.addWord(W("later")); }
            else if(mode == 1) ds[di]->addText(fw, txt.c_str());
            else ds[di]->addText(fw, txt);
            fw = W("changed");
            dm[di].t[f] = words;
        } else if(k == 11 && !ds.empty()) { note("document copy %zu", di); ds.emplace_back(new Document(*ds[di])); dm.push_back(MDoc(dm[di])); }
        else if(k == 12 && !ds.empty()) { note("document assign %zu = %zu", di, dj); *ds[di] = *ds[dj]; dm[di] = MDoc(dm[dj]); }
        else if(k == 13 && !ds.empty()) { note("corpus add %zu", di); c.addDocument(*ds[di]); cm.push_back(dm[di]); }
        else if(k == 14 && ds.size() > 3) { note("document delete %zu", di); ds.erase(ds.begin() + di); dm.erase(dm.begin() + di); }
        else if(k == 15 && !ds.empty()) { note("document %zu invalid text", di); L16 f = lw(r); bool t = false; try { ds[di]->addText(mk(f), r.chance(50) ? "ok \xff bad" : "a\xed\xa0\x80"); } catch(std::exception &) { t = true; } CHECK(t, "invalid text accepted"); }
        if(ls.size() > 6) { ls.erase(ls.begin()); lm.erase(lm.begin()); }
        if(o % 7 == 6 || o == ops - 1) {
            for(size_t q = 0; q < ls.size(); q++) sameList(*ls[q], lm[q], "list");
            for(size_t q = 0; q < ds.size(); q++) sameDoc(*ds[q], dm[q], r, "document");
            CHECK(c.size() == cm.size(), "corpus size");
            for(size_t q = 0; q < cm.size(); q++) sameDoc(c.getDocument(q), cm[q], r, "document in corpus");
        }
    }
    nontrivial += cm.size() > 1;
}
typedef vector<std::pair<double, DocumentID>> MRes;
static MRes ranked(MRes m) { std::stable_sort(m.begin(), m.end(), [](const std::pair<double, DocumentID> &a, const std::pair<double, DocumentID> &b) { return a.first > b.first; }); return m; }
static void sameRes(const MatchResults &x, const MRes &m, Rng &r) {
    CHECK(x.size() == m.size(), "size is %zu, expected %zu", x.size(), m.size());
    MRes s = ranked(m);
    bool relFirst = r.chance(50);
    for(size_t i = 0; i < s.size(); i++) {
        if(relFirst) CHECK(x.getRelevancy(i) == s[i].first, "relevancy at %zu is %g, expected %g", i, x.getRelevancy(i), s[i].first);
        CHECK(x.getDocumentID(i) == s[i].second, "id at %zu is %lu, expected %lu", i, (unsigned long)x.getDocumentID(i), (unsigned long)s[i].second);
        CHECK(x.getRelevancy(i) == s[i].first, "relevancy at %zu is %g, expected %g", i, x.getRelevancy(i), s[i].first);
    }
    CHECK(x.size() == m.size(), "reading changed the size");
}
void caseC16(Rng &r) {
    vector<unique_ptr<MatchResults>> xs; vector<MRes> ms;
    xs.emplace_back(new MatchResults()); ms.emplace_back(); xs.emplace_back(new MatchResults()); ms.emplace_back();
    int ops = r.range(5, 60), levels = r.range(1, 12);
    unsigned long nextId = 1;
    for(int o = 0; o < ops; o++) {
        size_t i = r.below(xs.size()), j = r.below(xs.size());
        int k = r.range(0, 9);
        if(k <= 3) { int n = r.chance(12) ? r.range(10, 130) : r.range(1, 3); while(n--) { double v = r.chance(10) ? (double)r.next() / 1e9 - 5e9 : (r.range(0, levels) - 2) * 0.25; DocumentID id = r.chance(90) ? nextId++ : r.next(); note("set %zu add %lu %g", i, (unsigned long)id, v); xs[i]->addResult(id, v); ms[i].push_back({v, id}); } }
        else if(k == 4) { if(i == j) continue; note("set %zu addResults %zu", i, j); xs[i]->addResults(*xs[j]); MRes t = ms[j]; ms[i].insert(ms[i].end(), t.begin(), t.end()); }
        else if(k == 5) { if(ms[j].empty()) { bool t = false; try { xs[i]->copyResult(*xs[j], 0); } catch(std::out_of_range &) { t = true; } CHECK(t, "copied from an empty set"); continue; } size_t q = r.below(ms[j].size()); note("set %zu copyResult(%zu, %zu)", i, j, q); std::pair<double, DocumentID> e = ranked(ms[j])[q]; if(i == j) { continue; } xs[i]->copyResult(*xs[j], q); ms[i].push_back(e); }
        else if(k == 6) { note("copy %zu", i); xs.emplace_back(new MatchResults(*xs[i])); ms.push_back(MRes(ms[i])); }
        else if(k == 7) { note("assign %zu = %zu", i, j); *xs[i] = *xs[j]; ms[i] = MRes(ms[j]); }
        else if(k == 8) { note("move %zu into a new set", i); MatchResults t(*xs[i]); xs.emplace_back(new MatchResults(std::move(t))); ms.push_back(MRes(ms[i])); }
        else { note("move-assign %zu from a copy of %zu", i, j); MatchResults t(*xs[j]); *xs[i] = std::move(t); ms[i] = MRes(ms[j]); }
        if(r.chance(25)) { size_t q = r.below(xs.size()); note("read %zu", q); sameRes(*xs[q], ms[q], r); }
        if(xs.size() > 5) { xs.erase(xs.begin()); ms.erase(ms.begin()); }
    }
    for(size_t q = 0; q < xs.size(); q++) { sameRes(*xs[q], ms[q], r); nontrivial += ms[q].size() > 1; }
}
void caseC19(Rng &r) {
    nontrivial++;
    static const size_t far[] = {0, 1, 2, 7, 31, 255, 256, 65535, 65536, 0x7fffffffu, 0x80000000u, 0xfffffffeu, 0xffffffffu, 0x100000000ull, 0x100000001ull, (size_t)-1, (size_t)-2, (size_t)1 << 63};
    auto positions = [&](size_t n) { vector<size_t> p; for(size_t d : far) { p.push_back(d); p.push_back(n + d); if(n > d) p.push_back(n - 1 - d); } return p; };
    L16 w = r.chance(15) ? L16() : lw(r); Word x(mk(w)); note("word %s", show(w).c_str());
    for(size_t p : positions(w.size())) if(p <= 0xffffffffu) { bool bad = p >= w.size(); note("letter %zu", p); uint16_t v = 0; bool t = oor([&] { v = x[(unsigned)p]; }); CHECK(t == bad, "letter %zu of %zu: %s", p, w.size(), t ? "refused" : "read"); if(!t) CHECK(v == w[p], "letter %zu is %x", p, v); }
    CHECK(lettersOf(x) == w, "word changed");
    WordList l; MList m; for(int n = r.range(0, 20); n > 0; n--) { L16 e = lw(r); l.addWord(mk(e)); m.push_back(e); }
    for(size_t p : positions(m.size())) { note("list %zu of %zu", p, m.size()); bool t = oor([&] { CHECK(lettersOf(l[p]) == m[p], "entry %zu wrong", p); }); CHECK(t == (p >= m.size()), "list entry %zu of %zu: %s", p, m.size(), t ? "refused" : "read"); }
    sameList(l, m, "list");
    Corpus c; size_t nd = r.range(0, 6); for(size_t i = 0; i < nd; i++) c.addDocument(Document(i + 100));
    for(size_t p : positions(nd)) { note("document %zu of %zu", p, nd); bool t = oor([&] { CHECK(c.getDocument(p).getID() == p + 100, "document %zu wrong", p); }); CHECK(t == (p >= nd), "document %zu of %zu: %s", p, nd, t ? "refused" : "read"); }
    CHECK(c.size() == nd, "corpus changed");
    WordStore s; MList sw; for(int n = r.range(0, 12); n > 0; n--) { L16 e = lw(r); if(s.getID(mk(e)) == sw.size()) sw.push_back(e); }
    for(size_t p : positions(sw.size())) if(p <= 0xffffffffu) { note("stored word %zu of %zu", p, sw.size()); bool t = oor([&] { CHECK(lettersOf(s.getWord((WordID)p)) == sw[p], "stored word %zu wrong", p); }); CHECK(t == (p >= sw.size()), "stored word %zu of %zu: %s", p, sw.size(), t ? "refused" : "read"); CHECK(s.hasWord((WordID)p) == (p < sw.size()), "hasWord(%zu) wrong", p); }
    MatchResults mr; size_t nr = r.range(0, 25); for(size_t i = 0; i < nr; i++) mr.addResult(i + 7, -(double)i);
    MatchResults dst; size_t added = 0;
    for(size_t p : positions(nr)) {
        note("result %zu of %zu", p, nr); bool bad = p >= nr;
        CHECK(oor([&] { CHECK(mr.getDocumentID(p) == p + 7, "id wrong"); }) == bad, "getDocumentID(%zu) of %zu", p, nr);
        CHECK(oor([&] { CHECK(mr.getRelevancy(p) == -(double)p, "relevancy wrong"); }) == bad, "getRelevancy(%zu) of %zu", p, nr);
        CHECK(oor([&] { dst.copyResult(mr, p); added++; }) == bad, "copyResult(%zu) of %zu", p, nr);
        CHECK(dst.size() == added, "refused copy changed the target");
    }
    CHECK(mr.size() == nr, "results changed");
    LevenshteinIndex ix; ErrorValues e; std::set<L16> iw; WordStore st2;
    for(int n = r.range(0, 12); n > 0; n--) { L16 a = lw(r); iw.insert(a); Word ww(mk(a)); ix.insertWord(ww, st2.getID(ww)); }
    IndexMatches im; ix.findWords(mk(lw(r)), e, r.range(0, 300), im);
    size_t k = im.size(); CHECK(k <= iw.size(), "too many matches");
    for(size_t p : positions(k)) {
        note("match %zu of %zu", p, k); bool bad = p >= k;
        CHECK(oor([&] { im.getMatch(p); }) == bad, "getMatch(%zu) of %zu", p, k);
        CHECK(oor([&] { im.getMatchError(p); }) == bad, "getMatchError(%zu) of %zu", p, k);
        CHECK(oor([&] { im.getQuery(p).length(); }) == bad, "getQuery(%zu) of %zu", p, k);
    }
    CHECK(im.size() == k, "matches changed");
    if(r.chance(30)) { im.clear(); CHECK(im.size() == 0, "clear left matches"); CHECK(oor([&] { im.getMatch(0); }) && oor([&] { im.getMatchError(0); }) && oor([&] { im.getQuery(0); }), "cleared match read"); }
    ResultFilter f; vector<vector<std::pair<L16, L16>>> fm(1);
    for(int n = r.range(0, 10); n > 0; n--) { if(r.chance(30)) { f.addNewTerm(); fm.emplace_back(); } else { L16 a = lw(r), b = lw(r); f.addNewSubTerm(mk(a), mk(b)); fm.back().push_back({a, b}); } }
    CHECK(f.numTerms() == fm.size(), "number of alternatives");
    for(size_t p : positions(fm.size())) {
        bool bad = p >= fm.size(); note("alternative %zu of %zu", p, fm.size());
        CHECK(oor([&] { CHECK(f.numSubTerms(p) == fm[p].size(), "numSubTerms wrong"); }) == bad, "numSubTerms(%zu)", p);
        for(size_t q : positions(bad ? 0 : fm[p].size())) {
            bool bad2 = bad || q >= fm[p].size();
            CHECK(oor([&] { CHECK(lettersOf(f.getField(p, q)) == fm[p][q].first, "field wrong"); }) == bad2, "getField(%zu,%zu)", p, q);
            CHECK(oor([&] { CHECK(lettersOf(f.getWord(p, q)) == fm[p][q].second, "word wrong"); }) == bad2, "getWord(%zu,%zu)", p, q);
        }
    }
    CHECK(f.numTerms() == fm.size(), "filter changed");
}
