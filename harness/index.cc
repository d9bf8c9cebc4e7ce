#include "common.hh"
#include "oracle.hh"
using std::string; using std::vector; using std::map;

void caseC07(Rng &r) {
    static int big = 0;
    WordStore s, s2; vector<L16> ids; map<L16, WordID> known; vector<L16> never;
    Alphabet a = makeAlphabet(r, r.range(1, 40));
    bool huge = r.chance(2) && big < (thorough ? 6 : 1);
    if(huge) big++;
    int ops = huge ? 3500 : r.chance(20) ? r.range(200, 900) : r.range(3, 60);
    int maxlen = huge ? 420 : r.chance(20) ? 60 : 7;
    for(int o = 0; o < ops; o++) {
        L16 w;
        if(!ids.empty() && r.chance(40)) { w = r.pick(ids); if(r.chance(60)) { int k = r.range(0, 2); if(k == 0) { L16 t = randWord(r, a, 1, 2); w.insert(w.end(), t.begin(), t.end()); } else if(k == 1) w.resize(r.range(1, (int)w.size())); else { L16 t = randWord(r, a, 1, 1); w.insert(w.begin(), t.begin(), t.end()); } } }
        else w = randWord(r, a, 1, maxlen);
        if(!goodword(w) || w.empty()) continue;
        Word x(mk(w)); int k = r.range(0, 9); auto it = known.find(w);
        if(k <= 1) { note("hasWord %s", show(w).c_str()); CHECK(s.hasWord(x) == (it != known.end()), "hasWord(%s) is %d", show(w).c_str(), s.hasWord(x)); continue; }
        note("getID %s", show(w).c_str());
        WordID id = s.getID(x);
        if(it != known.end()) CHECK(id == it->second, "number of %s changed from %u to %u", show(w).c_str(), it->second, id);
        else { CHECK(id == ids.size(), "new word %s got number %u, expected %zu", show(w).c_str(), id, ids.size()); known[w] = id; ids.push_back(w); }
        CHECK(s.hasWord(x), "word %s unknown just after it was numbered", show(w).c_str());
        if(lettersOf(s.getWord(id)) != w) fail("number %u means %s, not %s", id, show(s.getWord(id)).c_str(), show(w).c_str());
        if(r.chance(5) && !huge) { Word e; CHECK(!s.hasWord(e), "the empty word is known"); try { s.getID(e); fail("empty word numbered"); } catch(std::out_of_range &) {} }
    }
    nontrivial += ids.size() > 3;
    for(size_t i = 0; i < ids.size(); i += huge ? 17 : 1) {
        CHECK(s.hasWord((WordID)i), "number %zu unknown", i);
        if(lettersOf(s.getWord((WordID)i)) != ids[i]) fail("number %zu means %s, not %s", i, show(s.getWord((WordID)i)).c_str(), show(ids[i]).c_str());
        CHECK(s.getID(mk(ids[i])) == i, "number of %s is %u, not %zu", show(ids[i]).c_str(), s.getID(mk(ids[i])), i);
        CHECK(!s2.hasWord(mk(ids[i])), "another store knows the word");
    }
    for(size_t d : {(size_t)0, (size_t)1, (size_t)100, (size_t)0xfffffffful - ids.size()}) CHECK(!s.hasWord((WordID)(ids.size() + d)), "number %zu is known", ids.size() + d);
    for(int i = 0; i < 20; i++) { L16 w = i % 2 && !ids.empty() ? r.pick(ids) : randWord(r, a, 1, 8); if(i % 2) w.resize(r.range(1, (int)w.size())); if(i % 4 == 3) w.push_back('q'); if(!goodword(w) || w.empty()) continue; CHECK(s.hasWord(mk(w)) == (known.count(w) > 0), "hasWord(%s) is %d", show(w).c_str(), s.hasWord(mk(w))); }
}
void caseC08(Rng &r) {
    LevenshteinIndex ix, other; map<L16, size_t> cnt; map<L16, WordID> num; size_t top = 0;
    Alphabet a = makeAlphabet(r, r.range(1, 30)); vector<L16> pool; std::set<WordID> used;
    int ops = r.chance(6) ? r.range(500, 3000) : r.range(1, 80), maxlen = r.chance(15) ? 80 : 6;
    WordID next = r.chance(50) ? 0 : (WordID)r.below(0xfff00000u);
    auto verify = [&](const L16 &w) {
        CHECK(ix.hasWord(mk(w)) == (cnt.count(w) > 0), "hasWord(%s) is %d", show(w).c_str(), ix.hasWord(mk(w)));
        auto f = num.find(w); if(f != num.end()) CHECK(ix.wordCount(f->second) == cnt[w], "count of %s is %zu, expected %zu", show(w).c_str(), ix.wordCount(f->second), cnt[w]);
    };
    for(int o = 0; o < ops; o++) {
        L16 w;
        if(!pool.empty() && r.chance(50)) { w = r.pick(pool); if(r.chance(30)) { if(r.chance(50)) w.resize(r.range(1, (int)w.size())); else { L16 t = randWord(r, a, 1, 2); w.insert(w.end(), t.begin(), t.end()); } } }
        else w = randWord(r, a, 0, maxlen);
        if(!goodword(w)) continue;
        if(r.chance(15)) { verify(w); continue; }
        WordID id;
        if(num.count(w)) id = num[w];
        else { id = next; next += r.chance(70) ? 1 : (WordID)r.range(1, 70000); if(!w.empty()) num[w] = id; }
        note("insert %s as %u", show(w).c_str(), id);
        size_t words = ix.numWords();
        ix.insertWord(mk(w), id);
        if(w.empty()) { CHECK(ix.numWords() == words && ix.maxCount() == top && ix.wordCount(id) == 0, "inserting the empty word changed the index"); continue; }
        if(++cnt[w] == 1) pool.push_back(w);
        top = std::max(top, cnt[w]);
        CHECK(ix.maxCount() == top, "highest count is %zu, expected %zu", ix.maxCount(), top);
        CHECK(ix.numWords() == cnt.size(), "number of words is %zu, expected %zu", ix.numWords(), cnt.size());
        CHECK(ix.wordCount(id) == cnt[w] && ix.hasWord(mk(w)), "inserted word %s has count %zu, expected %zu", show(w).c_str(), ix.wordCount(id), cnt[w]);
        if(o % 16 == 0 && !pool.empty()) verify(r.pick(pool));
    }
    for(auto &e : cnt) verify(e.first);
    for(int i = 0; i < 10; i++) { L16 w = randWord(r, a, 1, 5); verify(w); if(!pool.empty()) { w = r.pick(pool); w.resize(r.range(1, (int)w.size())); if(goodword(w)) verify(w); w.push_back('!'); if(goodword(w)) verify(w); } }
    CHECK(ix.wordCount(next + 5) == 0, "a number never inserted has a count");
    CHECK(other.maxCount() == 0 && other.numWords() == 0 && !other.hasWord(W("a")), "another index changed");
    nontrivial += cnt.size() > 2;
}
static void fuzzy(Rng &r, bool completeness) {
    LevenshteinIndex ix; map<L16, WordID> num; vector<L16> pool;
    Alphabet a = makeAlphabet(r, r.range(1, 6)); if(r.chance(40)) { Alphabet b = makeAlphabet(r, 2); a.sym.insert(a.sym.end(), b.sym.begin(), b.sym.end()); }
    ErrorValues e; EModel m; randErrors(r, a, e, m);
    bool longw = r.chance(8); int maxlen = longw ? r.range(20, 150) : r.range(1, 8);
    int nw = longw ? r.range(1, 8) : r.range(0, 40), rounds = r.range(1, 3);
    for(int q = 0; q < rounds; q++) {
        for(int i = 0; i < nw; i++) {
            L16 w;
            if(!pool.empty() && r.chance(50)) { w = r.pick(pool); mutate(r, a, w); } else w = randWord(r, a, 1, maxlen);
            if(!goodword(w) || w.empty()) continue;
            if(!num.count(w)) { WordID id = (WordID)num.size() * 3 + 1; num[w] = id; pool.push_back(w); }
            note("insert %s as %u", show(w).c_str(), num[w]);
            ix.insertWord(mk(w), num[w]);
        }
        if(r.chance(20) && q) randErrors(r, a, e, m);
        for(int k = r.range(1, 4); k > 0; k--) {
            L16 query;
            if(!pool.empty() && r.chance(75)) { query = r.pick(pool); for(int z = r.range(0, 3); z > 0; z--) mutate(r, a, query); } else query = randWord(r, a, 0, maxlen + 3);
            if(!goodword(query)) continue;
            int limit;
            vector<std::pair<int, WordID>> want; vector<int> ds;
            for(auto &x : num) ds.push_back(m.distance(x.first, query));
            if(!ds.empty() && r.chance(60)) limit = r.pick(ds) - (r.chance(30) ? 1 : 0); else limit = r.chance(20) ? r.range(0, 5) : r.range(0, 500);
            if(limit < 0) limit = 0;
            size_t z = 0; for(auto &x : num) { if(ds[z] <= limit) want.push_back({ds[z], x.second}); z++; }
            note("find %s limit %d (%zu expected)", show(query).c_str(), limit, want.size());
            IndexMatches im; ix.findWords(mk(query), e, limit, im);
            map<WordID, int> got; map<WordID, int> exp; for(auto &x : want) exp[x.second] = x.first;
            nontrivial += want.size() > 0 && want.size() < num.size();
            int last = -1;
            for(size_t i = 0; i < im.size(); i++) {
                WordID id = im.getMatch(i); int err = im.getMatchError(i);
                if(completeness) {
                    CHECK(got.insert({id, err}).second, "number %u reported twice for %s", id, show(query).c_str());
                    CHECK(err >= last, "matches not in growing order of error (%d after %d)", err, last);
                    last = err;
                } else {
                    const L16 *ww = nullptr; for(auto &x : num) if(x.second == id) ww = &x.first;
                    CHECK(ww, "number %u is not a word of the index", id);
                    CHECK(err <= limit, "reported error %d exceeds the limit %d", err, limit);
                    CHECK(m.distance(*ww, query) == err, "error of %s to query %s reported as %d, is %d", show(*ww).c_str(), show(query).c_str(), err, m.distance(*ww, query));
                }
            }
            if(completeness) for(auto &x : num) if(exp.count(x.second)) CHECK(got.count(x.second), "word %s (error %d, limit %d) missed for query %s", show(x.first).c_str(), exp[x.second], limit, show(query).c_str());
        }
    }
}
void caseC09(Rng &r) { fuzzy(r, false); }
void caseC10(Rng &r) { fuzzy(r, true); }
