#include "oracle.hh"
#include <cmath>
using std::string; using std::vector; using std::map; using std::set;

// Independent model of a matcher: plain sets of words per document and field.
struct MM {
    map<DocumentID, map<L16, set<L16>>> docs;           // what each document was indexed with
    map<std::pair<DocumentID, L16>, size_t> lens;        // field length when last indexed
    map<L16, map<L16, size_t>> occ;                      // field -> word -> occurrences over all indexing
    map<L16, double> weight;
    set<L16> known;                                      // indexed words and fields
    EModel e;
    size_t top(const L16 &f) const { size_t t = 0; auto i = occ.find(f); if(i != occ.end()) for(auto &w : i->second) t = std::max(t, w.second); return t; }
    map<DocumentID, double> search(const vector<L16> &q, const set<L16> &nosearch, bool dynamic, bool &edge) const {
        map<DocumentID, double> res; (void)edge;
        for(auto &f : occ) {
            if(nosearch.count(f.first)) continue;
            auto wi = weight.find(f.first); double wt = wi == weight.end() ? 1.0 : wi->second; size_t tp = top(f.first);
            for(auto &w : f.second) {
                int best = -1;
                for(auto &qw : q) { int lim = dynamic && qw.size() < 2 ? 100 : 200; int d = e.distance(w.first, qw); if(d <= lim && (best < 0 || d < best)) best = d; }
                if(best < 0) continue;
                double s = wt * (100.0 / (100.0 + best)) * (1.0 - (double)w.second / (double)(tp + 1));
                for(auto &d : docs) { auto x = d.second.find(f.first); if(x != d.second.end() && x->second.count(w.first)) res[d.first] += s; }
            }
        }
        return res;
    }
};
typedef vector<vector<std::pair<L16, L16>>> Filter;
static bool passes(const MM &m, DocumentID id, const Filter &f) {
    for(auto &alt : f) { bool all = true; for(auto &c : alt) { auto d = m.docs.find(id); auto x = d->second.find(c.first); all &= x != d->second.end() && x->second.count(c.second) > 0; } if(all) return true; }
    return false;
}
static bool close(double a, double b) { return std::fabs(a - b) <= 1e-9 * (1 + std::fabs(a) + std::fabs(b)); }

struct World {
    Matcher m; MM o; vector<L16> fields, words; Alphabet a; DocumentID nextDoc = 0; bool unique;
};
static WordList toList(const vector<L16> &q) { WordList l; for(auto &w : q) l.addWord(mk(w)); return l; }
static string show(const vector<L16> &q) { string s; for(auto &w : q) s += ::show(w) + " "; return s; }

static void setup(Rng &r, World &w, bool unique) {
    w.unique = unique; w.a = makeAlphabet(r, r.range(1, 5));
    static const char *fn[] = {"title", "body", "a", "ab", "name", "\xc3\xa4"};
    int nf = r.range(1, 4); for(int i = 0; i < nf; i++) { L16 f; get16(fn[(i * 5 + r.below(2)) % 6], f); if(std::find(w.fields.begin(), w.fields.end(), f) == w.fields.end()) w.fields.push_back(f); }
    int nw = r.range(1, 14); for(int i = 0; i < nw; i++) { L16 x; if(!w.words.empty() && r.chance(50)) { x = r.pick(w.words); mutate(r, w.a, x); } else x = randWord(r, w.a, 1, r.chance(10) ? 20 : 6); if(!x.empty() && goodword(x)) w.words.push_back(x); }
    if(w.words.empty()) w.words.push_back(L16{'w'});
    if(r.chance(25)) w.words.push_back(w.fields[0]);      // a word equal to a field name
    w.nextDoc = r.chance(50) ? 0 : r.chance(50) ? 1 : r.next() >> r.range(0, 40);
}
static void indexSome(Rng &r, World &w, int n) {
    Corpus c; vector<DocumentID> old; for(auto &d : w.o.docs) old.push_back(d.first);
    for(int i = 0; i < n; i++) {
        DocumentID id; if(!w.unique && !old.empty() && r.chance(20)) id = r.pick(old); else { id = w.nextDoc; w.nextDoc += r.chance(80) ? 1 : (DocumentID)r.below(1u << 30) + 1; }
        Document d(id); map<L16, vector<L16>> t;
        for(auto &f : w.fields) { if(r.chance(30)) continue; vector<L16> ws; for(int k = r.range(0, r.chance(15) ? 25 : 5); k > 0; k--) ws.push_back(r.pick(w.words)); t[f] = ws; }
        string desc; for(auto &e : t) desc += ::show(e.first) + "={" + show(e.second) + "} ";
        note("index document %lu: %s", (unsigned long)id, desc.c_str());
        for(auto &e : t) d.addText(mk(e.first), toList(e.second));
        c.addDocument(d); old.push_back(id);
        w.o.docs[id];
        for(auto &e : t) { w.o.known.insert(e.first); w.o.lens[{id, e.first}] = e.second.size(); for(auto &x : e.second) { w.o.docs[id][e.first].insert(x); w.o.occ[e.first][x]++; w.o.known.insert(x); } }
    }
    w.m.index(c);
}
static vector<L16> randQuery(Rng &r, World &w) {
    vector<L16> q; int n = r.chance(6) ? 0 : r.range(1, 4);
    for(int i = 0; i < n; i++) { L16 x; if(r.chance(75)) { x = r.pick(w.words); for(int k = r.range(0, 2); k > 0; k--) mutate(r, w.a, x); } else x = randWord(r, w.a, 0, 5); if(r.chance(15)) x.resize(std::min<size_t>(x.size(), 1)); if(!goodword(x)) continue; q.push_back(x); }
    if(!q.empty() && r.chance(15)) q.push_back(q[0]);
    return q;
}
static void tune(Rng &r, World &w) {
    if(r.chance(40)) randErrors(r, w.a, w.m.getErrorValues(), w.o.e);
    if(r.chance(20)) { w.m.getErrorValues().clearErrors(); w.o.e.pairs.clear(); w.o.e.group.clear(); w.o.e.gerr.clear(); note("clearErrors"); }
    for(int k = r.range(0, 3); k > 0; k--) { L16 f = r.chance(85) ? r.pick(w.fields) : L16{'n', 'o'}; double v = r.range(0, 20) * 0.25; note("weight %s %g", ::show(f).c_str(), v); w.m.getIndexWeights().setWeight(mk(f), v); w.o.weight[f] = v; }
    for(auto &f : w.fields) { auto i = w.o.weight.find(f); CHECK(w.m.getIndexWeights().getWeight(mk(f)) == (i == w.o.weight.end() ? 1.0 : i->second), "weight of %s is %g", ::show(f).c_str(), w.m.getIndexWeights().getWeight(mk(f))); }
}
static Filter randFilter(Rng &r, World &w, ResultFilter &f, int density) {
    Filter m(1);
    for(int n = r.chance(density) ? r.range(1, 6) : 0; n > 0; n--) {
        if(r.chance(35)) { f.addNewTerm(); m.emplace_back(); note("filter: new alternative"); }
        else { L16 a = r.chance(85) ? r.pick(w.fields) : L16{'n', 'o'}, b = r.chance(85) ? r.pick(w.words) : randWord(r, w.a, 1, 4); if(r.chance(3)) b.clear(); note("filter: %s has %s", ::show(a).c_str(), ::show(b).c_str()); f.addNewSubTerm(mk(a), mk(b)); m.back().push_back({a, b}); }
    }
    return m;
}
static map<DocumentID, double> read(const MatchResults &x, bool order) {
    map<DocumentID, double> g; double last = 0;
    for(size_t i = 0; i < x.size(); i++) { DocumentID id = x.getDocumentID(i); double v = x.getRelevancy(i); CHECK(g.insert({id, v}).second, "document %lu returned twice", (unsigned long)id); if(order && i) CHECK(v <= last, "results not in descending order"); last = v; }
    return g;
}
static MatchResults run(Rng &r, World &w, const vector<L16> &q, const SearchParameters *sp) {
    string s; bool plain = true; for(auto &x : q) { plain &= !x.empty() && lower(x) == x; s += to8(x) + (r.chance(90) ? " " : " \n\t"); }
    int k = r.range(0, 2);
    if(sp) { if(k == 0 && plain) return w.m.match(s.c_str(), *sp); return w.m.match(toList(q), *sp); }
    if(k == 0 && plain) return w.m.match(s.c_str());
    if(k == 1 && plain) return w.m.match(s);
    return w.m.match(toList(q));
}
enum { SETS = 1, REL = 2, FILTER = 4 };
static void searching(Rng &r, int what) {
    World w; setup(r, w, what != SETS); int rounds = r.range(1, 3);
    for(int k = 0; k < rounds; k++) {
        indexSome(r, w, r.chance(10) ? r.range(12, 40) : r.range(0, 6)); tune(r, w);
        for(int s = r.range(1, 4); s > 0; s--) {
            vector<L16> q = randQuery(r, w); SearchParameters sp; set<L16> nos; bool dyn = true, useSp = r.chance(what == FILTER ? 100 : 65); Filter f(1);
            if(useSp) {
                if(r.chance(40)) for(auto &x : w.fields) if(r.chance(40)) { sp.addNonsearchingField(mk(x)); nos.insert(x); note("non-searchable %s", ::show(x).c_str()); }
                if(r.chance(40)) { dyn = r.chance(30); sp.setDynamic(dyn); note("dynamic %d", dyn); }
                CHECK(sp.isDynamic() == dyn, "isDynamic wrong");
                for(auto &x : w.fields) CHECK(sp.isNonsearchingField(mk(x)) == (nos.count(x) > 0), "isNonsearchingField wrong");
                f = randFilter(r, w, sp.getResultFilter(), what == FILTER ? 90 : 30);
            }
            note("search %s", show(q).c_str());
            MatchResults res = run(r, w, q, useSp ? &sp : nullptr);
            bool edge = false; map<DocumentID, double> all = w.o.search(q, nos, dyn, edge), got = read(res, what == SETS);
            if(q.empty()) { CHECK(got.empty(), "an empty query returned %zu documents", got.size()); continue; }
            map<DocumentID, double> want; for(auto &e : all) if(passes(w.o, e.first, f)) want.insert(e);
            nontrivial += !want.empty();
            for(auto &e : want) CHECK(got.count(e.first), "document %lu missing", (unsigned long)e.first);
            for(auto &e : got) CHECK(want.count(e.first), "document %lu returned %s", (unsigned long)e.first, all.count(e.first) ? "though the filter excludes it" : "though nothing in it is close enough");
            if(what == REL) for(auto &e : want) CHECK(close(got[e.first], e.second), "relevancy of document %lu is %.12g, expected %.12g", (unsigned long)e.first, got[e.first], e.second);
            if(what == FILTER) {
                SearchParameters sp2; for(auto &x : nos) sp2.addNonsearchingField(mk(x)); sp2.setDynamic(dyn);
                map<DocumentID, double> plain = read(w.m.match(toList(q), sp2), false);
                CHECK(plain.size() == all.size(), "an unfiltered search returned %zu documents, expected %zu", plain.size(), all.size());
                for(auto &e : got) CHECK(plain.count(e.first) && plain[e.first] == e.second, "filtering changed the relevancy of document %lu from %g to %g", (unsigned long)e.first, plain[e.first], e.second);
                for(auto &e : plain) CHECK((got.count(e.first) > 0) == passes(w.o, e.first, f), "filter kept/dropped document %lu wrongly", (unsigned long)e.first);
            }
        }
    }
}
void caseC13(Rng &r) { searching(r, SETS); }
void caseC15(Rng &r) { searching(r, REL); }
void caseC14(Rng &r) { searching(r, FILTER); }

static map<DocumentID, double> online(World &w, const vector<L16> &q, const L16 &f) {
    bool edge = false; map<DocumentID, double> want = q.empty() ? map<DocumentID, double>() : w.o.search(q, set<L16>(), true, edge);
    for(auto &d : w.o.docs) {
        auto x = d.second.find(f); if(x == d.second.end()) continue; size_t hits = 0;
        for(auto &qw : q) hits += !qw.empty() && x->second.count(qw);
        if(!hits) continue;
        want[d.first] += 2.0 * hits;
        if(hits == q.size() && w.o.lens[{d.first, f}] == q.size()) want[d.first] += 100;
    }
    return want;
}
void caseC17(Rng &r) {
    World w; setup(r, w, true); int rounds = r.range(1, 3);
    for(int k = 0; k < rounds; k++) {
        indexSome(r, w, r.range(0, 8)); tune(r, w);
        for(int s = r.range(1, 4); s > 0; s--) {
            vector<L16> q = randQuery(r, w);
            if(r.chance(40) && !w.o.docs.empty()) { // the exact contents of some field
                auto d = w.o.docs.begin(); std::advance(d, r.below(w.o.docs.size())); if(!d->second.empty()) { auto x = d->second.begin(); std::advance(x, r.below(d->second.size())); q.assign(x->second.begin(), x->second.end()); if(r.chance(30)) std::reverse(q.begin(), q.end()); if(r.chance(20) && !q.empty()) q.push_back(q[0]); } }
            L16 f = r.chance(85) ? r.pick(w.fields) : r.chance(50) ? r.pick(w.words) : L16{'n', 'o'};
            note("online %s in %s", show(q).c_str(), ::show(f).c_str());
            bool indexed = w.o.known.count(f) > 0, field = w.o.occ.count(f) > 0; for(auto &d : w.o.docs) field |= d.second.count(f) > 0;
            for(auto &l : w.o.lens) field |= l.first.second == f;
            if(!indexed) { bool t = false; try { w.m.onlineMatch(toList(q), mk(f)); } catch(std::exception &) { t = true; } CHECK(t, "online match in unknown field %s did not fail", ::show(f).c_str()); continue; }
            if(!field) continue;                     // known only as a word of some text
            map<DocumentID, double> want = online(w, q, f), got = read(w.m.onlineMatch(toList(q), mk(f)), false);
            nontrivial += !want.empty();
            for(auto &e : want) CHECK(got.count(e.first), "document %lu missing", (unsigned long)e.first);
            for(auto &e : got) { CHECK(want.count(e.first), "document %lu should not be returned", (unsigned long)e.first); CHECK(close(e.second, want[e.first]), "score of document %lu is %.12g, expected %.12g", (unsigned long)e.first, e.second, want[e.first]); }
        }
    }
}
void caseC20(Rng &r) {
    World w; setup(r, w, true); indexSome(r, w, r.range(1, 8)); tune(r, w);
    struct Probe { vector<L16> q; std::unique_ptr<SearchParameters> sp; L16 f; bool on; vector<std::pair<DocumentID, double>> res; bool threw; };
    auto ask = [&](Probe &p, vector<std::pair<DocumentID, double>> &res) { res.clear(); try { MatchResults x = p.on ? w.m.onlineMatch(toList(p.q), mk(p.f)) : p.sp ? w.m.match(toList(p.q), *p.sp) : w.m.match(toList(p.q)); for(size_t i = 0; i < x.size(); i++) res.push_back({x.getDocumentID(i), x.getRelevancy(i)}); } catch(std::exception &) { return true; } return false; };
    vector<Probe> ps; int n = r.range(2, 8);
    vector<L16> names = w.fields; names.push_back(L16{'n', 'o'}); names.push_back(L16{'q', 'q', 'q'}); for(auto &x : w.words) names.push_back(x);
    for(int i = 0; i < n; i++) {
        Probe p; p.q = randQuery(r, w); if(r.chance(20)) p.q.push_back(L16{'q', 'q', 'q'}); if(r.chance(20)) p.q.push_back(L16{'n', 'o'}); p.on = r.chance(40); p.f = r.pick(names);
        if(r.chance(60)) { p.sp.reset(new SearchParameters()); randFilter(r, w, p.sp->getResultFilter(), 80); if(r.chance(50)) p.sp->addNonsearchingField(mk(r.pick(names))); if(r.chance(30)) p.sp->setDynamic(false); }
        if(p.on && r.chance(50)) { for(auto &x : names) if(!w.o.known.count(x)) p.f = x; }
        note("probe %d: %s %s", i, p.on ? "online" : "match", show(p.q).c_str());
        p.threw = ask(p, p.res);
        if(p.on) CHECK(p.threw == !w.o.known.count(p.f), "online match in %s: %s", ::show(p.f).c_str(), p.threw ? "failed" : "did not fail");
        ps.push_back(std::move(p));
    }
    for(int k = 0; k < 2; k++) for(size_t i = ps.size(); i-- > 0;) { vector<std::pair<DocumentID, double>> again; note("repeat probe %zu", i); bool t = ask(ps[i], again); CHECK(t == ps[i].threw && again == ps[i].res, "repeating probe %zu gave a different answer", i); nontrivial += !again.empty(); }
    for(auto &f : w.fields) { auto i = w.o.weight.find(f); CHECK(w.m.getIndexWeights().getWeight(mk(f)) == (i == w.o.weight.end() ? 1.0 : i->second), "weight changed"); }
    ErrorValues &e = w.m.getErrorValues(); CHECK(e.getInsertionError() == w.o.e.ins && e.getDeletionError() == w.o.e.del && e.getEndDeletionError() == w.o.e.enddel && e.getTransposeError() == w.o.e.trans, "error settings changed");
    for(auto &x : w.a.sym) for(auto &y : w.a.sym) CHECK(e.getSubstituteError(Letter(x[0]), Letter(y[0])) == w.o.e.sub(x[0], y[0]), "substitution error changed");
    for(auto &x : names) if(!w.o.known.count(x)) { bool t = false; try { w.m.onlineMatch(WordList(), mk(x)); } catch(std::exception &) { t = true; } CHECK(t, "searching made %s known", ::show(x).c_str()); }
    // everything still agrees with the model, and with later indexing
    for(int k = 0; k < 2; k++) {
        vector<L16> q = randQuery(r, w); if(!q.empty()) { bool edge; map<DocumentID, double> want = w.o.search(q, set<L16>(), true, edge), got = read(w.m.match(toList(q)), false); CHECK(want.size() == got.size(), "search after searches returns %zu documents, expected %zu", got.size(), want.size()); for(auto &e2 : want) CHECK(got.count(e2.first) && close(got[e2.first], e2.second), "search after searches: document %lu", (unsigned long)e2.first); }
        indexSome(r, w, 2);
    }
}
