#include "common.hh"
#include <memory>
using std::string; using std::unique_ptr;

// text generator: valid, almost valid, invalid
static string randText(Rng &r) {
    string s;
    static const int edge[] = {15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 513, 1023, 1025, 2049, 4097};
    int n = r.chance(8) ? r.range(100, 700) : r.chance(10) ? edge[r.below(sizeof edge / sizeof *edge)] : r.range(0, 12);
    if(n > 1000 && r.chance(80)) n = n % 100;
    int badness = r.range(0, 3);          // 0,1: valid without whitespace
    int same = r.chance(30) ? r.range(0, 9) : -1;   // all letters of one kind
    for(int i = 0; i < n; i++) {
        int k = same >= 0 ? same : r.range(0, 9);
        if(k < 4) s += (char)r.range(0x21, 0x7e);
        else if(k == 4) put8(s, (uint32_t)r.range(0x80, 0x7ff));
        else if(k == 5) { uint32_t c = (uint32_t)r.range(0x800, 0xffff); if(c >= 0xd800 && c < 0xe000) c -= 0x800; put8(s, c); }
        else if(k == 6) put8(s, (uint32_t)r.range(0x10000, 0x10ffff));
        else if(k == 7) { static const uint32_t e[] = {'A','Z',0xc4,0xc5,0xd6,0x130,0x131,0x391,0x1e9e,0x10400,0xfeff,0xfffe,0xffff,0x10ffff,0x10000,0xd7ff,0xe000,0x80,0x7ff,0x800,0x2003,0x3000,0xa0,0x85,0x0b,0x0c,0x1c,0x7f,0x120,0x20d,0x209,0x2020,0x100}; put8(s, e[r.below(sizeof e / sizeof *e)]); }
        else s += (char)r.range('a', 'e');
        if(badness == 2 && r.chance(100 / (n + 1) + 1)) s += " \t\n\r"[r.below(4)];
        if(badness == 3 && r.chance(100 / (n + 1) + 1)) {
            switch(r.range(0, 7)) {
            case 0: s += (char)r.range(0x80, 0xbf); break;
            case 1: s += (char)r.range(0xc0, 0xff); break;
            case 2: s += "\xed"; s += (char)r.range(0xa0, 0xbf); s += (char)r.range(0x80, 0xbf); break;
            case 3: s += "\xc0\x80"; break;
            case 4: s += "\xe0\x80\xa0"; break;
            case 5: s += "\xf4\x90\x80\x80"; break;
            case 6: s += "\xf0\x80\x80\xa0"; break;
            default: if(!s.empty()) s.erase(s.size() - 1); break;
            }
        }
    }
    return s;
}
static L16 randLetters(Rng &r, bool ok) {
    L16 w; int n = r.chance(6) ? r.range(60, 400) : r.chance(3) ? 1 << r.range(4, 12) : r.range(0, 9);
    int same = r.chance(25) ? r.range(0, 9) : -1;
    for(int i = 0; i < n; i++) {
        int k = same >= 0 ? same : r.range(0, 9);
        if(k < 5) w.push_back((uint16_t)r.range('a', 'd'));
        else if(k < 7) { uint16_t c = (uint16_t)r.range(0x21, 0xffff); if(c >= 0xd800 && c < 0xe000) c = 0x100; w.push_back(c); }
        else { w.push_back((uint16_t)r.range(0xd800, 0xdbff)); w.push_back((uint16_t)r.range(0xdc00, 0xdfff)); }
    }
    if(!ok && !w.empty()) {
        static const uint16_t bad[] = {' ', '\t', '\n', '\r', 0, 0xd800, 0xdbff, 0xdc00, 0xdfff, 0xd912, 0xde34};
        int m = r.range(1, 2);
        for(int i = 0; i < m; i++) {
            size_t at = r.below(w.size()); uint16_t b = bad[r.below(sizeof bad / sizeof *bad)];
            if(r.chance(30)) at = r.chance(50) ? 0 : w.size() - 1;
            if(r.chance(50)) w[at] = b; else w.insert(w.begin() + at, b);
        }
    }
    return w;
}
// exact-size NUL terminated heap copy, so reads past the terminator are seen
struct CStr { unique_ptr<char[]> b; CStr(const string &s) : b(new char[s.size() + 1]) { memcpy(b.get(), s.c_str(), s.size() + 1); } operator const char *() const { return b.get(); } };
static bool accept(const string &s, L16 &w) { return get16(s, w) && (w = lower(w), goodword(w)); }
static void rule(const Word &w, const char *what) { CHECK(goodword(lettersOf(w)), "%s: the word %s breaks the rule", what, show(w).c_str()); }

void caseC01(Rng &r) {
    Word other(W("other")); L16 otherL = lettersOf(other);
    Word target; L16 targetL;
    int ops = r.range(1, 6);
    for(int o = 0; o < ops; o++) {
        int k = r.range(0, 5);
        if(k <= 3) {
            string s = randText(r); L16 w; bool ok = accept(s, w); bool threw = false; L16 got;
            note("%s %s", k == 0 ? "Word(const char*)" : k == 1 ? "Word(string)" : k == 2 ? "word = const char*" : "word = string", esc(s).c_str());
            bool assign = k >= 2;
            try {
                if(k == 0) { CStr c(s); Word x(c); rule(x, "constructed"); got = lettersOf(x); }
                else if(k == 1) { Word x(s); rule(x, "constructed"); got = lettersOf(x); }
                else if(k == 2) { CStr c(s); target = (const char*)c; }
                else target = s;
            } catch(std::exception &) { threw = true; }
            CHECK(threw == !ok, "text %s: %s", esc(s).c_str(), threw ? "refused though it is a proper word" : "accepted though it is not a proper word");
            if(assign) {
                rule(target, "assigned");
                got = lettersOf(target);
                if(!threw) CHECK(got == w, "assigned word is %s, not %s", show(got).c_str(), show(w).c_str());
                CHECK(target == target && !(target < target), "target unusable");
                target.asUtf8();
                Word c2(target); rule(c2, "copied"); CHECK(lettersOf(c2) == got, "copy of target differs");
                targetL = got;
            } else if(!threw) CHECK(got == w, "word is %s, not %s", show(got).c_str(), show(w).c_str());
            nontrivial += !s.empty();
        } else {
            L16 w = randLetters(r, r.chance(45)); bool term = r.chance(50);
            std::vector<Letter> v; for(auto c : w) v.push_back(Letter(c));
            if(term) v.push_back(Letter((uint16_t)0));
            L16 eff; for(auto c : v) eff.push_back((uint16_t)c);
            if(!eff.empty() && eff.back() == 0) eff.pop_back();
            bool ok = goodword(eff), threw = false;
            unique_ptr<Letter[]> h(new Letter[v.size()]); std::copy(v.begin(), v.end(), h.get());
            note("Word(letters %s, %zu)", show(w).c_str(), v.size());
            try { Word x(h.get(), v.size()); rule(x, "constructed"); CHECK(lettersOf(x) == eff, "word is %s, not %s", show(x).c_str(), show(eff).c_str()); CHECK(lettersOf(Word(x)) == eff, "copy differs"); }
            catch(std::exception &) { threw = true; }
            CHECK(threw == !ok, "letters %s: %s", show(w).c_str(), threw ? "refused though they form a proper word" : "accepted though they form no proper word");
            for(size_t i = 0; i < v.size(); i++) CHECK(h[i].val == v[i].val, "letter array changed");
            nontrivial += !w.empty();
        }
        CHECK(lettersOf(other) == otherL, "another word changed");
        CHECK(lettersOf(target) == targetL, "target changed");
    }
}
void caseC02(Rng &r) {
    string s; L16 w;
    if(r.chance(70)) { do s = randText(r); while(!accept(s, w)); }
    else { s = randText(r); }
    note("text %s", esc(s).c_str());
    L16 raw;
    if(!get16(s, raw)) {
        bool t = false; try { CStr c(s); Word x(c); } catch(std::exception &) { t = true; }
        CHECK(t, "text %s is not valid UTF-8 but was accepted", esc(s).c_str());
        t = false; try { Word x(s); } catch(std::exception &) { t = true; }
        CHECK(t, "text is not valid UTF-8 but was accepted");
        return;
    }
    if(!accept(s, w)) return;
    nontrivial += !s.empty();
    CStr c(s); Word x(c);
    CHECK(lettersOf(x) == w, "letters are %s, not %s", show(x).c_str(), show(w).c_str());
    string u = to8(w);
    CHECK(x.asUtf8() == u, "asUtf8 gives %s, not %s", esc(x.asUtf8()).c_str(), esc(u).c_str());
    Word y; y = s; CHECK(lettersOf(y) == w, "assigned letters differ");
    y = (const char*)c; CHECK(lettersOf(y) == w, "assigned letters differ");
    CHECK(string(CStr(s)) == s && !strcmp(c, s.c_str()), "input text changed");
    size_t lo = u.size() > 40 ? u.size() - 8 : 0;
    for(size_t n = lo; n <= u.size() + 4; n++) {
        unique_ptr<char[]> b(new char[n ? n : 1]); memset(b.get(), 0x5a, n);
        bool threw = false;
        note("toUtf8 into %zu bytes", n);
        // the exact-size heap block makes any write beyond the stated size fatal
        char *buf = b.get(); unique_ptr<char[]> z; if(n == 0) { z.reset(new char[0]); buf = z.get(); }
        try { x.toUtf8(buf, (unsigned)n); } catch(std::exception &) { threw = true; }
        CHECK(threw == (n < u.size() + 1), "toUtf8 of %zu bytes into %zu: %s", u.size(), n, threw ? "failed though it fits" : "succeeded though it does not fit");
        if(!threw) CHECK(!strcmp(buf, u.c_str()), "toUtf8 wrote %s, not %s", esc(buf).c_str(), esc(u).c_str());
    }
    char big[8]; memset(big, 0x5a, 8);
    if(u.size() > 3) { try { x.toUtf8(big + 2, 3); CHECK(false, "toUtf8 into 3 bytes succeeded"); } catch(std::runtime_error &) {} CHECK(big[0] == 0x5a && big[1] == 0x5a && big[5] == 0x5a && big[6] == 0x5a && big[7] == 0x5a, "toUtf8 wrote outside its buffer"); }
    // the letter-array route keeps letters as they are, case included
    L16 v = randLetters(r, true); Word a(mk(v)); CHECK(lettersOf(a) == v && a.asUtf8() == to8(v), "letter array %s converts to %s", show(v).c_str(), esc(a.asUtf8()).c_str());
    Word round(a.asUtf8()); CHECK(lettersOf(round) == lower(v), "round trip gives %s", show(round).c_str());
}
void caseC03(Rng &r) {
    std::vector<L16> ls; std::vector<Word> ws;
    int n = r.range(2, 7);
    for(int i = 0; i < n; i++) {
        L16 w;
        if(!ls.empty() && r.chance(65)) {
            w = r.pick(ls);
            int k = r.range(0, 4);
            if(k == 0 && !w.empty()) { L16 v(w.begin(), w.begin() + r.below(w.size() + 1)); w = v; }
            else if(k == 1) w.push_back((uint16_t)r.range('a', 'c'));
            else if(k == 2 && !w.empty()) { size_t at = r.chance(50) ? w.size() - 1 : r.below(w.size()); if(w[at] < 0xd800) w[at] = (uint16_t)(w[at] ^ (1 << r.range(0, 14))); }
            else if(k == 3 && w.size() > 1) std::swap(w[0], w[w.size() - 1]);
        } else w = randLetters(r, true);
        if(!goodword(w)) w = L16{'x'};
        ls.push_back(w); ws.push_back(mk(w)); note("w%d = %s", i, show(w).c_str());
    }
    nontrivial++;
    for(int i = 0; i < n; i++) for(int j = 0; j < n; j++) {
        bool eq = ls[i] == ls[j], lt = std::lexicographical_compare(ls[i].begin(), ls[i].end(), ls[j].begin(), ls[j].end());
        const char *a = "words"; string d = show(ls[i]) + " and " + show(ls[j]); a = d.c_str();
        CHECK((ws[i] == ws[j]) == eq, "== wrong for %s", a);
        CHECK((ws[i] != ws[j]) == !eq, "!= wrong for %s", a);
        CHECK((ws[i] < ws[j]) == lt, "< wrong for %s", a);
        if(eq) CHECK(ws[i].hash() == ws[j].hash(), "equal words hash differently: %s", a);
        string u = to8(ls[j]);
        CHECK((ws[i] == u) == eq && (ws[i] == u.c_str()) == eq, "comparison with text wrong for %s", a);
        CHECK((ws[i] != u) == !eq && (ws[i] != u.c_str()) == !eq, "text inequality wrong for %s", a);
    }
    // same letters, storage of another origin: hash must agree
    for(int i = 0; i < n; i++) {
        L16 lw = lower(ls[i]); Word viaText(to8(lw)); Word viaLetters(mk(lw)); Word viaCopy(viaText); Word viaJoin = mk(L16(lw.begin(), lw.begin())).join(viaText);
        CHECK(viaText == viaLetters && viaText.hash() == viaLetters.hash(), "equal words hash differently (text/letters) %s", show(lw).c_str());
        CHECK(viaCopy.hash() == viaText.hash() && viaJoin.hash() == viaText.hash(), "equal words hash differently (copy/join) %s", show(lw).c_str());
        std::vector<Letter> noterm; for(auto c : lw) noterm.push_back(Letter(c));
        if(!noterm.empty()) { Word v2(noterm.data(), noterm.size()); CHECK(v2 == viaText && v2.hash() == viaText.hash(), "unterminated letters: equal words differ"); }
    }
    if(n > 0) { string s = to8(ls[0]) + "\xff"; CHECK(!(ws[0] == s.c_str()), "equal to invalid text"); }
}
void caseC04(Rng &r) {
    std::vector<unique_ptr<Word>> ws; std::vector<L16> ms;
    int ops = r.range(4, 30);
    for(int o = 0; o < ops; o++) {
        int k = ws.empty() ? 0 : r.range(0, 10);
        size_t i = r.below(ws.size()), j = r.below(ws.size());
        if(k == 0) { L16 w = randLetters(r, true); ws.emplace_back(new Word(mk(w))); ms.push_back(w); note("new %s", show(w).c_str()); }
        else if(k == 1) { ws.emplace_back(new Word(*ws[i])); L16 m = ms[i]; ms.push_back(m); note("copy %zu", i); }
        else if(k == 2) { ws.emplace_back(new Word(std::move(*ws[i]))); L16 m = ms[i]; ms.push_back(m); ms[i].clear(); note("move-construct %zu", i); }
        else if(k == 3) { note("copy-assign %zu = %zu", j, i); *ws[j] = *ws[i]; ms[j] = ms[i]; }
        else if(k == 4) { if(i == j) continue; note("move-assign %zu = %zu", j, i); *ws[j] = std::move(*ws[i]); ms[j] = ms[i]; ms[i].clear(); }
        else if(k == 5) { note("join %zu %zu", i, j); L16 m = ms[i]; m.insert(m.end(), ms[j].begin(), ms[j].end()); ws.emplace_back(new Word(ws[i]->join(*ws[j]))); ms.push_back(m); }
        else if(k == 6) { note("self-assign %zu", i); Word &x = *ws[i]; Word &y = x; x = y; }
        else if(k == 7) { note("delete %zu", i); ws.erase(ws.begin() + i); ms.erase(ms.begin() + i); }
        else if(k == 8) { string s; L16 w; do s = randText(r); while(!accept(s, w)); note("assign text %zu = %s", i, esc(s).c_str()); *ws[i] = s; ms[i] = w; }
        else if(k == 9) { note("empty"); ws.emplace_back(new Word()); ms.push_back(L16()); }
        else { note("assign-chain %zu", i); Word t; t = *ws[i] = *ws[j]; ms[i] = ms[j]; CHECK(lettersOf(t) == ms[j], "chained assignment gave %s", show(t).c_str()); }
        for(size_t q = 0; q < ws.size(); q++) {
            CHECK(ws[q]->length() == ms[q].size() && lettersOf(*ws[q]) == ms[q], "word %zu is %s, expected %s", q, show(*ws[q]).c_str(), show(ms[q]).c_str());
            if(o == ops - 1 || q == i) CHECK(ws[q]->asUtf8() == to8(ms[q]) && *ws[q] == to8(ms[q]), "word %zu has wrong text", q);
        }
        if(ws.size() > 12) { ws.erase(ws.begin()); ms.erase(ms.begin()); }
    }
    nontrivial++;
}
void caseC05(Rng &r) {
    static const char *sets[] = {" \t\n\r", ",", ", ;", "x", " ", "\t ", "/.-"};
    string seps = sets[r.below(7)]; bool ws = seps == " \t\n\r";
    string t; int n = r.chance(5) ? r.range(200, 900) : r.range(0, 25);
    int sepPct = r.range(5, 70), badPct = r.chance(25) ? 3 : 0, caps = r.chance(50);
    int lead = r.chance(40) ? r.range(1, 4) : 0, trail = r.chance(40) ? r.range(1, 4) : 0;
    for(int i = 0; i < lead; i++) t += seps[r.below(seps.size())];
    for(int i = 0; i < n; i++) {
        if(r.chance(sepPct)) t += seps[r.below(seps.size())];
        else if(r.chance(badPct)) t += r.chance(50) ? string("\xff") : r.chance(50) ? string(" ") : string("\xed\xa0\x80");
        else if(r.chance(20)) put8(t, r.chance(50) ? 0xe4 : r.chance(50) ? 0x3b1 : 0x1f600);
        else t += (char)(r.chance(caps ? 30 : 0) ? r.range('A', 'E') : r.range('a', 'e'));
    }
    for(int i = 0; i < trail; i++) t += seps[r.below(seps.size())];
    if(r.below(400) == 0) { t.insert(r.below(t.size() + 1), string(r.chance(50) ? r.range(250, 530) : r.range(65500, 66100), 'e')); while(!t.empty() && (t[0] & 0xc0) == 0x80) t.erase(0, 1); }
    note("separators %s text %s", esc(seps).c_str(), esc(t).c_str());
    std::vector<L16> want; bool bad = false; string cur;
    for(size_t i = 0; i <= t.size(); i++) {
        if(i == t.size() || seps.find(t[i]) != string::npos) {
            if(!cur.empty()) { L16 w; if(accept(cur, w)) want.push_back(w); else bad = true; cur.clear(); }
        } else cur += t[i];
    }
    nontrivial += want.size() > 1;
    std::vector<Letter> sl; for(char c : seps) sl.push_back(Letter((uint16_t)c));
    unique_ptr<Letter[]> h(new Letter[sl.size()]); std::copy(sl.begin(), sl.end(), h.get());
    for(int mode = 0; mode < (ws ? 2 : 1); mode++) {
        bool threw = false; WordList got; CStr c(t);
        try { if(mode) got = splitToWords(c); else got = split(c, h.get(), (int)sl.size()); } catch(std::exception &) { threw = true; }
        CHECK(threw == bad, "splitting %s %s", esc(t).c_str(), threw ? "failed though every run is a word" : "succeeded though a run is invalid");
        CHECK(!strcmp(c, t.c_str()), "the text was changed");
        if(threw) continue;
        CHECK(got.size() == want.size(), "splitting %s gave %zu words, expected %zu", esc(t).c_str(), got.size(), want.size());
        for(size_t i = 0; i < want.size(); i++) CHECK(lettersOf(got[i]) == want[i], "word %zu is %s, expected %s", i, show(got[i]).c_str(), show(want[i]).c_str());
    }
    if(ws) for(uint32_t c = 0; c < 0x10000; c += (r.chance(50) ? 1 : 7)) CHECK(isWhitespace(Letter((uint16_t)c)) == isws(c), "isWhitespace(%x) wrong", c);
}
