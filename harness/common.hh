// Replay / bounded search harness: independent oracles over the public interface.
#pragma once
#include "Word.hh"
#include "WordList.hh"
#include "ColumbusHelpers.hh"
#include "Document.hh"
#include "Corpus.hh"
#include "WordStore.hh"
#include "LevenshteinIndex.hh"
#include "IndexMatches.hh"
#include "IndexWeights.hh"
#include "ErrorValues.hh"
#include "MatchResults.hh"
#include "Matcher.hh"
#include "ResultFilter.hh"
#include "SearchParameters.hh"
#include <string>
#include <vector>
#include <map>
#include <set>
#include <memory>
#include <algorithm>
#include <functional>
#include <stdexcept>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdint>
#include <cstdarg>
#include <unicode/uchar.h>

using namespace Columbus;
typedef std::vector<uint16_t> L16;

struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed) : s(seed) {}
    uint64_t next() {
        uint64_t z = (s += 0x9e3779b97f4a7c15ull);
        z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
        z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
        return z ^ (z >> 31);
    }
    uint64_t below(uint64_t n) { return n ? next() % n : 0; }
    int range(int a, int b) { return a + (int)below((uint64_t)(b - a) + 1); }
    bool chance(int pct) { return (int)below(100) < pct; }
    template<class T> const T& pick(const std::vector<T> &v) { return v[below(v.size())]; }
};

extern bool verbose;
extern int thorough;
extern unsigned long long nontrivial;   // set by a case when it was not trivial
void note(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
[[noreturn]] void fail(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
#define CHECK(c, ...) do { if(!(c)) fail(__VA_ARGS__); } while(0)

inline void put8(std::string &o, uint32_t c) {
    if(c < 0x80) o += (char)c;
    else if(c < 0x800) { o += (char)(0xc0 | c >> 6); o += (char)(0x80 | (c & 63)); }
    else if(c < 0x10000) { o += (char)(0xe0 | c >> 12); o += (char)(0x80 | (c >> 6 & 63)); o += (char)(0x80 | (c & 63)); }
    else { o += (char)(0xf0 | c >> 18); o += (char)(0x80 | (c >> 12 & 63)); o += (char)(0x80 | (c >> 6 & 63)); o += (char)(0x80 | (c & 63)); }
}
// strict decoder; false if not valid UTF-8
inline bool get16(const std::string &s, L16 &out) {
    out.clear();
    for(size_t i = 0; i < s.size();) {
        unsigned char b = s[i];
        uint32_t c; int n;
        if(b < 0x80) { c = b; n = 0; }
        else if(b >= 0xc2 && b < 0xe0) { c = b & 31; n = 1; }
        else if(b >= 0xe0 && b < 0xf0) { c = b & 15; n = 2; }
        else if(b >= 0xf0 && b < 0xf5) { c = b & 7; n = 3; }
        else return false;
        if(i + n >= s.size()) return false;
        for(int k = 1; k <= n; k++) {
            unsigned char x = s[i + k];
            if((x & 0xc0) != 0x80) return false;
            c = c << 6 | (x & 63);
        }
        if((n == 2 && c < 0x800) || (n == 3 && (c < 0x10000 || c > 0x10ffff)) || (c >= 0xd800 && c < 0xe000)) return false;
        if(c < 0x10000) out.push_back((uint16_t)c);
        else { c -= 0x10000; out.push_back((uint16_t)(0xd800 + (c >> 10))); out.push_back((uint16_t)(0xdc00 + (c & 1023))); }
        i += n + 1;
    }
    return true;
}
inline std::string to8(const L16 &w) {
    std::string o;
    for(size_t i = 0; i < w.size(); i++) {
        uint32_t c = w[i];
        if(c >= 0xd800 && c < 0xdc00 && i + 1 < w.size()) { c = 0x10000 + ((c - 0xd800) << 10) + (w[i + 1] - 0xdc00); i++; }
        put8(o, c);
    }
    return o;
}
inline bool isws(uint32_t c) { return c == ' ' || c == '\t' || c == '\n' || c == '\r'; }
inline bool goodword(const L16 &w) {
    for(size_t i = 0; i < w.size(); i++) {
        if(w[i] == 0 || isws(w[i])) return false;
        if(w[i] >= 0xd800 && w[i] < 0xdc00) {
            if(i + 1 >= w.size() || w[i + 1] < 0xdc00 || w[i + 1] > 0xdfff) return false;
            i++;
        } else if(w[i] >= 0xdc00 && w[i] < 0xe000) return false;
    }
    return true;
}
inline L16 lower(L16 w) { for(auto &c : w) c = (uint16_t)u_tolower(c); return w; }
inline L16 lettersOf(const Word &w) { L16 r; for(unsigned i = 0; i < w.length(); i++) r.push_back((uint16_t)w[i]); return r; }
inline std::string show(const L16 &w) { std::string s = "<"; char b[8]; for(auto c : w) { if(c > 32 && c < 127) s += (char)c; else { snprintf(b, 8, "\\%x;", c); s += b; } if(s.size() > 300) { s += "..."; break; } } return s + ">"; }
inline std::string show(const Word &w) { return show(lettersOf(w)); }
inline std::string esc(const std::string &t) { std::string s; char b[8]; for(unsigned char c : t) { if(c > 32 && c < 127 && c != '\\') s += (char)c; else { snprintf(b, 8, "\\x%02x", c); s += b; } if(s.size() > 600) { s += "..."; break; } } return "\"" + s + "\""; }
inline Word mk(const L16 &w) { std::vector<Letter> v; for(auto c : w) v.push_back(Letter(c)); v.push_back(Letter((uint16_t)0)); return Word(v.data(), v.size()); }
inline Word W(const char *s) { return Word(s); }

struct Alphabet { std::vector<L16> sym; };
Alphabet makeAlphabet(Rng &r, int n);
L16 randWord(Rng &r, const Alphabet &a, int lo, int hi);
typedef void (*CaseFn)(Rng &);
struct Prop { const char *id; CaseFn fn; unsigned quick, thorough; const char *rule; };
