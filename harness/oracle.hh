#pragma once
#include "common.hh"
struct EModel {
    int ins = 100, del = 100, enddel = 100, start = 100, trans = 100, dflt = 100; size_t limit = 0;
    std::map<std::pair<uint16_t, uint16_t>, int> pairs; std::map<uint16_t, int> group; std::vector<int> gerr;
    int sub(uint16_t x, uint16_t y) const {
        if(x == y) return 0;
        auto f = pairs.find({std::min(x, y), std::max(x, y)}); if(f != pairs.end()) return f->second;
        auto g = group.find(x), h = group.find(y); if(g != group.end() && h != group.end() && g->second == h->second) return gerr[g->second];
        return dflt;
    }
    int distance(const L16 &word, const L16 &q) const;
};
void randErrors(Rng &r, const Alphabet &a, ErrorValues &e, EModel &m);
void mutate(Rng &r, const Alphabet &a, L16 &w);
