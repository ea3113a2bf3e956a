#pragma once
#include "harness.h"
#include <set>
#include <pv/bitSet.h>
#include <pv/byteBuffer.h>
#include <pv/serializeHelper.h>
using namespace epics::pvData;
// a BitSet made from words; oracle is the vector of words
typedef std::vector<uint64_t> Words;
inline uint64_t word(const Words& w, size_t i) { return i < w.size() ? w[i] : 0; }
inline Words takeWords(Src& s) {
    Words w(s.range(0, 6));
    for(size_t i = 0; i < w.size(); i++) w[i] = s.any();
    if(!w.empty() && w.back() == 0) w.back() = 1;
    return w;
}
inline void make(BitSet& b, const Words& w) { b.words.assign(w.begin(), w.end()); }
inline void same(const BitSet& b, const Words& w, const char *what) {
    CHECK(b.words.empty() || b.words.back() != 0, "%s: not canonical", what);
    for(size_t i = 0; i < std::max(w.size(), b.words.size()); i++)
        CHECK((i < b.words.size() ? b.words[i] : 0) == word(w, i), "%s: word %zu", what, i);
}
