#include "bsutil.h"
// words: op, idx, self, x, a, b
void run_case(Src& s, const std::string&)
{
    unsigned op = s.range(0, 10), idx = s.range(0, 500); bool self = s.flag(); uint64_t x = s.any();
    Words a = takeWords(s), b = takeWords(s);
    if(s.gen && (x & 1)) { b = a; if(!b.empty() && (x & 2)) { b[(x >> 8) % b.size()] ^= 1ull << ((x >> 3) & 63); if(!b.back()) b.back() = 1; }
        s.begin(); s.rec(op); s.rec(idx); s.rec(self); s.rec(x); s.rec(a.size()); for(auto w : a) s.rec(w); s.rec(b.size()); for(auto w : b) s.rec(w); }
    BitSet A, B; make(A, a); make(B, b);
    const BitSet& R = self ? A : B; if(self) b = a;
    size_t nb = 64 * (std::max(a.size(), b.size()) + 10);
    auto bit = [](const Words& w, size_t i) { return (word(w, i / 64) >> (i % 64)) & 1; };
    bool anya = false, anyb = false, common = false, eq = true; unsigned card = 0;
    for(size_t i = 0; i < nb; i++) { anya |= bit(a, i); anyb |= bit(b, i); common |= bit(a, i) & bit(b, i); eq &= bit(a, i) == bit(b, i); card += bit(a, i); }
    switch(op) {
    case 0: CHECK(A.get(idx) == bool(bit(a, idx)), "get(%u)", idx); break;
    case 1: { int want = -1; for(size_t i = idx; i < nb; i++) if(bit(a, i)) { want = i; break; } CHECK(A.nextSetBit(idx) == want, "nextSetBit(%u)=%d want %d", idx, A.nextSetBit(idx), want); break; }
    case 2: { int want = idx; while(bit(a, want)) want++; CHECK(A.nextClearBit(idx) == want, "nextClearBit(%u)=%d want %d", idx, A.nextClearBit(idx), want); break; }
    case 3: CHECK(A.cardinality() == card, "cardinality %u want %u", A.cardinality(), card); break;
    case 4: CHECK(A.isEmpty() == !anya, "isEmpty"); CHECK(A.size() == 64 * a.size(), "size"); break;
    case 5: CHECK((A == R) == eq, "=="); break;
    case 6: CHECK((A != R) == !eq, "!="); break;
    case 7: CHECK(A.logical_and(R) == common, "logical_and"); break;
    case 8: CHECK(A.logical_or(R) == (anya || anyb), "logical_or"); break;
    case 9: { unsigned n = 0; for(int i = 0; i < 64; i++) n += (x >> i) & 1; CHECK(BitSet::bitCount(x) == n, "bitCount"); break; }
    case 10: { unsigned n = 0; while(n < 64 && !((x >> n) & 1)) n++; CHECK(BitSet::numberOfTrailingZeros(x) == n, "ntz"); break; }
    }
    same(A, a, "unchanged");
}
