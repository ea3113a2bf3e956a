#include "bsutil.h"
// words: op, idx, val, alias, a (n, words...), b, c
void run_case(Src& s, const std::string&)
{
    unsigned op = s.range(0, 11), idx = s.range(0, 1000); bool val = s.flag(); unsigned alias = s.range(0, 4);
    Words a = takeWords(s), b = takeWords(s), c = takeWords(s), want = a;
    BitSet A, B, C; make(A, a); make(B, b); make(C, c);
    size_t n = std::max(std::max(a.size(), std::max(b.size(), c.size())), size_t(idx / 64 + 1));
    want.resize(n, 0);
    uint64_t m = 1ull << (idx % 64);
    const BitSet *s1 = &B, *s2 = &C; Words w1 = b, w2 = c;
    if(op == 0) { A.set(idx); want[idx / 64] |= m; }
    else if(op == 1) { A.clear(idx); want[idx / 64] &= ~m; }
    else if(op == 2) { A.flip(idx); want[idx / 64] ^= m; }
    else if(op == 3) { A.set(idx, val); if(val) want[idx / 64] |= m; else want[idx / 64] &= ~m; }
    else if(op == 4) { A.clear(); want.assign(n, 0); }
    else if(op >= 5 && op <= 8) {
        if(alias) { s1 = &A; w1 = a; }
        BitSet *r = 0;
        switch(op) {
        case 5: r = &(A &= *s1); for(size_t i = 0; i < n; i++) want[i] &= word(w1, i); break;
        case 6: r = &(A |= *s1); for(size_t i = 0; i < n; i++) want[i] |= word(w1, i); break;
        case 7: r = &(A ^= *s1); for(size_t i = 0; i < n; i++) want[i] ^= word(w1, i); break;
        case 8: r = &(A = *s1); for(size_t i = 0; i < n; i++) want[i] = word(w1, i); break;
        }
        CHECK(r == &A, "returns *this");
        if(!alias) same(B, b, "argument");
    } else if(op == 9) {
        if(alias & 1) { s1 = &A; w1 = a; }
        if(alias & 2) { s2 = &A; w2 = a; }
        if(alias == 4) { s2 = s1; w2 = w1; }
        A.or_and(*s1, *s2);
        for(size_t i = 0; i < n; i++) want[i] |= word(w1, i) & word(w2, i);
    } else if(op == 10) { A.swap(B); same(B, a, "swap b"); want = b; }
    else { BitSet X(idx); CHECK(X.words.empty(), "BitSet(n) not empty"); CHECK(BitSet().words.empty(), "BitSet()"); }
    same(A, want, "result");
}
