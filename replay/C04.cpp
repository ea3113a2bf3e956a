#include "bbutil.h"
template<typename T> void put_(ByteBuffer& b, T v, int t) { b.put<T>(v); }
template<typename T> void doT(Src& s, BB& B, unsigned op, size_t i, uint64_t v, size_t cnt, bool fk)
{
    T val = fromBits<T>(v); size_t k = sizeof(T); unsigned char e[8]; encode<T>(e, val, B.big);
    switch(op) {
    case 0: if(k > B.lim - B.pos) { if(fk) CHECK(aborts([&]{ B.b->put<T>(val); }), "put accepted"); return; }
        B.b->put<T>(val); memcpy(&B.ref[B.pos], e, k); B.pos += k; break;
    case 1: if(k > B.lim || i > B.lim - k) { if(fk) CHECK(aborts([&]{ B.b->put<T>(i, val); }), "put(i) accepted i=%zu", i); return; }
        B.b->put<T>(i, val); memcpy(&B.ref[i], e, k); break;
    case 2: if(k > B.lim - B.pos) { if(fk) CHECK(aborts([&]{ B.b->get<T>(); }), "get accepted"); return; }
        { T r = B.b->get<T>(); CHECK(bitsEq(r, decode<T>(&B.ref[B.pos], B.big)), "get"); B.pos += k; } break;
    case 3: if(k > B.lim || i > B.lim - k) { if(fk) CHECK(aborts([&]{ volatile T x = B.b->get<T>(i); (void)x; }), "get(i) accepted i=%zu", i); return; }
        { T r = B.b->get<T>(i); CHECK(bitsEq(r, decode<T>(&B.ref[i], B.big)), "get(i)"); } break;
    case 4: case 5: {
        bool fits = cnt <= (B.lim - B.pos) / k;
        size_t have = fits ? cnt : 4;
        std::unique_ptr<T[]> a(new T[have]); uint64_t x = v;
        for(size_t j = 0; j < have; j++) { a[j] = fromBits<T>(x); x = x * 6364136223846793005ull + 1; }
        if(!fits) { if(fk) CHECK(aborts([&]{ if(op == 4) B.b->putArray<T>(a.get(), cnt); else B.b->getArray<T>(a.get(), cnt); }), "array accepted cnt=%zu", cnt); return; }
        if(op == 4) { B.b->putArray<T>(a.get(), cnt); for(size_t j = 0; j < cnt; j++) encode<T>(&B.ref[B.pos + j * k], a[j], B.big); }
        else { B.b->getArray<T>(a.get(), cnt); for(size_t j = 0; j < cnt; j++) CHECK(bitsEq(a[j], decode<T>(&B.ref[B.pos + j * k], B.big)), "getArray[%zu]", j); }
        B.pos += cnt * k; break; }
    }
    B.same("typed");
}
// words: op, type, fork?, i, v, count, off, size, lim, pos, big, seed
void run_case(Src& s, const std::string&)
{
    unsigned op = s.range(0, 14), ty = s.range(0, 9); bool fk = s.gen ? s.range(0, 30) == 0 : s.any() != 0; if(s.gen) { }
    uint64_t i = s.gen && s.rng() % 4 ? s.range(0, 72) : s.any(), v = s.any(), cnt = s.gen && s.rng() % 8 ? s.range(0, 40) : s.any(), off = s.range(0, 8);
    BB B(s);
    if(op <= 5) {
        switch(ty) {
        case 0: doT<int8>(s, B, op, i, v, cnt, fk); break; case 1: doT<uint8>(s, B, op, i, v, cnt, fk); break;
        case 2: doT<int16>(s, B, op, i, v, cnt, fk); break; case 3: doT<uint16>(s, B, op, i, v, cnt, fk); break;
        case 4: doT<int32>(s, B, op, i, v, cnt, fk); break; case 5: doT<uint32>(s, B, op, i, v, cnt, fk); break;
        case 6: doT<int64>(s, B, op, i, v, cnt, fk); break; case 7: doT<uint64>(s, B, op, i, v, cnt, fk); break;
        case 8: doT<float>(s, B, op, i, v, cnt, fk); break; case 9: doT<double>(s, B, op, i, v, cnt, fk); break;
        }
        return;
    }
    if(op == 6 || op == 7) {
        bool fits = cnt <= B.lim - B.pos; size_t have = (fits ? cnt : 8) + off;
        std::vector<char> m(have); for(size_t j = 0; j < have; j++) m[j] = v + j * 7;
        std::vector<char> m0(m);
        if(!fits) { if(fk) CHECK(aborts([&]{ if(op == 6) B.b->put(m.data(), off, cnt); else B.b->get(m.data(), off, cnt); }), "mem accepted"); return; }
        if(op == 6) { B.b->put(m.data(), off, cnt); memcpy(B.ref.data() + B.pos, m.data() + off, cnt); }
        else { B.b->get(m.data(), off, cnt); for(size_t j = 0; j < have; j++) CHECK((unsigned char)m[j] == (j < off ? (unsigned char)m0[j] : B.ref[B.pos + j - off]), "get mem"); }
        B.pos += cnt;
    } else if(op == 8) { B.b->clear(); B.pos = 0; B.lim = B.n; }
    else if(op == 9) { B.b->flip(); B.lim = B.pos; B.pos = 0; }
    else if(op == 10) { B.b->rewind(); B.pos = 0; }
    else if(op == 11) { if(i > B.lim) { if(fk) CHECK(aborts([&]{ B.b->setPosition(i); }), "setPosition(%zu)", (size_t)i); return; } B.b->setPosition(i); B.pos = i; }
    else if(op == 12) { if(i > B.n || i < B.pos) { if(fk) CHECK(aborts([&]{ B.b->setLimit(i); }), "setLimit(%zu)", (size_t)i); return; } B.b->setLimit(i); B.lim = i; }
    else if(op == 13) { B.b->setEndianess(v & 1 ? 4321 : 1234); CHECK(B.b->reverse<int32>() == bool(v & 1) && B.b->reverse<double>() == bool(v & 1) && B.b->reverse<float>() == bool(v & 1) && !B.b->reverse<int8>() && !B.b->reverse<bool>(), "endianess"); }
    else {
        ByteBuffer X(size_t(i % 100), v & 1 ? 4321 : 1234);
        CHECK(X.getPosition() == 0 && X.getLimit() == i % 100 && X.getSize() == i % 100 && X.reverse<int32>() == bool(v & 1), "constructor");
        bool threw = false; try { ByteBuffer Y((char*)0, 4); } catch(std::invalid_argument&) { threw = true; } CHECK(threw, "NULL accepted");
        while(X.getRemaining()) X.put<int8>(1);
    }
    B.same("op");
}
