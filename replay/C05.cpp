#include "bbutil.h"
template<typename T> void named(ByteBuffer& b, size_t i, T v, bool put, bool idx, T& r);
#define NAMED(T, N) template<> void named<T>(ByteBuffer& b, size_t i, T v, bool put, bool idx, T& r) { if(put) { if(idx) b.put##N(i, v); else b.put##N(v); } else r = idx ? b.get##N(i) : b.get##N(); }
NAMED(int8, Byte) NAMED(int16, Short) NAMED(int32, Int) NAMED(int64, Long) NAMED(float, Float) NAMED(double, Double)
#define UN(T) template<> void named<T>(ByteBuffer& b, size_t i, T v, bool put, bool idx, T& r) { if(put) { if(idx) b.put<T>(i, v); else b.put<T>(v); } else r = idx ? b.get<T>(i) : b.get<T>(); }
UN(uint8) UN(uint16) UN(uint32) UN(uint64)
template<typename T> void doT(BB& B, unsigned op, size_t i, uint64_t v, size_t cnt, bool nm, bool idx)
{
    T val = fromBits<T>(v), r = T(); size_t k = sizeof(T); unsigned char e[8]; encode<T>(e, val, B.big);
    size_t at = idx ? i : B.pos;
    if(op <= 3 && (k > B.lim || at > B.lim - k)) return;
    switch(op) {
    case 0: if(nm) named<T>(*B.b, i, val, true, idx, r); else if(idx) B.b->put<T>(i, val); else B.b->put<T>(val);
        memcpy(&B.ref[at], e, k); if(!idx) B.pos += k; break;
    case 1: if(nm) named<T>(*B.b, i, val, false, idx, r); else r = idx ? B.b->get<T>(i) : B.b->get<T>();
        CHECK(bitsEq(r, decode<T>(&B.ref[at], B.big)), "get"); if(!idx) B.pos += k; break;
    case 2: if(B.pos > B.lim - k) return; { size_t p = B.pos; B.b->put<T>(val); B.b->setPosition(p); r = B.b->get<T>(); CHECK(bitsEq(r, val), "round trip"); memcpy(&B.ref[p], e, k); B.pos += k; } break;
    case 3: if(B.pos > B.lim - k) return; B.b->setEndianess(nm ? 4321 : 1234); encode<T>(e, val, nm); B.b->put<T>(val); memcpy(&B.ref[B.pos], e, k); B.pos += k; break;
    case 4: case 5: { if(cnt > (B.lim - B.pos) / k) return;
        std::unique_ptr<T[]> a(new T[cnt]); uint64_t x = v;
        for(size_t j = 0; j < cnt; j++) { a[j] = fromBits<T>(x); x = x * 6364136223846793005ull + 1; }
        if(op == 4) { B.b->putArray<T>(a.get(), cnt); for(size_t j = 0; j < cnt; j++) encode<T>(&B.ref[B.pos + j * k], a[j], B.big); }
        else { B.b->getArray<T>(a.get(), cnt); for(size_t j = 0; j < cnt; j++) CHECK(bitsEq(a[j], decode<T>(&B.ref[B.pos + j * k], B.big)), "getArray[%zu]", j); }
        B.pos += cnt * k; break; }
    case 6: { T w = swap<T>(val); unsigned char a[8], b[8]; memcpy(a, &val, k); memcpy(b, &w, k); for(size_t j = 0; j < k; j++) CHECK(a[j] == b[k - 1 - j], "swap"); break; }
    }
    B.same("typed");
}
// words: op, type, named, indexed, i, v, count, size, lim, pos, big, seed
void run_case(Src& s, const std::string&)
{
    unsigned op = s.range(0, 7), ty = s.range(0, 9); bool nm = s.flag(), idx = s.flag();
    uint64_t i = s.range(0, 72), v = s.any(), cnt = s.range(0, 40);
    BB B(s);
    if(op == 7) {
        size_t at = idx ? i : B.pos; if(at >= B.lim) return;
        if(nm) { if(idx) B.b->putBoolean(i, v & 1); else B.b->putBoolean(bool(v & 1)); B.ref[at] = v & 1; }
        else { bool r = idx ? B.b->getBoolean(i) : B.b->getBoolean(); CHECK(r == (B.ref[at] != 0), "getBoolean"); }
        if(!idx) B.pos++;
        B.same("boolean"); return;
    }
    switch(ty) {
    case 0: doT<int8>(B, op, i, v, cnt, nm, idx); break; case 1: doT<uint8>(B, op, i, v, cnt, nm, idx); break;
    case 2: doT<int16>(B, op, i, v, cnt, nm, idx); break; case 3: doT<uint16>(B, op, i, v, cnt, nm, idx); break;
    case 4: doT<int32>(B, op, i, v, cnt, nm, idx); break; case 5: doT<uint32>(B, op, i, v, cnt, nm, idx); break;
    case 6: doT<int64>(B, op, i, v, cnt, nm, idx); break; case 7: doT<uint64>(B, op, i, v, cnt, nm, idx); break;
    case 8: doT<float>(B, op, i, v, cnt, nm, idx); break; case 9: doT<double>(B, op, i, v, cnt, nm, idx); break;
    }
}
