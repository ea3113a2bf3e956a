#pragma once
#include "harness.h"
#include <pv/byteBuffer.h>
#include <pv/pvData.h>
#include <pv/serializeHelper.h>
#include <memory>
using namespace epics::pvData;
typedef std::vector<unsigned char> Bytes;
struct Rnd { uint64_t x; uint64_t operator()() { x = x * 6364136223846793005ull + 1442695040888963407ull; return x >> 33; } };
// a flusher with a small buffer and an arbitrary flushing policy
struct W : SerializableControl {
    size_t cap; char *mem; ByteBuffer b; Bytes out; Rnd r; bool direct;
    W(size_t cap, bool big, uint64_t seed, bool direct = false) : cap(cap), mem((char*)malloc(cap)), b(mem, cap, big ? 4321 : 1234), direct(direct) { r.x = seed; start(); }
    ~W() { free(mem); }
    size_t from;
    void start() { from = r() % 3 ? 0 : r() % (cap + 1 - 16); b.clear(); if(r() % 4 == 0) b.setLimit(cap - r() % (cap - from - 15)); b.setPosition(from); }
    void drain() { out.insert(out.end(), mem + from, mem + b.getPosition()); }
    void flushSerializeBuffer() { drain(); start(); }
    void ensureBuffer(size_t n) { if(b.getRemaining() >= n && r() % 4) return; drain(); from = 0; b.clear(); if(b.getRemaining() < n) throw std::logic_error("flusher: cannot ensure"); }
    bool directSerialize(ByteBuffer *, const char *p, size_t n, size_t es) { if(!direct || r() % 2) return false; drain(); out.insert(out.end(), p, p + n * es); start(); return true; }
    void cachedSerialize(std::tr1::shared_ptr<const Field> const & f, ByteBuffer *b) { f->serialize(b, this); }
    Bytes done() { drain(); from = b.getPosition(); return out; }
};
struct NoData : std::runtime_error { NoData() : std::runtime_error("no data") {} };
// input arriving in arbitrary fragments
struct R : DeserializableControl {
    size_t cap; char *mem; ByteBuffer b; Bytes in; size_t next; Rnd r; bool direct;
    R(const Bytes& in, size_t cap, bool big, uint64_t seed, bool direct = false) : cap(cap), mem((char*)malloc(cap)), b(mem, cap, big ? 4321 : 1234), in(in), next(0), direct(direct) { r.x = seed; b.setLimit(0); fill(0, r() % 2 ? cap : 0); }
    ~R() { free(mem); }
    void fill(size_t need, size_t want) {
        size_t have = b.getRemaining(); Bytes k(mem + b.getPosition(), mem + b.getPosition() + have);
        size_t n = std::min(std::max(want, need), cap); if(n < have) n = have;
        size_t add = std::min(n - have, in.size() - next);
        size_t at = have + add < cap ? r() % (cap - have - add + 1) : 0;
        b.clear(); memset(mem, 0xEE, cap); std::copy(k.begin(), k.end(), mem + at); std::copy(in.begin() + next, in.begin() + next + add, mem + at + have); next += add;
        b.setLimit(at + have + add); b.setPosition(at);
    }
    void ensureData(size_t n) {
        if(b.getRemaining() >= n && r() % 4) return;
        fill(n, n + r() % 9); if(b.getRemaining() < n) throw NoData();
    }
    bool directDeserialize(ByteBuffer *, char *to, size_t n, size_t es) {
        if(!direct || r() % 2) return false;
        size_t k = n * es, h = std::min(k, b.getRemaining());
        if(k - h > in.size() - next) throw NoData();
        memcpy(to, mem + b.getPosition(), h); b.setPosition(b.getPosition() + h); if(k > h) memcpy(to + h, &in[next], k - h); next += k - h; return true;
    }
    std::tr1::shared_ptr<const Field> cachedDeserialize(ByteBuffer *b) { return getFieldCreate()->deserialize(b, this); }
    size_t used() { return next - b.getRemaining(); }
};
inline void putSize(Bytes& o, size_t n, bool big) {
    if(n == (size_t)-1) o.push_back(255); else if(n < 254) o.push_back(n);
    else { o.push_back(254); for(int i = 0; i < 4; i++) o.push_back(n >> 8 * (big ? 3 - i : i)); }
}
// false: refused (negative) or truncated
inline bool getSize(const Bytes& in, size_t& at, bool big, size_t& n, bool& trunc) {
    trunc = true; if(at >= in.size()) return false;
    unsigned b = in[at]; if(b == 255) { at++; n = (size_t)-1; trunc = false; return true; }
    if(b < 254) { at++; n = b; trunc = false; return true; }
    if(in.size() - at < 5) return false;
    uint32_t v = 0; for(int i = 0; i < 4; i++) v |= (uint32_t)in[at + 1 + i] << 8 * (big ? 3 - i : i);
    trunc = false; at += 5; if(v & 0x80000000u) return false; n = v; return true;
}
inline void putStr(Bytes& o, const std::string& s, bool big) { putSize(o, s.size(), big); o.insert(o.end(), s.begin(), s.end()); }
inline std::string rndStr(Src& s, size_t max) { size_t n = s.range(0, max); Rnd r; r.x = s.any(); std::string x(n, 0); for(size_t i = 0; i < n; i++) x[i] = r(); return x; }
inline size_t lenish(Src& s) { switch(s.range(0, 3)) { case 0: return s.range(0, 8); case 1: return s.range(250, 258); case 2: return s.range(0, 700); default: return s.range(0, 40); } }
inline std::string rndStrL(Src& s) { size_t n = lenish(s); Rnd r; r.x = s.any(); std::string x(n, 0); for(size_t i = 0; i < n; i++) x[i] = r(); return x; }
#define SAME(got, want, what) do { Bytes _g = (got), _w = (want); CHECK(_g.size() == _w.size(), "%s: %zu bytes, want %zu", what, _g.size(), _w.size()); for(size_t _i = 0; _i < _g.size(); _i++) CHECK(_g[_i] == _w[_i], "%s: byte %zu is %02x want %02x", what, _i, _g[_i], _w[_i]); } while(0)
