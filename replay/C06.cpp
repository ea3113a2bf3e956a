#include "stream.h"
// words: op, big, cap, seed, a, b, string...
void run_case(Src& s, const std::string&)
{
    unsigned op = s.range(0, 4); bool big = s.flag(); size_t cap = s.range(16, 80); uint64_t seed = s.any();
    Bytes want;
    if(op == 0) {
        size_t n = s.any(); if(n >= (1ull << 31) && n != (size_t)-1) n &= 0x7fffffff;
        W w(cap, big, seed); SerializeHelper::writeSize(n, &w.b, &w); putSize(want, n, big); SAME(w.done(), want, "writeSize");
        R r(want, cap, big, seed); CHECK(SerializeHelper::readSize(&r.b, &r) == n, "readSize"); CHECK(r.used() == want.size(), "consumed"); return;
    }
    if(op == 1 || op == 4) {         // arbitrary bytes
        size_t k = s.range(0, 12); Rnd q; q.x = s.any(); Bytes in(k); for(size_t i = 0; i < k; i++) in[i] = q();
        if(k && s.flag()) in[0] = s.range(250, 255);
        size_t at = 0, n = 0; bool trunc; bool ok = getSize(in, at, big, n, trunc);
        R r(in, cap, big, seed);
        if(op == 1) {
            try { size_t g = SerializeHelper::readSize(&r.b, &r); CHECK(ok, "accepted a bad size"); CHECK(g == n, "readSize %zu want %zu", g, n); CHECK(r.used() == at, "consumed"); }
            catch(NoData&) { CHECK(trunc, "asked for too much data"); } catch(BaseException&) { CHECK(!ok && !trunc, "refused"); }
        } else {
            if(ok && n != (size_t)-1 && n > 4096) return;
            try { std::string g = SerializeHelper::deserializeString(&r.b, &r); CHECK(ok, "accepted"); size_t m = n == (size_t)-1 ? 0 : n; CHECK(g.size() == m && at + m <= in.size() && !memcmp(g.data(), in.data() + at, m), "string"); CHECK(r.used() == at + m, "consumed"); }
            catch(NoData&) { CHECK(trunc || n == (size_t)-1 || at + n > in.size(), "asked for too much data"); } catch(BaseException&) { CHECK(!ok && !trunc, "refused"); }
        }
        return;
    }
    std::string v = rndStrL(s);
    W w(cap, big, seed); std::string e = v;
    if(op == 2) SerializeHelper::serializeString(v, &w.b, &w);
    else { size_t o = s.flag() ? s.range(0, v.size() + 2) : s.any(), c = s.flag() ? s.range(0, v.size() + 2) : s.any(); SerializeHelper::serializeSubstring(v, o, c, &w.b, &w); e = o > v.size() ? "" : v.substr(o, c); }
    putStr(want, e, big); SAME(w.done(), want, "string");
    R r(want, cap, big, seed ^ 77); std::string g = SerializeHelper::deserializeString(&r.b, &r); CHECK(g == e, "round trip"); CHECK(r.used() == want.size(), "consumed");
}
