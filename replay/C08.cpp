#include "harness.h"
#include <pv/sharedVector.h>
#include <memory>
#include <stdexcept>
using namespace epics::pvData;
// reference: a view is (storage, offset, length); storage is shared between views exactly as documented
template<class T> struct Model {
    std::shared_ptr<std::vector<T> > s; size_t off = 0, n = 0;
    T& at(size_t i) { return (*s)[off + i]; }
    bool unique() const { return !s || s.use_count() == 1; }
    std::vector<T> copy() { std::vector<T> r; for(size_t i = 0; i < n; i++) r.push_back(at(i)); return r; }
    void fresh(const std::vector<T>& v, size_t want = 1) { if(!s && v.empty() && !want) return; s = std::make_shared<std::vector<T> >(v); off = 0; n = v.size(); }
    void clear() { s.reset(); off = n = 0; }
};
static void val(uint64_t x, int8& t) { t = int8(x); }
static void val(uint64_t x, int32& t) { t = int32(x); }
static void val(uint64_t x, double& t) { t = double(int32(x)); }
static void val(uint64_t x, std::string& t) { char b[40]; snprintf(b, sizeof b, "%d some longer text %d", int(x), int(x)); t = b; }
template<class V, class T> static void same(const V& v, Model<T>& m, const char *w, unsigned op) {
    CHECK(v.size() == m.n && v.empty() == (m.n == 0), "%s after %u: size %zu want %zu", w, op, v.size(), m.n);
    CHECK(v.capacity() >= v.size(), "%s after %u: capacity", w, op);
    CHECK(v.unique() == m.unique(), "%s after %u: unique %d", w, op, v.unique());
    CHECK(size_t(v.end() - v.begin()) == m.n, "%s after %u: end - begin", w, op);
    for(size_t i = 0; i < m.n; i++) CHECK(v[i] == m.at(i) && v.begin()[i] == m.at(i) && v.data()[i] == m.at(i) && v.at(i) == m.at(i), "%s after %u: element %zu of %zu", w, op, i, m.n);
    if(m.n) CHECK(v.front() == m.at(0) && v.back() == m.at(m.n - 1), "%s after %u: ends", w, op);
    if(op != 99) return;
    uint64_t big[3] = {m.n, m.n + 1, ~0ull};
    for(int k = 0; k < 3; k++) { bool thrown = false; try { v.at(big[k]); } catch(std::out_of_range&) { thrown = true; } CHECK(thrown, "%s after %u: at(%llu) of %zu accepted", w, op, (unsigned long long)big[k], m.n); }
}
template<class T> static void go(Src& s) {
    enum { N = 3 };
    { shared_vector<T> v[N]; shared_vector<const T> c[2]; shared_vector<void> w; ScalarType wt = pvString; (void)wt;
    Model<T> m[N], mc[2], mw;
    unsigned steps = s.range(1, 14); T x; uint64_t seq = 1;
    for(unsigned k = 0; k < steps; k++) {
        unsigned op = s.range(0, 24), a = s.range(0, N - 1), b = s.range(0, N - 1); size_t n = s.range(0, 12), o = s.range(0, 6); val(seq++, x);
        unsigned ca = a & 1;
        switch(op) {
        case 0: case 1: { shared_vector<T> t(n, x); CHECK(t.unique(), "new vector not unique"); std::vector<T> r(n, x);
            for(size_t i = 0; i < n; i++) { val(seq++, x); t[i] = x; r[i] = x; } v[a].swap(t); m[a].fresh(r); break; }
        case 2: { size_t tot = n + o; T *p = new T[tot]; std::vector<T> r; for(size_t i = 0; i < tot; i++) { val(seq++, x); p[i] = x; r.push_back(x); } v[a] = shared_vector<T>(p, o, n); m[a].fresh(r); m[a].off = o; m[a].n = n; break; }
        case 3: { v[a] = v[b]; m[a] = m[b]; break; }
        case 4: { shared_vector<T> t(v[b]); v[a] = t; m[a] = m[b]; break; }
        case 5: { shared_vector<T> t(std::move(v[b])); Model<T> q = m[b]; m[b].clear(); same(v[b], m[b], "moved from", op); v[a] = std::move(t); m[a] = q; break; }
        case 6: { v[a].swap(v[b]); std::swap(m[a], m[b]); break; }
        case 7: { v[a].clear(); m[a].clear(); break; }
        case 8: case 9: { size_t nn = s.flag() ? size_t(-1) : n; v[a].slice(o, nn); size_t oo = std::min(o, m[a].n); m[a].off += oo; m[a].n = std::min(nn, m[a].n - oo); break; }
        case 10: case 11: { v[a].reserve(n); CHECK(v[a].capacity() >= n, "reserve(%zu)", n); m[a].fresh(m[a].copy(), n); break; }
        case 12: case 13: { std::vector<T> r = m[a].copy(); size_t old = r.size(); v[a].resize(n); r.resize(n); CHECK(v[a].size() == n, "resize"); for(size_t i = old; i < n; i++) { val(seq++, x); v[a][i] = x; r[i] = x; } m[a].fresh(r, n); break; }
        case 14: { std::vector<T> r = m[a].copy(); v[a].resize(n, x); r.resize(n, x); m[a].fresh(r, n); break; }
        case 15: { std::vector<T> r = m[a].copy(); v[a].make_unique(); m[a].fresh(r, 0); break; }
        case 16: case 17: { std::vector<T> r = m[a].copy(); for(size_t i = 0; i <= n; i++) { val(seq++, x); v[a].push_back(x); r.push_back(x); } m[a].fresh(r); break; }
        case 18: { v[a].pop_back(); if(m[a].n) m[a].n--; break; }
        case 19: { if(m[a].n) { size_t i = n % m[a].n; v[a][i] = x; m[a].at(i) = x; } break; }
        case 20: { bool u = m[a].unique(); if(!m[a].s) u = true; bool thrown = false; try { c[ca] = freeze(v[a]); } catch(std::runtime_error&) { thrown = true; }
            CHECK(thrown == !u, "freeze of a %s vector", u ? "unique" : "shared"); if(!thrown) { mc[ca] = m[a]; m[a].clear(); } break; }
        case 21: { c[ca] = c[1 - ca]; mc[ca] = mc[1 - ca]; break; }
        case 22: { c[ca].slice(o, n); size_t oo = std::min(o, mc[ca].n); mc[ca].off += oo; mc[ca].n = std::min(n, mc[ca].n - oo); break; }
        case 23: { std::vector<T> r = mc[ca].copy(); bool had = !!mc[ca].s; v[a] = thaw(c[ca]); mc[ca].clear(); m[a].clear(); if(had) m[a].fresh(r); break; }
        default: { w = static_shared_vector_cast<void>(v[b]); mw = m[b]; CHECK(w.size() == m[b].n * sizeof(T), "bytes of a void view"); v[a] = static_shared_vector_cast<T>(w); m[a] = mw; break; }
        }
        for(int i = 0; i < N; i++) same(v[i], m[i], "vector", op);
        for(int i = 0; i < 2; i++) same(c[i], mc[i], "const vector", op);
    }
    for(int i = 0; i < N; i++) same(v[i], m[i], "vector", 99);
    for(int i = 0; i < 2; i++) same(c[i], mc[i], "const vector", 99);
    }
}
void run_case(Src& s, const std::string&)
{
    switch(s.range(0, 3)) {
    case 0: go<int8>(s); break;
    case 1: go<int32>(s); break;
    case 2: go<double>(s); break;
    default: go<int32>(s);
    }
}
