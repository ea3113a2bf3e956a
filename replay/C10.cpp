#include "harness.h"
#include <pv/typeCast.h>
#include <epicsConvert.h>
#include <stdexcept>
#include <cmath>
#include <cfloat>
using namespace epics::pvData;
static const int SZ[12] = {1, 1, 2, 4, 8, 1, 2, 4, 8, 4, 8, 0};
static bool sgn(int t) { return t >= 1 && t <= 4; }
static bool fp(int t) { return t == 9 || t == 10; }
typedef __int128 i128;
static i128 ival(int t, const char *p) { uint64_t u = 0; memcpy(&u, p, SZ[t]); if(sgn(t) && SZ[t] < 8 && (u >> (8 * SZ[t] - 1))) u |= ~0ull << (8 * SZ[t]); return sgn(t) ? i128(int64_t(u)) : i128(u); }
static long double fval(int t, const char *p) { if(t == 9) { float f; memcpy(&f, p, 4); return f; } double d; memcpy(&d, p, 8); return d; }
// reference conversion of one value; false: not defined
static bool ref(int to, char *d, int fr, const char *s) {
    if(to == fr) { memcpy(d, s, SZ[to]); return true; }
    if(fp(to)) {
        if(fp(fr)) { if(to == 10) { double x = fval(9, s); memcpy(d, &x, 8); } else { double x; memcpy(&x, s, 8); float f = epicsConvertDoubleToFloat(x); memcpy(d, &f, 4); } return true; }
        long double x = (long double)ival(fr, s); if(to == 9) { float f = x; memcpy(d, &f, 4); } else { double f = x; memcpy(d, &f, 8); } return true;
    }
    uint64_t u;
    if(fp(fr)) { long double x = fval(fr, s); if(!std::isfinite(x)) return false; x = truncl(x); int b = 8 * SZ[to];
        long double lo = sgn(to) ? -ldexpl(1, b - 1) : 0, hi = ldexpl(1, sgn(to) ? b - 1 : b); if(!(x >= lo && x < hi)) return false;
        u = uint64_t(i128(x)); } else u = uint64_t(ival(fr, s));
    memcpy(d, &u, SZ[to]); return true;
}
static const char *MN[12] = {"boolean", "byte", "short", "int", "long", "ubyte", "ushort", "uint", "ulong", "float", "double", "string"};
void run_case(Src& s, const std::string&)
{
    unsigned mode = s.range(0, 3);
    if(mode < 2) {
        int to = s.range(0, 10), fr = s.range(0, 10); size_t n0 = s.range(0, 5), n = s.range(0, 63) ? n0 : n0 * 16384;     // long arrays repeat a few values
        std::vector<char> src(n * SZ[fr] + 1), dst(n * SZ[to] + 16, 0x5a), want(16);
        for(size_t i = 0; i < n0; i++) { char *p = &src[i * SZ[fr]]; if(fp(fr)) { double d = s.dbl(); if(fr == 9) { float f = d; memcpy(p, &f, 4); } else memcpy(p, &d, 8); } else { uint64_t v = s.any(); if(fr == 0) v &= 1; memcpy(p, &v, SZ[fr]); } }
        for(size_t i = n0; i < n; i++) memcpy(&src[i * SZ[fr]], &src[(i % n0) * SZ[fr]], SZ[fr]);
        std::vector<char> s0(src); bool bad = (to == 0) != (fr == 0), thrown = false;
        try { castUnsafeV(n, ScalarType(to), &dst[8], ScalarType(fr), &src[0]); } catch(std::runtime_error&) { thrown = true; }
        CHECK(thrown == bad, "%s <- %s: %s", MN[to], MN[fr], thrown ? "refused" : "accepted"); CHECK(src == s0, "source changed");
        for(int i = 0; i < 8; i++) CHECK(dst[i] == 0x5a && dst[dst.size() - 1 - i] == 0x5a, "%s <- %s: written outside", MN[to], MN[fr]);
        for(size_t i = 0; i < n; i++) { if(bad) { CHECK(dst[8 + i * SZ[to]] == 0x5a, "refused but written"); continue; }
            if(ref(to, &want[0], fr, &src[i * SZ[fr]])) { bool eq = !memcmp(&want[0], &dst[8 + i * SZ[to]], SZ[to]);
                if(!eq && fp(to)) eq = std::isnan(fval(to, &want[0])) && std::isnan(fval(to, &dst[8 + i * SZ[to]]));
                CHECK(eq, "%s <- %s: element %zu of %zu", MN[to], MN[fr], i, n); } }
    } else if(mode == 2) {
        int fr = s.range(0, 10); size_t n = s.range(1, 3); std::vector<char> src(n * 8); std::vector<std::string> dst(n, "old");
        for(size_t i = 0; i < n; i++) { if(fp(fr)) { double d = s.dbl(); if(fr == 9) { float f = d; memcpy(&src[i * 4], &f, 4); } else memcpy(&src[i * 8], &d, 8); } else { uint64_t v = s.any(); if(fr == 0) v &= 1; memcpy(&src[i * SZ[fr]], &v, SZ[fr]); } }
        castUnsafeV(n, pvString, &dst[0], ScalarType(fr), &src[0]);
        for(size_t i = 0; i < n; i++) { char b[64]; const char *p = &src[i * SZ[fr]];
            if(fr == 0) snprintf(b, 64, "%s", *p ? "true" : "false"); else if(fp(fr)) snprintf(b, 64, "%g", double(fval(fr, p))); else if(sgn(fr)) snprintf(b, 64, "%lld", (long long)ival(fr, p)); else snprintf(b, 64, "%llu", (unsigned long long)ival(fr, p));
            CHECK(dst[i] == b, "%s printed as %s, not %s", MN[fr], dst[i].c_str(), b); }
    } else {
        int to = s.range(0, 8); uint64_t v = s.any() >> s.range(0, 63); bool neg = s.flag(); int base = s.range(0, 3); bool junk = s.range(0, 9) == 0; char b[64], out[24]; memset(out, 0x5a, 24);
        if(to == 0) { const char *w[] = {"true", "false", "TRUE", "False", "truex", "", "1"}; int k = s.range(0, 6); std::string t(w[k]); bool thrown = false;
            try { castUnsafeV(1, pvBoolean, out, pvString, &t); } catch(std::runtime_error&) { thrown = true; }
            CHECK(thrown == (k > 3), "'%s' to boolean: %s", w[k], thrown ? "refused" : "accepted"); CHECK(thrown ? out[0] == 0x5a : out[0] == (k == 0 || k == 2), "'%s' to boolean", w[k]); return; }
        snprintf(b, 64, base == 0 ? "%s0x%llx%s" : base == 1 ? "%s0%llo%s" : "%s%llu%s", neg ? "-" : "", (unsigned long long)v, junk ? "q" : "");
        i128 x = neg ? -i128(v) : i128(v); int bits = 8 * SZ[to]; bool ok = !junk && (sgn(to) ? x >= -(i128(1) << (bits - 1)) && x < (i128(1) << (bits - 1)) : x >= 0 && x < (i128(1) << bits));
            if(!sgn(to) && (neg || (bits < 64 && v >> 63))) return;    // strtoul's wrap-around of negative text is the parser's business
        std::string t(b); bool thrown = false;
        try { castUnsafeV(1, ScalarType(to), out, pvString, &t); } catch(std::runtime_error&) { thrown = true; }
        CHECK(thrown == !ok, "'%s' to %s: %s", b, MN[to], thrown ? "refused" : "accepted"); if(ok) CHECK(ival(to, out) == x, "'%s' to %s", b, MN[to]); else CHECK(out[0] == 0x5a, "refused but written");
    }
}
