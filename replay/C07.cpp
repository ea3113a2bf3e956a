#include "harness.h"
#include <cmath>
#include <pv/timeStamp.h>
using namespace epics::pvData;
typedef __int128 i128;
static const i128 G = 1000000000;
static i128 tot(int64_t s, i128 n) { return i128(s) * G + n; }
static i128 tot(const TimeStamp& t) { return tot(t.getSecondsPastEpoch(), t.getNanoseconds()); }
static int64_t sec(uint64_t v) { return int64_t(v) >> 2; }
static void ok(const TimeStamp& t, i128 want, int32_t u, const char *w)
{
    CHECK(t.getNanoseconds() >= 0 && t.getNanoseconds() < 1000000000, "%s: nanoseconds %d", w, t.getNanoseconds());
    CHECK(tot(t) == want, "%s: another point in time (%lld s %d ns)", w, (long long)t.getSecondsPastEpoch(), t.getNanoseconds());
    CHECK(t.getUserTag() == u, "%s: user tag", w);
}
// words: op, s, n, u, s2, n2, bits
void run_case(Src& in, const std::string&)
{
    unsigned op = in.range(0, 9); int64_t s = sec(in.any()); int32_t n = int32_t(in.any()); int32_t u = int32_t(in.any());
    int64_t s2 = sec(in.any()); int32_t n2 = int32_t(in.any()); bool close = in.flag(); double d = in.dbl();
    if(close) s2 = s + (n2 % 3);
    TimeStamp t(s, n, u); ok(t, tot(s, n), u, "constructor");
    switch(op) {
    case 0: break;
    case 1: t.put(s2, n2); ok(t, tot(s2, n2), u, "put"); break;
    case 2: { int64_t ms = close ? s2 : int64_t(in.any()); (t.*static_cast<void (TimeStamp::*)(int64)>(&TimeStamp::put))(ms); ok(t, i128(ms) * 1000000, u, "put(ms)"); break; }
    case 3: t += s2; ok(t, tot(s, n) + i128(s2) * G, u, "+= int64"); break;
    case 4: t -= s2; ok(t, tot(s, n) - i128(s2) * G, u, "-= int64"); break;
    case 5: case 6: { if(!(std::fabs(d) < double(1ll << 60))) return; double y = op == 5 ? d : -d;
        int64_t w = int64_t(y); i128 add = tot(w, int64_t((y - double(w)) * 1e9));
        i128 t0 = tot(t); if(op == 5) t += d; else t -= d; ok(t, t0 + add, u, "+= double"); break; }
    case 7: { TimeStamp b(s2, n2, 0); i128 x = tot(t), y = tot(b);
        CHECK((t == b) == (x == y), "=="); CHECK((t != b) == (x != y), "!="); CHECK((t < b) == (x < y), "<"); CHECK((t <= b) == (x <= y), "<="); CHECK((t > b) == (x > y), ">"); CHECK((t >= b) == (x >= y), ">=");
        ok(t, x, u, "compare"); break; }
    case 8: { t.setUserTag(n2); ok(t, tot(s, n), n2, "setUserTag"); TimeStamp e; ok(e, 0, 0, "default"); break; }
    case 9: { int64_t ss = s % (1ll << 52); TimeStamp b(ss, n, u); i128 ms = tot(b) / 1000000; if(tot(b) < 0 && tot(b) % 1000000) ms--;
        CHECK(b.getMilliseconds() == int64_t(ms), "getMilliseconds"); CHECK(b.getEpicsSecondsPastEpoch() == b.getSecondsPastEpoch() - 631152000, "epics seconds"); break; }
    }
}
