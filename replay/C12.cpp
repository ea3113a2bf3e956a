#include "stream.h"
#include <pv/status.h>
struct Ref { int t; std::string m, d; };
static Status mk(Src& s, Ref& r) {
    r.t = s.range(0, 3); if(r.t) { r.m = rndStrL(s); r.d = rndStrL(s); }
    if(r.t) return Status(Status::StatusType(r.t), r.m, r.d);
    if(s.flag()) {      // an OK status with texts, as another peer may send it
        r.m = rndStr(s, 20); Bytes b; b.push_back(0); putStr(b, r.m, true); putStr(b, r.d, true);
        R q(b, 64, true, 1); Status x; x.deserialize(&q.b, &q); return x;
    }
    return Status();
}
static void same(const Status& a, const Ref& r, const char *w) {
    CHECK(a.getType() == r.t, "%s: type %d want %d", w, a.getType(), r.t); CHECK(a.getMessage() == r.m, "%s: message", w); CHECK(a.getStackDump() == r.d, "%s: stack dump", w);
    CHECK(a.isOK() == (r.t == 0), "%s: isOK", w); CHECK(a.isSuccess() == (r.t <= 1), "%s: isSuccess", w); CHECK((a ? true : false) == (r.t <= 1), "%s: bool", w);
}
void run_case(Src& s, const std::string&)
{
    unsigned op = s.range(0, 5); bool big = s.flag(); size_t cap = s.range(16, 80); uint64_t seed = s.any();
    Ref ra, rb; Status a = mk(s, ra), b = mk(s, rb); same(a, ra, "constructed");
    switch(op) {
    case 0: { if(s.flag()) a.maximize(b); else a |= b; if(ra.t < rb.t) ra = rb; same(a, ra, "maximize"); a |= a; same(a, ra, "maximize self"); break; }
    case 1: { std::string m = rndStrL(s); unsigned t = s.range(0, 3); Ref q; q.t = t; q.m = m;
        try { Status x(Status::StatusType(t), m); CHECK(t != 0, "OK accepted"); same(x, q, "two arguments"); } catch(std::invalid_argument&) { CHECK(t == 0, "refused"); }
        try { Status x(Status::StatusType(t), m, "xy"); q.d = "xy"; CHECK(t != 0, "OK accepted"); same(x, q, "three arguments"); } catch(std::invalid_argument&) { CHECK(t == 0, "refused"); }
        q.d = ""; q.t = 1; same(Status::warn(m), q, "warn"); q.t = 2; same(Status::error(m), q, "error"); q.t = 3; same(Status::fatal(m), q, "fatal"); break; }
    case 2: case 3: { Bytes want; if(ra.t == 0) want.push_back(255); else { want.push_back(ra.t); putStr(want, ra.m, big); putStr(want, ra.d, big); }
        W w(cap, big, seed); a.serialize(&w.b, &w); SAME(w.done(), want, "status"); same(a, ra, "after serialize");
        R r(want, cap, big, seed ^ 5); b.deserialize(&r.b, &r); if(ra.t == 0) ra = Ref{0, "", ""}; same(b, ra, "round trip"); CHECK(r.used() == want.size(), "consumed"); break; }
    default: { Bytes in; unsigned c = s.range(0, 255); in.push_back(c); putStr(in, rb.m, big); putStr(in, rb.d, big); R r(in, cap, big, seed);
        try { a.deserialize(&r.b, &r); CHECK(c <= 3 || c == 255, "type code %u accepted", c); if(c == 255) same(a, Ref{0, "", ""}, "OK code"); else same(a, Ref{int(c), rb.m, rb.d}, "decoded"); }
        catch(std::invalid_argument&) { CHECK(c > 3 && c != 255, "refused"); } }
    }
}
