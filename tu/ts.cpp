// thin entry points; every body is /repo's
#include <new>
#include <pv/timeStamp.h>
using namespace epics::pvData;
typedef void (TimeStamp::*PutMs)(int64);
extern "C" void ts_ctor(TimeStamp *t, int64 s, int32 n, int32 u) { new(t) TimeStamp(s, n, u); }
extern "C" void ts_ctor0(TimeStamp *t) { new(t) TimeStamp(); }
extern "C" void ts_put(TimeStamp *t, int64 s, int32 n) { t->put(s, n); }
extern "C" void ts_putms(TimeStamp *t, int64 ms) { (t->*static_cast<PutMs>(&TimeStamp::put))(ms); }
extern "C" void ts_norm(TimeStamp *t) { t->normalize(); }
extern "C" void ts_addi(TimeStamp *t, int64 s) { *t += s; }
extern "C" void ts_subi(TimeStamp *t, int64 s) { *t -= s; }
extern "C" void ts_addd(TimeStamp *t, double s) { *t += s; }
extern "C" void ts_subd(TimeStamp *t, double s) { *t -= s; }
extern "C" bool ts_eq(TimeStamp *a, TimeStamp *b) { return *a == *b; }
extern "C" bool ts_ne(TimeStamp *a, TimeStamp *b) { return *a != *b; }
extern "C" bool ts_lt(TimeStamp *a, TimeStamp *b) { return *a < *b; }
extern "C" bool ts_le(TimeStamp *a, TimeStamp *b) { return *a <= *b; }
extern "C" bool ts_gt(TimeStamp *a, TimeStamp *b) { return *a > *b; }
extern "C" bool ts_ge(TimeStamp *a, TimeStamp *b) { return *a >= *b; }
extern "C" int64 ts_ms(TimeStamp *t) { return t->getMilliseconds(); }
extern "C" int64 ts_sec(TimeStamp *t) { return t->getSecondsPastEpoch(); }
extern "C" int64 ts_esec(TimeStamp *t) { return t->getEpicsSecondsPastEpoch(); }
extern "C" int32 ts_ns(TimeStamp *t) { return t->getNanoseconds(); }
extern "C" int32 ts_tag(TimeStamp *t) { return t->getUserTag(); }
extern "C" void ts_settag(TimeStamp *t, int32 v) { t->setUserTag(v); }
