// thin entry points; every body is /repo's
#include <new>
#include <string>
#include <pv/status.h>
using namespace epics::pvData;
extern "C" void st_ctor0(Status *s) { new(s) Status(); }
extern "C" void st_ctor2(Status *s, Status::StatusType t, const std::string& m) { new(s) Status(t, m); }
extern "C" void st_ctor3(Status *s, Status::StatusType t, const std::string& m, const std::string& d) { new(s) Status(t, m, d); }
extern "C" void st_warn(Status *s, const std::string& m) { new(s) Status(Status::warn(m)); }
extern "C" void st_error(Status *s, const std::string& m) { new(s) Status(Status::error(m)); }
extern "C" void st_fatal(Status *s, const std::string& m) { new(s) Status(Status::fatal(m)); }
extern "C" void st_max(Status *s, const Status& o) { s->maximize(o); }
extern "C" Status *st_or(Status *s, const Status& o) { return &(*s |= o); }
extern "C" int st_type(const Status *s) { return s->getType(); }
extern "C" bool st_ok(const Status *s) { return s->isOK(); }
extern "C" bool st_success(const Status *s) { return s->isSuccess(); }
extern "C" bool st_bool(const Status *s) { return *s ? true : false; }
extern "C" const std::string *st_msg(const Status *s) { return &s->getMessage(); }
extern "C" const std::string *st_dump(const Status *s) { return &s->getStackDump(); }
extern "C" void st_ser(const Status *s, ByteBuffer *b, SerializableControl *f) { s->Status::serialize(b, f); }
extern "C" void st_deser(Status *s, ByteBuffer *b, DeserializableControl *f) { s->Status::deserialize(b, f); }
