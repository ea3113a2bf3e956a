// thin entry points; every body is /repo's
#include <string>
#include <pv/serializeHelper.h>
using namespace epics::pvData;
extern "C" void se_writeSize(size_t s, ByteBuffer *b, SerializableControl *f) { SerializeHelper::writeSize(s, b, f); }
extern "C" size_t se_readSize(ByteBuffer *b, DeserializableControl *f) { return SerializeHelper::readSize(b, f); }
extern "C" void se_serString(const std::string& v, ByteBuffer *b, SerializableControl *f) { SerializeHelper::serializeString(v, b, f); }
extern "C" void se_serSub(const std::string& v, size_t o, size_t n, ByteBuffer *b, SerializableControl *f) { SerializeHelper::serializeSubstring(v, o, n, b, f); }
extern "C" void se_deserString(std::string *r, ByteBuffer *b, DeserializableControl *f) { new(r) std::string(SerializeHelper::deserializeString(b, f)); }
