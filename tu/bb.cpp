// thin entry points; every template body is /repo's
#include <pv/byteBuffer.h>
#include <pv/pvType.h>
using namespace epics::pvData;
#define T(N, TT) \
extern "C" void bb_put_##N(ByteBuffer *b, TT v) { b->put<TT>(v); } \
extern "C" void bb_puti_##N(ByteBuffer *b, size_t i, TT v) { b->put<TT>(i, v); } \
extern "C" TT bb_get_##N(ByteBuffer *b) { return b->get<TT>(); } \
extern "C" TT bb_geti_##N(ByteBuffer *b, size_t i) { return b->get<TT>(i); } \
extern "C" void bb_putArray_##N(ByteBuffer *b, const TT* v, size_t n) { b->putArray<TT>(v, n); } \
extern "C" void bb_getArray_##N(ByteBuffer *b, TT* v, size_t n) { b->getArray<TT>(v, n); } \
extern "C" TT bb_swap_##N(TT v) { return swap<TT>(v); }
T(i8, int8) T(u8, uint8) T(i16, int16) T(u16, uint16) T(i32, int32) T(u32, uint32) T(i64, int64) T(u64, uint64) T(f32, float) T(f64, double)
#define P(N, NAME, TT) \
extern "C" void bb_p_##N(ByteBuffer *b, TT v) { b->put##NAME(v); } \
extern "C" void bb_pi_##N(ByteBuffer *b, size_t i, TT v) { b->put##NAME(i, v); } \
extern "C" TT bb_g_##N(ByteBuffer *b) { return b->get##NAME(); } \
extern "C" TT bb_gi_##N(ByteBuffer *b, size_t i) { return b->get##NAME(i); }
P(i8, Byte, int8) P(i16, Short, int16) P(i32, Int, int32) P(i64, Long, int64) P(f32, Float, float) P(f64, Double, double) P(bool, Boolean, bool)
extern "C" void bb_putmem(ByteBuffer *b, const char *s, size_t o, size_t n) { b->put(s, o, n); }
extern "C" void bb_getmem(ByteBuffer *b, char *s, size_t o, size_t n) { b->get(s, o, n); }
extern "C" void bb_clear(ByteBuffer *b) { b->clear(); }
extern "C" void bb_flip(ByteBuffer *b) { b->flip(); }
extern "C" void bb_rewind(ByteBuffer *b) { b->rewind(); }
extern "C" void bb_setPosition(ByteBuffer *b, size_t p) { b->setPosition(p); }
extern "C" void bb_setLimit(ByteBuffer *b, size_t p) { b->setLimit(p); }
extern "C" void bb_setEndianess(ByteBuffer *b, int o) { b->setEndianess(o); }
extern "C" size_t bb_getPosition(ByteBuffer *b) { return b->getPosition(); }
extern "C" size_t bb_getLimit(ByteBuffer *b) { return b->getLimit(); }
extern "C" size_t bb_getRemaining(ByteBuffer *b) { return b->getRemaining(); }
extern "C" size_t bb_getSize(ByteBuffer *b) { return b->getSize(); }
extern "C" const char *bb_getBuffer(ByteBuffer *b) { return b->getBuffer(); }
extern "C" void bb_ctor(ByteBuffer *b, size_t n, int o) { new(b) ByteBuffer(n, o); }
extern "C" void bb_ctorw(ByteBuffer *b, char *p, size_t n, int o) { new(b) ByteBuffer(p, n, o); }
extern "C" void bb_dtor(ByteBuffer *b) { b->~ByteBuffer(); }
