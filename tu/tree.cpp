// member offsets of the real classes, and thin entry points
#include <cstddef>
#include <pv/pvData.h>
#include <pv/bitSet.h>
#include <pv/bitSetUtil.h>
using namespace epics::pvData;
#define O(n, T, m) extern "C" { extern const unsigned long n; const unsigned long n = __builtin_offsetof(T, m); }
O(off_parent, PVField, parent)
O(off_field, PVField, field)
O(off_fieldOffset, PVField, fieldOffset)
O(off_nextFieldOffset, PVField, nextFieldOffset)
O(off_immutable, PVField, immutable)
O(off_pvFields, PVStructure, pvFields)
O(off_structurePtr, PVStructure, structurePtr)
O(off_fieldType, Field, m_fieldType)
O(off_fieldNames, Structure, fieldNames)
O(off_fields, Structure, fields)
extern "C" { extern const unsigned long size_PVStructure; const unsigned long size_PVStructure = sizeof(PVStructure); }
extern "C" size_t tr_offset(const PVField *p) { return p->getFieldOffset(); }
extern "C" size_t tr_next(const PVField *p) { return p->getNextFieldOffset(); }
extern "C" size_t tr_count(const PVField *p) { return p->getNumberFields(); }
extern "C" void tr_compute(const PVField *p) { PVField::computeOffset(p); }
extern "C" void tr_compute2(const PVField *p, size_t o) { PVField::computeOffset(p, o); }
extern "C" void tr_sub(PVFieldPtr *r, PVStructure *p, size_t o) { new(r) PVFieldPtr(p->getSubField(o)); }
extern "C" void tr_subT(PVFieldPtr *r, PVStructure *p, size_t o) { new(r) PVFieldPtr(p->getSubFieldT(o)); }
extern "C" void tr_ser(const PVStructure *p, ByteBuffer *b, SerializableControl *f) { p->PVStructure::serialize(b, f); }
extern "C" void tr_deser(PVStructure *p, ByteBuffer *b, DeserializableControl *f) { p->PVStructure::deserialize(b, f); }
extern "C" void tr_mser(const PVStructure *p, ByteBuffer *b, SerializableControl *f, BitSet *m) { p->PVStructure::serialize(b, f, m); }
extern "C" void tr_mdeser(PVStructure *p, ByteBuffer *b, DeserializableControl *f, BitSet *m) { p->PVStructure::deserialize(b, f, m); }
extern "C" void tr_copyU(PVStructure *p, const PVStructure *q) { p->PVStructure::copyUnchecked(*q); }
extern "C" void tr_mcopy(PVStructure *p, const PVStructure *q, const BitSet *m, bool inv) { p->PVStructure::copyUnchecked(*q, *m, inv); }
extern "C" bool tr_compress(const BitSetPtr *b, const PVStructurePtr *p) { return BitSetUtil::compress(*b, *p); }
extern "C" void tr_scalar_copyU(PVScalar *p, const PVScalar *q) { p->copyUnchecked(*q); }
