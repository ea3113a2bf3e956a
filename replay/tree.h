// random structure types, random values, brute-force numbering
#include "stream.h"
#include <pv/pvData.h>
#include <pv/bitSet.h>
#include <pv/bitSetUtil.h>
#include <pv/standardField.h>
using namespace epics::pvData;
static FieldConstPtr rndType(Src& s, int depth, int& left);
static StructureConstPtr rndStruct(Src& s, int depth, int& left, int maxn = 4) {
    FieldCreatePtr fc = getFieldCreate(); StringArray n; FieldConstPtrArray f; int k = s.range(depth == 0 ? 1 : 0, maxn);
    for(int i = 0; i < k && left > 0; i++) { char b[16]; snprintf(b, sizeof b, "f%d", i); n.push_back(b); f.push_back(rndType(s, depth + 1, left)); }
    return fc->createStructure(n, f);
}
static FieldConstPtr rndType(Src& s, int depth, int& left) {
    FieldCreatePtr fc = getFieldCreate(); left--;
    unsigned k = s.range(0, depth < 5 ? 11 : 5);
    if(k < 4) return fc->createScalar(ScalarType(s.range(pvBoolean, pvString)));
    if(k == 4) return fc->createScalarArray(ScalarType(s.range(pvBoolean, pvString)));
    if(k == 5) return fc->createVariantUnion();
    if(k < 10) return rndStruct(s, depth, left);
    int l2 = 3; StructureConstPtr e = rndStruct(s, 4, l2, 2);
    if(k == 10) return fc->createStructureArray(e);
    StringArray n; FieldConstPtrArray f; n.push_back("a"); n.push_back("b"); f.push_back(fc->createScalar(pvInt)); f.push_back(e);
    UnionConstPtr u = fc->createUnion(n, f); return s.flag() ? FieldConstPtr(u) : FieldConstPtr(fc->createUnionArray(u));
}
static void fill(Src& s, const PVFieldPtr& p) {
    switch(p->getField()->getType()) {
    case scalar: { PVScalarPtr q = std::tr1::static_pointer_cast<PVScalar>(p); if(q->getScalar()->getScalarType() == pvBoolean) q->putFrom<boolean>(s.flag()); else if(q->getScalar()->getScalarType() == pvString) q->putFrom<std::string>(rndStr(s, 6)); else q->putFrom<int32>(s.range(0, 100)); break; }
    case scalarArray: { PVScalarArrayPtr q = std::tr1::static_pointer_cast<PVScalarArray>(p); size_t n = s.range(0, 3);
        if(q->getScalarArray()->getElementType() == pvBoolean) { shared_vector<boolean> v(n); for(size_t i = 0; i < n; i++) v[i] = s.flag(); q->putFrom(freeze(v)); }
        else { shared_vector<int32> v(n); for(size_t i = 0; i < n; i++) v[i] = s.range(0, 100); q->putFrom(freeze(v)); } break; }
    case structure: { const PVFieldPtrArray& f = std::tr1::static_pointer_cast<PVStructure>(p)->getPVFields(); for(size_t i = 0; i < f.size(); i++) fill(s, f[i]); break; }
    case structureArray: { PVStructureArrayPtr q = std::tr1::static_pointer_cast<PVStructureArray>(p); PVStructureArray::svector v; size_t n = s.range(0, 2);
        for(size_t i = 0; i < n; i++) { if(s.range(0, 3) == 0) v.push_back(PVStructurePtr()); else { PVStructurePtr e = getPVDataCreate()->createPVStructure(q->getStructureArray()->getStructure()); fill(s, e); v.push_back(e); } }
        q->replace(freeze(v)); break; }
    case union_: { PVUnionPtr q = std::tr1::static_pointer_cast<PVUnion>(p); if(q->getUnion()->isVariant()) { if(s.flag()) { PVScalarPtr v = getPVDataCreate()->createPVScalar(pvInt); fill(s, v); q->set(v); } else q->set(PVFieldPtr()); }
        else { int k = int(s.range(0, 2)) - 1; if(k < 0) q->select(PVUnion::UNDEFINED_INDEX); else fill(s, q->select(k)); } break; }
    case unionArray: { PVUnionArrayPtr q = std::tr1::static_pointer_cast<PVUnionArray>(p); PVUnionArray::svector v; size_t n = s.range(0, 2);
        for(size_t i = 0; i < n; i++) { if(s.range(0, 3) == 0) v.push_back(PVUnionPtr()); else { PVUnionPtr e = getPVDataCreate()->createPVUnion(q->getUnionArray()->getUnion()); fill(s, e); v.push_back(e); } }
        q->replace(freeze(v)); break; }
    default: break;
    }
}
struct Node { PVField *p; size_t off, next; int parent; std::vector<int> kids; };
static int number(const PVFieldPtr& p, std::vector<Node>& out, int parent) {      // depth first
    int me = out.size(); Node n; n.p = p.get(); n.off = me; n.parent = parent; out.push_back(n);
    if(p->getField()->getType() == structure) { const PVFieldPtrArray& f = std::tr1::static_pointer_cast<PVStructure>(p)->getPVFields(); for(size_t i = 0; i < f.size(); i++) { int k = number(f[i], out, me); out[me].kids.push_back(k); } }
    out[me].next = out.size(); return me;
}
static PVStructurePtr rndTree(Src& s, std::vector<Node>& nodes, bool value = true) {
    int left = s.range(1, 24); PVStructurePtr p = getPVDataCreate()->createPVStructure(rndStruct(s, 0, left, 6)); if(value) fill(s, p); number(p, nodes, -1); return p;
}
static bool isStruct(const Node& n) { return n.p->getField()->getType() == structure; }
