#include "tree.h"
void run_case(Src& s, const std::string&)
{
    std::vector<Node> t; PVStructurePtr p = rndTree(s, t, false);
    unsigned q = s.range(0, 3);     // the first question numbers the tree
    if(s.range(0, 7) == 0) { PVScalarPtr x = getPVDataCreate()->createPVScalar(ScalarType(s.range(pvBoolean, pvString)));
        if(q == 0) CHECK(x->getFieldOffset() == 0, "alone"); else if(q == 1) CHECK(x->getNextFieldOffset() == 1, "alone"); CHECK(x->getNumberFields() == 1 && x->getFieldOffset() == 0 && x->getNextFieldOffset() == 1, "alone"); return; }
    Node& f = t[s.range(0, t.size() - 1)];
    if(q == 0) CHECK(f.p->getFieldOffset() == f.off, "offset %zu of field %zu", f.p->getFieldOffset(), f.off);
    else if(q == 1) CHECK(f.p->getNextFieldOffset() == f.next, "next offset %zu of field %zu, want %zu", f.p->getNextFieldOffset(), f.off, f.next);
    else if(q == 2) CHECK(f.p->getNumberFields() == f.next - f.off, "number of fields of field %zu", f.off);
    for(size_t i = 0; i < t.size(); i++) { PVField *x = t[i].p;
        CHECK(x->getFieldOffset() == t[i].off && x->getNextFieldOffset() == t[i].next && x->getNumberFields() == t[i].next - t[i].off, "field %zu: %zu..%zu want %zu..%zu", i, x->getFieldOffset(), x->getNextFieldOffset(), t[i].off, t[i].next); }
    for(size_t i = 0; i < t.size(); i++) if(isStruct(t[i])) { PVStructure *x = static_cast<PVStructure*>(t[i].p);
        for(size_t o = 0; o <= t.size() + 2; o++) { bool ok = o > t[i].off && o < t[i].next; PVFieldPtr r = x->getSubField(o);
            CHECK(r.get() == (ok ? t[o].p : 0), "getSubField(%zu) of field %zu", o, i);
            bool thrown = false; try { r = x->getSubFieldT(o); } catch(std::runtime_error&) { thrown = true; } CHECK(thrown == !ok && (thrown || r.get() == t[o].p), "getSubFieldT(%zu) of field %zu", o, i); }
        CHECK(!x->getSubField(size_t(s.any()) | (size_t(1) << 40)), "huge offset"); }
}
