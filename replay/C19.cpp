#include "tree.h"
// the text a subtree serializes to
struct Msg { Src& s; bool small; Msg(Src& s, bool sm) : s(s), small(sm) {} };
static std::string ser(PVField *p) { std::vector<epicsUInt8> v; serializeToVector(p, EPICS_BYTE_ORDER, v); return std::string(v.begin(), v.end()); }
static bool sel(const BitSet& m, bool inv, size_t k) { return m.get(k) != inv; }
// leaves wanted: depth first; a selected field stands for its whole subtree
static void wanted(const std::vector<Node>& t, const BitSet& m, bool inv, int x, bool all, std::vector<int>& out) {
    all = all || sel(m, inv, x);
    if(!isStruct(t[x])) { if(all) out.push_back(x); return; }
    for(size_t i = 0; i < t[x].kids.size(); i++) wanted(t, m, inv, t[x].kids[i], all, out);
}
// what is serialized is kept, in pieces
struct Sink : public SerializableControl { ByteBuffer *b; std::string out; void flushSerializeBuffer() { drain(); } void ensureBuffer(size_t n) { if(b->getRemaining() < n) drain(); }
    void drain() { b->flip(); out.append(b->getBuffer(), b->getRemaining()); b->clear(); }
    void alignBuffer(size_t) {} bool directSerialize(ByteBuffer*, const char*, size_t, size_t) { return false; } void cachedSerialize(FieldConstPtr const& f, ByteBuffer *bb) { f->serialize(bb, this); } };
struct Source : public DeserializableControl { ByteBuffer *b; const std::string& in; size_t pos; Source(const std::string& s) : in(s), pos(0) {}
    void ensureData(size_t n) { if(b->getRemaining() >= n) return; std::string rest(b->getBuffer() + b->getPosition(), b->getRemaining()); b->clear(); b->put(rest.data(), 0, rest.size());
        size_t k = std::min(b->getRemaining(), in.size() - pos); CHECK(b->getPosition() + k >= n, "more data asked for than was written"); b->put(in.data() + pos, 0, k); pos += k; b->flip(); }
    void alignData(size_t) {} bool directDeserialize(ByteBuffer*, char*, size_t, size_t) { return false; } FieldConstPtr cachedDeserialize(ByteBuffer *bb) { return getFieldCreate()->deserialize(bb, this); } };
void run_case(Src& s, const std::string&)
{
    int left = s.range(1, 24); StructureConstPtr ty = rndStruct(s, 0, left, 6); PVStructurePtr top = getPVDataCreate()->createPVStructure(ty), other = getPVDataCreate()->createPVStructure(ty);
    fill(s, top); fill(s, other); std::vector<Node> t, u; number(top, t, -1); number(other, u, -1);
    BitSet m; unsigned dens = s.range(1, 12); bool inv = false; for(size_t i = 0; i < t.size(); i++) if(s.range(0, dens) == 0) m.set(i);
    if(s.range(0, 3) == 0) for(size_t i = 0; i < 70; i++) if(s.range(0, 5) == 0) m.set(t.size() + i);
    unsigned op = s.range(0, 3); int x = 0; if(s.flag()) { x = s.range(0, t.size() - 1); if(!isStruct(t[x])) x = 0; }
    PVStructure *a = static_cast<PVStructure*>(t[x].p), *b = static_cast<PVStructure*>(u[x].p);
    std::vector<std::string> va, vb; for(size_t i = 0; i < t.size(); i++) { va.push_back(ser(t[i].p)); vb.push_back(ser(u[i].p)); }
    std::vector<int> w; BitSet all; all.set(x);
    if(op == 3) { for(size_t i = 0; i < t.size(); i++) if(!s.flag()) m.set(i); inv = true; }
    bool full = s.range(0, 4) == 0; wanted(t, full ? all : m, full ? false : inv, x, false, w);
    std::vector<char> in(t.size(), 0); for(size_t i = 0; i < w.size(); i++) in[w[i]] = 1;
    if(op <= 1) {      // to the wire and back
        char mem[64]; ByteBuffer bb(mem, s.range(16, 64), EPICS_BYTE_ORDER); Sink k; k.b = &bb;
        if(full) a->serialize(&bb, &k); else a->serialize(&bb, &k, &m);
        k.drain(); std::string want; for(size_t i = 0; i < w.size(); i++) want += va[w[i]];
        CHECK(k.out == want, "serialize: %zu bytes, want %zu (field %d of %zu, full %d)", k.out.size(), want.size(), x, t.size(), full);
        char mem2[64]; ByteBuffer b2(mem2, s.range(16, 64), EPICS_BYTE_ORDER); b2.flip(); Source src(want); src.b = &b2;
        if(full) b->deserialize(&b2, &src); else b->deserialize(&b2, &src, &m);
        CHECK(src.pos - b2.getRemaining() == want.size(), "deserialize consumed %zu of %zu", src.pos - b2.getRemaining(), want.size());
    } else if(full) { if(s.flag()) b->copyUnchecked(*a); else if(s.flag()) static_cast<PVField*>(b)->copy(*a); else b->copy(*a); }
    else b->copyUnchecked(*a, m, inv);
    for(size_t i = 0; i < u.size(); i++) if(!isStruct(u[i])) CHECK(ser(u[i].p) == (in[i] ? va[i] : vb[i]), "field %zu is %s (operation %u on field %d, inverse %d, full %d)", i, in[i] ? "not transferred" : "touched although not selected", op, x, inv, full);
    for(size_t i = 0; i < t.size(); i++) CHECK(ser(t[i].p) == va[i], "source changed");
    if(op == 2) { size_t k = s.range(0, t.size() - 1); u[k].p->setImmutable(); if(!u[k].p->isImmutable()) return; std::string v = ser(u[k].p); bool thrown = false; try { u[k].p->copy(*t[k].p); } catch(std::invalid_argument&) { thrown = true; }
        CHECK(thrown && ser(u[k].p) == v, "copy into an immutable field"); }
}
