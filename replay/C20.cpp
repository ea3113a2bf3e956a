#include "tree.h"
// every single field below x that is selected, by its own bit or one above it
static void covered(const std::vector<Node>& t, const BitSet& m, int x, bool on, std::vector<char>& out) {
    on = on || m.get(x); if(t[x].kids.empty()) { out[x] = on; return; }
    for(size_t i = 0; i < t[x].kids.size(); i++) covered(t, m, t[x].kids[i], on, out);
}
void run_case(Src& s, const std::string&)
{
    std::vector<Node> t; PVStructurePtr p = rndTree(s, t, false); BitSetPtr m(new BitSet(s.range(1, 40))); unsigned dens = s.range(0, 5);
    for(size_t i = 0; i < t.size(); i++) if(s.range(0, 7) >= dens) m->set(i); else if(s.flag()) m->set(i);
    for(size_t i = 0; i < t.size(); i++) if(isStruct(t[i]) && s.range(0, 2) != 0) m->clear(i);
    if(s.range(0, 3) == 0) for(size_t i = 0; i < t.size(); i++) if(s.range(0, 9)) m->clear(i);
    if(s.flag()) for(size_t i = 0; i < 70; i++) if(s.range(0, 5) == 0) m->set(t.size() + i);
    BitSet m0(*m); bool r = BitSetUtil::compress(m, p); bool any = false; for(size_t i = 0; i < t.size(); i++) any = any || m0.get(i);
    CHECK(r == any, "compress returned %d, some bit set: %d", r, any);
    std::vector<char> a(t.size(), 0), b(t.size(), 0); covered(t, m0, 0, false, a); covered(t, *m, 0, false, b);
    for(size_t i = 0; i < t.size(); i++) CHECK(a[i] == b[i], "field %zu selected: %d before, %d after", i, a[i], b[i]);
    for(size_t i = 0; i < t.size() + 100; i++) if(i >= t.size()) CHECK(m0.get(i) == m->get(i), "bit %zu beyond the structure changed", i);
    for(size_t i = 0; i < t.size(); i++) if(!t[i].kids.empty()) { bool all = true, none = true; for(size_t k = 0; k < t[i].kids.size(); k++) all = all && m->get(t[i].kids[k]);
        for(size_t k = i + 1; k < t[i].next; k++) none = none && !m->get(k);
        CHECK(!(m->get(i) && !none), "structure %zu is selected and so is a field in it", i); CHECK(!all, "all fields of structure %zu are selected but not the structure", i); }
}
