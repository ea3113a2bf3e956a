"""The tree of a structure value, seen from any node.  A node's identity is its position in the depth-first
numbering of the whole top-level structure: SIZE of a subtree, children and parents are uninterpreted functions of it,
so every tree of every shape is covered at once.  Reference counts are not tracked here (shared_ptr copies carry a null control block)."""
import re
from bb import *
from loops import Forall
from exec import ForkOn, Tr, Exc, divk
import stdlib, ir
NMAX = 1 << 28
NS, VS, FS = 12, 36, 12          # log2 of the spacing of nodes, child vectors, introspection objects
STRUCTURE = 2
def M(E): return E.prog.mods[0]
def const(E, name):
    v = E.load(State(), E.global_ptr(name), ir.I64, M(E))
    return v
def split(off, k):
    """off = x * 2^k + c"""
    if isc(off):
        v = sgn(off, 64); return v >> k, v & ((1 << k) - 1)
    o = simplify(off)
    terms = list(o.children()) if z3.is_app(o) and o.decl().kind() == z3.Z3_OP_BADD else [o]
    C = 0; l = []
    for t in terms:
        if is_bv_value(t): C += t.as_signed_long(); continue
        l.append(t)
    # group what is not a multiple of 2^k (an element index inside a block)
    hi, lo = [], []
    for t in l:
        d = divk(t, k)
        if d is not None: hi.append(d)
        else: lo.append(t)
    if lo: return None
    x = BitVecVal(C >> k, 64)
    for h in hi: x = x + h
    return simp(x), C & ((1 << k) - 1)
def split2(off):
    """off = x * 2^VS + 16 * i + c (0 <= c < 16)"""
    o = simplify(b64(off))
    terms = list(o.children()) if z3.is_app(o) and o.decl().kind() == z3.Z3_OP_BADD else [o]
    C = 0; X = BitVecVal(0, 64); I = BitVecVal(0, 64)
    for t in terms:
        if is_bv_value(t): C += t.as_signed_long(); continue
        d = divk(t, VS)
        if d is not None: X = X + d; continue
        d = divk(t, 4)
        if d is None: raise Unsupported('pointer into a child vector: %s' % str(o)[:80])
        I = I + d
    h = C >> VS; C -= h << VS
    return simp(X + h), simp(I + (C >> 4)), C & 15
class Obj:
    def __init__(self, T): self.T = T
    def diff(self, rid, a, b): return []
    def store(self, E, st, r, off, n, v): raise Unsupported('store into %s' % r.name)
class Nodes(Obj):
    stride = NS
    def whole(self, off):
        s = split(off, NS)
        return s is not None and s[1] == 0
    def load(self, E, st, r, off, n, ty):
        T = self.T; s = split(off, NS)
        if s is None: raise Unsupported('node pointer %s' % str(off)[:80])
        x, c = s
        xs = simplify(b64(x)); k = ('node', T.nodes.r, xs.get_id())
        if k not in st.note:      # whatever a field pointer points at is a node
            st.note[k] = xs; T.valid(st, xs)
        if c == 0: return Ptr(T.vt.r, AP)
        if c == T.o['parent']:
            top = simpb(b64(x) == 0)
            if top is not True and top is not False:
                f = If(b64(x) == 0, BitVecVal(1, 64), BitVecVal(0, 64)); k = st.note.get(('conc', f.get_id()))
                if k is None: st.note[('flag', f.get_id())] = f; raise ForkOn(f)
                top = simp(k[1]) == 1
                if top:      # it is node 0: say so in every pointer to it
                    xe = b64(x)
                    if ('conc', xe.get_id()) not in st.note: raise ForkOn(xe)
            if top: return NULL
            return T.node(T.parent(E, st, x))
        if c == T.o['field'] or c == T.o['structurePtr']:
            if c == T.o['structurePtr']: T.is_struct(E, st, x)
            return Ptr(T.flds.r, simp(b64(x) * (1 << FS)))
        if c in (T.o['field'] + 8, T.o['structurePtr'] + 8): return NULL
        if c == T.o['fieldOffset']: return T.offset(st, x)
        if c == T.o['nextFieldOffset']: return T.next(st, x)
        if c == T.o['immutable']: return T.immutable(x)
        v = T.o['pvFields']
        if c in (v, v + 8):
            T.is_struct(E, st, x); T.children(E, st, x)
            p = b64(x) * (1 << VS)
            return Ptr(T.vecs.r, simp(p if c == v else p + 16 * T.NC(b64(x))))
        raise Unsupported('member at offset %d of a field' % c)
    def store(self, E, st, r, off, n, v):
        T = self.T; s = split(off, NS)
        if s is None: raise Unsupported('node pointer %s' % str(off)[:80])
        x, c = s
        for nm, key in (('fieldOffset', 'FO'), ('nextFieldOffset', 'NFO')):
            if c == T.o[nm] and T.mutable:
                st.ghost[key] = AStore(st.ghost[key], x, v); return
        E.oblige(st, 'frame: no other member of a field is written', False, 'frame')
class Vecs(Obj):
    def load(self, E, st, r, off, n, ty):
        x, i, c = split2(off); T = self.T
        T.children(E, st, x)
        ok = simpb(ULT(b64(i), T.NC(b64(x))))
        if ok is not True: E.oblige(st, 'child index within the structure', ok, 'safety')
        if c == 8: return NULL
        return T.child(E, st, x, i)
class Fields(Obj):
    def load(self, E, st, r, off, n, ty):
        T = self.T; s = split(off, FS)
        if s is None: raise Unsupported('introspection pointer')
        x, c = s
        if c == T.o['fieldType']: return simp(T.TYPE(b64(x)))
        for nm, sz in (('fieldNames', 32), ('fields', 16)):
            if c in (T.o[nm], T.o[nm] + 8):
                p = b64(x) * (1 << VS)
                return Ptr(T.names.r, simp(p if c == T.o[nm] else p + sz * T.NC(b64(x))))
        raise Unsupported('member at offset %d of an introspection object' % c)
class Names(Obj):
    def load(self, E, st, r, off, n, ty): raise Unsupported('field names')
AP = 1 << 20                     # address point of the (shared prefix of the) virtual table
class VT(Obj):
    def load(self, E, st, r, off, n, ty):
        d = simp(off) - AP
        if d < 0: return 0       # offset to the virtual base: the same place in every field class (see _ZTV...PVStructure)
        k = d // 8
        return E.global_ptr('virtual:' + (self.T.slots[k] if k < len(self.T.slots) else '#%d' % k))
class Tree:
    pass
def alloc(E, st, nm, info):
    p = E.alloc(st, nm, None, 'obj'); r = st.reg(p.r); r.info = info
    return p
def mktree(E, st, nm='tree', mutable=False, shape=None, numbered=True):
    """all trees; with shape: a second value of the same type"""
    T = Tree(); T.mutable = mutable
    T.o = {k: const(E, 'off_' + k) for k in ('parent', 'field', 'fieldOffset', 'nextFieldOffset', 'immutable', 'pvFields', 'structurePtr', 'fieldType', 'fieldNames', 'fields')}
    T.o = {k: v if isc(v) else norm(simplify(v)) for k, v in T.o.items()}
    T.nodes = alloc(E, st, nm + '.nodes', Nodes(T)); T.vecs = alloc(E, st, nm + '.children', Vecs(T)); T.flds = alloc(E, st, nm + '.types', Fields(T))
    T.names = alloc(E, st, nm + '.names', Names(T)); T.vt = alloc(E, st, nm + '.vtable', VT(T))
    f = lambda n, w=64: z3.Function(fresh_name(n), z3.BitVecSort(64), z3.BitVecSort(w))
    if shape: T.TYPE, T.NXT, T.NC, T.cids, T.flds = shape.TYPE, shape.NXT, shape.NC, shape.cids, shape.flds
    else: T.TYPE, T.NXT, T.NC, T.cids = f('TYPE', 32), f('NXT'), f('NC'), {}
    T.PAR, T.IMM = f('PAR'), f('IMM', 8)
    vt = [n for n in E.prog.mods[0].globals] if False else None
    T.slots = slots(E)
    T.node = lambda x: Ptr(T.nodes.r, simp(b64(x) * (1 << NS)))
    T.immutable = lambda x: simp(T.IMM(b64(x)) & 1)
    if mutable:
        st.ghost['FO'] = ABase(64, fresh_name('FO')); st.ghost['NFO'] = ABase(64, fresh_name('NFO'))
        T.offset = lambda st, x: norm(st.ghost['FO'].rd(x)); T.next = lambda st, x: norm(st.ghost['NFO'].rd(x))
    else:
        T.offset = lambda st, x: x; T.next = lambda st, x: simp(T.NXT(b64(x)))
    def cid(x):
        k = simp(b64(x)); key = k if isc(k) else k.get_id()
        if key not in T.cids: T.cids[key] = (k, f('CHILD'), f('IDX'))
        return T.cids[key][1]
    T.cid = cid
    def valid(st, x):
        """a node of the tree"""
        x = b64(x)
        st.assume(And(ULT(x, T.NXT(x)), ULE(T.NXT(x), NMAX), ULE(T.NC(x), NMAX), ULE(T.TYPE(x), 5)))
    T.valid = valid
    def children(E, st, x):
        x = simplify(b64(x)); key = ('kids', nm, x.get_id())
        if key in st.note: return
        st.note[key] = x
        C = cid(x); n = T.NC(x)
        valid(st, x)
        def body(i):
            c = C(i)
            return If(ULT(i, n), And(ULT(x, c), ULT(c, T.NXT(c)), ULE(T.NXT(c), T.NXT(x)), ULE(T.TYPE(c), 5), Implies(T.TYPE(c) != STRUCTURE, T.NXT(c) == c + 1)), c == T.NXT(x))
        st.facts.append(Forall(body, 'children').fact([BitVecVal(0, 64)]))
        st.assume(C(BitVecVal(0, 64)) == x + 1); st.assume(C(n) == T.NXT(x))
    T.children = children
    def child(E, st, x, i):
        """i-th child of node x (i < number of children): the children's ranges are consecutive"""
        x = simplify(b64(x)); i = simplify(b64(i)); C = cid(x); n = T.NC(x); c = C(i)
        key = ('kid', nm, x.get_id(), i.get_id())
        if key not in st.note:
            st.note[key] = (x, i)
            st.facts.append(Forall(lambda j: And(Implies(And(ULT(i, j), ULE(j, n)), ULE(T.NXT(c), C(j))), Implies(And(ULT(j, i), ULT(i, n)), ULE(T.NXT(C(j)), c))), 'consecutive').fact())
            st.assume(Implies(ULT(i, n), C(i + 1) == T.NXT(c)))
        return T.node(c)
    T.child = child
    def is_struct(E, st, x):
        ok = simpb(T.TYPE(b64(x)) == STRUCTURE)
        if ok is not True: E.oblige(st, 'used as a structure only if it is one', ok, 'safety')
    T.is_struct = is_struct
    def parent(E, st, x):
        p = simp(T.PAR(b64(x))); st.assume(And(ULT(b64(p), b64(x)), T.TYPE(b64(p)) == STRUCTURE)); valid(st, p)
        return p
    T.parent = parent
    return T
def root(E, st, T, x):
    """node x is a structure"""
    st.assume(T.TYPE(b64(x)) == STRUCTURE); T.valid(st, x); T.children(E, st, x)
    return T.node(x)
def ident(T, p):
    """node id of a pointer"""
    if not isinstance(p, Ptr) or p.r != T.nodes.r: raise Unsupported('not a node of this tree: %r' % (p,))
    s = split(p.off, NS)
    if s is None or s[1] != 0: raise Unsupported('node pointer %s' % str(p.off)[:80])
    return s[0]
def index_of(T, x, c):
    """c is syntactically the i-th child of x: i"""
    C = T.cid(x); c = b64(c)
    if z3.is_app(c) and c.decl().eq(C): return c.arg(0)
    return None
def slots(E):
    """virtual function names from the address point of PVStructure's (primary) virtual table"""
    p = E.global_ptr('_ZTVN5epics6pvData11PVStructureE'); cells = E.gregions[p.r].cells
    k = 0
    while 'ZTI' not in E.regname.get(getattr(cells.get(8 * k, (0, None))[1], 'r', None), ''):
        v = cells[8 * k][1]
        if not (isinstance(v, Ptr) and v.r == 0 or isc(v) and v == 0): raise Unsupported('virtual base not at the start of the object')
        k += 1
    out = []; k += 1
    while 8 * k in cells and isinstance(cells[8 * k][1], Ptr) and cells[8 * k][1].r and not E.regname[cells[8 * k][1].r].startswith('@_ZTh'):
        out.append(E.regname[cells[8 * k][1].r][1:]); k += 1
    return out
def ivars(L):
    """integer loop variables"""
    for loc in L.order:
        e = L.entry.get(loc)
        if isinstance(e, (Ptr, tuple, AV)) or e is None: continue
        yield loc
GFO, GNFO, GNF = ('_ZNK5epics6pvData7PVField%s' % x for x in ('14getFieldOffsetEv', '18getNextFieldOffsetEv', '15getNumberFieldsEv'))
def use_numbers(E, *trees):
    """getFieldOffset & co by the contracts C16 proves on their bodies (numbered tree)"""
    def mk(val):
        def c(E, st, a, i):
            for T in trees:
                if isinstance(a[0], Ptr) and a[0].r == T.nodes.r:
                    x = ident(T, a[0]); T.valid(st, x); return val(T, x)
            raise Unsupported('offset of a field outside the trees')
        return c
    E.contract_proved(GFO, mk(lambda T, x: x)); E.contract_proved(GNFO, mk(lambda T, x: simp(T.NXT(b64(x))))); E.contract_proved(GNF, mk(lambda T, x: simp(T.NXT(b64(x)) - b64(x))))
