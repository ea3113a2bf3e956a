"""shared_vector model: {element pointer, control block, offset, count, total}"""
import z3
from z3 import And, Or, Not, Implies, If, ULT, ULE, UGE, UGT, BitVecVal, ZeroExt, Extract
from sym import *
from exec import icmp
import ir, sharedptr
MAXN = 1 << 40
TY = dict(i8=1, i32=4, f64=8)
class Vx(object): pass
def mkvec(E, st, nm, esz, shape):
    """any vector: 'null' (never held storage), 'own' (sole owner), 'shared' (other vectors refer to the same storage)"""
    V = Vx(); V.o = E.alloc(st, nm, 40); V.esz = esz; V.shape = shape; V.nm = nm; M = E.prog.mods[0]
    if shape == 'null':
        st.reg(V.o.r).cells = {0: (8, NULL), 8: (8, NULL), 16: (8, 0), 24: (8, 0), 32: (8, 0)}
        V.off = V.n = V.total = V.U = 0; V.rd = lambda k: BitVecVal(0, 8 * esz); V.cap = 0
        E.name(nm + '.shape', BitVecVal(0, 64))
        return V
    g = lambda k: E.name('%s.%s' % (nm, k), fresh(64, nm + k))
    V.off, V.n, V.total, V.cap, V.U = g('off'), g('count'), g('total'), g('cap'), g('uses')
    st.assume(ULE(V.cap, MAXN)); st.assume(ULE(V.off, V.cap)); st.assume(ULE(V.total, V.cap - V.off)); st.assume(ULE(V.n, V.total))
    if shape == 'own': V.U = 1
    else: st.assume(And(ULE(2, V.U), ULE(V.U, 1 << 32)))
    V.p = E.array(st, nm + '.data', V.cap, esz, heap='new[]'); V.rd = st.mem[V.p.r].arr.rd
    V.c = sharedptr.control(E, st, V.U, V.p, nm + '.control')
    st.reg(V.o.r).cells = {0: (8, V.p), 8: (8, V.c), 16: (8, V.off), 24: (8, V.n), 32: (8, V.total)}
    E.name(nm + '.shape', BitVecVal(1 if shape == 'own' else 2, 64))
    return V
def get(E, st, o):
    M = E.prog.mods[0]; ld = lambda k, t: E.load(st, o.plus(k), t, M)
    return ld(0, ir.PTR), ld(8, ir.PTR), ld(16, ir.I64), ld(24, ir.I64), ld(32, ir.I64)
def elem(E, st, o, esz):
    p, c, off, n, t = get(E, st, o)
    if p.r == 0: return lambda k: BitVecVal(0, 8 * esz)
    r = E.region(st, p.r)
    if r.kind == 'raw': r = E.ensure_array(st, r, esz)
    if r.kind == 'struct':
        vs = [E.cell_read(st, r, o, esz, 'int') for o in range(0, r.size - esz + 1, esz)]
        def f(k):
            x = BitVecVal(0, 8 * esz); i = add(off, k)
            for j, v in enumerate(vs): x = If(b64(i) == j, bv(v, 8 * esz), x)
            return x
        return f
    return lambda k: bv(E.arr_read(st, r, simp(mul(add(off, k), esz)), esz), 8 * esz)
def inv(E, st, o, esz, what=''):
    """the view lies inside live storage"""
    p, c, off, n, t = get(E, st, o)
    if not isinstance(p, Ptr) or not isinstance(c, Ptr): E.oblige(st, what + 'holds a pointer', False); return
    if p.r == 0:
        E.oblige(st, what + 'no storage: empty', And(b64(off) == 0, b64(n) == 0, b64(t) == 0), 'invariant')
        E.oblige(st, what + 'no storage: no control block', c.r == 0, 'invariant'); return
    r = E.region(st, p.r); cap = r.size if esz == 1 else simp(z3.LShR(b64(r.size), BitVecVal(esz.bit_length() - 1, 64)))
    E.oblige(st, what + 'storage alive', r.alive, 'invariant')
    E.oblige(st, what + 'points to the start of its storage', isc(p.off) and p.off == 0, 'invariant')
    E.oblige(st, what + 'count <= total, offset + total <= storage', And(ULE(b64(n), b64(t)), ULE(b64(off), b64(cap)), ULE(b64(t), b64(cap) - b64(off))), 'invariant')
    E.oblige(st, what + 'owned', c.r != 0, 'invariant')
    if c.r != 0:
        E.oblige(st, what + 'counted', icmp('uge', sharedptr.count(E, st, c), 1, 64), 'invariant')
        q = E.load(st, c.plus(8), ir.PTR, E.prog.mods[0]); E.oblige(st, what + 'control block of this storage', isinstance(q, Ptr) and q.r == p.r, 'invariant')
def content(E, st, o, esz, n, rdf, what='', upto=None):
    g = elem(E, st, o, esz); _, _, _, m, _ = get(E, st, o)
    E.oblige(st, what + 'number of elements', b64(m) == b64(n))
    E.forall_goal(st, what + 'every element', lambda k: Implies(ULT(k, b64(n if upto is None else upto)), g(k) == rdf(k)))
def view(V):
    """element k of the initial view"""
    return lambda k: bv(V.rd(simp(add(V.off, k))), 8 * V.esz)
def storage_same(E, st, V, what, uses=None, dead=False):
    """the storage V had: what other vectors see through it"""
    if V.shape == 'null': return
    if uses is not None: E.oblige(st, what + ': reference count', icmp('eq', sharedptr.count(E, st, V.c), uses, 64), 'frame')
    r = st.mem[V.p.r]
    E.oblige(st, what + ': storage freed exactly when its last owner let go', r.alive == (not dead), 'frame')
    if dead: return
    a = r.arr
    E.forall_goal(st, what + ': content unchanged', lambda k: Implies(ULT(k, V.cap), bv(E.arr_read(st, r, simp(mul(k, V.esz)), V.esz), 8 * V.esz) == bv(V.rd(k), 8 * V.esz)), 'frame')
def unchanged(E, st, V, what, uses=None):
    p, c, off, n, t = get(E, st, V.o)
    if V.shape == 'null':
        E.oblige(st, what + ': still empty', And(p.r == 0, c.r == 0, b64(off) == 0, b64(n) == 0, b64(t) == 0), 'frame'); return
    E.oblige(st, what + ': same view', And(p.same(V.p), c.same(V.c), b64(off) == b64(V.off), b64(n) == b64(V.n), b64(t) == b64(V.total)), 'frame')
    storage_same(E, st, V, what, V.U if uses is None else uses)
def is_null(E, st, o, what):
    p, c, off, n, t = get(E, st, o)
    E.oblige(st, what + ': left empty', And(p.r == 0, c.r == 0, b64(off) == 0, b64(n) == 0, b64(t) == 0))
def sole(E, st, o, what='uniquely owned'):
    p, c, off, n, t = get(E, st, o)
    E.oblige(st, what, c.r == 0 or icmp('eq', sharedptr.count(E, st, c), 1, 64))
