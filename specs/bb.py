"""Object model of epics::pvData::ByteBuffer for the specs."""
import z3
from z3 import And, Or, Not, Implies, If, ULT, ULE, UGE, UGT, LShR, Extract, ZeroExt, Concat, BitVecVal, BoolVal
from sym import *
from exec import icmp
import exec as X
import stdlib, ir
OFF = dict(buf=0, pos=8, lim=16, size=24, rev=32, revf=33, wrapped=34)
BIG, LITTLE = 4321, 1234
class Buf: pass
def mkbuf(E, st, nm='buf', wrapped=None, maxsz=1 << 45):
    """any ByteBuffer in its class invariant: 0 <= position <= limit <= size, byte order big or little"""
    B = Buf()
    B.n = E.name('size', fresh(64, 'size')); B.pos = E.name('pos', fresh(64, 'pos')); B.lim = E.name('lim', fresh(64, 'lim')); B.rev = E.name('big', fresh(8, 'rev'))
    st.assume(ULE(B.n, maxsz)); st.assume(ULE(B.pos, B.lim)); st.assume(ULE(B.lim, B.n)); st.assume(ULE(B.rev, 1))
    B.mem = E.array(st, nm + '.mem', B.n, 1, heap='malloc')
    B.rd0 = st.mem[B.mem.r].arr.rd
    E.name('bytes', (st.mem[B.mem.r].arr, B.n))
    B.o = E.alloc(st, nm, 40)
    B.wr = fresh(8, 'wrapped') if wrapped is None else wrapped
    if wrapped is None: st.assume(ULE(B.wr, 1))
    r = st.reg(B.o.r)
    r.cells = {0: (8, B.mem), 8: (8, B.mem.plus(B.pos)), 16: (8, B.mem.plus(B.lim)), 24: (8, B.n), 32: (1, B.rev), 33: (1, B.rev), 34: (1, B.wr)}
    return B
def field(E, st, B, f):
    M = E.prog.mods[0]
    ty = ir.PTR if f in ('buf', 'pos', 'lim') else ir.I64 if f == 'size' else ir.I8
    return E.load(st, B.o.plus(OFF[f]), ty, M)
def off(E, st, B, f):
    p = field(E, st, B, f)
    return p.off, (p.r == B.mem.r)
def rd(E, st, B):
    """byte reader of the current buffer content"""
    r = E.region(st, B.mem.r)
    return lambda k: bv(E.arr_read(st, r, k, 1), 8)
def invariant(E, st, B, pos=None, lim=None, order=True):
    """position/limit/size/byte order of the buffer after the call"""
    b = field(E, st, B, 'buf')
    E.oblige(st, 'buffer storage unchanged', isinstance(b, Ptr) and b.r == B.mem.r and isc(b.off) and b.off == 0, 'invariant')
    p, okp = off(E, st, B, 'pos'); l, okl = off(E, st, B, 'lim')
    E.oblige(st, 'position and limit point into the buffer', okp and okl, 'invariant')
    E.oblige(st, '0 <= position <= limit <= size', And(ULE(b64(p), b64(l)), ULE(b64(l), B.n)), 'invariant')
    if pos is not None: E.oblige(st, 'position', icmp('eq', p, pos, 64))
    E.oblige(st, 'limit', icmp('eq', l, B.lim if lim is None else lim, 64))
    E.oblige(st, 'size unchanged', icmp('eq', field(E, st, B, 'size'), B.n, 64), 'invariant')
    if order: E.oblige(st, 'byte order unchanged', band(eq(field(E, st, B, 'rev'), B.rev, 8), eq(field(E, st, B, 'revf'), B.rev, 8), eq(field(E, st, B, 'wrapped'), B.wr, 8)), 'frame')
def enc(v, w, big, j):
    """byte j of the w-bit value v in the given byte order (big: Bool)"""
    n = w // 8
    x = bv(v, w)
    lit = lambda i: Extract(8*i+7, 8*i, x)
    if isc(j):
        return If(big, lit(n-1-j), lit(j)) if n > 1 else lit(0)
    r = lit(0) if n == 1 else If(big, lit(n-1), lit(0))
    for i in range(1, n): r = If(b64(j) == i, If(big, lit(n-1-i), lit(i)), r)
    return r
def isbig(B): return B.rev == 1
def dec(rdf, at, w, big):
    """w-bit value encoded at offset at"""
    n = w // 8
    bs = [bv(rdf(add(at, j)), 8) for j in range(n)]
    if n == 1: return bs[0]
    return If(big, Concat(*bs), Concat(*reversed(bs)))
TY = dict(i8=8, u8=8, i16=16, u16=16, i32=32, u32=32, i64=64, u64=64, f32=32, f64=64)
