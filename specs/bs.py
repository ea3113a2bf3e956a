"""Shared object model of epics::pvData::BitSet for the specs: a BitSet is the vtable
pointer followed by a std::vector<uint64>; the class invariant ("canonical form") is
that the last word is non-zero."""
import z3
from z3 import And, Or, Not, Implies, If, ULT, ULE, UGE, UGT, LShR, Extract, ZeroExt, BitVecVal, BoolVal
from sym import *
from exec import icmp
import stdlib
P = '_ZN5epics6pvData6BitSet'; PK = '_ZNK5epics6pvData6BitSet'
VT = '_ZTVN5epics6pvData6BitSetE'
MAXW = 1 << 26          # 2^32 bit indices

def mkset(E, st, nm, maxw=MAXW, shape='any'):
    """any canonical BitSet; returns (object, number of words, word reader)"""
    o = E.alloc(st, nm, 32)
    vt = E.global_ptr(VT)
    r = st.reg(o.r)
    if shape == 'empty':       # never held a word
        r.cells = {0: (8, vt.plus(16)), 8: (8, NULL), 16: (8, NULL), 24: (8, NULL)}
        return o, 0, (lambda i: 0)
    n = fresh(64, 'n_' + nm); cap = fresh(64, 'c_' + nm)
    st.assume(ULE(n, maxw)); st.assume(ULE(n, cap)); st.assume(ULE(cap, maxw * 2)); st.assume(cap != 0)
    w = E.array(st, nm + '.words', cap, 8, heap='new')
    W = st.mem[w.r].arr
    r = st.reg(o.r)
    r.cells = {0: (8, vt.plus(16)), 8: (8, w), 16: (8, w.plus(n << 3)), 24: (8, w.plus(cap << 3))}
    st.assume(Implies(n != 0, W.rd(n - 1) != 0))
    E.name(nm, (W, n))
    return o, n, W.rd
def rawset(E, st, nm):
    """storage for a BitSet not yet constructed"""
    return E.alloc(st, nm, 32)
def words(E, st, o):
    p = o.plus(8)
    n = stdlib.vec_n(E, st, p, 8); rd = stdlib.vec_rd(E, st, p, 8)
    return n, rd
def W(n, rd):
    """word k of the (infinite) set"""
    return lambda k: ite(icmp('ult', k, n, 64), rd(k), 0, 64)
def canon(E, st, o, what='canonical form: last word non-zero'):
    n, rd = words(E, st, o)
    if isc(n) and n == 0: return
    E.oblige(st, what, Implies(b64(n) != 0, bv(rd(sub(n, 1)), 64) != 0), 'invariant')
def bit(w, i):
    """bit i (BV64) of word function w"""
    return Extract(0, 0, LShR(bv(w(LShR(i, 6)), 64), i & 63)) == 1
def same_words(E, st, o, w0, what):
    n, rd = words(E, st, o); w = W(n, rd)
    E.forall_goal(st, what, lambda k: bv(w(k), 64) == bv(w0(k), 64), 'frame')
