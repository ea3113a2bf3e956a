"""C02 - BitSet observers answer for the set, not for its representation."""
from bs import *
from harness import Job
from loops import Forall
import exec as X
ASSUMPTIONS = ['bit indices below 2^31 for nextSetBit/nextClearBit (their result type is int32)', 'the argument of a binary observer is a canonical BitSet (established by C01)']
def tus(R, V): return [(R + '/src/misc/bitSet.cpp', [])]
M31 = 1 << 25     # words for 2^31 bits

def outs(E, name, args, st):
    for o in E.call(name, args, st):
        if o.kind != 'ret':
            E.oblige(o.st, 'returns normally (%s %s)' % (o.kind, o.val or o.why), False); continue
        E.covered(o.st, 'reaches return')
        yield o
def ntz_spec(r, x):
    """r is the number of trailing zeros of x"""
    r64 = ZeroExt(32, r)
    return If(x == 0, r == 64, And(ULT(r, 64), Extract(0, 0, LShR(x, r64)) == 1, (x & ((BitVecVal(1, 64) << r64) - 1)) == 0))
def j_bitcount(E):
    st = State(); x = E.name('x', fresh(64, 'x'))
    for o in outs(E, P + '8bitCountEm', [x], st):
        E.oblige(o.st, 'result is the number of one bits', bv(o.val, 32) == popcount(x, 64, 32))
def j_ntz(E):
    st = State(); x = E.name('x', fresh(64, 'x'))
    for o in outs(E, P + '21numberOfTrailingZerosEm', [x], st):
        E.oblige(o.st, 'result is the number of trailing zeros', ntz_spec(bv(o.val, 32), x))
def use_ntz(E):
    """callers see numberOfTrailingZeros through its contract (proved by job ntz)"""
    def c(E, st, a, i):
        r = fresh(32, 'ntz'); st.assume(ntz_spec(r, bv(a[0], 64))); return r
    E.contract_proved(P + '21numberOfTrailingZerosEm', c)
PC = z3.Function('popcount', z3.BitVecSort(64), z3.BitVecSort(32))
def j_get(E, shape='any'):
    st = State(); a, n, A = mkset(E, st, 'a', shape=shape); A = W(n, A); idx = E.name('idx', fresh(32, 'idx'))
    for o in outs(E, PK + '3getEj', [a, idx], st):
        E.oblige(o.st, 'get(i) is bit i', tob(o.val) == bit(A, ZeroExt(32, idx)))
        same_words(E, o.st, a, A, 'unchanged')
def scan(E, fn, want, shape='any'):
    use_ntz(E)
    st = State(); a, n, A = mkset(E, st, 'a', M31 - 1, shape=shape); w = W(n, A); f = E.name('idx', fresh(32, 'idx')); st.assume(ULT(f, 1 << 31))
    f64 = ZeroExt(32, f)
    hit = (lambda i: bit(w, i)) if want else (lambda i: Not(bit(w, i)))
    for o in outs(E, fn, [a, f], st):
        r = bv(o.val, 32); r64 = ZeroExt(32, r)
        none = r == 0xffffffff
        if want:
            E.oblige(o.st, 'result is -1 or a set bit not before the start', Or(none, And(UGE(r64, f64), ULT(r64, 1 << 31), hit(r64))))
            E.forall_goal(o.st, 'no set bit between start and result', lambda i: Implies(And(UGE(i, f64), ULT(i, 1 << 31), Or(none, ULT(i, r64))), Not(hit(i))))
        else:
            E.oblige(o.st, 'result is a clear bit not before the start', And(UGE(r64, f64), ULT(r64, 1 << 31), hit(r64)))
            E.forall_goal(o.st, 'no clear bit between start and result', lambda i: Implies(And(UGE(i, f64), ULT(i, r64)), Not(hit(i))))
        same_words(E, o.st, a, w, 'unchanged')
def j_card(E, shape='any'):
    st = State(); a, n, A = mkset(E, st, 'a', shape=shape)
    E.contract_proved(P + '8bitCountEm', lambda E, st, x, i: PC(bv(x[0], 64)))
    S = z3.Function('S!card', z3.BitVecSort(64), z3.BitVecSort(32))     # S(k) = sum of popcount of words < k
    k = BitVec('k!card', 64)
    if shape == 'any':
        st.assume(S(BitVecVal(0, 64)) == 0)
        st.facts.append(Fact(k, S(k + 1) == S(k) + PC(A(k)), [(S, k), (S, k + 1)], 'definition of the sum'))
    def tmpl(L):
        out = []
        for loc in L.order:
            if loc[0] == 'phi' and L.types[loc[1]].k == 'int' and L.types[loc[1]].a == 32:
                out.append(('sum = S(t)', lambda v, loc=loc: bv(v.get(loc), 32) == S(v.t)))
        return out
    E.templates.append(tmpl)
    for o in outs(E, PK + '11cardinalityEv', [a], st):
        if shape == 'any': E.oblige(o.st, 'cardinality is the sum over all words of their one bits', bv(o.val, 32) == S(b64(n)))
        else: E.oblige(o.st, 'cardinality 0', icmp('eq', o.val, 0, 32))
        same_words(E, o.st, a, W(n, A), 'unchanged')
def j_simple(E, shape='any'):
    st = State(); a, n, A = mkset(E, st, 'a', M31, shape=shape)
    for o in outs(E, PK + '7isEmptyEv', [a], st.copy()):
        # canonical form: no word <=> no bit; show both directions on words
        E.oblige(o.st, 'isEmpty false implies some bit', Or(tob(o.val), bv(W(n, A)(sub(n, 1)), 64) != 0))
        E.forall_goal(o.st, 'isEmpty implies every word zero', lambda k: Implies(tob(o.val), bv(W(n, A)(k), 64) == 0))
    for o in outs(E, PK + '4sizeEv', [a], st.copy()):
        E.oblige(o.st, 'size is 64 bits per word', bv(o.val, 32) == trunc(mul(b64(n), 64), 32))
        E.forall_goal(o.st, 'no bit at or after size', lambda i: Implies(UGE(i, ZeroExt(32, bv(o.val, 32))), Not(bit(W(n, A), i))))
def eqs(E, fn, neg, alias, sh):
    st = State(); a, n, A = mkset(E, st, 'a', shape=sh[0]); A = W(n, A)
    if alias: b, m, B = a, n, A
    else: b, m, B = mkset(E, st, 'b', shape=sh[1]); B = W(m, B)
    for o in outs(E, fn, [a, b], st):
        r = tob(o.val); r = Not(r) if neg else r
        E.forall_goal(o.st, 'equal implies same words', lambda k: Implies(r, bv(A(k), 64) == bv(B(k), 64)))
        if alias: E.oblige(o.st, 'equal to itself', r); continue
        # not equal: there is a differing word.  Witness: the last word of the longer one, or the loop's exit index
        wit = [b64(sub(n, 1)), b64(sub(m, 1))] + [t for kx, t in o.st.note.items() if isinstance(kx, tuple) and kx[0] == 'loop']
        E.oblige(o.st, 'not equal implies a differing word', Or(r, *[bv(A(x), 64) != bv(B(x), 64) for x in wit]))
        same_words(E, o.st, a, A, 'unchanged'); same_words(E, o.st, b, B, 'argument unchanged')
def j_land(E, alias=False, sh=('any', 'any')):
    st = State(); a, n, A = mkset(E, st, 'a', shape=sh[0]); A = W(n, A)
    if alias: b, m, B = a, n, A
    else: b, m, B = mkset(E, st, 'b', shape=sh[1]); B = W(m, B)
    for o in outs(E, PK + '11logical_andERKS1_', [a, b], st):
        r = tob(o.val)
        E.forall_goal(o.st, 'false implies no common bit', lambda k: Or(r, (bv(A(k), 64) & bv(B(k), 64)) == 0))
        wit = [b64(sub(n, 1)), b64(sub(m, 1))] + [t for kx, t in o.st.note.items() if isinstance(kx, tuple) and kx[0] == 'loop']
        E.oblige(o.st, 'true implies a common bit', Or(Not(r), *[(bv(A(x), 64) & bv(B(x), 64)) != 0 for x in wit]))
def j_lor(E, alias=False, sh=('any', 'any')):
    st = State(); a, n, A = mkset(E, st, 'a', shape=sh[0]); A = W(n, A)
    if alias: b, m, B = a, n, A
    else: b, m, B = mkset(E, st, 'b', shape=sh[1]); B = W(m, B)
    for o in outs(E, PK + '10logical_orERKS1_', [a, b], st):
        r = tob(o.val)
        E.forall_goal(o.st, 'false implies no bit in either', lambda k: Or(r, (bv(A(k), 64) | bv(B(k), 64)) == 0))
        wit = [b64(sub(n, 1)), b64(sub(m, 1))]
        E.oblige(o.st, 'true implies a bit in one', Or(Not(r), *[(bv(A(x), 64) | bv(B(x), 64)) != 0 for x in wit]))
SH = (('any', 'any'), ('empty', 'any'), ('any', 'empty'), ('empty', 'empty'))
def jobs(tier):
    J = [Job('bitCount', j_bitcount, 'BitSet::bitCount'), Job('ntz', j_ntz, 'BitSet::numberOfTrailingZeros')]
    for sh in ('any', 'empty'):
        t = '' if sh == 'any' else ' [never allocated]'
        J += [Job('get' + t, j_get, 'BitSet::get', dict(shape=sh)),
              Job('nextSetBit' + t, lambda E, shape: scan(E, PK + '10nextSetBitEj', True, shape), 'BitSet::nextSetBit', dict(shape=sh)),
              Job('nextClearBit' + t, lambda E, shape: scan(E, PK + '12nextClearBitEj', False, shape), 'BitSet::nextClearBit', dict(shape=sh)),
              Job('cardinality' + t, j_card, 'BitSet::cardinality', dict(shape=sh)),
              Job('isEmpty/size' + t, j_simple, 'BitSet::isEmpty, BitSet::size', dict(shape=sh))]
    for sh in SH:
        t = ' [%s,%s]' % sh
        J += [Job('==' + t, eqs, 'BitSet::operator==', dict(fn=PK + 'eqERKS1_', neg=False, alias=False, sh=sh)),
              Job('!=' + t, eqs, 'BitSet::operator!=', dict(fn=PK + 'neERKS1_', neg=True, alias=False, sh=sh)),
              Job('logical_and' + t, j_land, 'BitSet::logical_and', dict(sh=sh)), Job('logical_or' + t, j_lor, 'BitSet::logical_or', dict(sh=sh))]
    J += [Job('== [self]', eqs, 'BitSet::operator==', dict(fn=PK + 'eqERKS1_', neg=False, alias=True, sh=SH[0])),
          Job('!= [self]', eqs, 'BitSet::operator!=', dict(fn=PK + 'neERKS1_', neg=True, alias=True, sh=SH[0])),
          Job('logical_and [self]', j_land, 'BitSet::logical_and', dict(alias=True)), Job('logical_or [self]', j_lor, 'BitSet::logical_or', dict(alias=True))]
    return J
_OPS = {'get': 0, 'nextSetBit': 1, 'nextClearBit': 2, 'cardinality': 3, 'isEmpty/size': 4, '==': 5, '!=': 6, 'logical_and': 7, 'logical_or': 8, 'bitCount': 9, 'ntz': 10}
def cex_case(job, c):
    from C01 import case_set
    op = job.split(' ')[0]
    return [_OPS[op], c.get('idx', 0), int('[self]' in job), c.get('x', 0)] + case_set(c, 'a') + case_set(c, 'b')
