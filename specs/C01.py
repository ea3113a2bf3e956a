"""C01 - BitSet set algebra: every mutator computes exactly the documented set."""
from bs import *
from harness import Job
ASSUMPTIONS = ['a BitSet holds at most 2^26 words (bit indices are 32 bit)', 'std::vector<uint64> operations have their documented contracts (trusted, see trusted_base)']
def tus(R, V): return [(R + '/src/misc/bitSet.cpp', [])]

def outs(E, name, args, st):
    for o in E.call(name, args, st):
        if o.kind == 'throw' and o.val.ti in ('_ZTISt9bad_alloc', '_ZTISt12length_error'):
            continue
        if o.kind != 'ret':
            E.oblige(o.st, 'returns normally (%s %s)' % (o.kind, o.val or o.why), False); continue
        E.covered(o.st, 'reaches return')
        yield o

def single(E, fn, spec, extra=None, shape='any'):
    st = State()
    a, n, A = mkset(E, st, 'a', shape=shape); A = W(n, A)
    idx = E.name('idx', fresh(32, 'idx'))
    args = [a, idx] + (extra(E, st) if extra else [])
    i64 = ZeroExt(32, idx); wi = LShR(i64, 6); m = BitVecVal(1, 64) << (i64 & 63)
    for o in outs(E, fn, args, st):
        n2, rd = words(E, o.st, a); w2 = W(n2, rd)
        E.forall_goal(o.st, 'every word of the result', lambda k: bv(w2(k), 64) == If(k == wi, spec(bv(A(k), 64), m, args), bv(A(k), 64)))
        canon(E, o.st, a)
        if o.val is not None and isinstance(o.val, Ptr): E.oblige(o.st, 'returns *this', o.val.same(a))
def j_set(E, shape='any'): single(E, P + '3setEj', lambda w, m, a: w | m, shape=shape)
def j_clear(E, shape='any'): single(E, P + '5clearEj', lambda w, m, a: w & ~m, shape=shape)
def j_flip(E, shape='any'): single(E, P + '4flipEj', lambda w, m, a: w ^ m, shape=shape)
def j_setv(E, shape='any'):
    single(E, P + '3setEjb', lambda w, m, a: If(a[2], w | m, w & ~m), lambda E, st: [E.name('val', z3.Bool('val'))], shape)
def j_clearall(E, shape='any'):
    st = State(); a, n, A = mkset(E, st, 'a', shape=shape)
    for o in outs(E, P + '5clearEv', [a], st):
        n2, rd = words(E, o.st, a)
        E.oblige(o.st, 'empty', icmp('eq', n2, 0, 64)); canon(E, o.st, a)
def binary(E, fn, spec, alias=False, ret=True, sh=('any', 'any')):
    st = State()
    a, n, A = mkset(E, st, 'a', shape=sh[0]); A = W(n, A)
    if alias: b, m, B = a, n, A
    else:
        b, m, B = mkset(E, st, 'b', shape=sh[1]); B = W(m, B)
        if not isc(b.r): pass
    for o in outs(E, fn, [a, b], st):
        n2, rd = words(E, o.st, a); w2 = W(n2, rd)
        E.forall_goal(o.st, 'every word of the result', lambda k: bv(w2(k), 64) == spec(bv(A(k), 64), bv(B(k), 64)))
        canon(E, o.st, a)
        if not alias: same_words(E, o.st, b, B, 'argument unchanged')
        if ret: E.oblige(o.st, 'returns *this', o.val.same(a))
def j_and(E, **k): binary(E, P + 'aNERKS1_', lambda x, y: x & y, **k)
def j_or(E, **k): binary(E, P + 'oRERKS1_', lambda x, y: x | y, **k)
def j_xor(E, **k): binary(E, P + 'eOERKS1_', lambda x, y: x ^ y, **k)
def j_assign(E, **k): binary(E, P + 'aSERKS1_', lambda x, y: y, **k)
def j_orand(E, alias=''):
    """alias: which of set1,set2 are *this / the same object"""
    st = State()
    a, n, A = mkset(E, st, 'a'); A = W(n, A)
    if '1' in alias: s1, S1 = a, A
    else: s1, m, S1 = mkset(E, st, 'b'); S1 = W(m, S1)
    if '2' in alias: s2, S2 = a, A
    elif 'e' in alias: s2, S2 = s1, S1
    else: s2, m2, S2 = mkset(E, st, 'c'); S2 = W(m2, S2)
    for o in outs(E, P + '6or_andERKS1_S3_', [a, s1, s2], st):
        n2, rd = words(E, o.st, a); w2 = W(n2, rd)
        E.forall_goal(o.st, 'every word of the result', lambda k: bv(w2(k), 64) == (bv(A(k), 64) | (bv(S1(k), 64) & bv(S2(k), 64))))
        canon(E, o.st, a)
        if s1 is not a: same_words(E, o.st, s1, S1, 'set1 unchanged')
        if s2 is not a and s2 is not s1: same_words(E, o.st, s2, S2, 'set2 unchanged')
def j_swap(E):
    st = State()
    a, n, A = mkset(E, st, 'a'); A = W(n, A)
    b, m, B = mkset(E, st, 'b'); B = W(m, B)
    for o in outs(E, P + '4swapERS1_', [a, b], st):
        same_words(E, o.st, a, B, 'a has the words of b'); same_words(E, o.st, b, A, 'b has the words of a')
        canon(E, o.st, a); canon(E, o.st, b)
def j_ctor(E, nb):
    st = State(); a = rawset(E, st, 'a')
    args = [a] + ([E.name('nbits', fresh(32, 'nbits'))] if nb else [])
    for o in outs(E, P + ('C2Ej' if nb else 'C2Ev'), args, st):
        n2, rd = words(E, o.st, a)
        E.oblige(o.st, 'constructed empty', icmp('eq', n2, 0, 64))
def jobs(tier):
    J = []
    for sh in ('any', 'empty'):
        t = '' if sh == 'any' else ' [never allocated]'
        J += [Job('set(i)' + t, j_set, 'BitSet::set(uint32)', dict(shape=sh)), Job('clear(i)' + t, j_clear, 'BitSet::clear(uint32)', dict(shape=sh)),
              Job('flip(i)' + t, j_flip, 'BitSet::flip(uint32), recalculateWordsInUse, expandTo, ensureCapacity', dict(shape=sh)),
              Job('set(i,v)' + t, j_setv, 'BitSet::set(uint32,bool)', dict(shape=sh)), Job('clear()' + t, j_clearall, 'BitSet::clear()', dict(shape=sh))]
    for nm, f, d in (('and', j_and, 'BitSet::operator&='), ('or', j_or, 'BitSet::operator|='), ('xor', j_xor, 'BitSet::operator^='), ('assign', j_assign, 'BitSet::operator=')):
        J += [Job(nm, f, d), Job(nm + ' [self]', f, d, dict(alias=True)), Job(nm + ' [empty,any]', f, d, dict(sh=('empty', 'any'))),
              Job(nm + ' [any,empty]', f, d, dict(sh=('any', 'empty'))), Job(nm + ' [empty,empty]', f, d, dict(sh=('empty', 'empty')))]
    J += [Job('or_and' + (' [alias %s]' % al if al else ''), j_orand, 'BitSet::or_and', dict(alias=al)) for al in ('', '1', '2', '12', 'e')]
    J += [Job('swap', j_swap, 'BitSet::swap'), Job('ctor', j_ctor, 'BitSet::BitSet()', dict(nb=False)), Job('ctor(nbits)', j_ctor, 'BitSet::BitSet(uint32)', dict(nb=True))]
    return J
_OPS = {'set(i)': 0, 'clear(i)': 1, 'flip(i)': 2, 'set(i,v)': 3, 'clear()': 4, 'and': 5, 'or': 6, 'xor': 7, 'assign': 8, 'or_and': 9, 'swap': 10, 'ctor': 11}
def case_set(c, nm):
    """words of a set in the verifier's model (only small ones can be replayed as they are)"""
    n = c.get(nm + '.n', 0)
    return [min(n, 6)] + list(c.get(nm, []))[:min(n, 6)]
def cex_case(job, c):
    op = job.split(' ')[0]
    if '(nbits)' in op: op = 'ctor'
    al = {'[self]': 1, '[alias': 4}.get(job.split(' ')[1] if ' ' in job else '', 0)
    if '[alias' in job: al = {'1]': 1, '2]': 2, '12]': 3, 'e]': 4}[job.split(' ')[2]]
    return [_OPS[op], c.get('idx', 0), int(str(c.get('val', 0)) in ('True', '1')), al] + case_set(c, 'a') + case_set(c, 'b') + case_set(c, 'c')
