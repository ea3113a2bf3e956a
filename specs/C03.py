"""C03 - BitSet on the wire."""
from stream import *
import bs
from harness import Job
ASSUMPTIONS = ['a BitSet holds at most 2^26 words; its encoding fits the send buffer (the code asks the flusher for all of it at once)', 'the flusher and the deserialization control keep their documented contracts (specs/stream.py)',
               'std::vector<uint64> operations have their documented contracts', 'writeSize/readSize are used by contract (proved on their bodies by C06)']
def tus(R, V): return [(R + '/src/misc/bitSet.cpp', []), (R + '/src/misc/serializeHelper.cpp', [])]
SER = '_ZNK5epics6pvData6BitSet9serializeEPNS0_10ByteBufferEPNS0_19SerializableControlE'
DES = '_ZN5epics6pvData6BitSet11deserializeEPNS0_10ByteBufferEPNS0_21DeserializableControlE'
def nzbytes(x):
    """number of bytes up to the most significant non-zero one"""
    r = BitVecVal(0, 64)
    for i in range(8): r = If(Extract(8*i+7, 8*i, x) != 0, BitVecVal(i + 1, 64), r)
    return r
def wbyte(w, j):
    r = Extract(7, 0, w)
    for i in range(1, 8): r = If(j == i, Extract(8*i+7, 8*i, w), r)
    return r
def j_ser(E, shape='any', case=None):
    st = State(); B = mkbuf(E, st); F = writer(E, st, B)
    a, n, A = bs.mkset(E, st, 'a', shape=shape); w = bs.W(n, A); big = isbig(B)
    n = b64(n)
    last = bv(A(sub(n, 1)), 64)
    ln = fresh(64, 'len'); st.assume(ln == If(n == 0, BitVecVal(0, 64), (n - 1) * 8 + nzbytes(last)))
    st.assume(ULE(ln, B.n))
    if case: st.assume((B.rev == 1) == (case[0] == 'b')); st.assume(ULT(ln, 254) == (case[1] == 's'))
    full = LShR(ln, 3); sl = size_len(ln)
    def exp(k):
        k = b64(k); j = simplify(k - sl); wd = bv(w(simplify(LShR(j, 3))), 64); jj = j & 7
        return If(ULT(k, sl), size_byte(ln, big, k), If(ULT(LShR(j, 3), full), enc(wd, 64, big, jj), wbyte(wd, jj)))
    N = simplify(sl + ln)
    expect(E, F, N, exp, (1, 8)); use_wsize(E, F)
    for o in E.call(SER, [a, B.o, F.o], st):
        if o.kind != 'ret':
            E.oblige(o.st, 'returns normally (%s %s)' % (o.kind, o.val or o.why), False); continue
        E.covered(o.st, 'reaches return')
        wrote(E, o.st, F, N, exp, 'bit set')
        bs.same_words(E, o.st, a, w, 'the set is unchanged')
OVERALL = 560
def j_des(E, shape='any', case=None, null=False):
    st = State(); B = mkbuf(E, st); F = reader(E, st, B, esz=(1, 8))
    a, n, A = bs.mkset(E, st, 'a', shape=shape); big = isbig(B)
    b0, val, ln, v = size_dec(F.rd, 0, big); neg = And(b0 == 254, v < 0); nul = b0 == 255
    use_rsize(E, F)
    # the decoded length, named: q full words and r more bytes (2^32 - 1, the null length as 32 bit number, counts as none)
    q, r = fresh(28, 'q'), fresh(3, 'r')
    st.assume(nul if null else Not(nul))
    if case:
        st.assume((B.rev == 1) == (case[0] == 'b')); st.assume((b0 == 254) == (case[1] == 'l'))
        if case[2] == '0': r = BitVecVal(0, 3)
        else: st.assume(r != 0)
    st.assume(Implies(Not(neg), Concat(BitVecVal(0, 33), q, r) == If(nul, BitVecVal(0, 64), val)))
    nb = Concat(BitVecVal(0, 33), q, r); full = simplify(ZeroExt(36, q)); rem = simplify(ZeroExt(61, r))
    F.size_name = lambda st, p0, v: BitVecVal(NULLSZ, 64) if null else nb
    def want(k):
        """word k of the decoded set"""
        k = b64(k); at = simplify(ln + (k << 3))
        by = [F.rd(simplify(at + i)) for i in range(8)]
        f = If(big, Concat(*by), Concat(*reversed(by)))
        p = BitVecVal(0, 64)
        for i in range(7): p = p | If(ULT(BitVecVal(i, 64), rem), ZeroExt(56, by[i]) << (8 * i), BitVecVal(0, 64))
        return If(ULT(k, full), f, If(And(k == full, rem != 0), p, BitVecVal(0, 64)))
    def part(k, c):
        """word k after c bytes of the remainder"""
        k = b64(k); at = simplify(ln + (full << 3)); p = BitVecVal(0, 64)
        for i in range(7): p = p | If(ULT(BitVecVal(i, 64), c), ZeroExt(56, F.rd(simplify(at + i))) << (8 * i), BitVecVal(0, 64))
        return p
    def tmpl(L):
        out = [('no more than the set', lambda v: ULE(consumed(E, v.st, F), ln + nb)), ('whole words only', lambda v: Implies(ULT(full, b64(1)), consumed(E, v.st, F) >= ln)),
               ('words read so far', lambda v: ULE(consumed(E, v.st, F), ln + (full << 3)))]
        for loc in L.order:
            if loc[0] == 'arr' and loc not in L.closed and L.entry[loc].w == 64:     # the word being assembled from the remaining bytes
                e = L.entry[loc]
                out.append(('other words unchanged', lambda v, loc=loc, e=e: Forall(lambda k: Implies(k != full, bv(v.get(loc).rd(k), 64) == bv(e.rd(k), 64)))))
                out.append(('last word', lambda v, loc=loc: bv(v.get(loc).rd(full), 64) == part(full, consumed(E, v.st, F) - ln - (full << 3))))
        return out
    E.templates.append(tmpl)
    for o in E.call(DES, [a, B.o, F.o], st):
        if o.kind == 'throw':
            if o.val.ti in ('control.nodata', '_ZTISt9bad_alloc', '_ZTISt12length_error'): continue
            E.oblige(o.st, 'refuses only a negative length', neg); continue
        if o.kind != 'ret': E.oblige(o.st, 'returns normally (%s)' % o.why, False); continue
        E.covered(o.st, 'reaches return')
        n2, rd2 = bs.words(E, o.st, a); w2 = bs.W(n2, rd2)
        E.forall_goal(o.st, 'every word of the decoded set', lambda k: bv(w2(k), 64) == want(k))
        bs.canon(E, o.st, a)
        read_post(E, o.st, F, simplify(ln + nb))
def jobs(tier):
    return [Job('serialize' + t, j_ser, 'BitSet::serialize', dict(shape='any', case=c)) for c, t in (('bs', ' [big endian, short]'), ('bl', ' [big endian, long]'), ('ls', ' [little endian, short]'), ('ll', ' [little endian, long]'))] + \
           [Job('serialize [never allocated]', j_ser, 'BitSet::serialize', dict(shape='empty'))] + \
           [Job('deserialize [%s]' % c, j_des, 'BitSet::deserialize, recalculateWordsInUse', dict(case=c), budget=400) for c in ('bs0', 'bl0', 'bs1', 'bl1', 'ls0', 'll0', 'ls1', 'll1')] + \
           [Job('deserialize [into never allocated]', j_des, 'BitSet::deserialize', dict(shape='empty'), budget=400), Job('deserialize [null length]', j_des, 'BitSet::deserialize', dict(null=True))]
