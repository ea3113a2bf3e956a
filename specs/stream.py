"""Assumed contracts of the serialization controls (SerializableControl / DeserializableControl)
and the ghost byte stream they feed: the property of every serializer is stated on the whole
sequence of bytes handed over, whatever the flusher does in between."""
from bb import *
from loops import Forall
import stdlib, strings
TOTMAX = 1 << 60

# ------------------------------------------------------------------ writing
class Out: pass
def funcs(E, names):
    return [E.global_ptr(n) for n in names]
def vobj(E, st, nm, slots):
    """object whose vtable slots are the given contract functions"""
    vt = E.alloc(st, nm + '.vtable', 8 * len(slots), 'struct', writable=False)
    r = st.reg(vt.r)
    for k, p in enumerate(slots): r.cells[8 * k] = (8, p)
    o = E.alloc(st, nm, 16, 'struct')
    st.reg(o.r).cells[0] = (8, vt)
    return o
def writer(E, st, B, minsize=16, direct=False):
    """a flusher over buffer B.  Ghost: out = bytes flushed so far, base = how many; byte x of the buffer is stream byte x + delta"""
    st.assume(UGE(B.n, minsize))
    F = Out(); F.B = B
    st.ghost['out'] = ABase(8, fresh_name('OUT')); st.ghost['base'] = BitVecVal(0, 64); st.ghost['delta'] = simplify(-b64(B.pos))
    nms = ['flusher.%s' % x for x in ('D1', 'D0', 'flushSerializeBuffer', 'ensureBuffer', 'alignBuffer', 'directSerialize', 'cachedSerialize')]
    F.o = vobj(E, st, 'flusher', funcs(E, nms))
    def flush(E, st):
        T = total(E, st, B); pl = payload(E, st, B)
        st.ghost['out'] = AFn(8, pl); st.ghost['base'] = T
        np_, nl = fresh(64, 'pos'), fresh(64, 'lim')
        st.assume(ULE(np_, nl)); st.assume(ULE(nl, B.n))
        E.store_n(st, B.o.plus(8), B.mem.plus(np_), 8); E.store_n(st, B.o.plus(16), B.mem.plus(nl), 8)
        st.ghost['delta'] = simplify(T - np_)
        st.reg(B.mem.r).arr = ABase(8, fresh_name('BUF'))
        return np_, nl
    def c_flush(E, st, a, i):
        flush(E, st); return None
    def c_ensure(E, st, a, i):
        need = a[1]
        if isc(need) and need <= minsize: pass
        else: E.oblige(st, 'asks the flusher for no more than it can hold', icmp('ule', need, B.n, 64), 'pre') if getattr(F, 'strict', True) else None
        out = []
        s = st.copy(); p = off(E, s, B, 'pos')[0]; l = off(E, s, B, 'lim')[0]
        s.assume(icmp('uge', sub(l, p), need, 64))
        if E.feasible(s, True): out.append(('ret', s, None))
        np_, nl = flush(E, st); st.assume(UGE(nl - np_, b64(need)))
        if E.feasible(st, True): out.append(('ret', st, None))
        return Tr_(out)
    def c_direct(E, st, a, i):
        """may take the elements over as they lie in memory, after flushing what is buffered"""
        out = []
        if direct:
            s = st.copy()
            n = simp(mul(a[3], a[4]))
            flush(E, s)
            src = E.ptr(s, a[2]); E.access(s, src, n, False)
            rdm = strings.c_rd(E, s, src); base = s.ghost['base']
            s.ghost['out'] = ARange(s.ghost['out'], base, b64(n), lambda i, rdm=rdm, base=base: rdm(b64(i) - base))
            s.ghost['base'] = simplify(base + b64(n)); s.ghost['delta'] = simplify(s.ghost['base'] - b64(off(E, s, B, 'pos')[0]))
            out.append(('ret', s, True))
        out.append(('ret', st, False))
        return Tr_(out)
    E.add_contract(nms[2], c_flush); E.add_contract(nms[3], c_ensure); E.add_contract(nms[4], stdlib.nop); E.add_contract(nms[5], c_direct)
    return F
def Tr_(l):
    from exec import Tr
    return Tr(l)
def total(E, st, B):
    p = b64(off(E, st, B, 'pos')[0])
    return simplify(p + st.ghost['delta'])
def payload(E, st, B):
    rdb = rd(E, st, B); base, delta, S = st.ghost['base'], st.ghost['delta'], st.ghost['out']
    return lambda k: If(ULT(b64(k), base), bv(S.rd(k), 8), rdb(simp(b64(k) - delta)))
def expect(E, F, n, exp, esz=(1,)):
    """loop template: what was written so far is a prefix of the n expected bytes exp(k), and loop counters follow the total"""
    B = F.B; F.n, F.exp = b64(n), exp
    def tmpl(L):
        out = [('buffer inv', lambda v: And(ULE(b64(off(E, v.st, B, 'pos')[0]), b64(off(E, v.st, B, 'lim')[0])), ULE(b64(off(E, v.st, B, 'lim')[0]), B.n))),
               ('total bound', lambda v: And(ULE(total(E, v.st, B), F.n), ULE(v.st.ghost['base'], total(E, v.st, B)))),
               ('prefix', lambda v: Forall(lambda k: Implies(ULT(k, total(E, v.st, B)), payload(E, v.st, B)(k) == exp(k)), 'written prefix'))]
        out += counters(E, L, lambda v: total(E, v.st, B), total(E, L.st, B), esz)
        return out
    E.templates.append(tmpl)
def counters(E, L, cur, t0, esz=(1,)):
    """cur - t0 == +-esz * (phi - phi0) for every integer/pointer loop variable"""
    out = [('not before the start', lambda v: ULE(b64(t0), cur(v)))]
    for loc in L.order:
        e = L.entry.get(loc)
        if loc[0] == 'phi' and L.types[loc[1]].k == 'int' and L.types[loc[1]].a == 64 or loc[0] == 'cell' and loc[3] == 8 and not isinstance(e, (Ptr, tuple)) and e is not None:
            for es in esz:
                out.append(('total ~ %d*count' % es, lambda v, loc=loc, es=es, e=e: cur(v) - b64(t0) == (b64(v.get(loc)) - b64(e)) * es))
                out.append(('total ~ -%d*count' % es, lambda v, loc=loc, es=es, e=e: cur(v) - b64(t0) == (b64(e) - b64(v.get(loc))) * es))
        elif isinstance(e, Ptr):
            out.append(('total ~ pointer', lambda v, loc=loc, e=e: cur(v) - b64(t0) == b64(v.get(loc).off) - b64(e.off)))
    for es in esz:
        out.append(('total ~ %d*t' % es, lambda v, es=es: cur(v) - b64(t0) == v.t * es))
        out.append(('total <= start + %d*t' % es, lambda v, es=es: ULE(cur(v) - b64(t0), v.t * es)))
    return out
def wrote(E, st, F, n, exp, what='bytes written'):
    """the call handed over exactly the n bytes exp(k)"""
    B = F.B
    E.oblige(st, what + ': total length', total(E, st, B) == b64(n))
    pl = payload(E, st, B)
    E.forall_goal(st, what + ': every byte', lambda k: Implies(ULT(k, b64(n)), pl(k) == exp(k)))
    p, okp = off(E, st, B, 'pos'); l, okl = off(E, st, B, 'lim')
    E.oblige(st, 'buffer left in its invariant', band(okp, okl, ULE(b64(p), b64(l)), ULE(b64(l), B.n)), 'invariant')
    E.oblige(st, 'byte order unchanged', band(eq(field(E, st, B, 'rev'), B.rev, 8), eq(field(E, st, B, 'revf'), B.rev, 8)), 'frame')

# ------------------------------------------------------------------ reading
def reader(E, st, B, direct=False, may_fail=True, esz=(1,)):
    """DeserializableControl over buffer B: the bytes of the (arbitrarily fragmented) input are D(0), D(1), ...;
    ghost rb: the buffer holds stream byte rb + x at offset x (for position <= x < limit)"""
    F = Out(); F.B = B
    D = ABase(8, fresh_name('IN')); F.D = D; F.rd = lambda k: bv(D.rd(k), 8)
    F.N = E.name('instream_len', fresh(64, 'instream')); st.assume(ULE(F.N, TOTMAX))
    E.name('instream', (D, F.N))
    st.ghost['rb'] = simplify(-b64(B.pos))
    st.assume(ULE(B.lim - B.pos, F.N))
    st.reg(B.mem.r).arr = AFn(8, lambda k: D.rd(simp(b64(k) - b64(B.pos))))
    nms = ['control.%s' % x for x in ('D1', 'D0', 'ensureData', 'alignData', 'directDeserialize', 'cachedDeserialize')]
    F.o = vobj(E, st, 'control', funcs(E, nms))
    def refill(E, st):
        p = b64(off(E, st, B, 'pos')[0]); l = b64(off(E, st, B, 'lim')[0])
        np_, nl = fresh(64, 'pos'), fresh(64, 'lim'); st.assume(ULE(np_, nl)); st.assume(ULE(nl, B.n)); st.assume(UGE(nl - np_, l - p))
        c = st.ghost['rb'] + p
        nb = fresh(64, 'rb'); st.assume(nb + np_ == c)
        st.assume(ULE(c, F.N)); st.assume(ULE(nl - np_, F.N - c))
        st.ghost['rb'] = nb
        E.store_n(st, B.o.plus(8), B.mem.plus(np_), 8); E.store_n(st, B.o.plus(16), B.mem.plus(nl), 8)
        st.reg(B.mem.r).arr = AFn(8, lambda k, nb=nb: D.rd(simp(nb + b64(k))))
        return np_, nl
    def c_ensure(E, st, a, i):
        need = a[1]
        out = []
        s = st.copy(); p = off(E, s, B, 'pos')[0]; l = off(E, s, B, 'lim')[0]
        s.assume(icmp('uge', sub(l, p), need, 64))
        if E.feasible(s, True): out.append(('ret', s, None))
        if may_fail: out.append(('throw', st.copy(), Exc_('control.nodata')))
        np_, nl = refill(E, st); st.assume(UGE(nl - np_, b64(need)))
        if E.feasible(st, True): out.append(('ret', st, None))
        return Tr_(out)
    def c_direct(E, st, a, i):
        out = []
        if direct:
            s = st.copy(); n = simp(mul(a[3], a[4])); dst = E.ptr(s, a[2])
            c = consumed(E, s, F)
            tmp = E.alloc(s, 'direct', n, 'array', esz=1, arr=AFn(8, lambda k, c=c: D.rd(simp(c + b64(k)))))
            E.memcpy(s, dst, tmp, n)
            s.assume(ULE(c, F.N)); s.assume(ULE(b64(n), F.N - c))
            np_, nl = fresh(64, 'pos'), fresh(64, 'lim'); s.assume(ULE(np_, nl)); s.assume(ULE(nl, B.n)); nb = fresh(64, 'rb')
            s.assume(nb + np_ == c + b64(n)); s.assume(ULE(nl - np_, F.N - (c + b64(n))))
            s.ghost['rb'] = nb
            E.store_n(s, B.o.plus(8), B.mem.plus(np_), 8); E.store_n(s, B.o.plus(16), B.mem.plus(nl), 8)
            s.reg(B.mem.r).arr = AFn(8, lambda k, nb=nb: D.rd(simp(nb + b64(k))))
            if E.feasible(s, True): out.append(('ret', s, True))
        out.append(('ret', st, False))
        return Tr_(out)
    E.add_contract(nms[2], c_ensure); E.add_contract(nms[3], stdlib.nop); E.add_contract(nms[4], c_direct)
    def tmpl(L):
        out = [('buffer inv', lambda v: And(ULE(b64(off(E, v.st, B, 'pos')[0]), b64(off(E, v.st, B, 'lim')[0])), ULE(b64(off(E, v.st, B, 'lim')[0]), B.n))),
               ('stream bound', lambda v: And(ULE(consumed(E, v.st, F), F.N), ULE(b64(off(E, v.st, B, 'lim')[0]) - b64(off(E, v.st, B, 'pos')[0]), F.N - consumed(E, v.st, F)))),
               ('content', lambda v: Forall(lambda x: Implies(And(ULE(b64(off(E, v.st, B, 'pos')[0]), x), ULT(x, b64(off(E, v.st, B, 'lim')[0]))), rd(E, v.st, B)(x) == F.rd(simp(v.st.ghost['rb'] + x))), 'buffer holds the stream'))]
        return out + counters(E, L, lambda v: consumed(E, v.st, F), consumed(E, L.st, F), esz)
    E.templates.append(tmpl)
    return F
def Exc_(t):
    from exec import Exc
    return Exc(t)
def consumed(E, st, F):
    return simplify(st.ghost['rb'] + b64(off(E, st, F.B, 'pos')[0]))
def read_post(E, st, F, n, what='consumed'):
    B = F.B
    E.oblige(st, what + ': exactly the encoded bytes', consumed(E, st, F) == b64(n))
    p, okp = off(E, st, B, 'pos'); l, okl = off(E, st, B, 'lim')
    E.oblige(st, 'buffer left in its invariant', band(okp, okl, ULE(b64(p), b64(l)), ULE(b64(l), B.n)), 'invariant')
    E.oblige(st, 'byte order unchanged', band(eq(field(E, st, B, 'rev'), B.rev, 8), eq(field(E, st, B, 'revf'), B.rev, 8)), 'frame')
    E.forall_goal(st, 'rest of the stream still to be read', lambda x: Implies(And(ULE(b64(p), x), ULT(x, b64(l))), rd(E, st, B)(x) == F.rd(simp(st.ghost['rb'] + x))))

# ------------------------------------------------------------------ size encoding (wire format of lengths)
NULLSZ = (1 << 64) - 1
def size_len(n):
    n = b64(n)
    return If(Or(n == NULLSZ, ULT(n, 254)), BitVecVal(1, 64), BitVecVal(5, 64))
def size_byte(n, big, k):
    """byte k of the encoding of size n"""
    n = b64(n); k = b64(k)
    one = Extract(7, 0, n)
    return If(k == 0, If(n == NULLSZ, BitVecVal(255, 8), If(ULT(n, 254), one, BitVecVal(254, 8))), enc(Extract(31, 0, n), 32, big, simplify(k - 1)))
def size_dec(rdf, at, big):
    """(first byte, decoded 64-bit value, encoded length)"""
    b0 = rdf(at); v = dec(rdf, add(at, 1), 32, big)
    return b0, If(b0 == 255, BitVecVal(NULLSZ, 64), If(b0 == 254, ZeroExt(32, v), ZeroExt(56, b0))), If(b0 == 254, BitVecVal(5, 64), BitVecVal(1, 64)), v

# ------------------------------------------------------------------ modular contracts, proved on the bodies by C06
SH = '_ZN5epics6pvData15SerializeHelper'
W_SIZE = SH + '9writeSizeEmPNS0_10ByteBufferEPNS0_19SerializableControlE'
R_SIZE = SH + '8readSizeEPNS0_10ByteBufferEPNS0_21DeserializableControlE'
W_STR = SH + '15serializeStringERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEEPNS0_10ByteBufferEPNS0_19SerializableControlE'
R_STR = SH + '17deserializeStringB5cxx11EPNS0_10ByteBufferEPNS0_21DeserializableControlE'
MAXS = 1 << 31
def append(E, st, F, n, exp):
    """n bytes exp(k) are handed over; buffer state otherwise arbitrary"""
    B = F.B; T = total(E, st, B); pl = payload(E, st, B); n = b64(n)
    st.ghost['out'] = AFn(8, lambda k: If(ULT(b64(k), T), pl(k), exp(simp(b64(k) - T))))
    np_, nl = fresh(64, 'pos'), fresh(64, 'lim'); st.assume(ULE(np_, nl)); st.assume(ULE(nl, B.n))
    E.store_n(st, B.o.plus(8), B.mem.plus(np_), 8); E.store_n(st, B.o.plus(16), B.mem.plus(nl), 8)
    st.ghost['base'] = simplify(T + n); st.ghost['delta'] = simplify(T + n - np_)
    st.reg(B.mem.r).arr = ABase(8, fresh_name('BUF'))
def advance(E, st, F, n):
    """n bytes of the input are consumed"""
    B = F.B; c = simplify(consumed(E, st, F) + b64(n))
    np_, nl = fresh(64, 'pos'), fresh(64, 'lim'); st.assume(ULE(np_, nl)); st.assume(ULE(nl, B.n)); nb = fresh(64, 'rb')
    st.assume(nb == c - np_); st.assume(ULE(c, F.N)); st.assume(ULE(nl - np_, F.N - c))
    st.ghost['rb'] = simplify(c - np_)
    E.store_n(st, B.o.plus(8), B.mem.plus(np_), 8); E.store_n(st, B.o.plus(16), B.mem.plus(nl), 8)
    D, nb = F.D, st.ghost['rb']
    st.reg(B.mem.r).arr = AFn(8, lambda k: D.rd(simp(nb + b64(k))))
def is_stream(E, st, F, b, f):
    if not (isinstance(b, Ptr) and b.same(F.B.o) and isinstance(f, Ptr) and f.same(F.o)): raise Unsupported('helper called with another buffer/control')
def use_wsize(E, F):
    def c(E, st, a, i):
        is_stream(E, st, F, a[1], a[2]); n = b64(a[0])
        E.oblige(st, 'length representable on the wire', Or(ULT(n, MAXS), n == NULLSZ), 'pre')
        append(E, st, F, size_len(n), lambda k: size_byte(n, isbig(F.B), k)); return None
    E.contract_proved(W_SIZE, c)
def use_wstr(E, F):
    def c(E, st, a, i):
        is_stream(E, st, F, a[1], a[2]); n = b64(strings.s_len(E, st, a[0])); C = strings.s_rd(E, st, a[0])
        E.oblige(st, 'length representable on the wire', ULT(n, MAXS), 'pre')
        N, exp = str_bytes(isbig(F.B), n, C); append(E, st, F, N, exp); return None
    E.contract_proved(W_STR, c)
def use_rsize(E, F):
    def c(E, st, a, i):
        is_stream(E, st, F, a[0], a[1]); p0 = consumed(E, st, F)
        b0, val, ln, v = size_dec(F.rd, p0, isbig(F.B)); neg = And(b0 == 254, v < 0)
        out = [('throw', st.copy(), Exc_('control.nodata'))]
        s = st.copy(); s.assume(neg); out.append(('throw', s, Exc_('_ZTIN5epics6pvData13BaseExceptionE')))
        st.assume(Not(neg)); r = simplify(val); advance(E, st, F, ln)
        if getattr(F, 'size_name', None): r = F.size_name(st, p0, r)
        out.append(('ret', st, r))
        return Tr_(out)
    E.contract_proved(R_SIZE, c)
def use_rstr(E, F):
    def c(E, st, a, i):
        is_stream(E, st, F, a[1], a[2]); p0 = consumed(E, st, F)
        b0, val, ln, v = size_dec(F.rd, p0, isbig(F.B)); neg = And(b0 == 254, v < 0); n = simplify(If(b0 == 255, BitVecVal(0, 64), val))
        out = [('throw', st.copy(), Exc_('control.nodata'))]
        s = st.copy(); s.assume(neg); out.append(('throw', s, Exc_('_ZTIN5epics6pvData13BaseExceptionE')))
        st.assume(Not(neg)); at = simplify(p0 + ln); strings.s_new(E, st, a[0], n, lambda k: F.rd(simp(at + b64(k))), name='read')
        advance(E, st, F, simplify(ln + n)); out.append(('ret', st, None))
        return Tr_(out)
    E.contract_proved(R_STR, c)
def str_bytes(big, n, rdc):
    """encoding of a string of n characters"""
    ln = size_len(n)
    return simplify(ln + n), lambda k: If(ULT(b64(k), ln), size_byte(n, big, k), rdc(simp(b64(k) - ln)))
def str_dec(F, at, big):
    """(negative length?, number of characters, character reader, encoded length) of the string at stream offset at"""
    b0, val, ln, v = size_dec(F.rd, at, big); n = simplify(If(b0 == 255, BitVecVal(0, 64), val))
    return And(b0 == 254, v < 0), n, (lambda k: F.rd(simp(b64(at) + ln + b64(k)))), simplify(ln + n)
