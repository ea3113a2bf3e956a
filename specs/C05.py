"""C05 - ByteBuffer put/get use the buffer's byte order and are exact inverses."""
from bb import *
from harness import Job
ASSUMPTIONS = ['buffers of at most 2^45 bytes', 'float/double are handled as their IEEE bit patterns', 'assert() is compiled in']
def tus(R, V): return [(V + '/tu/bb.cpp', [])]
def run(E, fn, args, st):
    E.abort_ok = lambda s, why: 'assert' in why.lower()      # refusals are C04's subject
    for o in E.call(fn, args, st):
        if o.kind == 'abort': continue
        if o.kind != 'ret':
            E.oblige(o.st, 'returns normally (%s %s)' % (o.kind, o.val), False); continue
        E.covered(o.st, 'reaches return')
        yield o
def val(E, N): return E.name('v', fresh(TY[N], 'v'))
def room(st, B, at, k): st.assume(ULE(BitVecVal(k, 64), B.lim)); st.assume(ULE(b64(at), B.lim - k))
def j_put(E, N, named=False):
    st = State(); B = mkbuf(E, st); w = TY[N]; v = val(E, N); room(st, B, B.pos, w // 8)
    for o in run(E, ('bb_p_' if named else 'bb_put_') + N, [B.o, v], st):
        g = rd(E, o.st, B)
        for j in range(w // 8): E.oblige(o.st, 'byte %d in the byte order of the buffer' % j, g(B.pos + j) == enc(v, w, isbig(B), j))
def j_puti(E, N, named=False):
    st = State(); B = mkbuf(E, st); w = TY[N]; v = val(E, N); i = E.name('i', fresh(64, 'i')); room(st, B, i, w // 8)
    for o in run(E, ('bb_pi_' if named else 'bb_puti_') + N, [B.o, i, v], st):
        g = rd(E, o.st, B)
        for j in range(w // 8): E.oblige(o.st, 'byte %d in the byte order of the buffer' % j, g(i + j) == enc(v, w, isbig(B), j))
def j_get(E, N, named=False):
    st = State(); B = mkbuf(E, st); w = TY[N]; room(st, B, B.pos, w // 8)
    for o in run(E, ('bb_g_' if named else 'bb_get_') + N, [B.o], st):
        E.oblige(o.st, 'value of the bytes at the position', bv(o.val, w) == dec(B.rd0, B.pos, w, isbig(B)))
def j_geti(E, N, named=False):
    st = State(); B = mkbuf(E, st); w = TY[N]; i = E.name('i', fresh(64, 'i')); room(st, B, i, w // 8)
    for o in run(E, ('bb_gi_' if named else 'bb_geti_') + N, [B.o, i], st):
        E.oblige(o.st, 'value of the bytes at the index', bv(o.val, w) == dec(B.rd0, i, w, isbig(B)))
def j_bool(E):
    for idx in (False, True):
        st = State(); B = mkbuf(E, st); i = E.name('i', fresh(64, 'i')); at = i if idx else B.pos; room(st, B, at, 1)
        v = z3.Bool('vb')
        for o in run(E, 'bb_pi_bool' if idx else 'bb_p_bool', [B.o] + ([i] if idx else []) + [v], st):
            E.oblige(o.st, 'boolean is one byte 0/1', rd(E, o.st, B)(at) == If(v, BitVecVal(1, 8), BitVecVal(0, 8)))
        for o in run(E, 'bb_gi_bool' if idx else 'bb_g_bool', [B.o] + ([i] if idx else []), st):
            E.oblige(o.st, 'any non-zero byte is true', tob(o.val) == (bv(B.rd0(at), 8) != 0))
def j_round(E, N):
    """put, rewind to the start of the value, get: the same bits come back, for either order, also after setEndianess"""
    st = State(); B = mkbuf(E, st); w = TY[N]; v = val(E, N); room(st, B, B.pos, w // 8)
    for o in run(E, 'bb_put_' + N, [B.o, v], st):
        for p in run(E, 'bb_setPosition', [B.o, B.pos], o.st):
            for q in run(E, 'bb_get_' + N, [B.o], p.st):
                E.oblige(q.st, 'get returns what put wrote', bv(q.val, w) == v)
def j_order(E, N):
    """setEndianess(order) then put: most significant byte first exactly for the big endian order"""
    for order in (BIG, LITTLE):
        st = State(); B = mkbuf(E, st); w = TY[N]; v = val(E, N); room(st, B, B.pos, w // 8)
        for s in run(E, 'bb_setEndianess', [B.o, order], st):
            for o in run(E, 'bb_put_' + N, [B.o, v], s.st):
                g = rd(E, o.st, B)
                for j in range(w // 8): E.oblige(o.st, 'byte %d after setEndianess(%d)' % (j, order), g(B.pos + j) == enc(v, w, BoolVal(order == BIG), j))
def j_arr(E, N, put):
    st = State(); B = mkbuf(E, st); w = TY[N]; k = w // 8
    cnt = E.name('count', fresh(64, 'count')); st.assume(ULE(cnt, z3.UDiv(B.lim - B.pos, BitVecVal(k, 64)))); st.assume(ULE(cnt, 1 << 44))
    a = E.array(st, 'values', cnt, k, heap='new'); A = st.mem[a.r].arr.rd
    for o in run(E, ('bb_putArray_' if put else 'bb_getArray_') + N, [B.o, a, cnt], st):
        g = rd(E, o.st, B); r = E.region(o.st, a.r)
        q = fresh(64, 'q'); s = o.st.copy(); s.assume(ULT(q, cnt))
        if put:
            for j in range(k): E.oblige(s, 'byte %d of every element' % j, g(B.pos + q * k + j) == enc(A(q), w, isbig(B), j))
        else: E.oblige(s, 'every element has the value of its bytes', bv(r.arr.rd(q), w) == dec(B.rd0, B.pos + q * k, w, isbig(B)))
def j_swap(E, N):
    st = State(); w = TY[N]; v = val(E, N)
    for o in run(E, 'bb_swap_' + N, [v], st):
        E.oblige(o.st, 'swap reverses the bytes', bv(o.val, w) == (Concat(*[Extract(8*j+7, 8*j, v) for j in range(w // 8)]) if w > 8 else v))
def jobs(tier):
    J = []
    for N in TY:
        J += [Job('put<%s>' % N, j_put, 'ByteBuffer::put<T>(T)', dict(N=N)), Job('put<%s>(index)' % N, j_puti, 'ByteBuffer::put<T>(index,T)', dict(N=N)),
              Job('get<%s>' % N, j_get, 'ByteBuffer::get<T>()', dict(N=N)), Job('get<%s>(index)' % N, j_geti, 'ByteBuffer::get<T>(index)', dict(N=N)),
              Job('put,get<%s>' % N, j_round, 'ByteBuffer::put<T>, setPosition, get<T>', dict(N=N)), Job('setEndianess,put<%s>' % N, j_order, 'ByteBuffer::setEndianess, put<T>', dict(N=N)),
              Job('putArray<%s>' % N, j_arr, 'ByteBuffer::putArray<T>', dict(N=N, put=True)), Job('getArray<%s>' % N, j_arr, 'ByteBuffer::getArray<T>', dict(N=N, put=False)),
              Job('swap<%s>' % N, j_swap, 'pvData::swap<T>', dict(N=N))]
    for N, nm in (('i8', 'Byte'), ('i16', 'Short'), ('i32', 'Int'), ('i64', 'Long'), ('f32', 'Float'), ('f64', 'Double')):
        J += [Job('put' + nm, j_put, 'ByteBuffer::put' + nm, dict(N=N, named=True)), Job('put%s(index)' % nm, j_puti, 'ByteBuffer::put%s(index)' % nm, dict(N=N, named=True)),
              Job('get' + nm, j_get, 'ByteBuffer::get' + nm, dict(N=N, named=True)), Job('get%s(index)' % nm, j_geti, 'ByteBuffer::get%s(index)' % nm, dict(N=N, named=True))]
    J += [Job('Boolean', j_bool, 'ByteBuffer::putBoolean/getBoolean')]
    return J
_T = list(TY)
def cex_case(job, c):
    from C04 import _bufwords
    n = job.split('<')[0].split('(')[0]; T = job.split('<')[1].split('>')[0] if '<' in job else None
    nm = 0
    if T is None:
        for t, k in (('i8', 'Byte'), ('i16', 'Short'), ('i32', 'Int'), ('i64', 'Long'), ('f32', 'Float'), ('f64', 'Double')):
            if n[3:] == k: T, nm = t, 1
        if T is None: T = 'i8'
    op = {'put,get': 2, 'setEndianess,put': 3, 'putArray': 4, 'getArray': 5, 'swap': 6, 'Boolean': 7}.get(n, 0 if n.startswith('put') else 1)
    return [op, _T.index(T), nm, int('(index)' in job), c.get('i', 0), c.get('v', 0), c.get('count', 0)] + _bufwords(c)
