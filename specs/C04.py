"""C04 - ByteBuffer never accesses memory outside [buffer, limit) and keeps 0 <= position <= limit <= size."""
from bb import *
from harness import Job
ASSUMPTIONS = ['buffers of at most 2^45 bytes', 'assert() is compiled in (as in the shipped build): a refused access aborts before touching memory']
def tus(R, V): return [(V + '/tu/bb.cpp', [])]
def run(E, fn, args, st, refuse=None):
    """outcomes; an assert abort is allowed exactly when refuse (Bool) holds"""
    def ok(s, why):
        if refuse is None or 'assert' not in why.lower(): return False
        E.oblige(s, 'refused only when the access does not fit', refuse)
        return True
    E.abort_ok = ok
    for o in E.call(fn, args, st):
        if o.kind == 'abort':
            E.covered(o.st, 'refusal reachable'); continue
        if o.kind != 'ret':
            E.oblige(o.st, 'returns normally (%s %s)' % (o.kind, o.val), False); continue
        E.covered(o.st, 'reaches return')
        if refuse is not None: E.oblige(o.st, 'accepted only when the access fits', Not(refuse))
        yield o
def frame(E, st, B, lo, n, what='bytes outside the written range unchanged'):
    g = rd(E, st, B)
    E.forall_goal(st, what, lambda k: Implies(And(ULT(k, B.n), Or(ULT(k, b64(lo)), UGE(k - b64(lo), b64(n)))), g(k) == bv(B.rd0(k), 8)), 'frame')
def val(E, N): return E.name('v', fresh(TY[N], 'v'))
def j_put(E, N, nm='bb_put_'):
    st = State(); B = mkbuf(E, st); k = TY[N] // 8
    for o in run(E, nm + N, [B.o, val(E, N)], st, UGT(BitVecVal(k, 64), B.lim - B.pos)):
        invariant(E, o.st, B, B.pos + k); frame(E, o.st, B, B.pos, k)
def j_puti(E, N):
    st = State(); B = mkbuf(E, st); k = TY[N] // 8; i = E.name('i', fresh(64, 'i'))
    for o in run(E, 'bb_puti_' + N, [B.o, i, val(E, N)], st, Or(UGT(BitVecVal(k, 64), B.lim), UGT(i, B.lim - k))):
        invariant(E, o.st, B, B.pos); frame(E, o.st, B, i, k)
def j_get(E, N):
    st = State(); B = mkbuf(E, st); k = TY[N] // 8
    for o in run(E, 'bb_get_' + N, [B.o], st, UGT(BitVecVal(k, 64), B.lim - B.pos)):
        invariant(E, o.st, B, B.pos + k); frame(E, o.st, B, 0, 0)
def j_geti(E, N):
    st = State(); B = mkbuf(E, st); k = TY[N] // 8; i = E.name('i', fresh(64, 'i'))
    for o in run(E, 'bb_geti_' + N, [B.o, i], st, Or(UGT(BitVecVal(k, 64), B.lim), UGT(i, B.lim - k))):
        invariant(E, o.st, B, B.pos); frame(E, o.st, B, 0, 0)
def mkarr(E, st, N, n):
    a = E.array(st, 'values', n, TY[N] // 8, heap='new')
    return a, st.mem[a.r].arr.rd
def j_arr(E, N, put):
    st = State(); B = mkbuf(E, st); k = TY[N] // 8
    cnt = E.name('count', fresh(64, 'count')); have = fresh(64, 'have')
    st.assume(ULE(have, 1 << 44))
    fits = ULE(cnt, z3.UDiv(B.lim - B.pos, BitVecVal(k, 64)))
    st.assume(Implies(fits, ULE(cnt, have)))      # the caller's array holds what it says it does
    a, A = mkarr(E, st, N, have)
    for o in run(E, ('bb_putArray_' if put else 'bb_getArray_') + N, [B.o, a, cnt], st, Not(fits)):
        invariant(E, o.st, B, B.pos + cnt * k); frame(E, o.st, B, B.pos if put else 0, cnt * k if put else 0)
        r = E.region(o.st, a.r)
        E.forall_goal(o.st, 'caller array outside the range unchanged', lambda x: Implies(And(ULT(x, have), True if put else UGE(x, cnt)), bv(r.arr.rd(x), 8*k) == bv(A(x), 8*k)), 'frame')
def j_mem(E, put):
    st = State(); B = mkbuf(E, st); cnt = E.name('count', fresh(64, 'count')); so = E.name('off', fresh(64, 'off')); have = fresh(64, 'have')
    st.assume(ULE(have, 1 << 44)); st.assume(ULE(so, have))
    fits = ULE(cnt, B.lim - B.pos)
    st.assume(Implies(fits, ULE(cnt, have - so)))
    a = E.array(st, 'mem', have, 1); A = st.mem[a.r].arr.rd
    for o in run(E, 'bb_putmem' if put else 'bb_getmem', [B.o, a, so, cnt], st, Not(fits)):
        invariant(E, o.st, B, B.pos + cnt); frame(E, o.st, B, B.pos if put else 0, cnt if put else 0)
        r = E.region(o.st, a.r); g = rd(E, o.st, B)
        if put: E.forall_goal(o.st, 'bytes copied', lambda x: Implies(ULT(x, cnt), g(B.pos + x) == bv(A(so + x), 8)))
        else: E.forall_goal(o.st, 'bytes copied', lambda x: Implies(ULT(x, cnt), bv(r.arr.rd(so + x), 8) == bv(B.rd0(B.pos + x), 8)))
        E.forall_goal(o.st, 'caller memory outside the range unchanged', lambda x: Implies(And(ULT(x, have), True if put else Or(ULT(x, so), UGE(x - so, cnt))), bv(r.arr.rd(x), 8) == bv(A(x), 8)), 'frame')
def j_admin(E, op):
    st = State(); B = mkbuf(E, st); a = E.name('i', fresh(64, 'i'))
    refuse = None; args = [B.o]; pos, lim = B.pos, B.lim; order = True; ret = None
    if op == 'clear': pos, lim = 0, B.n
    elif op == 'flip': pos, lim = 0, B.pos
    elif op == 'rewind': pos = 0
    elif op == 'setPosition': args.append(a); pos = a; refuse = UGT(a, B.lim)
    elif op == 'setLimit': args.append(a); lim = a; refuse = Or(UGT(a, B.n), ULT(a, B.pos))
    elif op == 'setEndianess':
        o_ = E.name('order', fresh(32, 'order')); args.append(o_); order = False
    elif op == 'getPosition': ret = B.pos
    elif op == 'getLimit': ret = B.lim
    elif op == 'getRemaining': ret = B.lim - B.pos
    elif op == 'getSize': ret = B.n
    elif op == 'getBuffer': ret = 'buf'
    for o in run(E, 'bb_' + op, args, st, refuse):
        invariant(E, o.st, B, pos, lim, order); frame(E, o.st, B, 0, 0)
        if ret is not None:
            if isinstance(ret, str): E.oblige(o.st, 'returns the storage', isinstance(o.val, Ptr) and o.val.r == B.mem.r and isc(o.val.off) and o.val.off == 0)
            else: E.oblige(o.st, 'result', icmp('eq', o.val, ret, 64))
        if op == 'setEndianess':
            big = ZeroExt(7, Extract(0, 0, If(o_ == LITTLE, BitVecVal(0, 8), BitVecVal(1, 8))))
            for f in ('rev', 'revf'): E.oblige(o.st, 'byte swapping on exactly when the order is not the host order', eq(field(E, o.st, B, f), big, 8))
def j_ctor(E, wrap):
    st = State(); o_ = E.alloc(st, 'buf', 40); n = E.name('size', fresh(64, 'n')); order = E.name('order', fresh(32, 'order'))
    B = Buf(); B.o = o_; B.n = n
    if wrap:
        st.assume(ULE(n, 1 << 45)); m = E.array(st, 'mem', n, 1); B.rd0 = st.mem[m.r].arr.rd
        args = [o_, m, n, order]
    else: args = [o_, n, order]
    for o in E.call('bb_ctorw' if wrap else 'bb_ctor', args, st):
        if o.kind == 'throw':
            E.oblige(o.st, 'construction fails only for want of memory', (not wrap) and o.val.ti == '_ZTISt9bad_alloc'); continue
        if o.kind != 'ret': E.oblige(o.st, 'returns normally', False); continue
        E.covered(o.st, 'constructed')
        b = field(E, o.st, B, 'buf')
        if wrap: B.mem = m
        else: B.mem = b
        r = E.region(o.st, b.r)
        E.oblige(o.st, 'storage has the given size', band(icmp('eq', r.size, n, 64), isc(b.off) and b.off == 0))
        p, okp = off(E, o.st, B, 'pos'); l, okl = off(E, o.st, B, 'lim')
        E.oblige(o.st, 'position 0, limit size', band(okp, okl, icmp('eq', p, 0, 64), icmp('eq', l, n, 64)))
        E.oblige(o.st, 'size', icmp('eq', field(E, o.st, B, 'size'), n, 64))
        big = If(order == LITTLE, BitVecVal(0, 8), BitVecVal(1, 8))
        for f in ('rev', 'revf'): E.oblige(o.st, 'byte swapping on exactly when the order is not the host order', eq(field(E, o.st, B, f), big, 8))
        for d in E.call('bb_dtor', [o_], o.st):
            E.oblige(d.st, 'destructor returns', d.kind == 'ret')
            E.oblige(d.st, 'storage released exactly when owned', E.region(d.st, b.r).alive == bool(wrap))
    if wrap:
        st = State(); o_ = E.alloc(st, 'buf', 40)
        for o in E.call('bb_ctorw', [o_, NULL, n, order], st):
            E.oblige(o.st, 'NULL storage refused', o.kind == 'throw' and o.val.ti == '_ZTISt16invalid_argument')
def setup(E): pass
def jobs(tier):
    J = []
    for N in TY:
        J += [Job('put<%s>' % N, j_put, 'ByteBuffer::put<T>(T)', dict(N=N)), Job('put<%s>(index)' % N, j_puti, 'ByteBuffer::put<T>(index,T)', dict(N=N)),
              Job('get<%s>' % N, j_get, 'ByteBuffer::get<T>()', dict(N=N)), Job('get<%s>(index)' % N, j_geti, 'ByteBuffer::get<T>(index)', dict(N=N)),
              Job('putArray<%s>' % N, j_arr, 'ByteBuffer::putArray<T>', dict(N=N, put=True)), Job('getArray<%s>' % N, j_arr, 'ByteBuffer::getArray<T>', dict(N=N, put=False))]
    J += [Job('put(mem)', j_mem, 'ByteBuffer::put(const char*,..)', dict(put=True)), Job('get(mem)', j_mem, 'ByteBuffer::get(char*,..)', dict(put=False))]
    J += [Job(op, j_admin, 'ByteBuffer::' + op, dict(op=op)) for op in ('clear', 'flip', 'rewind', 'setPosition', 'setLimit', 'setEndianess', 'getPosition', 'getLimit', 'getRemaining', 'getSize', 'getBuffer')]
    J += [Job('construct', j_ctor, 'ByteBuffer::ByteBuffer(size), ~ByteBuffer', dict(wrap=False)), Job('construct wrapped', j_ctor, 'ByteBuffer::ByteBuffer(char*,size), ~ByteBuffer', dict(wrap=True))]
    return J
_T = list(TY)
def _bufwords(c): return [c.get('size', 0), c.get('lim', 0), c.get('pos', 0), c.get('big', 0), 12345]
def cex_case(job, c):
    n = job.split('<')[0]; T = job.split('<')[1].split('>')[0] if '<' in job else 'i8'
    op = {'put': 0, 'get': 2, 'putArray': 4, 'getArray': 5, 'put(mem)': 6, 'get(mem)': 7, 'clear': 8, 'flip': 9, 'rewind': 10, 'setPosition': 11, 'setLimit': 12, 'setEndianess': 13}.get(n, 14)
    if '(index)' in job: op += 1
    return [op, _T.index(T), 1, c.get('i', 0), c.get('v', 0), c.get('count', 0), c.get('off', 0)] + _bufwords(c)
