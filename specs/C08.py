"""C08 - shared_vector: every operation yields the documented sequence, inside its storage, and leaves other owners alone."""
from sv import *
from harness import Job
ASSUMPTIONS = ['element types int8, int32 and double (one template)', 'vectors of at most 2^40 elements, fewer than 2^32 owners', 'the reference count of std::shared_ptr has its documented contract (engine/sharedptr.py); its members above the count run as code', 'single thread per vector object, as documented']
def tus(R, V): return [(V + '/tu/sv.cpp', [])]
SH = ('null', 'own', 'shared')
def run(E, fn, args, st, throws=(), aborts=()):
    for o in E.call(fn, args, st):
        if o.kind == 'throw' and o.val.ti in throws: continue
        if o.kind != 'ret':
            E.oblige(o.st, 'returns normally (%s %s)' % (o.kind, o.val or o.why), False); continue
        E.covered(o.st, 'reaches return')
        yield o
def other(E, st, V, what='other owners'):
    """after an operation that may not disturb other owners of the storage"""
    if V.shape != 'shared': return
    p, c, off, n, t = get(E, st, V.o)
    storage_same(E, st, V, what, V.U if p.r == V.p.r else simp(sub(V.U, 1)))
BAD = ('_ZTISt9bad_alloc', '_ZTISt20bad_array_new_length')
def j_ctor(E, T, val):
    e = TY[T]; st = State(); o = E.alloc(st, 'v', 40); n = E.name('n', fresh(64, 'n')); x = E.name('x', fresh(8 * e, 'x'))
    if not val: pass
    for r in run(E, ('sv_ctorv_' if val else 'sv_ctorn_') + T, [o, n] + ([x] if val else []), st, BAD):
        inv(E, r.st, o, e); content(E, r.st, o, e, n, lambda k: x, upto=None if val else 0); sole(E, r.st, o)
def j_ctor0(E, T):
    st = State(); o = E.alloc(st, 'v', 40)
    for r in run(E, 'sv_ctor0_' + T, [o], st): is_null(E, r.st, o, 'new vector')
def j_ctorp(E, T):
    e = TY[T]; st = State(); o = E.alloc(st, 'v', 40); cap, off, n = [E.name(k, fresh(64, k)) for k in ('cap', 'off', 'n')]
    st.assume(ULE(cap, MAXN)); st.assume(ULE(off, cap)); st.assume(ULE(n, cap - off))
    p = E.array(st, 'raw', cap, e, heap='new[]'); A = st.mem[p.r].arr.rd
    for r in run(E, 'sv_ctorp_' + T, [o, p, off, n], st):
        inv(E, r.st, o, e); content(E, r.st, o, e, n, lambda k: bv(A(simp(add(off, k))), 8 * e)); sole(E, r.st, o)
def j_copy(E, T, sh):
    e = TY[T]; st = State(); o = E.alloc(st, 'v', 40); V = mkvec(E, st, 'a', e, sh)
    for r in run(E, 'sv_copy_' + T, [o, V.o], st):
        inv(E, r.st, o, e); content(E, r.st, o, e, V.n, view(V)); unchanged(E, r.st, V, 'original', simp(add(V.U, 1)) if sh != 'null' else None)
def j_move(E, T, sh):
    e = TY[T]; st = State(); o = E.alloc(st, 'v', 40); V = mkvec(E, st, 'a', e, sh)
    for r in run(E, 'sv_move_' + T, [o, V.o], st):
        inv(E, r.st, o, e); content(E, r.st, o, e, V.n, view(V)); is_null(E, r.st, V.o, 'moved from'); storage_same(E, r.st, V, 'storage', V.U)
def j_dtor(E, T, sh):
    e = TY[T]; st = State(); V = mkvec(E, st, 'a', e, sh)
    for r in run(E, 'sv_dtor_' + T, [V.o], st):
        E.oblige(r.st, 'destroyed', True); storage_same(E, r.st, V, 'storage', simp(sub(V.U, 1)), dead=sh == 'own')
def j_assign(E, T, sa, sb, move):
    """sb == 'self': the object itself; sb == 'alias': a second vector on the same storage"""
    e = TY[T]; st = State(); A = mkvec(E, st, 'a', e, sa)
    if sb == 'self': B = A
    elif sb == 'alias':
        B = Vx(); B.__dict__.update(A.__dict__); B.o = E.alloc(st, 'b', 40); B.off, B.n, B.total = [E.name('b.' + k, fresh(64, k)) for k in ('off', 'count', 'total')]
        st.assume(ULE(B.off, B.cap)); st.assume(ULE(B.total, B.cap - B.off)); st.assume(ULE(B.n, B.total))
        st.reg(B.o.r).cells = {0: (8, B.p), 8: (8, B.c), 16: (8, B.off), 24: (8, B.n), 32: (8, B.total)}
    else: B = mkvec(E, st, 'b', e, sb)
    for r in run(E, ('sv_massign_' if move else 'sv_assign_') + T, [A.o, B.o], st):
        E.oblige(r.st, 'returns the object itself', isinstance(r.val, Ptr) and r.val.same(A.o))
        inv(E, r.st, A.o, e); content(E, r.st, A.o, e, B.n, view(B))
        if sb == 'self': unchanged(E, r.st, A, 'self assignment'); continue
        if move: is_null(E, r.st, B.o, 'moved from')
        if sb == 'alias':
            if move: storage_same(E, r.st, A, 'storage', simp(sub(A.U, 1)))
            else: unchanged(E, r.st, B, 'argument', A.U)
            continue
        if move: storage_same(E, r.st, B, 'storage of the argument', B.U)
        else: unchanged(E, r.st, B, 'argument', simp(add(B.U, 1)) if sb != 'null' else None)
        storage_same(E, r.st, A, 'storage let go', simp(sub(A.U, 1)), dead=sa == 'own')
def j_swap(E, T, sa, sb):
    e = TY[T]; st = State(); A = mkvec(E, st, 'a', e, sa); B = A if sb == 'self' else mkvec(E, st, 'b', e, sb)
    for r in run(E, 'sv_swap_' + T, [A.o, B.o], st):
        inv(E, r.st, A.o, e); inv(E, r.st, B.o, e, 'other '); content(E, r.st, A.o, e, B.n, view(B)); content(E, r.st, B.o, e, A.n, view(A), 'other ')
        storage_same(E, r.st, A, 'first storage', A.U); storage_same(E, r.st, B, 'second storage', B.U)
def j_clear(E, T, sh):
    e = TY[T]; st = State(); A = mkvec(E, st, 'a', e, sh)
    for r in run(E, 'sv_clear_' + T, [A.o], st):
        is_null(E, r.st, A.o, 'cleared'); storage_same(E, r.st, A, 'storage', simp(sub(A.U, 1)), dead=sh == 'own')
def j_obs(E, T, sh):
    e = TY[T]
    for fn, sp in (('unique', lambda A: sh != 'shared'), ('size', lambda A: b64(A.n)), ('empty', lambda A: b64(A.n) == 0), ('capacity', lambda A: b64(A.total))):
        st = State(); A = mkvec(E, st, 'a', e, sh); v = sp(A)
        for r in run(E, 'sv_%s_%s' % (fn, T), [A.o], st):
            E.oblige(r.st, fn, tob(r.val) == v if isinstance(v, bool) or z3.is_bool(v) else b64(r.val) == v); unchanged(E, r.st, A, 'vector')
    for fn, at in (('data', 0), ('begin', 0), ('end', 1)):
        st = State(); A = mkvec(E, st, 'a', e, sh)
        for r in run(E, 'sv_%s_%s' % (fn, T), [A.o], st):
            if sh == 'null': E.oblige(r.st, fn + ' of an empty vector', isinstance(r.val, Ptr) and r.val.r == 0 or r.val == 0)
            else: E.oblige(r.st, fn, isinstance(r.val, Ptr) and r.val.r == A.p.r and icmp('eq', r.val.off, simp(mul(add(A.off, A.n if at else 0), e)), 64))
            unchanged(E, r.st, A, 'vector')
def j_at(E, T, sh):
    e = TY[T]; st = State(); A = mkvec(E, st, 'a', e, sh); i = E.name('i', fresh(64, 'i'))
    for r in E.call('sv_at_' + T, [A.o, i], st):
        if r.kind == 'throw':
            E.oblige(r.st, 'refuses only indices outside the vector', UGE(i, b64(A.n))); E.oblige(r.st, 'out_of_range', r.val.ti == '_ZTISt12out_of_range'); E.covered(r.st, 'refused'); continue
        if r.kind != 'ret': E.oblige(r.st, 'returns normally (%s)' % r.why, False); continue
        E.oblige(r.st, 'element i', And(ULT(i, b64(A.n)), bv(r.val, 8 * e) == view(A)(i))); unchanged(E, r.st, A, 'vector')
def j_elem(E, T, fn, sh):
    e = TY[T]; st = State(); A = mkvec(E, st, 'a', e, sh); i = E.name('i', fresh(64, 'i')); st.assume(ULT(i, A.n))
    at = {'idx': i, 'front': BitVecVal(0, 64), 'back': A.n - 1}[fn]
    for r in run(E, 'sv_%s_%s' % (fn, T), [A.o] + ([i] if fn == 'idx' else []), st):
        E.oblige(r.st, 'the element', bv(r.val, 8 * e) == view(A)(at)); unchanged(E, r.st, A, 'vector')
def j_slice(E, T, sh, pop=False):
    e = TY[T]; st = State(); A = mkvec(E, st, 'a', e, sh); o, n = E.name('offset', fresh(64, 'offset')), E.name('length', fresh(64, 'length')); N = b64(A.n)
    if pop: o, n = BitVecVal(0, 64), N - 1
    o2 = If(ULT(N, o), N, o); n2 = If(ULT(N - o2, n), N - o2, n); v = view(A)
    for r in run(E, ('sv_pop_' if pop else 'sv_slice_') + T, [A.o] + ([] if pop else [o, n]), st):
        inv(E, r.st, A.o, e); content(E, r.st, A.o, e, n2, lambda k: v(simp(k + o2))); storage_same(E, r.st, A, 'storage', A.U)
def j_reserve(E, T, sh):
    e = TY[T]; st = State(); A = mkvec(E, st, 'a', e, sh); n = E.name('n', fresh(64, 'n'))
    for r in run(E, 'sv_reserve_' + T, [A.o, n], st, BAD):
        inv(E, r.st, A.o, e); content(E, r.st, A.o, e, A.n, view(A)); sole(E, r.st, A.o)
        E.oblige(r.st, 'capacity', ULE(n, b64(get(E, r.st, A.o)[4]))); other(E, r.st, A)
def j_resize(E, T, sh, val):
    e = TY[T]; st = State(); A = mkvec(E, st, 'a', e, sh); n = E.name('n', fresh(64, 'n')); x = E.name('x', fresh(8 * e, 'x')); v = view(A); N = b64(A.n)
    for r in run(E, ('sv_resizev_' if val else 'sv_resize_') + T, [A.o, n] + ([x] if val else []), st, BAD):
        inv(E, r.st, A.o, e); sole(E, r.st, A.o); other(E, r.st, A)
        content(E, r.st, A.o, e, n, lambda k: If(ULT(k, N), v(k), x), upto=None if val else If(ULT(n, N), n, N))
def j_unique(E, T, sh):
    e = TY[T]; st = State(); A = mkvec(E, st, 'a', e, sh)
    for r in run(E, 'sv_mkunique_' + T, [A.o], st, BAD):
        inv(E, r.st, A.o, e); sole(E, r.st, A.o); other(E, r.st, A); content(E, r.st, A.o, e, A.n, view(A))
        if sh == 'own': unchanged(E, r.st, A, 'unique vector')
def j_push(E, T, sh):
    e = TY[T]; st = State(); A = mkvec(E, st, 'a', e, sh); x = E.name('x', fresh(8 * e, 'x')); v = view(A); N = b64(A.n)
    for r in run(E, 'sv_push_' + T, [A.o, x], st, BAD):
        inv(E, r.st, A.o, e); sole(E, r.st, A.o); other(E, r.st, A); content(E, r.st, A.o, e, simp(N + 1), lambda k: If(ULT(k, N), v(k), x))
def j_freeze(E, T, sh):
    e = TY[T]; st = State(); A = mkvec(E, st, 'a', e, sh); o = E.alloc(st, 'r', 40)
    for r in E.call('sv_freeze_' + T, [o, A.o], st):
        if r.kind == 'throw':
            E.oblige(r.st, 'refuses only shared vectors', sh == 'shared'); E.oblige(r.st, 'runtime_error', r.val.ti == '_ZTISt13runtime_error'); E.covered(r.st, 'refused'); unchanged(E, r.st, A, 'refused vector'); continue
        if r.kind != 'ret': E.oblige(r.st, 'returns normally (%s)' % r.why, False); continue
        E.covered(r.st, 'frozen')
        E.oblige(r.st, 'a shared vector is refused', sh != 'shared')
        inv(E, r.st, o, e); content(E, r.st, o, e, A.n, view(A)); is_null(E, r.st, A.o, 'argument'); sole(E, r.st, o)
def j_thaw(E, T, sh):
    e = TY[T]; st = State(); A = mkvec(E, st, 'a', e, sh); o = E.alloc(st, 'r', 40)
    for r in run(E, 'sv_thaw_' + T, [o, A.o], st, BAD):
        inv(E, r.st, o, e); content(E, r.st, o, e, A.n, view(A)); is_null(E, r.st, A.o, 'argument'); sole(E, r.st, o)
        if sh == 'shared': storage_same(E, r.st, A, 'other owners', simp(sub(A.U, 1)))
CODE = dict(i8=1, i32=3, f64=10)
def j_void(E, T, sh):
    """cast to void and back"""
    e = TY[T]; st = State(); A = mkvec(E, st, 'a', e, sh); w = E.alloc(st, 'w', 48); o = E.alloc(st, 'r', 40)
    for r in run(E, 'sv_tovoid_' + T, [w, A.o], st):
        n, off = b64(get(E, r.st, w)[3]), b64(get(E, r.st, w)[2])
        E.oblige(r.st, 'byte count and offset', And(n == b64(A.n) * e, off == b64(A.off) * e)); E.oblige(r.st, 'remembers the element type', bv(E.load(r.st, w.plus(40), ir.I32, E.prog.mods[0]), 32) == CODE[T])
        inv(E, r.st, w, 1, 'void view ')
        unchanged(E, r.st, A, 'original', simp(add(A.U, 1)) if sh != 'null' else None)
        for q in run(E, 'sv_fromvoid_' + T, [o, w], r.st):
            inv(E, q.st, o, e); content(E, q.st, o, e, A.n, view(A)); unchanged(E, q.st, A, 'original', simp(add(A.U, 2)) if sh != 'null' else None)
def jobs(tier):
    J = []
    for T in TY:
        sv = 'shared_vector<%s>::' % T
        J += [Job('vector()<%s>' % T, j_ctor0, sv + 'shared_vector()', dict(T=T)), Job('vector(n)<%s>' % T, j_ctor, sv + 'shared_vector(size_t)', dict(T=T, val=False)), Job('vector(n,x)<%s>' % T, j_ctor, sv + 'shared_vector(size_t,E)', dict(T=T, val=True)), Job('vector(p,o,n)<%s>' % T, j_ctorp, sv + 'shared_vector(E*,o,c)', dict(T=T))]
        for s in SH:
            k = dict(T=T, sh=s); t = '<%s> %s' % (T, s)
            J += [Job('copy' + t, j_copy, sv + 'shared_vector(const&)', k), Job('move' + t, j_move, sv + 'shared_vector(&&)', k), Job('destroy' + t, j_dtor, sv + '~shared_vector', k), Job('clear' + t, j_clear, sv + 'clear', k),
                  Job('observers' + t, j_obs, sv + 'unique/size/empty/capacity/data/begin/end', k), Job('at' + t, j_at, sv + 'at', k), Job('slice' + t, j_slice, sv + 'slice', k), Job('pop_back' + t, j_slice, sv + 'pop_back', dict(T=T, sh=s, pop=True)),
                  Job('reserve' + t, j_reserve, sv + 'reserve', k), Job('resize' + t, j_resize, sv + 'resize(n)', dict(T=T, sh=s, val=False)), Job('resize(n,x)' + t, j_resize, sv + 'resize(n,x)', dict(T=T, sh=s, val=True)),
                  Job('make_unique' + t, j_unique, sv + 'make_unique', k), Job('push_back' + t, j_push, sv + 'push_back, _push_resize, reserve, resize', k), Job('freeze' + t, j_freeze, 'freeze(shared_vector<%s>&)' % T, k), Job('thaw' + t, j_thaw, 'thaw(shared_vector<const %s>&)' % T, k),
                  Job('void cast' + t, j_void, 'static_shared_vector_cast<void>, static_shared_vector_cast<%s>' % T, k), Job('swap self' + t, j_swap, sv + 'swap', dict(T=T, sa=s, sb='self'))]
            if s != 'null':
                J += [Job('%s%s' % (f, t), j_elem, sv + f, dict(T=T, fn=f, sh=s)) for f in ('idx', 'front', 'back')]
            for b in SH + ('self',) + (('alias',) if s == 'shared' else ()):
                J += [Job('assign<%s> %s = %s' % (T, s, b), j_assign, sv + 'operator=', dict(T=T, sa=s, sb=b, move=False)), Job('move assign<%s> %s = %s' % (T, s, b), j_assign, sv + 'operator=(&&)', dict(T=T, sa=s, sb=b, move=True))]
                if b in SH: J.append(Job('swap<%s> %s, %s' % (T, s, b), j_swap, sv + 'swap', dict(T=T, sa=s, sb=b)))
    return J
