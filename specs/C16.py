"""C16 - offsets number the fields of a structure depth first; look-up by offset finds exactly that field."""
from tree import *
from harness import Job
ASSUMPTIONS = ['a top-level structure has fewer than 2^28 fields', 'reference counts of the shared pointers are not tracked here (null control blocks)',
               'the tree is finite and a child belongs to one parent: ranges of children are consecutive (what the numbering establishes, proved by the computeOffset jobs)',
               'termination of the recursion (the tree is finite)']
def tus(R, V): return [(R + '/src/factory/PVField.cpp', []), (R + '/src/factory/PVStructure.cpp', []), (V + '/tu/tree.cpp', [])]
CO2 = '_ZN5epics6pvData7PVField13computeOffsetEPKS1_m'
CO1 = '_ZN5epics6pvData7PVField13computeOffsetEPKS1_'
def done(T, st, lo, hi):
    """every node in [lo, hi) carries its number"""
    FO, NFO = st.ghost['FO'], st.ghost['NFO']
    return lambda y: Implies(And(ULE(lo, b64(y)), ULT(b64(y), hi)), And(FO.rd(y) == b64(y), NFO.rd(y) == T.NXT(b64(y))))
def same_elsewhere(st, F0, N0, lo, hi):
    return lambda y: Implies(Not(And(ULE(lo, b64(y)), ULT(b64(y), hi))), And(st.ghost['FO'].rd(y) == F0.rd(y), st.ghost['NFO'].rd(y) == N0.rd(y)))
def templates(E, T, x, F0, N0):
    """after t children: they are numbered, nothing else has changed, counters stand at child t"""
    def tmpl(L):
        C = T.cid(x); out = []
        out.append(('children so far', lambda v: ULE(v.t, T.NC(x))))
        for loc in ivars(L):
            out.append(('at child t', lambda v, loc=loc: Implies(ULE(v.t, T.NC(x)), eq(v.get(loc), C(v.t)))))
            out.append(('t', lambda v, loc=loc: eq(v.get(loc), v.t)))
        out.append(('numbered so far', lambda v: Forall(done(T, v.st, b64(x) + 1, C(v.t)))))
        out.append(('others untouched', lambda v: Forall(same_elsewhere(v.st, F0, N0, b64(x) + 1, C(v.t)))))
        return out
    E.templates.append(tmpl)
def recursion(E, T):
    def c(E, st, a, i):
        x = ident(T, a[0]); T.is_struct(E, st, x); T.valid(st, x)
        E.oblige(st, 'numbering continues at the child\'s own position', eq(a[1], x), 'pre')
        lo, hi = b64(x), T.NXT(b64(x)); F, N = st.ghost['FO'], st.ghost['NFO']
        inr = lambda y: And(ULE(lo, b64(y)), ULT(b64(y), hi))
        st.ghost['FO'] = AFn(64, lambda y: If(inr(y), b64(y), bv(F.rd(y), 64))); st.ghost['NFO'] = AFn(64, lambda y: If(inr(y), T.NXT(b64(y)), bv(N.rd(y), 64)))
        return None
    E.contract_proved(CO2, c)
def numbered(E, st, T, x, F0, N0, what):
    lo, hi = b64(x), T.NXT(b64(x))
    E.forall_goal(st, what + ': every field of the subtree has its depth-first number and the next one', done(T, st, lo, hi))
    E.forall_goal(st, what + ': nothing outside is touched', same_elsewhere(st, F0, N0, lo, hi))
def j_sub(E):
    """computeOffset(structure, offset): offset is the structure's own position"""
    E.inv_all = E.simple = True; st = State(); T = mktree(E, st, mutable=True); x = E.name('x', fresh(64, 'x')); p = root(E, st, T, x)
    F0, N0 = st.ghost['FO'], st.ghost['NFO']
    recursion(E, T); templates(E, T, x, F0, N0)
    for o in E.call(CO2, [p, x], st):
        if o.kind != 'ret': E.oblige(o.st, 'returns normally (%s)' % (o.why or o.val), False); continue
        E.covered(o.st, 'reaches return'); numbered(E, o.st, T, x, F0, N0, 'computeOffset(field,offset)')
def j_top(E, kind):
    """computeOffset(any field): the whole tree gets numbered"""
    E.inv_all = E.simple = True; st = State(); T = mktree(E, st, mutable=True); F0, N0 = st.ghost['FO'], st.ghost['NFO']
    z = BitVecVal(0, 64)
    T.valid(st, z)
    recursion(E, T)
    if kind == 'alone':      # a top-level field that is no structure
        st.assume(And(T.TYPE(z) != STRUCTURE, T.NXT(z) == 1)); x = 0
    else:
        root(E, st, T, z)
        x = 0 if kind == 'root' else E.name('x', fresh(64, 'x'))
        T.valid(st, x)
    templates(E, T, z, F0, N0)
    for o in E.call('tr_compute', [T.node(x)], st):
        if o.kind != 'ret': E.oblige(o.st, 'returns normally (%s)' % (o.why or o.val), False); continue
        E.covered(o.st, 'reaches return'); numbered(E, o.st, T, 0, F0, N0, 'computeOffset(field)')
def j_lazy(E, fn, val):
    """getFieldOffset/getNextFieldOffset/getNumberFields number the tree on first use"""
    E.inv_all = E.simple = True; st = State(); T = mktree(E, st, mutable=True); x = E.name('x', fresh(64, 'x')); T.valid(st, x)
    F0, N0 = st.ghost['FO'], st.ghost['NFO']
    done0 = E.name('numbered before', freshb('numbered')); 
    st.assume(If(done0, And(F0.rd(x) == x, N0.rd(x) == T.NXT(x)), N0.rd(x) == 0))
    def c(E, st, a, i):
        ident(T, a[0])
        st.ghost['FO'] = AFn(64, lambda y: b64(y)); st.ghost['NFO'] = AFn(64, lambda y: T.NXT(b64(y)))
        return None
    E.contract_proved(CO1, c)
    for o in E.call(fn, [T.node(x)], st):
        if o.kind != 'ret': E.oblige(o.st, 'returns normally (%s)' % (o.why or o.val), False); continue
        E.covered(o.st, 'reaches return'); E.oblige(o.st, 'the number of this field', eq(o.val, val(T, x)))
def j_find(E, throws):
    E.inv_all = E.simple = True; st = State(); T = mktree(E, st); x = E.name('x', fresh(64, 'x')); p = root(E, st, T, x); o_ = E.name('offset', fresh(64, 'offset'))
    r = E.alloc(st, 'result', 16); use_numbers(E, T)
    def tmpl(L):
        out = []
        for loc in L.order:
            e = L.entry.get(loc)
            if isinstance(e, Ptr) and e.r == T.nodes.r:
                cur = lambda v, loc=loc: ident(T, v.get(loc))
                def inside(v, cur=cur):
                    c = b64(cur(v)); return And(ULE(b64(x), c), ULE(T.NXT(c), T.NXT(b64(x))), ULT(c, T.NXT(c)), T.TYPE(c) == STRUCTURE, Or(c == x, And(ULT(c, o_), ULT(o_, T.NXT(c)))))
                out.append(('inside the subtree', inside))
            elif not isinstance(e, (tuple, AV)) and e is not None: pass
        cs = [T.cids[k] for k in T.cids]
        for k, C, I in cs: out.append(('children up to t lie before', lambda v, C=C, k=k: And(ULE(v.t, T.NC(b64(k))), ULE(C(v.t), o_))))
        return out
    E.templates.append(tmpl)
    for q in E.call('tr_subT' if throws else 'tr_sub', [r, p, o_], st):
        ok = And(ULT(x, o_), ULT(o_, T.NXT(x)))
        if q.kind == 'throw' and throws:
            E.oblige(q.st, 'refuses only offsets that are not below this structure', Not(ok)); E.oblige(q.st, 'with std::runtime_error', E.isa(q.val.ti, '_ZTISt13runtime_error')); continue
        if q.kind != 'ret': E.oblige(q.st, 'returns normally (%s)' % (q.why or q.val), False); continue
        E.covered(q.st, 'reaches return')
        v = E.load(q.st, r, ir.PTR, M(E))
        if v.r == 0: E.oblige(q.st, 'a field with that offset is found', Not(ok)); E.oblige(q.st, 'getSubFieldT never returns null', not throws)
        else: E.oblige(q.st, 'the field found has exactly that offset', And(eq(ident(T, v), o_), ok))
def jobs(tier):
    return [Job('computeOffset(field,offset)', j_sub, 'PVField::computeOffset(PVField const*, size_t)')] + \
        [Job('computeOffset(%s)' % k, j_top, 'PVField::computeOffset(PVField const*)', dict(kind=k)) for k in ('alone', 'root', 'any')] + \
        [Job('getFieldOffset', j_lazy, 'PVField::getFieldOffset', dict(fn='tr_offset', val=lambda T, x: x)), Job('getNextFieldOffset', j_lazy, 'PVField::getNextFieldOffset', dict(fn='tr_next', val=lambda T, x: T.NXT(x))),
         Job('getNumberFields', j_lazy, 'PVField::getNumberFields', dict(fn='tr_count', val=lambda T, x: T.NXT(x) - x)),
         Job('getSubField(offset)', j_find, 'PVStructure::getSubFieldImpl(offset)', dict(throws=False)), Job('getSubFieldT(offset)', j_find, 'PVStructure::getSubFieldImpl(offset)', dict(throws=True))]
