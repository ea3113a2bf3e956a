"""C19 - a change mask selects exactly the fields that are serialized, deserialized or copied."""
from tree import *
from harness import Job
ASSUMPTIONS = ['a top-level structure has fewer than 2^28 fields', 'reference counts of the shared pointers are not tracked here (null control blocks)',
               'nextSetBit/nextClearBit/get as proved in C02, offsets as proved in C16', 'the serialize/deserialize of a child that is no structure is represented by the event "this child, in full"',
               'source and destination of a copy have the same introspection type (that is what copyUnchecked requires), and the same position in their top-level structures',
               'termination of the recursion (the tree is finite)']
def tus(R, V): return [(R + '/src/factory/PVField.cpp', []), (R + '/src/factory/PVStructure.cpp', []), (V + '/tu/tree.cpp', [])]
P = '_ZN5epics6pvData'; PC = '_ZNK5epics6pvData'
NEXTSET, NEXTCLEAR, GET = PC + '6BitSet10nextSetBitEj', PC + '6BitSet12nextClearBitEj', PC + '6BitSet3getEj'
SER, SER3 = 'serializeEPNS0_10ByteBufferEPNS0_19SerializableControlE', 'serializeEPNS0_10ByteBufferEPNS0_19SerializableControlEPNS0_6BitSetE'
def sel_bits(E, st, inv=False):
    """NSBf(x): the first selected position not below x, or negative (x < 2^28)"""
    W = type('Sel', (), {})()
    W.N = z3.Function(fresh_name('NEXTSEL'), z3.BitVecSort(64), z3.BitVecSort(32)); W.pts = []
    W.rel = lambda x, y: And(Implies(W.N(x) < 0, W.N(y) < 0), Implies(And(W.N(x) >= 0, ULE(y, ZeroExt(32, W.N(x)))), W.N(y) == W.N(x)))
    W.self_ok = lambda x: Or(W.N(x) < 0, ULE(x, ZeroExt(32, W.N(x))))
    W.any = lambda lo, hi: And(W.N(lo) >= 0, ULT(ZeroExt(32, W.N(lo)), hi))
    W.own = lambda x: And(W.N(x) >= 0, ZeroExt(32, W.N(x)) == x)
    def know(E, st, x):
        """the definition of NSBf, at x against every child position and against itself"""
        x = simplify(b64(x)); key = ('nsb', x.get_id())
        if key in st.note: return x
        st.note[key] = x
        st.assume(W.self_ok(x))
        for k, C, I in W.cids():
            st.facts.append(Forall(lambda i, C=C: And(W.self_ok(C(i)), Implies(ULE(x, C(i)), W.rel(x, C(i))), Implies(ULE(C(i), x), W.rel(C(i), x))), 'nextsel').fact())
        return x
    W.know = know
    return W
def use_bits(E, W, mask, inv):
    def nxt(want):
        def c(E, st, a, i):
            if not (isinstance(a[0], Ptr) and a[0].r == mask.r and simp(a[0].off) == 0): raise Unsupported('another bit set')
            E.oblige(st, 'the mask is read in the sense asked for', want == inv if isinstance(inv, bool) else (inv if want else Not(inv)), 'pre')
            x = W.know(E, st, ZeroExt(32, bv(a[1], 32)))
            return simp(W.N(x))
        return c
    E.contract_proved(NEXTSET, nxt(False)); E.contract_proved(NEXTCLEAR, nxt(True))
    def get(E, st, a, i):
        x = W.know(E, st, ZeroExt(32, bv(a[1], 32))); s = W.own(x)
        return simp(If(s if inv is False else Not(s) if inv is True else (s != inv), BitVecVal(1, 1), BitVecVal(0, 1)))
    E.contract_proved(GET, get)
# --- events: mode of every child: 0 untouched, 1 in full, 2 by the mask
def events(E, st, ordered):
    st.ghost['mode'] = ABase(8, fresh_name('mode')); st.facts.append(Forall(lambda k: z3.BoolVal(True)).fact()) if False else None
    st.ghost['mode'] = AFn(8, lambda k: BitVecVal(0, 8)); st.ghost['nxt'] = BitVecVal(0, 64)
    E.ordered = ordered
def event(E, st, T, x, c, m):
    """child c of x is processed in mode m"""
    j = index_of(T, simplify(b64(x)), c)
    if j is None: raise Unsupported('not a child by name: %s' % str(c)[:60])
    E.oblige(st, 'child index within the structure', ULT(j, T.NC(b64(x))), 'safety')
    E.oblige(st, 'every child at most once', bv(st.ghost['mode'].rd(j), 8) == 0, 'pre')
    if E.ordered:
        E.oblige(st, 'children are visited in order', ULE(b64(st.ghost['nxt']), j), 'pre'); st.ghost['nxt'] = simp(j + 1)
    st.ghost['mode'] = AStore(st.ghost['mode'], j, m)
def all_full(E, st, T, x):
    E.oblige(st, 'nothing is processed twice', eq(st.ghost['nxt'], 0) if E.ordered else True, 'pre')
    st.ghost['mode'] = AFn(8, lambda k: If(ULT(b64(k), T.NC(b64(x))), BitVecVal(1, 8), BitVecVal(0, 8)))
    if E.ordered: st.ghost['nxt'] = simp(T.NC(b64(x)))
def expect_mask(T, W, x, k, mode):
    """what the mask says about child k"""
    C = T.cid(x); c = C(k); n = T.NXT(c); mode = bv(mode, 8)
    return If(W.own(b64(x)), mode == 1, If(Not(W.any(c, n)), mode == 0, If(W.own(c), Or(mode == 1, And(mode == 2, T.TYPE(c) == STRUCTURE)), And(mode == 2, T.TYPE(c) == STRUCTURE))))
def templates(E, T, W, x, ordered):
    def tmpl(L):
        out = [('children so far', lambda v: ULE(v.t, T.NC(b64(x))))]
        exp = (lambda k, m: expect_mask(T, W, x, k, m)) if W else (lambda k, m: bv(m, 8) == 1)
        out.append(('done so far', lambda v: Forall(lambda k: Implies(ULT(b64(k), v.t), exp(b64(k), v.st.ghost['mode'].rd(k))))))
        out.append(('rest untouched', lambda v: Forall(lambda k: Implies(ULE(v.t, b64(k)), bv(v.st.ghost['mode'].rd(k), 8) == 0))))
        if ordered: out.append(('in order', lambda v: ULE(b64(v.st.ghost['nxt']), v.t)))
        for loc in ivars(L): out.append(('t', lambda v, loc=loc: eq(v.get(loc), v.t)))
        return out
    E.templates.append(tmpl)
def same(E, st, what, a, b): E.oblige(st, 'the same %s is used' % what, ptr_eq(a, b), 'pre')
def ptr_eq(a, b): return isinstance(a, Ptr) and a.r == b.r and simpb(eq(a.off, b.off))
def child_or_self(T, x, p):
    c = ident(T, p)
    return c, bool(z3.is_true(simplify(b64(c) == b64(x))))
def finish(E, T, W, x, outs, what):
    for o in outs:
        if o.kind != 'ret': E.oblige(o.st, 'returns normally (%s)' % (o.why or o.val), False); continue
        E.covered(o.st, 'reaches return')
        E.forall_goal(o.st, what, lambda k: Implies(ULT(b64(k), T.NC(b64(x))), expect_mask(T, W, x, b64(k), o.st.ghost['mode'].rd(k)) if W else bv(o.st.ghost['mode'].rd(k), 8) == 1))
def j_ser(E, de, masked):
    E.inv_all = E.simple = True; st = State(); T = mktree(E, st); x = E.name('x', fresh(64, 'x')); p = root(E, st, T, x); use_numbers(E, T)
    buf = E.alloc(st, 'buffer', 64); ctl = E.alloc(st, 'control', 8); mask = E.alloc(st, 'mask', 32)
    events(E, st, True)
    W = None
    if masked:
        W = sel_bits(E, st); W.cids = lambda: [T.cids[k] for k in T.cids]; W.know(E, st, x); use_bits(E, W, mask, False)
    templates(E, T, W, x, True)
    def full(E, st, a, i):
        same(E, st, 'buffer', a[1], buf); same(E, st, 'control', a[2], ctl)
        c, me = child_or_self(T, x, a[0])
        if me: all_full(E, st, T, x)
        else: event(E, st, T, x, c, 1)
        return None
    def part(E, st, a, i):
        same(E, st, 'buffer', a[1], buf); same(E, st, 'control', a[2], ctl); same(E, st, 'mask', a[3], mask)
        c, me = child_or_self(T, x, a[0]); T.is_struct(E, st, c); event(E, st, T, x, c, 2)
        return None
    for nm in all_names(E):
        if re.match(r'virtual:.*(de)?serializeEPNS0_10ByteBufferEPNS0_\d+(Des|S)erializableControlE$', nm): E.add_contract(nm, full)
        if re.match(r'(virtual:)?_ZNK?5epics6pvData11PVStructure\d+(de)?serializeEPNS0_10ByteBufferEPNS0_\d+(Des|S)erializableControlEPNS0_6BitSetE$', nm): E.add_contract(nm, part)
        if masked and re.match(r'_ZNK?5epics6pvData11PVStructure\d+(de)?serializeEPNS0_10ByteBufferEPNS0_\d+(Des|S)erializableControlE$', nm): E.add_contract(nm, full)
    fn = ('deserialize' if de else 'serialize') + ('(mask)' if masked else '')
    mg = (P + '11PVStructure11deserializeEPNS0_10ByteBufferEPNS0_21DeserializableControlE' if de else PC + '11PVStructure9serializeEPNS0_10ByteBufferEPNS0_19SerializableControlE') + ('PNS0_6BitSetE' if masked else '')
    finish(E, T, W, x, E.call(mg, [p, buf, ctl] + ([mask] if masked else []), st), '%s: every child, and only if selected' % fn)
CU, CUM = P + '11PVStructure13copyUncheckedERKS1_', P + '11PVStructure13copyUncheckedERKS1_RKNS0_6BitSetEb'
FCU = P + '7PVField13copyUncheckedERKS1_'
def two(E, st):
    T = mktree(E, st, 'source'); T2 = mktree(E, st, 'destination', shape=T); use_numbers(E, T, T2)
    return T, T2
def j_copy(E, masked, inv=False, alias=False):
    E.inv_all = E.simple = True; st = State(); T, T2 = two(E, st); x = E.name('x', fresh(64, 'x')); q = root(E, st, T, x); p = root(E, st, T2, x)
    if alias: T2, p = T, q
    mask = E.alloc(st, 'mask', 32); events(E, st, False); W = None
    if masked:
        W = sel_bits(E, st); W.cids = lambda: [T.cids[k] for k in T.cids]; W.know(E, st, x); use_bits(E, W, mask, inv)
    templates(E, T, W, x, False)
    def pair(E, st, a):
        c2, c = ident(T2, a[0]), ident(T, a[1])
        E.oblige(st, 'a field is copied into the corresponding field', simpb(eq(c2, c)), 'pre')
        return c, bool(z3.is_true(simplify(b64(c) == b64(x))))
    def full(E, st, a, i):
        c, me = pair(E, st, a)
        if me: all_full(E, st, T, x)
        else: event(E, st, T, x, c, 1)
        return None
    def part(E, st, a, i):
        same(E, st, 'mask', a[2], mask); E.oblige(st, 'the mask is used in the same sense', simpb(eq(If(a[3], BitVecVal(1,1), BitVecVal(0,1)) if z3.is_expr(a[3]) else int(a[3]), int(inv))), 'pre')
        c, me = pair(E, st, a); T.is_struct(E, st, c); event(E, st, T, x, c, 2)
        return None
    E.add_contract(FCU, full); E.add_contract(CUM, part)
    if masked: E.add_contract(CU, full)
    outs = E.call(CUM if masked else CU, [p, q] + ([mask, inv] if masked else []), st)
    if alias:
        for o in outs:
            E.oblige(o.st, 'copying a structure onto itself does nothing', o.kind == 'ret')
            if o.kind == 'ret':
                E.covered(o.st, 'reaches return'); E.forall_goal(o.st, 'copying a structure onto itself changes no field by copying another into it', lambda k: bv(o.st.ghost['mode'].rd(k), 8) == 0)
        return
    finish(E, T, W, x, outs, 'copyUnchecked%s: every child, and only if selected' % ('(mask,%s)' % inv if masked else ''))
CLS = {1: r'PVScalarArray', 2: r'PVStructure', 3: r'(PVStructureArray|PVValueArray<std::(tr1::)?shared_ptr<epics::pvData::PVStructure>\s*>)', 4: r'PVUnion', 5: r'(PVUnionArray|PVValueArray<std::(tr1::)?shared_ptr<epics::pvData::PVUnion>\s*>)'}
def j_dispatch(E, kind):
    """PVField::copyUnchecked hands over to the class of the field's type"""
    E.simple = True; st = State(); T, T2 = two(E, st); x = E.name('x', fresh(64, 'x')); T.valid(st, x); q, p = T.node(x), T2.node(x)
    if kind == 'mismatch': T2.flds = alloc(E, st, 'other.types', Fields(T2))
    st.ghost['n'] = 0
    def ev(k):
        def c(E, st, a, i):
            E.oblige(st, 'dispatched by the type of the field', simpb(T.TYPE(b64(x)) == k), 'post')
            E.oblige(st, 'destination and source in this order', ptr_eq(a[0], p) and ptr_eq(a[1], q), 'post')
            st.ghost['n'] += 1
            return None
        return c
    for k, c in CLS.items():
        E.add_pattern(r'epics::pvData::%s::copyUnchecked\([^,]*\)$' % c, lambda E, st, a, i, m, k=k: ev(k)(E, st, a, i), first=True)
    sl = []
    for i, n in enumerate(list(T.slots) + ['#%d' % k for k in range(len(T.slots), len(T.slots) + 40)]):
        nm = 'virtual:' + n
        E.add_contract(nm, lambda E, st, a, i, nm=nm: (sl.append(nm), None)[1])
    s0 = State(); T0 = mktree(E, s0, 'probe'); T0.valid(s0, 0)      # which slot is PVScalar::copyUnchecked ?
    E.call('tr_scalar_copyU', [T0.node(0), T0.node(0)], s0)
    if len(set(sl)) != 1: raise Unsupported('slot of PVScalar::copyUnchecked')
    E.add_contract(sl[0], ev(0))
    if kind != 'dispatch':
        E.add_contract(FCU, lambda E, st, a, i: (E.oblige(st, 'destination and source in this order', ptr_eq(a[0], p) and ptr_eq(a[1], q), 'post'), st.ghost.__setitem__('n', st.ghost['n'] + 1), None)[2])
    for o in E.call(P + '7PVField4copyERKS1_' if kind != 'dispatch' else FCU, [p, q], st):
        imm = T2.immutable(x) == 1
        if o.kind == 'throw' and kind != 'dispatch':
            E.covered(o.st, 'reaches refusal') if kind == 'mismatch' else None; E.oblige(o.st, 'refused only if immutable or of another type', kind == 'mismatch' or imm); E.oblige(o.st, 'with std::invalid_argument', E.isa(o.val.ti, '_ZTISt16invalid_argument')); E.oblige(o.st, 'untouched when refused', o.st.ghost['n'] == 0); continue
        if o.kind != 'ret': E.oblige(o.st, 'returns normally (%s)' % (o.why or o.val), False); continue
        if kind == 'mismatch': E.oblige(o.st, 'fields of different types are refused', False); continue
        E.covered(o.st, 'reaches return'); E.oblige(o.st, 'copied exactly once', o.st.ghost['n'] == 1)
        if kind != 'dispatch': E.oblige(o.st, 'an immutable field is not written', Not(imm))
def all_names(E):
    s = slots(E); out = ['virtual:' + n for n in s]
    return out + list(dict.fromkeys(s)) + [n for m in E.prog.mods for n in m.fhead if 'PVStructure' in n]
def jobs(tier):
    out = []
    for de in (False, True):
        for m in (False, True):
            nm = ('deserialize' if de else 'serialize') + ('(mask)' if m else '')
            out.append(Job(nm, j_ser, 'PVStructure::' + nm, dict(de=de, masked=m)))
    out.append(Job('copyUnchecked', j_copy, 'PVStructure::copyUnchecked(from)', dict(masked=False)))
    for inv in (False, True):
        out.append(Job('copyUnchecked(mask,%s)' % inv, j_copy, 'PVStructure::copyUnchecked(from,mask,inverse)', dict(masked=True, inv=inv)))
    out.append(Job('copyUnchecked(self)', j_copy, 'PVStructure::copyUnchecked(from)', dict(masked=False, alias=True)))
    out.append(Job('copyUnchecked(self,mask)', j_copy, 'PVStructure::copyUnchecked(from,mask,inverse)', dict(masked=True, alias=True)))
    out.append(Job('PVField::copyUnchecked', j_dispatch, 'PVField::copyUnchecked', dict(kind='dispatch')))
    out.append(Job('PVField::copy', j_dispatch, 'PVField::copy', dict(kind='copy')))
    out.append(Job('PVField::copy(mismatch)', j_dispatch, 'PVField::copy', dict(kind='mismatch')))
    return out
