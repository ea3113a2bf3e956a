"""C20 - compress: the mask is replaced by the shortest one that selects the same fields."""
from tree import *
from harness import Job
import C19
ASSUMPTIONS = ['a top-level structure has fewer than 2^28 fields', 'reference counts of the shared pointers are not tracked here (null control blocks)',
               'nextSetBit/get/set/clear as proved in C01/C02, offsets and getSubFieldT as proved in C16',
               'compress is given a top-level structure', 'termination of the recursion (the tree is finite)']
def tus(R, V): return [(R + '/src/pvMisc/bitSetUtil.cpp', []), (R + '/src/factory/PVField.cpp', []), (R + '/src/factory/PVStructure.cpp', []), (V + '/tu/tree.cpp', [])]
P, PC = C19.P, C19.PC
SUBF = PC + '11PVStructure15getSubFieldImplEmb'
one = lambda b: If(b, BitVecVal(1, 1), BitVecVal(0, 1))
def setup2(E, x):
    st = State(); T = mktree(E, st); p = root(E, st, T, x) if x is not None else None; use_numbers(E, T)
    return st, T, p
def bits(E, st, T, x):
    """S0: the bits before; S1: what the recursion makes of the ranges of the children"""
    W = C19.sel_bits(E, st); W.cids = lambda: [T.cids[k] for k in T.cids]
    S0 = ABase(1, fresh_name('S0')); S1 = ABase(1, fresh_name('S1')); W.S0, W.S1 = S0, S1; st.ghost['S'] = S0
    st.facts.append(Forall(lambda y: Implies(ULT(y, 2 * NMAX), (bv(S0.rd(y), 1) == 1) == W.own(y)), 'own bit').fact())
    know0 = W.know
    def know(E, st, x):
        key = ('nsb', simplify(b64(x)).get_id()); new = key not in st.note
        x = know0(E, st, x)
        if new:
            st.facts.append(Forall(lambda y: Implies(And(ULE(x, y), ULT(y, 2 * NMAX), Or(W.N(x) < 0, ULT(y, ZeroExt(32, W.N(x))))), bv(S0.rd(y), 1) == 0), 'none before').fact())
            st.assume(Implies(W.N(x) >= 0, And(ULT(ZeroExt(32, W.N(x)), 1 << 31), Implies(ULT(ZeroExt(32, W.N(x)), 2 * NMAX), bv(S0.rd(ZeroExt(32, W.N(x))), 1) == 1))))
        return x
    W.know = know
    return W
def use_bitset(E, W, mask):
    def me(a):
        if not (isinstance(a[0], Ptr) and a[0].r == mask.r and simp(a[0].off) == 0): raise Unsupported('another bit set')
    def get(E, st, a, i):
        me(a); return simpb(bv(st.ghost['S'].rd(ZeroExt(32, bv(a[1], 32))), 1) == 1)
    def nxt(E, st, a, i):
        me(a); S = st.ghost['S']; x = simplify(ZeroExt(32, bv(a[1], 32)))
        if S is W.S0:
            W.know(E, st, x); return simp(W.N(x))
        r = fresh(32, 'next')
        st.facts.append(Forall(lambda y: Implies(And(ULE(x, y), ULT(y, 2 * NMAX), Or(r < 0, ULT(y, ZeroExt(32, r)))), bv(S.rd(y), 1) == 0), 'none before').fact())
        st.assume(Or(r < 0, And(ULE(x, ZeroExt(32, r)), bv(S.rd(ZeroExt(32, r)), 1) == 1)))
        return r
    def wr(v):
        def c(E, st, a, i):
            me(a); st.ghost['S'] = AStore(st.ghost['S'], simp(ZeroExt(32, bv(a[1], 32))), v)
            return a[0]
        return c
    E.contract_proved(C19.NEXTSET, nxt); E.contract_proved(C19.GET, get)
    E.contract_proved(P + '6BitSet3setEj', wr(1)); E.contract_proved(P + '6BitSet5clearEj', wr(0))
    def setv(E, st, a, i):
        me(a); v = a[2]; v = one(v) if z3.is_expr(v) and z3.is_bool(v) else int(v) if isinstance(v, bool) else Extract(0, 0, bv(v, 8))
        st.ghost['S'] = AStore(st.ghost['S'], simp(ZeroExt(32, bv(a[1], 32))), v); return a[0]
    E.contract_proved(P + '6BitSet3setEjb', setv)
def use_sub(E, T, x):
    def c(E, st, a, i):
        me = ident(T, a[1]); 
        if not z3.is_true(simplify(b64(me) == b64(x))): raise Unsupported('sub field of another structure')
        C = T.cid(x); I = T.cids[[k for k in T.cids if T.cids[k][1].eq(C)][0]][2]; o = b64(a[2]); j = I(o)
        ok = And(ULT(j, T.NC(b64(x))), C(j) == o)
        E.oblige(st, 'the offset is one of a direct child', ok, 'pre')
        st.assume(ok)
        E.store(st, a[0], T.child(E, st, x, j), ir.PTR, M(E)); E.store(st, E.padd(a[0], 8) if hasattr(E, 'padd') else Ptr(a[0].r, simp(b64(a[0].off) + 8)), NULL, ir.PTR, M(E))
        return None
    E.contract_proved(SUBF, c)
def recfn(E):
    """the recursive function behind compress"""
    l = list(dict.fromkeys(n for m in E.prog.mods for n in m.fhead if "checkBitSet" in n))
    if len(l) == 1: return l[0]
    raise Unsupported('the recursive function of bitSetUtil.cpp')
def fieldof(E, st, p):
    v = E.load(st, p, ir.PTR, M(E))
    return v
def result_bool(v): return v if isinstance(v, bool) or (z3.is_expr(v) and z3.is_bool(v)) else simpb(bv(v, 1) == 1)
def recursion(E, T, x, W, mask):
    def c(E, st, a, i):
        f = fieldof(E, st, a[0]); ch = ident(T, f); m = fieldof(E, st, a[1])
        E.oblige(st, 'the same bit set', isinstance(m, Ptr) and m.r == mask.r, 'pre')
        E.oblige(st, 'called with the offset of the field', ZeroExt(32, bv(a[2], 32)) == b64(ch), 'pre')
        j = index_of(T, simplify(b64(x)), ch)
        if j is None: raise Unsupported('not a child by name: %s' % str(ch)[:60])
        lo, hi = b64(ch), T.NXT(b64(ch)); S = st.ghost['S']; inr = lambda y: And(ULE(lo, y), ULT(y, hi))
        E.forall_goal(st, 'the bits of the child are still the original ones', lambda y: Implies(inr(b64(y)), eq(S.rd(y), W.S0.rd(y))), 'pre')
        W.know(E, st, lo); any_ = W.any(lo, hi)
        st.facts.append(Forall(lambda y: Implies(And(inr(y), Not(any_)), bv(W.S1.rd(y), 1) == 0), 'empty stays empty').fact())
        S1 = W.S1
        st.ghost['S'] = AFn(1, lambda y: If(inr(b64(y)), bv(S1.rd(y), 1), bv(S.rd(y), 1)))
        return simpb(any_)
    return c
def tobool(v):
    if isinstance(v, bool): return z3.BoolVal(v)
    if isc(v): return z3.BoolVal(bool(v & 1))
    if z3.is_bool(v): return v
    return Extract(0, 0, v) == 1
def templates(E, T, x, W, b):
    lo, hi = b64(x), T.NXT(b64(x))
    def tmpl(L):
        C = T.cid(x); out = []; S0, S1 = W.S0, W.S1
        out.append(('children so far', lambda v: ULE(v.t, T.NC(lo))))
        for loc in ivars(L):
            e = L.entry[loc]; w = 1 if isinstance(e, bool) or (z3.is_expr(e) and z3.is_bool(e)) else None
            def val(v, loc=loc): return v.get(loc)
            if w is None:
                def off(v, loc=loc):
                    y = v.get(loc)
                    if isc(y): return False
                    n = y.size()
                    if n == 64: return Implies(ULE(v.t, T.NC(lo)), y == C(v.t))
                    if n == 32: return Implies(ULE(v.t, T.NC(lo)), ZeroExt(32, y) == C(v.t))
                    return False
                out.append(('at child t', off))
                def run(v, loc=loc):
                    y = v.get(loc)
                    if isc(y): return False
                    return And(ULE(v.t, hi), (ZeroExt(32, y) if y.size() == 32 else y if y.size() == 64 else ZeroExt(64 - y.size(), y)) == lo + 1 + v.t)
                out.append(('bit lo+1+t', run))
            def isflag(v, loc=loc):
                y = v.get(loc); return isinstance(y, bool) or (z3.is_expr(y) and (z3.is_bool(y) or y.size() <= 8)) or (isc(y) and y in (0, 1))
            out.append(('set if a child had a bit', lambda v, loc=loc: Forall(lambda k: Implies(And(ULT(k, v.t), ULT(k, T.NC(lo)), W.any(C(k), T.NXT(C(k)))), tobool(v.get(loc)))) if isflag(v, loc) else False))
            out.append(('only if some bit', lambda v, loc=loc: Implies(tobool(v.get(loc)), W.any(lo, hi)) if isflag(v, loc) else False))
            out.append(('all so far', lambda v, loc=loc: tobool(v.get(loc)) == ULE(v.t, b) if isflag(v, loc) else False))
            out.append(('not all so far', lambda v, loc=loc: tobool(v.get(loc)) == ULT(b, v.t) if isflag(v, loc) else False))
        if ('ghost', 'S') in L.entry or True:
            out.append(('children done', lambda v: Forall(lambda y: Implies(ULE(v.t, T.NC(lo)), bv(v.st.ghost['S'].rd(y), 1) == If(And(ULT(lo, b64(y)), ULT(b64(y), C(v.t))), bv(S1.rd(y), 1), bv(S0.rd(y), 1))))))
            Se = L.st.ghost['S']
            out.append(('cleared so far', lambda v: Forall(lambda y: bv(v.st.ghost['S'].rd(y), 1) == If(And(ULT(lo, b64(y)), ULT(b64(y), lo + 1 + v.t)), BitVecVal(0, 1), bv(Se.rd(y), 1)))))
        return out
    E.templates.append(tmpl)
def start(E, kind):
    E.inv_all = E.simple = True; x = E.name('x', fresh(64, 'x')) if kind != 'top' else BitVecVal(0, 64)
    st = State(); T = mktree(E, st); use_numbers(E, T)
    W = None
    if kind == 'leaf':
        T.valid(st, x); st.assume(T.NXT(x) == x + 1); p = T.node(x)
    else: p = root(E, st, T, x)
    W = bits(E, st, T, x)
    b = E.name('first child not wholly selected', fresh(64, 'b'))
    if kind != 'leaf':
        C = T.cid(x); I = T.cids[[k for k in T.cids if T.cids[k][1].eq(C)][0]][2]; n = T.NC(b64(x)); S0, S1 = W.S0, W.S1
        st.facts.append(Forall(lambda i: Implies(ULT(i, n), I(C(i)) == i), 'index of a child').fact())
        st.facts.append(Forall(lambda i: Implies(And(ULT(i, n), T.NXT(C(i)) == C(i) + 1), bv(S1.rd(C(i)), 1) == bv(S0.rd(C(i)), 1)), 'single fields').fact())
        st.assume(And(ULE(b, n), Implies(ULT(b, n), bv(S1.rd(C(b)), 1) == 0)))
        st.facts.append(Forall(lambda i: Implies(ULT(i, b), bv(S1.rd(C(i)), 1) == 1), 'wholly selected before').fact())
        if kind == 'structure': st.assume(UGT(T.NXT(b64(x)), b64(x) + 1)); st.assume(UGT(n, 0)) if kind == 'structure' else None
        # every position below belongs to exactly one child
        W.owner = z3.Function(fresh_name('OWNER'), z3.BitVecSort(64), z3.BitVecSort(64))
    W.know(E, st, x)
    mask = E.alloc(st, 'bits', 32)
    sp = E.alloc(st, 'field pointer', 16); E.store_n(st, sp, p, 8); E.store_n(st, Ptr(sp.r, 8), NULL, 8)
    sb = E.alloc(st, 'bitset pointer', 16); E.store_n(st, sb, mask, 8); E.store_n(st, Ptr(sb.r, 8), NULL, 8)
    use_bitset(E, W, mask)
    return st, T, W, x, b, mask, sp, sb
def j_rec(E, kind):
    st, T, W, x, b, mask, sp, sb = start(E, kind); S0, S1 = W.S0, W.S1; lo, hi = b64(x), T.NXT(b64(x)); f = recfn(E)
    if kind != 'leaf':
        use_sub(E, T, x); templates(E, T, x, W, b); E.contract_proved(f, recursion(E, T, x, W, mask))
    for o in E.call(f, [sp, sb, Extract(31, 0, x)], st):
        if o.kind != 'ret': E.oblige(o.st, 'returns normally (%s)' % (o.why or o.val), False); continue
        E.covered(o.st, 'reaches return'); s = o.st; S = s.ghost['S']; B = lambda A, y: bv(A.rd(y), 1); res = tobool(o.val)
        any_ = W.any(lo, hi)
        if kind == 'structure':      # the child that holds the first bit
            C = T.cid(x); n0 = ZeroExt(32, W.N(lo)); k = W.owner(n0)
            s.assume(Implies(And(any_, Not(W.own(lo))), And(ULT(k, T.NC(lo)), ULE(C(k), n0), ULT(n0, T.NXT(C(k)))))); T.child(E, s, x, k)
            W.know(E, s, C(k))
        E.oblige(s, 'true exactly if a bit of this subtree was set', res == any_)
        E.forall_goal(s, 'no bit outside the subtree changes', lambda y: Implies(Not(And(ULE(lo, b64(y)), ULT(b64(y), hi))), B(S, y) == B(S0, y)))
        E.forall_goal(s, 'an empty subtree stays empty', lambda y: Implies(And(ULE(lo, b64(y)), ULT(b64(y), hi), Not(any_)), B(S, y) == 0))
        if kind == 'leaf': E.oblige(s, 'a single field keeps its bit', B(S, lo) == B(S0, lo)); continue
        E.oblige(s, 'selected as a whole exactly if it was, or if all of its children are', Implies(any_, (B(S, lo) == 1) == Or(B(S0, lo) == 1, b == T.NC(lo))))
        E.forall_goal(s, 'a structure selected as a whole has no other bit', lambda y: Implies(And(any_, ULT(lo, b64(y)), ULT(b64(y), hi), B(S, lo) == 1), B(S, y) == 0))
        E.forall_goal(s, 'otherwise the children keep their compressed bits', lambda y: Implies(And(any_, ULT(lo, b64(y)), ULT(b64(y), hi), B(S, lo) == 0), B(S, y) == B(S1, y)))
def j_top(E):
    st, T, W, x, b, mask, sp, sb = start(E, 'top'); f = recfn(E); st.ghost['n'] = 0
    def c(E, st, a, i):
        m = fieldof(E, st, a[1]); E.oblige(st, 'the bit set given', isinstance(m, Ptr) and m.r == mask.r, 'pre')
        E.oblige(st, 'the structure given', eq(ident(T, fieldof(E, st, a[0])), 0), 'pre'); E.oblige(st, 'the offset of the structure', eq(a[2], 0), 'pre')
        st.ghost['n'] += 1; st.ghost['S'] = W.S1
        return simpb(W.any(b64(0), T.NXT(b64(0))))
    E.contract_proved(f, c)
    for o in E.call('tr_compress', [sb, sp], st):
        if o.kind != 'ret': E.oblige(o.st, 'returns normally (%s)' % (o.why or o.val), False); continue
        E.covered(o.st, 'reaches return'); E.oblige(o.st, 'compresses once', o.st.ghost['n'] == 1 and o.st.ghost['S'] is W.S1)
        E.oblige(o.st, 'tells whether any bit was set', tobool(o.val) == W.any(b64(0), T.NXT(b64(0))))
def j_lemma(E):
    """the contract of the recursion, for this node and its children, keeps the selected fields"""
    E.simple = True; st = State(); B = lambda n: z3.Bool(fresh_name(n))
    s0, s, s1c, any_, all_ = B('own before'), B('own after'), B('child own after'), B('any'), B('all children own after')
    cov0, cov1, sel = B('covered below before'), B('covered below after'), B('position selected after compression of the child')
    # y: a single field below; its child subtree k.  cov: its own bit or one above it, below this node
    st.assume(cov0 == cov1)                        # induction hypothesis: the child's compression keeps it
    st.assume(Implies(s1c, cov1)); st.assume(Implies(all_, s1c))
    st.assume(Implies(s0, any_)); st.assume(Implies(cov0, any_))
    st.assume(Implies(any_, s == Or(s0, all_))); st.assume(Implies(Not(any_), Not(s)))
    covf = Or(s, And(Not(s), any_, cov1))           # postconditions: cleared below if s, else the child's bits (none if there were none)
    E.covered(st, 'hypotheses consistent')
    E.oblige(st, 'lemma: the same single fields are selected, by their own bit or one above', Or(s0, cov0) == covf)
def jobs(tier):
    return [Job('checkBitSetPVField(leaf)', j_rec, 'checkBitSetPVField', dict(kind='leaf')), Job('checkBitSetPVField(structure)', j_rec, 'checkBitSetPVField', dict(kind='structure')),
            Job('compress', j_top, 'BitSetUtil::compress'), Job('lemma', j_lemma, 'contracts above')]
