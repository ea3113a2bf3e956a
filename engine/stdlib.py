"""Assumed (trusted) contracts on the C/C++ runtime: operator new/delete, libc
memory functions, std::vector growth operations, exception ABI.  Everything used
from here is listed in the evidence as an assumed contract."""
import z3
from sym import *
from exec import Tr, Exc, icmp, dem
MAXALLOC = 1 << 46

ESZ = {'unsigned long': 8, 'long': 8, 'unsigned int': 4, 'int': 4, 'unsigned short': 2, 'short': 2, 'char': 1, 'signed char': 1, 'unsigned char': 1,
       'double': 8, 'float': 4, 'bool': 1}

def alloc_heap(E, st, n, how, name='heap'):
    n = simp(n)
    if isc(n):
        if n > 1 << 20: raise Unsupported('huge allocation')
        p = E.alloc(st, name, n, 'struct', heap=how)
    else:
        p = E.alloc(st, name, n, 'raw', heap=how)
    return p

def op_new(how):
    def f(E, st, a, i):
        n = simp(a[0])
        if isc(n):
            if n >= MAXALLOC: return Tr([('throw', st, Exc('_ZTISt9bad_alloc'))])
            return alloc_heap(E, st, n, how)
        out = []
        big = z3.UGE(n, MAXALLOC)
        if E.feasible(st, big):
            s = st.copy(); s.assume(big)
            out.append(('throw', s, Exc('_ZTISt9bad_alloc')))
        if E.feasible(st, z3.Not(big)):
            st.assume(z3.ULT(n, MAXALLOC))
            out.append(('ret', st, alloc_heap(E, st, n, how)))
        return Tr(out)
    return f
def op_delete(how):
    def f(E, st, a, i):
        p = E.ptr(st, a[0])
        E.free(st, p, how)
        return None
    return f

# ---------------------------------------------------------------- vectors
def vec_get(E, st, p):
    """(begin, end, cap) pointers"""
    M = E.prog.mods[0]
    import ir
    return tuple(E.load(st, p.plus(o), ir.PTR, M) for o in (0, 8, 16))
def vec_set(E, st, p, b, e, c):
    for o, v in ((0, b), (8, e), (16, c)): E.store_n(st, p.plus(o), v, 8)
def vec_n(E, st, p, esz):
    b, e, c = vec_get(E, st, p)
    d = sub(e.off, b.off)
    return E.unscale(st, d, esz.bit_length()-1)
def vec_cap(E, st, p, esz):
    b, e, c = vec_get(E, st, p)
    d = sub(c.off, b.off)
    return E.unscale(st, d, esz.bit_length()-1)
def vec_rd(E, st, p, esz):
    """content as function of the element index"""
    b, e, c = vec_get(E, st, p)
    if b.r == 0: return lambda i: 0
    r = E.region(st, b.r)
    if r.kind == 'raw': r = E.ensure_array(st, r, esz)
    if r.kind == 'struct':
        cells = dict(r.cells); off = b.off
        def f(i):
            x = None
            for o, (m, v) in cells.items():
                if m == esz and isc(off):
                    k = (o - off)//esz
                    if isc(i):
                        if i == k: return v
                    else:
                        x = bv(v, esz*8) if x is None else z3.If(b64(i) == k, bv(v, esz*8), x)
            if x is None: raise Unsupported('vec_rd')
            return x
        return f
    if isc(b.off) and b.off == 0 and r.esz == esz: return r.arr.rd
    off = b.off
    return lambda i: E.arr_read(st, r, add(off, mul(i, esz)), esz)
def vec_new(E, st, p, n, cap, esz, rd, name='vec'):
    """point the vector at a fresh block of cap elements, first n given by rd"""
    a = AFn(esz*8, rd)
    q = E.alloc(st, name, mul(cap, esz), 'array', esz=esz, arr=a, heap='new')
    vec_set(E, st, p, q, q.plus(mul(n, esz)), q.plus(mul(cap, esz)))
    return q
def vec_release(E, st, p):
    b, e, c = vec_get(E, st, p)
    if b.r and b.r in st.mem:
        st.reg(b.r).alive = False
def fork(E, st, cond):
    """[(True,st),(False,st)] feasible ones"""
    c = simpb(cond)
    if c is True: return [(True, st)]
    if c is False: return [(False, st)]
    out = []
    f = E.feasible(st, c)
    g = E.feasible(st, bnot(c))
    if f and g:
        s = st.copy(); s.assume(bnot(c)); out.append((False, s))
    elif g:
        st.assume(bnot(c)); return [(False, st)]
    if f:
        st.assume(c); out.append((True, st))
    return out

def vec_resize_to(E, st, p, n, esz, val):
    """grow/shrink; returns transitions.  val: function or constant for new elements"""
    out = []
    mx = ((1 << 63) - 1) // esz
    cur = vec_n(E, st, p, esz)
    for grow, s in fork(E, st, icmp('ugt', n, cur, 64)):
        b, e, c = vec_get(E, s, p)
        if not grow:
            E.store_n(s, p.plus(8), b.plus(mul(n, esz)), 8)
            out.append(('ret', s, None)); continue
        for big, s2 in fork(E, s, icmp('ugt', n, mx, 64)):
            if big:
                out.append(('throw', s2, Exc('_ZTISt12length_error'))); continue
            if not isc(n): s2.assume(z3.ULT(n, MAXALLOC // esz))
            elif n > MAXALLOC // esz: continue
            rd = vec_rd(E, s2, p, esz)
            cap = n
            capold = vec_cap(E, s2, p, esz)
            if isc(n) and isc(cur) and n <= 64:
                cap = n
            else:
                cap = fresh(64, 'cap')
                s2.assume(z3.UGE(cap, b64(n))); s2.assume(z3.ULT(cap, MAXALLOC // esz * 2))
            w = esz*8
            def nrd(i, rd=rd, cur=cur, val=val):
                c = icmp('ult', i, cur, 64)
                if c is True: return rd(i)
                if c is False: return val
                return ite(c, rd(i), val, w)
            vec_release(E, s2, p)
            vec_new(E, s2, p, n, cap, esz, nrd)
            out.append(('ret', s2, None))
    return Tr(out)

def esz_of(m):
    t = m.group('T').strip()
    if t.endswith('*'): return 8
    if t in ESZ: return ESZ[t]
    raise Unsupported('vector element type %s' % t)
def v_resize(E, st, a, i, m):
    return vec_resize_to(E, st, a[0], a[1], esz_of(m), 0)
def v_resize_v(E, st, a, i, m):
    esz = esz_of(m)
    import ir
    val = E.load(st, E.ptr(st, a[2]), ir.Ty('int', esz*8), E.prog.mods[0])
    return vec_resize_to(E, st, a[0], a[1], esz, val)
def v_reserve(E, st, a, i, m):
    esz = esz_of(m); p, n = a[0], a[1]
    out = []
    mx = ((1 << 63) - 1) // esz
    for big, s in fork(E, st, icmp('ugt', n, mx, 64)):
        if big: out.append(('throw', s, Exc('_ZTISt12length_error'))); continue
        capold = vec_cap(E, s, p, esz)
        for grow, s2 in fork(E, s, icmp('ugt', n, capold, 64)):
            if grow:
                if not isc(n): s2.assume(z3.ULT(n, MAXALLOC // esz))
                cur = vec_n(E, s2, p, esz); rd = vec_rd(E, s2, p, esz)
                vec_release(E, s2, p)
                vec_new(E, s2, p, cur, n, esz, rd)
            out.append(('ret', s2, None))
    return Tr(out)
def v_assign(E, st, a, i, m):
    esz = esz_of(m); p, q = a[0], a[1]
    if p.same(q): return p
    n = vec_n(E, st, q, esz); rd = vec_rd(E, st, q, esz)
    vec_release(E, st, p)
    vec_new(E, st, p, n, n, esz, rd)
    return p
def v_copyctor(E, st, a, i, m):
    esz = esz_of(m); p, q = a[0], a[1]
    n = vec_n(E, st, q, esz); rd = vec_rd(E, st, q, esz)
    vec_new(E, st, p, n, n, esz, rd)
    return None
def v_push(E, st, a, i, m):
    esz = esz_of(m); p = a[0]
    import ir
    val = E.load(st, E.ptr(st, a[1]), ir.Ty('int', esz*8) if not m.group('T').strip().endswith('*') else ir.PTR, E.prog.mods[0])
    if isinstance(val, Ptr): val = E.p2i(st, val)
    n = vec_n(E, st, p, esz); rd = vec_rd(E, st, p, esz)
    cap = fresh(64, 'cap') if not isc(n) else n + 1
    if not isc(cap): st.assume(z3.UGT(cap, b64(n))); st.assume(z3.ULT(cap, MAXALLOC // esz * 2))
    vec_release(E, st, p)
    w = esz*8
    def nrd(k, rd=rd, n=n, val=val):
        c = icmp('eq', k, n, 64)
        if c is True: return val
        if c is False: return rd(k)
        return ite(c, val, rd(k), w)
    vec_new(E, st, p, add(n, 1), cap, esz, nrd)
    return None

# ---------------------------------------------------------------- exceptions
def cxa_alloc(E, st, a, i):
    n = simp(a[0])
    return E.alloc(st, 'exception', n if isc(n) else 64, 'struct', heap='exc')
def gname(E, p):
    return E.regname[p.r][1:]
def cxa_throw(E, st, a, i):
    return Tr([('throw', st, Exc(gname(E, a[1]), a[0]))])
def begin_catch(E, st, a, i):
    st.caught.append(st.exc); st.exc = None
    return st.caught[-1].obj if st.caught[-1] is not None else NULL
def end_catch(E, st, a, i):
    if st.caught: st.caught.pop()
    return None
def rethrow(E, st, a, i):
    e = st.caught[-1] if st.caught else None
    if e is None: return Tr([('abort', st, 'rethrow without exception')])
    return Tr([('throw', st, e)])
def aborter(why):
    return lambda E, st, a, i: Tr([('abort', st, why)])
def thrower(ti):
    return lambda E, st, a, i: Tr([('throw', st, Exc(ti))])
def nop(E, st, a, i): return None
def nop_m(E, st, a, i, m): return None

def c_memcmp(E, st, a, i):
    p, q, n = E.ptr(st, a[0]), E.ptr(st, a[1]), simp(a[2])
    if isc(n) and n <= 64:
        r = 0
        x = None
        bs = []
        import ir
        for k in range(n):
            u = E.load(st, p.plus(k), ir.I8, E.prog.mods[0]); v = E.load(st, q.plus(k), ir.I8, E.prog.mods[0])
            bs.append((u, v))
        r = 0
        for u, v in reversed(bs):
            d = sub(zext(u, 8, 32), zext(v, 8, 32), 32)
            r = ite(eq(u, v, 8), r, d, 32)
        return r
    raise Unsupported('memcmp')
def c_memcpy(E, st, a, i):
    E.memcpy(st, E.ptr(st, a[0]), E.ptr(st, a[1]), a[2], overlap_ok=False)
    return a[0]
def c_memmove(E, st, a, i):
    E.memcpy(st, E.ptr(st, a[0]), E.ptr(st, a[1]), a[2])
    return a[0]
def c_memset(E, st, a, i):
    E.memset(st, E.ptr(st, a[0]), a[1], a[2]); return a[0]
def c_strlen(E, st, a, i):
    import ir
    p = E.ptr(st, a[0])
    r = E.region(st, p.r)
    if r.kind == 'struct' and isc(p.off):
        n = 0
        while True:
            c = E.load(st, p.plus(n), ir.I8, E.prog.mods[0])
            if not isc(c): raise Unsupported('strlen of symbolic string')
            if c == 0: return n
            n += 1
    raise Unsupported('strlen')

VT = r'std::vector<(?P<T>[a-z ]+|[\w: ]+\*), std::allocator<(?P=T)> ?>::'
def install(E):
    for n, how in (('_Znwm', 'new'), ('_Znam', 'new[]'), ('malloc', 'malloc')): E.add_contract(n, op_new(how))
    for n, how in (('_ZdlPv', 'new'), ('_ZdlPvm', 'new'), ('_ZdaPv', 'new[]'), ('_ZdaPvm', 'new[]'), ('free', 'malloc')): E.add_contract(n, op_delete(how))
    E.add_contract('__cxa_allocate_exception', cxa_alloc)
    E.add_contract('__cxa_free_exception', nop)
    E.add_contract('__cxa_throw', cxa_throw)
    E.add_contract('__cxa_begin_catch', begin_catch)
    E.add_contract('__cxa_end_catch', end_catch)
    E.add_contract('__cxa_rethrow', rethrow)
    E.add_contract('__cxa_guard_acquire', lambda E, st, a, i: 0)
    E.add_contract('__clang_call_terminate', aborter('std::terminate (exception leaves noexcept code)'))
    E.add_contract('_ZSt9terminatev', aborter('std::terminate'))
    E.add_contract('abort', aborter('abort()'))
    E.add_contract('__assert_fail', aborter('assert failed'))
    E.add_contract('epicsAssert', aborter('epicsAssert failed'))
    E.add_contract('cantProceed', aborter('cantProceed'))
    E.add_contract('_ZSt21__glibcxx_assert_failPKciS0_S0_', aborter('libstdc++ precondition (operator[]/back/... out of range)'))
    E.add_contract('_ZSt17__throw_bad_allocv', thrower('_ZTISt9bad_alloc'))
    E.add_contract('_ZSt28__throw_bad_array_new_lengthv', thrower('_ZTISt20bad_array_new_length'))
    E.add_contract('_ZSt20__throw_length_errorPKc', thrower('_ZTISt12length_error'))
    E.add_contract('_ZSt20__throw_out_of_rangePKc', thrower('_ZTISt12out_of_range'))
    E.add_contract('_ZSt24__throw_out_of_range_fmtPKcz', thrower('_ZTISt12out_of_range'))
    E.add_contract('_ZSt19__throw_logic_errorPKc', thrower('_ZTISt11logic_error'))
    E.add_contract('_ZSt20__throw_bad_weak_ptrv', thrower('_ZTISt12bad_weak_ptr'))
    E.add_contract('__cxa_throw_bad_array_new_length', thrower('_ZTISt20bad_array_new_length'))
    E.add_contract('memcpy', c_memcpy); E.add_contract('memmove', c_memmove); E.add_contract('memset', c_memset)
    E.add_contract('memcmp', c_memcmp); E.add_contract('bcmp', c_memcmp); E.add_contract('strlen', c_strlen)
    E.add_pattern(VT + r'resize\(unsigned long\)$', v_resize)
    E.add_pattern(VT + r'resize\(unsigned long, .* const&\)$', v_resize_v)
    E.add_pattern(VT + r'reserve\(unsigned long\)$', v_reserve)
    E.add_pattern(VT + r'operator=\(std::vector<.*> const&\)$', v_assign)
    E.add_pattern(VT + r'vector\(std::vector<.*> const&\)$', v_copyctor)
    E.add_pattern(VT + r'(push_back|emplace_back<.*>)\(.*\)$', v_push)
    # exception objects carry no verified content
    E.add_pattern(r'^std::(runtime_error|logic_error|invalid_argument|out_of_range|range_error|overflow_error|domain_error|length_error|bad_alloc|exception|bad_cast)::~?(runtime_error|logic_error|invalid_argument|out_of_range|range_error|overflow_error|domain_error|length_error|bad_alloc|exception|bad_cast)\(', nop_m)
