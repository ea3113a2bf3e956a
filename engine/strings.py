"""Assumed (trusted) contracts on std::string (libstdc++ layout: data pointer, length).
The small-string buffer is not modelled: character storage is always a block of its own."""
import z3, re
from sym import *
import stdlib
from exec import Tr, Exc, icmp
import ir
MAXLEN = 1 << 40
S = 'std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char> >::'
RS = r'^' + re.escape(S)
CR = r'std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char> >'

def M(E): return E.prog.mods[0]
def s_ptr(E, st, p): return E.load(st, p, ir.PTR, M(E))
def s_len(E, st, p): return E.load(st, p.plus(8), ir.I64, M(E))
def s_rd(E, st, p):
    """character k of the string at p (byte reader, snapshot)"""
    d = s_ptr(E, st, p)
    return c_rd(E, st, d)
def c_rd(E, st, d):
    """byte reader of memory at pointer d"""
    if d.r == 0: return lambda k: BitVecVal(0, 8)
    r = E.region(st, d.r)
    if r.kind == 'array' and r.esz == 1 and isc(d.off) and d.off == 0:
        a = r.arr
        return lambda k: bv(a.rd(k), 8)
    if r.kind == 'array':
        return lambda k: bv(E.arr_read(st, r, add(d.off, k), 1), 8)
    if r.kind == 'struct' and isc(d.off):
        cells = dict(r.cells); off = d.off; size = r.size
        def f(k):
            if isc(k): return bv(E.cell_read(st, r, off + k, 1, 'int'), 8)
            x = BitVecVal(0, 8)
            for o in range(off, min(size, off + 256)): x = If(b64(k) == o - off, bv(E.cell_read(st, r, o, 1, 'int'), 8), x)
            return x
        return f
    raise Unsupported('string bytes of %s' % r.kind)
def s_new(E, st, p, n, rd, release=False, name='str'):
    """make the string object at p hold n characters rd(k); an existing object keeps its block"""
    n = simp(n)
    a = AFn(8, lambda k, n=n, rd=rd: _term(k, n, rd))
    if release:
        q = s_live(E, st, p)
        if q is None: return
        r = st.reg(q.r)
        if r.kind != 'array': raise Unsupported('string storage')
        r.arr = a
        E.store_n(st, p.plus(8), n, 8)
        return q
    q = E.alloc(st, name + '.chars', 0, 'array', esz=1, arr=a, heap='str')
    r = st.mem[q.r]; r.size = None; r.nel = None; r.info = ('str', p)
    E.store_n(st, p, q, 8); E.store_n(st, p.plus(8), n, 8)
    return q
def s_live(E, st, p):
    """block of the live string object at p"""
    r = E.region(st, p.r)
    c = r.cells.get(p.off) if r.cells is not None and isc(p.off) else None
    if c and isinstance(c[1], Ptr) and c[1].r in st.mem and st.mem[c[1].r].heap == 'str':
        if st.mem[c[1].r].alive: return c[1]
        E.oblige(st, 'string used while alive', False, 'safety'); st.assume(False); return None
    E.oblige(st, 'operates on a live string object', False, 'safety'); st.assume(False)
    return None
def _term(k, n, rd):
    c = simpb(icmp('eq', k, n, 64))
    if c is True: return 0
    if c is False: return rd(k)
    return ite(c, 0, rd(k), 8)
def s_free(E, st, p):
    q = s_live(E, st, p)
    if q is not None: st.reg(q.r).alive = False
def mkstr(E, st, nm, maxlen=MAXLEN, at=None):
    """any string; returns (object, length, character reader)"""
    n = fresh(64, 'len_' + nm); st.assume(ULE(n, maxlen))
    base = ABase(8, fresh_name('S_' + nm))
    o = at if at is not None else E.alloc(st, nm, 32)
    s_new(E, st, o, n, base.rd, name=nm)
    E.name(nm, (base, n))
    return o, n, base.rd
def guard(E, st, n):
    """length_error for absurd lengths; returns states that go on"""
    n = simp(n)
    if isc(n): return [('ok', st)] if n < stdlib.MAXALLOC else [('throw', st)]
    out = []
    for big, s in stdlib.fork(E, st, icmp('uge', n, stdlib.MAXALLOC, 64)):
        out.append(('throw' if big else 'ok', s))
    return out
def ctor_n(E, st, a, i, m):       # (this, const char*, n, alloc)
    out = []
    for k, s in guard(E, st, a[2]):
        if k == 'throw': out.append(('throw', s, Exc('_ZTISt12length_error'))); continue
        E.access(s, E.ptr(s, a[1]), a[2], False)
        rd = c_rd(E, s, E.ptr(s, a[1]))
        s_new(E, s, a[0], a[2], rd); out.append(('ret', s, None))
    return Tr(out)
def cstr(E, st, p):
    """(length, reader) of a C string"""
    p = E.ptr(st, p)
    r = E.region(st, p.r)
    info = r.info if isinstance(r.info, tuple) and r.info and r.info[0] == 'cstr' else None
    if info and isc(p.off) and p.off == 0: return info[1], c_rd(E, st, p)
    if r.kind == 'array' and r.esz == 1 and r.heap == 'str' and isc(p.off) and p.off == 0:
        raise Unsupported('strlen of std::string data')
    n = stdlib.c_strlen(E, st, [p], None)
    return n, c_rd(E, st, p)
def ctor_c(E, st, a, i, m):
    n, rd = cstr(E, st, a[1]); s_new(E, st, a[0], n, rd)
def ctor_0(E, st, a, i, m): s_new(E, st, a[0], 0, lambda k: BitVecVal(0, 8))
def ctor_copy(E, st, a, i, m): s_new(E, st, a[0], s_len(E, st, a[1]), s_rd(E, st, a[1]))
def ctor_move(E, st, a, i, m):
    s_new(E, st, a[0], s_len(E, st, a[1]), s_rd(E, st, a[1])); s_new(E, st, a[1], 0, lambda k: BitVecVal(0, 8), True)
def ctor_fill(E, st, a, i, m):    # (this, n, char)
    c = bv(a[2], 8); s_new(E, st, a[0], a[1], lambda k: c)
def dtor(E, st, a, i, m): s_free(E, st, a[0])
def assign(E, st, a, i, m):
    if a[0].same(a[1]): return a[0]
    n, rd = s_len(E, st, a[1]), s_rd(E, st, a[1]); s_new(E, st, a[0], n, rd, True); return a[0]
def assign_move(E, st, a, i, m):
    if a[0].same(a[1]): return a[0]
    n, rd = s_len(E, st, a[1]), s_rd(E, st, a[1]); s_new(E, st, a[0], n, rd, True); s_new(E, st, a[1], 0, lambda k: BitVecVal(0, 8), True); return a[0]
def assign_c(E, st, a, i, m):
    n, rd = cstr(E, st, a[1]); s_new(E, st, a[0], n, rd, True); return a[0]
def assign_n(E, st, a, i, m):
    rd = c_rd(E, st, E.ptr(st, a[1])); s_new(E, st, a[0], a[2], rd, True); return a[0]
def cat(E, st, p, n2, rd2):
    n1, rd1 = s_len(E, st, p), s_rd(E, st, p)
    out = []
    tot = simp(add(n1, n2))
    for k, s in guard(E, st, tot):
        if k == 'throw': out.append(('throw', s, Exc('_ZTISt12length_error'))); continue
        def rd(k, n1=n1, rd1=rd1, rd2=rd2):
            c = simpb(icmp('ult', k, n1, 64))
            if c is True: return rd1(k)
            if c is False: return rd2(simp(sub(k, n1)))
            return ite(c, rd1(k), rd2(simp(sub(k, n1))), 8)
        s_new(E, s, p, tot, rd, True)
        out.append(('ret', s, p))
    return Tr(out)
def append_n(E, st, a, i, m):
    E.access(st, E.ptr(st, a[1]), a[2], False)
    return cat(E, st, a[0], a[2], c_rd(E, st, E.ptr(st, a[1])))
def append_s(E, st, a, i, m): return cat(E, st, a[0], s_len(E, st, a[1]), s_rd(E, st, a[1]))
def append_c(E, st, a, i, m):
    n, rd = cstr(E, st, a[1]); return cat(E, st, a[0], n, rd)
def push_back(E, st, a, i, m):
    c = bv(a[1], 8); r = cat(E, st, a[0], 1, lambda k: c)
    return r
def append_ch(E, st, a, i, m): return push_back(E, st, a, i, m)
def reserve(E, st, a, i, m):
    out = []
    for k, s in guard(E, st, a[1]):
        out.append(('throw', s, Exc('_ZTISt12length_error')) if k == 'throw' else ('ret', s, None))
    return Tr(out)
def length(E, st, a, i, m): return s_len(E, st, a[0])
def empty(E, st, a, i, m): return simpb(icmp('eq', s_len(E, st, a[0]), 0, 64))
def data(E, st, a, i, m): return s_ptr(E, st, a[0])
def index(E, st, a, i, m):
    n = s_len(E, st, a[0])
    E.oblige(st, 'string operator[] within the string', icmp('ule', a[1], n, 64), 'safety')
    return s_ptr(E, st, a[0]).plus(a[1])
def at(E, st, a, i, m):
    out = []
    for ok, s in stdlib.fork(E, st, icmp('ult', a[1], s_len(E, st, a[0]), 64)):
        out.append(('ret', s, s_ptr(E, s, a[0]).plus(a[1])) if ok else ('throw', s, Exc('_ZTISt12out_of_range')))
    return Tr(out)
def clear(E, st, a, i, m): s_new(E, st, a[0], 0, lambda k: BitVecVal(0, 8), True)
def swap(E, st, a, i, m):
    n1, r1, n2, r2 = s_len(E, st, a[0]), s_rd(E, st, a[0]), s_len(E, st, a[1]), s_rd(E, st, a[1])
    s_new(E, st, a[0], n2, r2, True); s_new(E, st, a[1], n1, r1, True)
def begin(E, st, a, i, m): return s_ptr(E, st, a[0])
def end(E, st, a, i, m): return s_ptr(E, st, a[0]).plus(s_len(E, st, a[0]))
def same(E, st, n1, r1, n2, r2):
    """[(equal?, state)]: strings are equal iff lengths and all characters agree; an unequal pair of equal length has a differing character"""
    n1, n2 = simp(n1), simp(n2)
    for n, nn in ((n1, n2), (n2, n1)):
        if isc(n) and n <= 64:
            c = band(icmp('eq', n1, n2, 64), *[simpb(bv(r1(k), 8) == bv(r2(k), 8)) for k in range(n)])
            return stdlib.fork(E, st, c)
    out = []
    s = st.copy()
    w = fresh(64, 'differ')
    s.assume(z3.Or(bnot(icmp('eq', n1, n2, 64)), z3.And(icmp('ult', w, n1, 64), bv(r1(w), 8) != bv(r2(w), 8))))
    if E.feasible(s, True): out.append((False, s))
    e = icmp('eq', n1, n2, 64)
    if E.feasible(st, e):
        st.assume(e)
        from loops import Forall
        st.facts.append(Forall(lambda k: z3.Implies(tob(icmp('ult', k, n1, 64)), bv(r1(k), 8) == bv(r2(k), 8)), 'equal strings').fact())
        out.append((True, st))
    return out
def eq_ss(E, st, a, i, m):
    if a[0].same(a[1]): return True
    return Tr([('ret', s, r) for r, s in same(E, st, s_len(E, st, a[0]), s_rd(E, st, a[0]), s_len(E, st, a[1]), s_rd(E, st, a[1]))])
def ne_ss(E, st, a, i, m):
    if a[0].same(a[1]): return False
    return Tr([('ret', s, not r) for r, s in same(E, st, s_len(E, st, a[0]), s_rd(E, st, a[0]), s_len(E, st, a[1]), s_rd(E, st, a[1]))])
def eq_sc(E, st, a, i, m):
    n, rd = cstr(E, st, a[1])
    return Tr([('ret', s, r) for r, s in same(E, st, s_len(E, st, a[0]), s_rd(E, st, a[0]), n, rd)])
def ne_sc(E, st, a, i, m):
    n, rd = cstr(E, st, a[1])
    return Tr([('ret', s, not r) for r, s in same(E, st, s_len(E, st, a[0]), s_rd(E, st, a[0]), n, rd)])
def compare(E, st, a, i, m):
    out = []
    for r, s in same(E, st, s_len(E, st, a[0]), s_rd(E, st, a[0]), s_len(E, st, a[1]), s_rd(E, st, a[1])):
        if r: out.append(('ret', s, 0))
        else:
            x = fresh(32, 'cmp'); s.assume(x != 0); out.append(('ret', s, x))
    return Tr(out)
def substr_ctor(E, st, a, i, m):   # basic_string(const string&, pos, n)
    n0, rd = s_len(E, st, a[1]), s_rd(E, st, a[1])
    out = []
    for ok, s in stdlib.fork(E, st, icmp('ule', a[2], n0, 64)):
        if not ok: out.append(('throw', s, Exc('_ZTISt12out_of_range'))); continue
        left = sub(n0, a[2]); n = ite(icmp('ult', a[3], left, 64), a[3], left, 64)
        s_new(E, s, a[0], n, lambda k, p=a[2], rd=rd: rd(simp(add(k, p)))); out.append(('ret', s, None))
    return Tr(out)
def substr(E, st, a, i, m): return substr_ctor(E, st, a, i, m)
def plus(E, st, a, i, m, kinds):
    """operator+ (sret, x, y)"""
    def g(x, k): return (s_len(E, st, x), s_rd(E, st, x)) if k == 's' else cstr(E, st, x) if k == 'c' else (1, (lambda z: (lambda q: bv(z, 8)))(x))
    n1, r1 = g(a[1], kinds[0]); n2, r2 = g(a[2], kinds[1])
    s_new(E, st, a[0], n1, r1)
    return Tr([(k, s, None if k == 'ret' else v) for k, s, v in cat(E, st, a[0], n2, r2).l])

def install(E):
    P = E.add_pattern
    al = r'(, std::allocator<char> const&)?'
    P(RS + r'basic_string\(\)$', ctor_0)
    P(RS + r'basic_string\(std::allocator<char> const&\)$', ctor_0)
    P(RS + r'basic_string(<.*>)?\(char const\*, unsigned long' + al + r'\)$', ctor_n)
    P(RS + r'basic_string(<.*>)?\(char const\*' + al + r'\)$', ctor_c)
    P(RS + r'basic_string(<.*>)?\(unsigned long, char' + al + r'\)$', ctor_fill)
    P(RS + r'basic_string\(' + CR + r' const&\)$', ctor_copy)
    P(RS + r'basic_string\(' + CR + r' const&, unsigned long, unsigned long' + al + r'\)$', substr_ctor)
    P(RS + r'basic_string\(' + CR + r'&&\)$', ctor_move)
    P(RS + r'~basic_string\(\)$', dtor)
    P(RS + r'operator=\(' + CR + r' const&\)$', assign)
    P(RS + r'operator=\(' + CR + r'&&\)$', assign_move)
    P(RS + r'operator=\(char const\*\)$', assign_c)
    P(RS + r'assign\(' + CR + r' const&\)$', assign)
    P(RS + r'assign\(char const\*\)$', assign_c)
    P(RS + r'assign\(char const\*, unsigned long\)$', assign_n)
    P(RS + r'append\(char const\*, unsigned long\)$', append_n)
    P(RS + r'(append|operator\+=)\(' + CR + r' const&\)$', append_s)
    P(RS + r'(append|operator\+=)\(char const\*\)$', append_c)
    P(RS + r'operator\+=\(char\)$', append_ch)
    P(RS + r'push_back\(char\)$', push_back)
    P(RS + r'reserve\(unsigned long\)$', reserve)
    P(RS + r'(length|size)\(\) const$', length)
    P(RS + r'empty\(\) const$', empty)
    P(RS + r'(data|c_str|_M_data)\(\) const$', data)
    P(RS + r'data\(\)$', data)
    P(RS + r'operator\[\]\(unsigned long\)( const)?$', index)
    P(RS + r'at\(unsigned long\)( const)?$', at)
    P(RS + r'clear\(\)$', clear)
    P(RS + r'swap\(' + CR + r'&\)$', swap)
    P(RS + r'compare\(' + CR + r' const&\) const$', compare)
    P(RS + r'substr\(unsigned long, unsigned long\) const$', substr)
    B = r'<char, std::char_traits<char>, std::allocator<char> >'
    P(r'^(bool|std::__enable_if<.*>::__type) std::operator==(<char>|' + B + r')\(' + CR + r' const&, ' + CR + r' const&\)$', eq_ss)
    P(r'^bool std::operator!=' + B + r'\(' + CR + r' const&, ' + CR + r' const&\)$', ne_ss)
    P(r'^bool std::operator==' + B + r'\(' + CR + r' const&, char const\*\)$', eq_sc)
    P(r'^bool std::operator!=' + B + r'\(' + CR + r' const&, char const\*\)$', ne_sc)
    for k1, t1 in (('s', CR + r'( const&|&&)'), ('c', r'char const\*'), ('h', 'char')):
        for k2, t2 in (('s', CR + r'( const&|&&)'), ('c', r'char const\*'), ('h', 'char')):
            P(r'^' + CR + r' std::operator\+' + B + r'\(' + t1 + ', ' + t2 + r'\)$', lambda E, st, a, i, m, k=k1 + k2: plus(E, st, a, i, m, k))
    P(r'^std::allocator<char>::~?allocator\(', stdlib.nop_m)
    P(r'^std::__new_allocator<char>::~?__new_allocator\(', stdlib.nop_m)
    # text assembled for exception messages is not part of any contract
    P(r'^std::__cxx11::basic_o?stringstream<char, .*>::~?basic_o?stringstream\(', stdlib.nop_m)
    P(r'^std::__cxx11::basic_o?stringstream<char, .*>::str\(\) const$', lambda E, st, a, i, m: anystr(E, st, a[0]))
    P(r'^(std::basic_ostream<char, std::char_traits<char> >& )?std::(operator<<|basic_ostream<char, std::char_traits<char> >::operator<<)', lambda E, st, a, i, m: a[0])
    P(r'^backtrace$', lambda E, st, a, i, m: 0)
    P(r'^epics::pvData::BaseException::~?BaseException\(', stdlib.nop_m)
    P(r'^epics::pvData::detail::(ExceptionMixed.*)::~?ExceptionMixed\(', stdlib.nop_m)
def anystr(E, st, p):
    n = fresh(64, 'msglen'); st.assume(ULE(n, 1 << 20))
    b = ABase(8, fresh_name('msg'))
    s_new(E, st, p, n, b.rd, name='message')
