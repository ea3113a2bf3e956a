"""C10 - scalar conversions: element i of the result is the conversion of element i of the source, for every pair of types."""
import z3
from z3 import And, Or, Not, Implies, If, ULT, ULE, UGE, BitVecVal, ZeroExt, SignExt, Extract
from sym import *
from exec import icmp, Exc, Tr
from harness import Job
import ir, strings
ASSUMPTIONS = ['conversions between integers and floating point are uninterpreted functions shared by code and specification (what is proved holds for IEEE conversion in particular); float to integer only inside the range of the integer, as documented',
               'epicsConvertDoubleToFloat, epicsParse*, epicsStrCaseCmp and std::ostream have their documented contracts', 'at most 2^40 elements; source and destination do not overlap']
RTE = '_ZTISt13runtime_error'
# code: (bits, kind)
T = {0: ('bool', 8, 'b'), 1: ('int8', 8, 's'), 2: ('int16', 16, 's'), 3: ('int32', 32, 's'), 4: ('int64', 64, 's'), 5: ('uint8', 8, 'u'), 6: ('uint16', 16, 'u'), 7: ('uint32', 32, 'u'), 8: ('uint64', 64, 'u'), 9: ('float', 32, 'f'), 10: ('double', 64, 'f'), 11: ('string', 256, 'z')}
def tus(R, V): return [(R + '/src/misc/typeCast.cpp', []), (R + '/src/misc/parseToPOD.cpp', []), (V + '/tu/cv.cpp', [])]
D2F = z3.Function('epicsConvertDoubleToFloat', z3.BitVecSort(64), z3.BitVecSort(32))
def setup(E):
    E.uf_conv = True
    E.add_contract('epicsConvertDoubleToFloat', lambda E, st, a, i: simp(D2F(bv(a[0], 64))))
    setup2(E)
def conv(E, to, fr, x):
    """the documented conversion of one value"""
    _, wt, kt = T[to]; _, wf, kf = T[fr]; x = bv(x, wf)
    if kf == 'f':
        if kt == 'f': return x if wt == wf else bv(E.fp_ext(x), 64) if wt == 64 else D2F(x)
        d = x if wf == 64 else bv(E.fp_ext(x), 64)
        return bv(E.fp_int(d, wt, kt == 's'), wt)
    if kt == 'f':
        if wf == 64 and kf == 'u': return bv(E.ui_fp(x, wt), wt)
        return bv(E.si_fp(simp(x if wf == 64 else (SignExt if kf == 's' else ZeroExt)(64 - wf, x)), wt), wt)
    if wt <= wf: return Extract(wt - 1, 0, x)
    return (SignExt if kf == 's' else ZeroExt)(wt - wf, x)
def j_num(E, to, fr):
    st = State(); n = E.name('count', fresh(64, 'count')); st.assume(ULE(n, 1 << 40))
    wt, wf = T[to][1], T[fr][1]
    d = E.array(st, 'dest', n, wt // 8); s = E.array(st, 'src', n, wf // 8); S = st.mem[s.r].arr.rd; D = st.mem[d.r].arr.rd
    bad = (to == 0) != (fr == 0)
    for o in E.call('cv_vec', [n, to, d, fr, s], st):
        q = E.region(o.st, d.r); g = lambda k: bv(E.arr_read(o.st, q, simp(mul(k, wt // 8)), wt // 8), wt)
        u = E.region(o.st, s.r); h = lambda k: bv(E.arr_read(o.st, u, simp(mul(k, wf // 8)), wf // 8), wf)
        if bad:
            E.oblige(o.st, 'boolean and numbers do not convert', o.kind == 'throw' and o.val.ti == RTE); E.covered(o.st, 'refused')
            E.forall_goal(o.st, 'destination untouched', lambda k: Implies(ULT(k, n), g(k) == bv(D(k), wt)), 'frame'); continue
        if o.kind != 'ret': E.oblige(o.st, 'returns normally (%s %s)' % (o.kind, o.val or o.why), False); continue
        E.covered(o.st, 'reaches return')
        E.forall_goal(o.st, 'every element converted', lambda k: Implies(ULT(k, n), g(k) == conv(E, to, fr, S(k))))
        E.forall_goal(o.st, 'source unchanged', lambda k: Implies(ULT(k, n), h(k) == bv(S(k), wf)), 'frame')
def j_d2f(E):
    st = State(); x = E.name('x', fresh(64, 'x'))
    for o in E.call('cv_d2f', [x], st):
        if o.kind != 'ret': E.oblige(o.st, 'returns normally', False); continue
        E.covered(o.st, 'reaches return'); E.oblige(o.st, 'clipped conversion', bv(o.val, 32) == D2F(x))
# ---- text: the stream and the parsers keep their contracts; what is checked is what they are asked to do
OST = r'^std::(__cxx11::)?basic_o(string)?stream<char, std::char_traits<char>(, std::allocator<char>)? ?>::'
def ev(st, *e): st.ghost['ev'] = st.ghost.get('ev', ()) + (e,)
def literal(E, st, p):
    out = ''
    while len(out) < 64:
        c = E.load(st, p.plus(len(out)), ir.I8, E.prog.mods[0])
        if not isc(c): return None
        if c == 0: return out
        out += chr(c)
def o_ctor(E, st, a, i, m):
    v = E.alloc(st, 'vtable', 32); M = E.prog.mods[0]
    E.store(st, v, 112, ir.I64, M); E.store(st, a[0], v.plus(24), ir.PTR, M)
    st.ghost['stream'] = a[0]; ev(st, 'open')
INTS = {'short': 16, 'int': 32, 'long': 64, 'long long': 64}
def o_put(E, st, a, i, m):
    t = m.group('T').strip(); u = t.startswith('unsigned '); b = t[9:] if u else t
    if b in INTS:
        w = INTS[b]; x = Extract(w - 1, 0, bv(a[1], 64)) if not isc(a[1]) and a[1].size() > w else bv(a[1], w)
        ev(st, 'dec', simp((ZeroExt if u else SignExt)(65 - w, x)))
    elif t in ('float', 'double'): ev(st, 'fp', bv(E.fp_ext(bv(a[1], 32)), 64) if t == 'float' else bv(a[1], 64))
    else: ev(st, 'other ' + t, a[1])
    return a[0]
def o_free(E, st, a, i, m):
    t = m.group('T'); ev(st, 'text', literal(E, st, E.ptr(st, a[1]))) if 'char const*' in t else ev(st, 'char', a[1])
    return a[0]
def o_str(E, st, a, i, m):
    p, n, C = strings.mkstr(E, st, 'formatted', 1 << 20, at=E.ptr(st, a[0])); st.ghost['out'] = (n, C); ev(st, 'str')
    if not hasattr(i, 'x'): return None
def o_fail(E, st, a, i, m):
    f = freshb('fail'); st.ghost['fail'] = f
    return f
PARSE = dict(Int8=8, UInt8=8, Int16=16, UInt16=16, Int32=32, UInt32=32, Long=64, ULong=64, LLong=64, ULLong=64, Float=32, Double=64)
def parser(nm, w):
    def f(E, st, a, i):
        e = fresh(32, 'err'); v = fresh(w, 'parsed'); ev(st, 'parse', nm, E.ptr(st, a[0]), e, v)
        if w == 8 or nm not in ('Float', 'Double'): E.oblige(st, 'any base, whole text', And(b64(a[2]) == 0 if isc(a[2]) else a[2] == 0, E.ptr(st, a[3]).r == 0))
        else: E.oblige(st, 'whole text', E.ptr(st, a[2]).r == 0)
        s = st.copy(); st.assume(e == 0); E.store_n(st, E.ptr(st, a[1]), v, w // 8); s.assume(e != 0)
        return Tr([('ret', st, e), ('ret', s, e)])
    return f
def casecmp(E, st, a, i):
    l = literal(E, st, E.ptr(st, a[1])); r = z3.BitVec('casecmp_' + str(l), 32); ev(st, 'cmp', l, E.ptr(st, a[0]), r)
    return r
def setup2(E):
    CHT = r'std::char_traits<char>'
    E.add_pattern(OST + r'basic_ostringstream\(\)$', o_ctor, first=True)
    E.add_pattern(OST + r'~basic_ostringstream\(\)$', lambda E, st, a, i, m: None, first=True)
    E.add_pattern(OST + r'operator<<\((?P<T>[^)]*)\)$', o_put, first=True)
    E.add_pattern(r'std::basic_ostream<char, std::char_traits<char> ?>& std::operator<< <.*>\(std::basic_ostream<char, std::char_traits<char> ?>&, (?P<T>.*)\)$', o_free, first=True)
    E.add_pattern(OST + r'str\(\) const$', o_str, first=True)
    E.add_pattern(r'^std::basic_ios<char, std::char_traits<char> ?>::fail\(\) const$', o_fail, first=True)
    for n, w in PARSE.items(): E.add_contract('epicsParse' + n, parser(n, w))
    E.add_contract('epicsStrCaseCmp', casecmp)
def same_text(E, st, p, n, C, what):
    E.oblige(st, what + ': length', b64(strings.s_len(E, st, p)) == b64(n))
    g = strings.s_rd(E, st, p); E.forall_goal(st, what + ': every character', lambda k: Implies(ULT(k, b64(n)), g(k) == C(k)))
def j_tostr(E, fr):
    """number to text: the stream is asked to print exactly the value, as a number"""
    st = State(); wf, kf = T[fr][1:]
    if fr == 11: s, n, C = strings.mkstr(E, st, 'text', (1 << 31) - 1)
    else: s = E.array(st, 'src', 1, wf // 8); x = bv(st.mem[s.r].arr.rd(0), wf)
    d, dn, dC = strings.mkstr(E, st, 'dest', (1 << 31) - 1)
    for o in E.call('cv_vec', [1, 11, d, fr, s], st):
        g = o.st.ghost
        if o.kind == 'throw':
            E.oblige(o.st, 'refuses only when the stream failed', And(BitVecVal(fr, 8) != 11, tob(g.get('fail', False)))); same_text(E, o.st, d, dn, dC, 'refused: destination untouched'); continue
        if o.kind != 'ret': E.oblige(o.st, 'returns normally (%s)' % o.why, False); continue
        E.covered(o.st, 'reaches return')
        if fr == 11: same_text(E, o.st, d, n, C, 'copied text'); same_text(E, o.st, s, n, C, 'source'); continue
        w = [e for e in g['ev'] if e[0] not in ('open', 'str')]
        E.oblige(o.st, 'prints one value', len(w) == 1 and 'out' in g)
        if len(w) != 1 or 'out' not in g: continue
        e = w[0]
        if fr == 0: E.oblige(o.st, 'true or false', If(x == 0, BitVecVal(e == ('text', 'false'), 8), BitVecVal(e == ('text', 'true'), 8)) == 1)
        elif kf == 'f': E.oblige(o.st, 'prints the value', And(e[0] == 'fp', e[1] == (x if wf == 64 else bv(E.fp_ext(x), 64))) if e[0] == 'fp' else False)
        else: E.oblige(o.st, 'prints the value as a number', e[1] == (SignExt if kf == 's' else ZeroExt)(65 - wf, x) if e[0] == 'dec' else False)
        same_text(E, o.st, d, g['out'][0], g['out'][1], 'the printed text')
def j_fromstr(E, to):
    """text to number: what the parser of that very type yields, or an exception"""
    st = State(); wt, kt = T[to][1:]; s, n, C = strings.mkstr(E, st, 'text', (1 << 31) - 1)
    d = E.array(st, 'dest', 1, wt // 8); D = bv(st.mem[d.r].arr.rd(0), wt)
    P = {1: 'Int8', 2: 'Int16', 3: 'Int32', 4: ('Long', 'LLong'), 5: 'UInt8', 6: 'UInt16', 7: 'UInt32', 8: ('ULong', 'ULLong'), 9: 'Float', 10: 'Double'}
    tr, fa = z3.BitVec('casecmp_true', 32), z3.BitVec('casecmp_false', 32)
    for o in E.call('cv_vec', [1, to, d, 11, s], st):
        evs = o.st.ghost.get('ev', ()); q = E.region(o.st, d.r); v = bv(E.arr_read(o.st, q, 0, wt // 8), wt)
        c = E.load(o.st, s, ir.PTR, E.prog.mods[0])
        for e in evs:
            if e[0] in ('parse', 'cmp'): E.oblige(o.st, 'looks at the source text', e[2].same(c))
            else: E.oblige(o.st, 'nothing else', False)
        if to == 0: good = Or(tr == 0, fa == 0); val = If(tr == 0, BitVecVal(1, 8), BitVecVal(0, 8))
        else:
            E.oblige(o.st, 'uses the parser of this type, once', len(evs) == 1 and evs[0][0] == 'parse' and evs[0][1] in (P[to] if isinstance(P[to], tuple) else (P[to],)))
            if len(evs) != 1: continue
            good = evs[0][3] == 0; val = evs[0][4]
        if o.kind == 'throw':
            E.oblige(o.st, 'refuses only what does not parse', Not(good)); E.oblige(o.st, 'runtime_error', o.val.ti == RTE); E.oblige(o.st, 'refused: destination untouched', v == D); E.covered(o.st, 'refused'); continue
        if o.kind != 'ret': E.oblige(o.st, 'returns normally (%s)' % o.why, False); continue
        E.covered(o.st, 'reaches return'); E.oblige(o.st, 'the parsed value', And(good, v == val))
def jobs(tier):
    J = [Job('castUnsafe<float>(double)', j_d2f, 'castUnsafe<float,double>')]
    for a in range(11):
        for b in range(11):
            J.append(Job('%s <- %s' % (T[a][0], T[b][0]), j_num, 'castUnsafeV, castVTyped<%s,%s>' % (T[a][0], T[b][0]), dict(to=a, fr=b)))
    for k in range(12): J.append(Job('string <- ' + T[k][0], j_tostr, 'castUnsafeV, cast_helper<string,%s>' % T[k][0], dict(fr=k)))
    for k in range(11): J.append(Job(T[k][0] + ' <- string', j_fromstr, 'castUnsafeV, cast_helper<%s,string>, parseToPOD, handleParseError' % T[k][0], dict(to=k)))
    return J
