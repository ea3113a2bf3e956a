"""C06 - length and string encoding on the wire."""
from stream import *
from harness import Job
ASSUMPTIONS = ['lengths below 2^31, or the null length (size_t)-1 (the wire format has no larger ones)', 'the flusher and the deserialization control keep their documented contracts (specs/stream.py)',
               'std::string members have their documented contracts (engine/strings.py)']
def tus(R, V): return [(R + '/src/misc/serializeHelper.cpp', []), (V + '/tu/ser.cpp', [])]
def run(E, fn, args, st, throws=()):
    for o in E.call(fn, args, st):
        if o.kind == 'throw' and o.val.ti in throws: continue
        if o.kind != 'ret':
            E.oblige(o.st, 'returns normally (%s %s)' % (o.kind, o.val or o.why), False); continue
        E.covered(o.st, 'reaches return')
        yield o
def j_wsize(E):
    st = State(); B = mkbuf(E, st); F = writer(E, st, B); n = E.name('n', fresh(64, 'n')); st.assume(Or(ULT(n, MAXS), n == NULLSZ))
    for o in run(E, 'se_writeSize', [n, B.o, F.o], st): wrote(E, o.st, F, size_len(n), lambda k: size_byte(n, isbig(B), k), 'size')
def j_rsize(E):
    st = State(); B = mkbuf(E, st); F = reader(E, st, B)
    b0, val, ln, v = size_dec(F.rd, 0, isbig(B))
    neg = And(b0 == 254, v < 0)
    for o in E.call('se_readSize', [B.o, F.o], st):
        if o.kind == 'throw':
            if o.val.ti == 'control.nodata': continue
            E.oblige(o.st, 'refuses only a negative length', neg); continue
        if o.kind != 'ret': E.oblige(o.st, 'returns normally (%s)' % o.why, False); continue
        E.covered(o.st, 'reaches return')
        E.oblige(o.st, 'a negative length is refused', Not(neg))
        E.oblige(o.st, 'decoded size', bv(o.val, 64) == val)
        read_post(E, o.st, F, ln)
def j_ser(E):
    st = State(); B = mkbuf(E, st); F = writer(E, st, B)
    s, n, C = strings.mkstr(E, st, 'str', MAXS - 1)
    N, exp = str_bytes(isbig(B), n, C); expect(E, F, N, exp); use_wsize(E, F)
    for o in run(E, 'se_serString', [s, B.o, F.o], st):
        wrote(E, o.st, F, N, exp, 'string')
def j_sub(E):
    st = State(); B = mkbuf(E, st); F = writer(E, st, B)
    s, n, C = strings.mkstr(E, st, 'str', MAXS - 1); at, cnt = E.name('offset', fresh(64, 'offset')), E.name('count', fresh(64, 'count'))
    a = If(ULT(n, at), n, at); c = If(ULT(n - a, cnt), n - a, cnt)
    N, exp = str_bytes(isbig(B), c, lambda k: C(simp(b64(k) + a))); expect(E, F, N, exp); use_wsize(E, F)
    for o in run(E, 'se_serSub', [s, at, cnt, B.o, F.o], st):
        wrote(E, o.st, F, N, exp, 'substring')
def j_deser(E):
    st = State(); B = mkbuf(E, st); F = reader(E, st, B); r = E.alloc(st, 'result', 32)
    b0, val, ln, v = size_dec(F.rd, 0, isbig(B)); neg = And(b0 == 254, v < 0); null = b0 == 255
    n = If(null, BitVecVal(0, 64), val)
    use_rsize(E, F)
    def tmpl(L):
        out = [('no more than the string', lambda v: ULE(consumed(E, v.st, F), ln + n))]
        for loc in L.order:
            e = L.entry.get(loc)
            if loc[0] == 'cell' and loc[2] == 8 and loc[3] == 8: 
                out.append(('length = consumed', lambda v, loc=loc: b64(v.get(loc)) + ln == consumed(E, v.st, F)))
            if loc[0] == 'arr' and L.st.mem[loc[1]].heap == 'str':
                p = L.st.mem[loc[1]].info[1]
                out.append(('characters', lambda v, p=p: Forall(lambda k: Implies(ULT(k, b64(strings.s_len(E, v.st, p))), strings.s_rd(E, v.st, p)(k) == F.rd(simp(k + ln))))))
        return out
    E.templates.append(tmpl)
    for o in E.call('se_deserString', [r, B.o, F.o], st):
        if o.kind == 'throw':
            if o.val.ti == 'control.nodata': continue
            E.oblige(o.st, 'refuses only a negative length', neg); continue
        if o.kind != 'ret': E.oblige(o.st, 'returns normally (%s)' % o.why, False); continue
        E.covered(o.st, 'reaches return')
        E.oblige(o.st, 'length of the string', icmp('eq', strings.s_len(E, o.st, r), n, 64))
        g = strings.s_rd(E, o.st, r)
        E.forall_goal(o.st, 'every character', lambda k: Implies(ULT(k, n), g(k) == F.rd(simp(k + ln))))
        read_post(E, o.st, F, simplify(ln + n))
def jobs(tier):
    return [Job('writeSize', j_wsize, 'SerializeHelper::writeSize'), Job('readSize', j_rsize, 'SerializeHelper::readSize'), Job('serializeString', j_ser, 'SerializeHelper::serializeString'),
            Job('serializeSubstring', j_sub, 'SerializeHelper::serializeSubstring'), Job('deserializeString', j_deser, 'SerializeHelper::deserializeString')]
