"""C07 - TimeStamp: normal form, exact arithmetic, ordering."""
import z3
from z3 import And, Or, Not, Implies, If, ULT, ULE, UGE, BitVecVal, SignExt, ZeroExt, Extract
from sym import *
from exec import icmp
import ir
from harness import Job, SAN_INT
ASSUMPTIONS = ['|seconds| < 2^61 before and after (no overflow of the 64-bit second count); |milliseconds| any', 'operator+=(double): |seconds| < 2^61, not a NaN']
def tus(R, V): return [(R + '/src/property/timeStamp.cpp', SAN_INT), (V + '/tu/ts.cpp', SAN_INT)]
SMAX = 1 << 61; NS = 1000000000
def mk(E, st, nm, normal=True, SMAX=SMAX):
    o = E.alloc(st, nm, 16)
    s, n, u = E.name(nm + '.s', fresh(64, 's')), E.name(nm + '.n', fresh(32, 'n')), E.name(nm + '.u', fresh(32, 'u'))
    st.reg(o.r).cells = {0: (8, s), 8: (4, n), 12: (4, u)}
    st.assume(And(s < SMAX, s > -SMAX))
    if normal: st.assume(And(n >= 0, n < NS))
    return o, s, n, u
def get(E, st, o):
    M = E.prog.mods[0]
    return (bv(E.load(st, o, ir.I64, M), 64), bv(E.load(st, o.plus(8), ir.I32, M), 32), bv(E.load(st, o.plus(12), ir.I32, M), 32))
def tot(s, n, w=104):
    """seconds and nanoseconds as one number (no wrap: 104 bits)"""
    return SignExt(w - s.size(), s) * NS + SignExt(w - n.size(), n)
NORM = '_ZN5epics6pvData9TimeStamp9normalizeEv'
def use_norm(E):
    def c(E, st, a, i):
        s, n, u = get(E, st, a[0])
        E.oblige(st, 'normalize: seconds cannot overflow', And(s < SMAX * 2 - 8, s > -SMAX * 2 + 8), 'pre')
        s2, n2 = fresh(64, 'ns'), fresh(32, 'nn')
        M = E.prog.mods[0]
        E.store(st, a[0], s2, ir.I64, M); E.store(st, a[0].plus(8), n2, ir.I32, M)
        st.assume(And(n2 >= 0, n2 < NS, s2 - s <= 3, s2 - s >= -3)); st.assume(tot(s2, n2) == tot(s, n))
        return None
    E.contract_proved(NORM, c)
def run(E, fn, args, st):
    for o in E.call(fn, args, st):
        if o.kind != 'ret':
            E.oblige(o.st, 'returns normally (%s %s)' % (o.kind, o.val or o.why), False); continue
        E.covered(o.st, 'reaches return')
        yield o
def normal(E, st, o, total, u):
    s, n, u2 = get(E, st, o)
    E.oblige(st, '0 <= nanoseconds < 10^9', And(n >= 0, n < NS), 'invariant')
    E.oblige(st, 'the same point in time', tot(s, n) == total)
    E.oblige(st, 'user tag', u2 == u, 'frame')
def tmpl(E, total, o):
    def t(L): return [('same point in time', lambda v: tot(*get(E, v.st, o)[:2]) == total)]
    E.templates.append(t)
def j_ctor(E):
    st = State(); o = E.alloc(st, 't', 16)
    s, n, u = E.name('s', fresh(64, 's')), E.name('n', fresh(32, 'n')), E.name('u', fresh(32, 'u')); st.assume(And(s < SMAX, s > -SMAX))
    use_norm(E)
    for r in run(E, 'ts_ctor', [o, s, n, u], st): normal(E, r.st, o, tot(s, n), u)
def j_ctor0(E):
    st = State(); o = E.alloc(st, 't', 16)
    for r in run(E, 'ts_ctor0', [o], st): normal(E, r.st, o, BitVecVal(0, 104), 0)
def j_put(E):
    st = State(); o, s0, n0, u = mk(E, st, 't'); s, n = E.name('s', fresh(64, 's')), E.name('n', fresh(32, 'n')); st.assume(And(s < SMAX, s > -SMAX))
    use_norm(E)
    for r in run(E, 'ts_put', [o, s, n], st): normal(E, r.st, o, tot(s, n), u)
def j_putms(E):
    st = State(); o, s0, n0, u = mk(E, st, 't'); ms = E.name('ms', fresh(64, 'ms'))
    use_norm(E)
    for r in run(E, 'ts_putms', [o, ms], st):
        s, n, u2 = get(E, r.st, o)
        E.oblige(r.st, '0 <= nanoseconds < 10^9', And(n >= 0, n < NS), 'invariant')
        E.oblige(r.st, 'the same point in time', tot(s, n) == SignExt(40, ms) * 1000000)
        E.oblige(r.st, 'user tag', u2 == u, 'frame')
def j_norm(E):
    st = State(); o, s, n, u = mk(E, st, 't', False, SMAX * 2 - 8)
    for r in run(E, 'ts_norm', [o], st):
        normal(E, r.st, o, tot(s, n), u); s2 = get(E, r.st, o)[0]
        E.oblige(r.st, 'seconds move by at most 3', And(s2 - s <= 3, s2 - s >= -3))
def j_addi(E, sign):
    st = State(); o, s, n, u = mk(E, st, 't'); d = E.name('d', fresh(64, 'd')); st.assume(And(d < SMAX, d > -SMAX))
    for r in run(E, 'ts_addi' if sign > 0 else 'ts_subi', [o, d], st):
        normal(E, r.st, o, tot(s + d if sign > 0 else s - d, n), u)
ADDD = '_ZN5epics6pvData9TimeStamppLEd'
def use_addd(E):
    def c(E, st, a, i):
        D = z3.FPSort(11, 53); rm = z3.RNE(); s, n, u = get(E, st, a[0]); y = E.tofp(a[1], ir.DOUBLE)
        E.oblige(st, 'finite and below 2^61 s', z3.fpLT(z3.fpAbs(y), z3.FPVal(float(SMAX), D)), 'pre')
        secs = z3.fpToSBV(z3.RTZ(), y, z3.BitVecSort(64)); nano = z3.fpToSBV(z3.RTZ(), z3.fpMul(rm, z3.fpSub(rm, y, z3.fpSignedToFP(rm, secs, D)), z3.FPVal(1e9, D)), z3.BitVecSort(64))
        s2, n2 = fresh(64, 'ns'), fresh(32, 'nn'); M = E.prog.mods[0]
        E.store(st, a[0], s2, ir.I64, M); E.store(st, a[0].plus(8), n2, ir.I32, M)
        st.assume(And(n2 >= 0, n2 < NS)); st.assume(tot(s2, n2) == tot(s, n) + tot(secs, nano))
        return a[0]
    E.contract_proved(ADDD, c)
def j_subd(E):
    """-= d is += (-d)"""
    st = State(); o, s, n, u = mk(E, st, 't'); b = E.name('d', fresh(64, 'd')); use_addd(E); use_norm(E)
    D = z3.FPSort(11, 53); rm = z3.RNE(); x = z3.fpBVToFP(b, D); st.assume(z3.fpLT(z3.fpAbs(x), z3.FPVal(float(SMAX), D))); y = z3.fpBVToFP(z3.simplify(b ^ BitVecVal(1 << 63, 64)), D)      # the sign flipped
    secs = z3.fpToSBV(z3.RTZ(), y, z3.BitVecSort(64)); nano = z3.fpToSBV(z3.RTZ(), z3.fpMul(rm, z3.fpSub(rm, y, z3.fpSignedToFP(rm, secs, D)), z3.FPVal(1e9, D)), z3.BitVecSort(64))
    for r in run(E, 'ts_subd', [o, b], st): normal(E, r.st, o, tot(s, n) + tot(secs, nano), u)
def j_addd(E, sign):
    st = State(); o, s, n, u = mk(E, st, 't'); b = E.name('d', fresh(64, 'd'))
    D = z3.FPSort(11, 53); x = z3.fpBVToFP(b, D); rm = z3.RNE()
    big = z3.FPVal(float(SMAX), D); one = z3.FPVal(1.0, D); g = z3.FPVal(1e9, D)
    st.assume(z3.fpLT(z3.fpAbs(x), big))
    y = x if sign > 0 else z3.fpNeg(x)
    secs = z3.fpToSBV(z3.RTZ(), y, z3.BitVecSort(64))
    fr = z3.fpSub(rm, y, z3.fpSignedToFP(rm, secs, D)); nano = z3.fpToSBV(z3.RTZ(), z3.fpMul(rm, fr, g), z3.BitVecSort(64))
    E.timeout = max(E.timeout, 60000)
    def lemma(nm, c):
        E.oblige(st, 'lemma: ' + nm, c, 'lemma'); st.assume(c)
    lemma('the part cut off is below one second', z3.fpLT(z3.fpAbs(fr), one))
    lemma('whole seconds in range', And(secs < SMAX, secs > -SMAX))
    f2 = z3.FP('frac', D)
    c = lambda v: Implies(z3.fpLT(z3.fpAbs(v), one), z3.fpLT(z3.fpAbs(z3.fpMul(rm, v, g)), g))
    E.oblige(State(), 'lemma: times 10^9 stays below 10^9', c(f2), 'lemma'); st.assume(c(fr))
    m = z3.FP('m', D); c2 = lambda v: Implies(z3.fpLT(z3.fpAbs(v), g), And(z3.fpToSBV(z3.RTZ(), v, z3.BitVecSort(64)) < NS, z3.fpToSBV(z3.RTZ(), v, z3.BitVecSort(64)) > -NS))
    E.oblige(State(), 'lemma: and truncates to fewer than 10^9 ns', c2(m), 'lemma'); st.assume(c2(z3.fpMul(rm, fr, g)))
    lemma('nanoseconds in range', And(nano < NS, nano > -NS))
    use_norm(E)
    for r in run(E, 'ts_addd' if sign > 0 else 'ts_subd', [o, b], st):
        s2, n2, u2 = get(E, r.st, o)
        normal(E, r.st, o, tot(s, n) + tot(secs, nano), u)
def j_cmp(E, fn, spec):
    st = State(); a, s, n, u = mk(E, st, 'a'); b, t, m, w = mk(E, st, 'b')
    for r in run(E, fn, [a, b], st):
        E.oblige(r.st, 'agrees with the order of the points in time', tob(r.val) == spec(s, n, t, m))
        for o, x in ((a, (s, n, u)), (b, (t, m, w))):
            y = get(E, r.st, o); E.oblige(r.st, 'operands unchanged', And(*[p == q for p, q in zip(x, y)]), 'frame')
def j_get(E, fn, spec):
    st = State(); a, s, n, u = mk(E, st, 'a'); st.assume(And(s < (1 << 53), s > -(1 << 53)))
    for r in run(E, fn, [a], st): E.oblige(r.st, 'value', bv(r.val, spec(s, n, u).size()) == spec(s, n, u))
def j_tag(E):
    st = State(); a, s, n, u = mk(E, st, 'a'); v = E.name('v', fresh(32, 'v'))
    for r in run(E, 'ts_settag', [a, v], st): normal(E, r.st, a, tot(s, n), v)
LT = lambda s, n, t, m: Or(s < t, And(s == t, n < m))
EQ = lambda s, n, t, m: And(s == t, n == m)
def jobs(tier):
    J = [Job('constructor', j_ctor, 'TimeStamp::TimeStamp(int64,int32,int32), normalize'), Job('default constructor', j_ctor0, 'TimeStamp::TimeStamp()'), Job('put', j_put, 'TimeStamp::put(int64,int32), normalize'),
         Job('put milliseconds', j_putms, 'TimeStamp::put(int64)'), Job('normalize', j_norm, 'TimeStamp::normalize'),
         Job('+= int64', j_addi, 'TimeStamp::operator+=(int64)', dict(sign=1)), Job('-= int64', j_addi, 'TimeStamp::operator-=(int64)', dict(sign=-1)),
         Job('+= double', j_addd, 'TimeStamp::operator+=(double), normalize', dict(sign=1)), Job('-= double', j_subd, 'TimeStamp::operator-=(double)'), Job('setUserTag', j_tag, 'TimeStamp::setUserTag')]
    for nm, f, sp in (('==', 'ts_eq', EQ), ('!=', 'ts_ne', lambda *a: Not(EQ(*a))), ('<', 'ts_lt', LT), ('<=', 'ts_le', lambda *a: Or(LT(*a), EQ(*a))),
                      ('>', 'ts_gt', lambda *a: Not(Or(LT(*a), EQ(*a)))), ('>=', 'ts_ge', lambda *a: Not(LT(*a)))):
        J.append(Job('operator' + nm, j_cmp, 'TimeStamp::operator%s, diffInt' % nm, dict(fn=f, spec=sp)))
    for f, nm, sp in (('ts_ms', 'getMilliseconds', lambda s, n, u: s * 1000 + SignExt(32, z3.UDiv(n, BitVecVal(1000000, 32)))), ('ts_sec', 'getSecondsPastEpoch', lambda s, n, u: s), ('ts_esec', 'getEpicsSecondsPastEpoch', lambda s, n, u: s - 631152000),
                      ('ts_ns', 'getNanoseconds', lambda s, n, u: n), ('ts_tag', 'getUserTag', lambda s, n, u: u)):
        J.append(Job(nm, j_get, 'TimeStamp::' + nm, dict(fn=f, spec=sp)))
    return J
def cex_case(job, c):
    g = lambda k, d=0: c.get(k, d)
    if job.startswith('operator'): return [7, g('a.s') << 2, g('a.n'), g('a.u'), g('b.s') << 2, g('b.n'), 0, 0]
    op = {'put': 1, 'put milliseconds': 2, '+= int64': 3, '-= int64': 4, '+= double': 5, '-= double': 6, 'setUserTag': 8, 'default constructor': 8, 'getMilliseconds': 9, 'getEpicsSecondsPastEpoch': 9}.get(job, 0)
    if op == 0: return [0, (g('s') or g('t.s')) << 2, g('n') or g('t.n'), g('u') or g('t.u'), 0, 0, 0, 0]
    if op == 1: return [1, 0, 0, g('t.u'), g('s') << 2, g('n'), 0, 0]
    if op == 2: return [2, 0, 0, g('t.u'), 0, 0, 0, 0, g('ms')]
    if op in (3, 4): return [op, g('t.s') << 2, g('t.n'), g('t.u'), g('d') << 2, 0, 0, 0]
    if op in (5, 6): return [op, g('t.s') << 2, g('t.n'), g('t.u'), 0, 0, 0, g('d')]
    return [op, g('a.s') << 2, g('a.n'), g('a.u'), 0, g('v'), 0, 0]
