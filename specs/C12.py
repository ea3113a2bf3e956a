"""C12 - Status: worst status wins, texts travel with it, exact wire form."""
from stream import *
from harness import Job
import ir
ASSUMPTIONS = ['message and stack dump shorter than 2^31 characters (the wire format has no longer ones)', 'the flusher and the deserialization control keep their documented contracts (specs/stream.py)',
               'serializeString/deserializeString have the contracts C06 proves on their bodies', 'std::string members have their documented contracts (engine/strings.py)']
def tus(R, V): return [(R + '/src/misc/status.cpp', []), (R + '/src/misc/serializeHelper.cpp', []), (V + '/tu/st.cpp', [])]
TYPE, MSG, DUMP, SZ = 8, 16, 48, 80
INV = '_ZTISt16invalid_argument'
class Sx(object): pass
def mk(E, st, nm):
    """any status"""
    S = Sx(); S.o = E.alloc(st, nm, SZ); S.t = E.name(nm + '.type', fresh(32, 'type')); st.assume(ULE(S.t, 3))
    E.store(st, S.o.plus(TYPE), S.t, ir.I32, E.prog.mods[0])
    _, S.n, S.C = strings.mkstr(E, st, nm + '.message', MAXS - 1, at=S.o.plus(MSG))
    _, S.m, S.D = strings.mkstr(E, st, nm + '.dump', MAXS - 1, at=S.o.plus(DUMP))
    return S
def typ(E, st, o): return bv(E.load(st, o.plus(TYPE), ir.I32, E.prog.mods[0]), 32)
def text(E, st, nm, p, n, C):
    E.oblige(st, nm + ': length', b64(strings.s_len(E, st, p)) == b64(n))
    g = strings.s_rd(E, st, p)
    E.forall_goal(st, nm + ': every character', lambda k: Implies(ULT(k, b64(n)), g(k) == C(k)))
NOC = lambda k: BitVecVal(0, 8)
def same(E, st, o, t, n, C, m, D, what=''):
    E.oblige(st, what + 'type', typ(E, st, o) == t)
    text(E, st, what + 'message', o.plus(MSG), n, C); text(E, st, what + 'stack dump', o.plus(DUMP), m, D)
def unchanged(E, st, S, what): same(E, st, S.o, S.t, S.n, S.C, S.m, S.D, what)
def run(E, fn, args, st, throws=()):
    for o in E.call(fn, args, st):
        if o.kind == 'throw' and o.val.ti in throws: continue
        if o.kind != 'ret':
            E.oblige(o.st, 'returns normally (%s %s)' % (o.kind, o.val or o.why), False); continue
        E.covered(o.st, 'reaches return')
        yield o
def j_ctor0(E):
    st = State(); o = E.alloc(st, 's', SZ)
    for r in run(E, 'st_ctor0', [o], st): same(E, r.st, o, 0, 0, NOC, 0, NOC)
def j_ctor(E, three):
    st = State(); o = E.alloc(st, 's', SZ); t = E.name('type', fresh(32, 'type')); st.assume(ULE(t, 3))
    m, n, C = strings.mkstr(E, st, 'm', MAXS - 1); d, k, D = strings.mkstr(E, st, 'd', MAXS - 1)
    for r in E.call('st_ctor3' if three else 'st_ctor2', [o, t, m] + ([d] if three else []), st):
        if r.kind == 'throw':
            E.oblige(r.st, 'only STATUSTYPE_OK is refused', t == 0); E.oblige(r.st, 'refused with invalid_argument', r.val.ti == INV); continue
        if r.kind != 'ret': E.oblige(r.st, 'returns normally (%s)' % r.why, False); continue
        E.covered(r.st, 'reaches return')
        E.oblige(r.st, 'STATUSTYPE_OK is refused', t != 0)
        same(E, r.st, o, t, n, C, k if three else 0, D if three else NOC)
def j_make(E, fn, t):
    st = State(); o = E.alloc(st, 's', SZ); m, n, C = strings.mkstr(E, st, 'm', MAXS - 1)
    for r in run(E, fn, [o, m], st): same(E, r.st, o, t, n, C, 0, NOC)
def j_max(E, fn, alias=False):
    st = State(); a = mk(E, st, 'a'); b = a if alias else mk(E, st, 'b')
    for r in run(E, fn, [a.o, b.o], st):
        w = ULT(a.t, b.t); pick = lambda x, y: (lambda k: If(w, y(k), x(k)))
        same(E, r.st, a.o, If(w, b.t, a.t), If(w, b.n, a.n), pick(a.C, b.C), If(w, b.m, a.m), pick(a.D, b.D))
        if not alias: unchanged(E, r.st, b, 'argument ')
        if fn == 'st_or': E.oblige(r.st, 'returns the object itself', isinstance(r.val, Ptr) and r.val.same(a.o))
def j_get(E, fn, spec):
    st = State(); a = mk(E, st, 'a')
    for r in run(E, fn, [a.o], st):
        v = spec(a)
        E.oblige(r.st, 'value', tob(r.val) == v if z3.is_bool(v) else bv(r.val, 32) == v); unchanged(E, r.st, a, 'unchanged ')
def j_ref(E, fn, off_):
    st = State(); a = mk(E, st, 'a')
    for r in run(E, fn, [a.o], st):
        E.oblige(r.st, 'the text of this status', isinstance(r.val, Ptr) and r.val.same(a.o.plus(off_))); unchanged(E, r.st, a, 'unchanged ')
def j_ser(E):
    st = State(); B = mkbuf(E, st); F = writer(E, st, B); a = mk(E, st, 'a'); use_wstr(E, F)
    N1, e1 = str_bytes(isbig(B), a.n, a.C); N2, e2 = str_bytes(isbig(B), a.m, a.D)
    N = If(a.t == 0, BitVecVal(1, 64), 1 + N1 + N2)
    exp = lambda k: If(k == 0, If(a.t == 0, BitVecVal(255, 8), Extract(7, 0, a.t)), If(ULT(k - 1, N1), e1(simplify(k - 1)), e2(simplify(k - 1 - N1))))
    for o in run(E, 'st_ser', [a.o, B.o, F.o], st):
        wrote(E, o.st, F, N, exp, 'status'); unchanged(E, o.st, a, 'unchanged ')
def j_deser(E):
    st = State(); B = mkbuf(E, st); F = reader(E, st, B); a = mk(E, st, 'a'); use_rstr(E, F)
    c = F.rd(0); neg1, n, C, l1 = str_dec(F, 1, isbig(B)); neg2, m, D, l2 = str_dec(F, simplify(1 + l1), isbig(B))
    for o in E.call('st_deser', [a.o, B.o, F.o], st):
        if o.kind == 'throw':
            if o.val.ti == 'control.nodata': continue
            E.oblige(o.st, 'refuses only bad type codes and negative lengths', Or(And(ULT(c, 255), ULT(3, c)), And(c != 255, Or(neg1, neg2)))); continue
        if o.kind != 'ret': E.oblige(o.st, 'returns normally (%s)' % o.why, False); continue
        E.covered(o.st, 'reaches return')
        E.oblige(o.st, 'a type code outside the enumeration is refused', Or(c == 255, ULE(c, 3)))
        ok = c == 255; z = lambda x: (lambda k: x(k))
        E.oblige(o.st, 'type', typ(E, o.st, a.o) == If(ok, BitVecVal(0, 32), ZeroExt(24, c)))
        text(E, o.st, 'message', a.o.plus(MSG), If(ok, BitVecVal(0, 64), n), C); text(E, o.st, 'stack dump', a.o.plus(DUMP), If(ok, BitVecVal(0, 64), m), D)
        read_post(E, o.st, F, simplify(If(ok, BitVecVal(1, 64), 1 + l1 + l2)))
def jobs(tier):
    return [Job('default constructor', j_ctor0, 'Status::Status()'), Job('constructor(type,message)', j_ctor, 'Status::Status(type,message)', dict(three=False)), Job('constructor(type,message,dump)', j_ctor, 'Status::Status(type,message,stackDump)', dict(three=True)),
            Job('warn', j_make, 'Status::warn', dict(fn='st_warn', t=1)), Job('error', j_make, 'Status::error', dict(fn='st_error', t=2)), Job('fatal', j_make, 'Status::fatal', dict(fn='st_fatal', t=3)),
            Job('maximize', j_max, 'Status::maximize', dict(fn='st_max')), Job('maximize(self)', j_max, 'Status::maximize', dict(fn='st_max', alias=True)), Job('operator|=', j_max, 'Status::operator|=', dict(fn='st_or')), Job('operator|=(self)', j_max, 'Status::operator|=', dict(fn='st_or', alias=True)),
            Job('getType', j_get, 'Status::getType', dict(fn='st_type', spec=lambda a: a.t)), Job('isOK', j_get, 'Status::isOK', dict(fn='st_ok', spec=lambda a: a.t == 0)),
            Job('isSuccess', j_get, 'Status::isSuccess', dict(fn='st_success', spec=lambda a: ULE(a.t, 1))), Job('operator bool', j_get, 'Status::operator bool', dict(fn='st_bool', spec=lambda a: ULE(a.t, 1))),
            Job('getMessage', j_ref, 'Status::getMessage', dict(fn='st_msg', off_=MSG)), Job('getStackDump', j_ref, 'Status::getStackDump', dict(fn='st_dump', off_=DUMP)),
            Job('serialize', j_ser, 'Status::serialize'), Job('deserialize', j_deser, 'Status::deserialize')]
