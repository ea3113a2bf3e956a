"""Symbolic values, memory and state for the VC generator."""
import z3, itertools
z3.set_param("rewriter.bv_le2extract", False)     # keep x <= c an inequality: cvc5 reads bit-vectors as integers
from z3 import BitVecVal, BitVec, And, Or, Not, If, UGE, UGT, ULE, ULT, LShR, Extract, Concat, ZeroExt, SignExt, simplify, is_bv_value

class Unsupported(Exception):
    """outside the verifier's reach: never a violation by itself"""

_ctr = itertools.count(1)
def fresh_name(p='v'):
    return '%s!%d' % (p, next(_ctr))
def fresh(w, p='v'):
    return BitVec(fresh_name(p), w)
def freshb(p='b'):
    return z3.Bool(fresh_name(p))

def isc(x):
    return isinstance(x, int)
def mask(w): return (1 << w) - 1
def bv(x, w):
    if isinstance(x, int):
        return BitVecVal(x, w)
    return x
def b64(x): return bv(x, 64)
def sgn(x, w):
    x &= mask(w)
    return x - (1 << w) if x >> (w-1) else x
def norm(x):
    """z3 -> python int when constant"""
    if isinstance(x, int): return x
    if is_bv_value(x): return x.as_long()
    return x
def simplify_(x): return z3.simplify(x)
def simp(x):
    if isinstance(x, (int, bool)): return x
    x = simplify(x)
    if is_bv_value(x): return x.as_long()
    return x
def simpb(x):
    if isinstance(x, bool): return x
    x = simplify(x)
    if z3.is_true(x): return True
    if z3.is_false(x): return False
    return x
def tob(x):
    if isinstance(x, bool): return z3.BoolVal(x)
    return x
def band(*l):
    o = []
    for x in l:
        if x is True: continue
        if x is False: return False
        o.append(x)
    if not o: return True
    return o[0] if len(o) == 1 else And(*o)
def bor(*l):
    o = []
    for x in l:
        if x is False: continue
        if x is True: return True
        o.append(x)
    if not o: return False
    return o[0] if len(o) == 1 else Or(*o)
def bnot(x):
    if isinstance(x, bool): return not x
    if z3.is_not(x): return x.arg(0)
    return Not(x)
def implies(a, b):
    return bor(bnot(a), b)
def ite(c, a, b, w):
    if c is True: return a
    if c is False: return b
    if isc(a) and isc(b) and a == b: return a
    return If(c, bv(a, w), bv(b, w))

# bit-vector helpers on mixed int/z3
def add(a, b, w=64):
    if isc(a) and isc(b): return (a + b) & mask(w)
    if isc(a) and a == 0: return b
    if isc(b) and b == 0: return a
    return bv(a, w) + bv(b, w)
def sub(a, b, w=64):
    if isc(a) and isc(b): return (a - b) & mask(w)
    if isc(b) and b == 0: return a
    if not isc(a) and not isc(b) and a.eq(b): return 0
    return bv(a, w) - bv(b, w)
def mul(a, b, w=64):
    if isc(a) and isc(b): return (a * b) & mask(w)
    if isc(a): a, b = b, a
    if isc(b):
        if b == 0: return 0
        if b == 1: return a
        if b & (b-1) == 0:
            return bv(a, w) << (b.bit_length()-1)
    return bv(a, w) * bv(b, w)
def ule(a, b, w=64):
    if isc(a) and isc(b): return a <= b
    if isc(a) and a == 0: return True
    return ULE(bv(a, w), bv(b, w))
def ult(a, b, w=64):
    if isc(a) and isc(b): return a < b
    if isc(b) and b == 0: return False
    return ULT(bv(a, w), bv(b, w))
def eq(a, b, w=64):
    if isc(a) and isc(b): return a == b
    if not isc(a) and not isc(b) and a.eq(b): return True
    return bv(a, w) == bv(b, w)
def zext(a, w0, w):
    if w == w0 or isc(a): return a
    return ZeroExt(w - w0, a)
def sext(a, w0, w):
    if w == w0: return a
    if isc(a): return sgn(a, w0) & mask(w)
    return SignExt(w - w0, a)
def trunc(a, w):
    if isc(a): return a & mask(w)
    if a.size() == w: return a
    return Extract(w-1, 0, a)
def lshr(a, n, w=64):
    if isc(a): return a >> n
    if n == 0: return a
    return LShR(a, n)

class Ptr:
    __slots__ = ('r', 'off')
    def __init__(self, r, off=0):
        self.r, self.off = r, norm(off)
    def __repr__(self): return 'Ptr(%s,%s)' % (self.r, self.off)
    def plus(self, n):
        return Ptr(self.r, add(self.off, n))
    def same(self, o):
        return isinstance(o, Ptr) and self.r == o.r and ((isc(self.off) and isc(o.off) and self.off == o.off) or (not isc(self.off) and not isc(o.off) and self.off.eq(o.off)))
NULL = Ptr(0, 0)

def sameval(a, b):
    if a is b: return True
    if isinstance(a, Ptr): return a.same(b)
    if isinstance(a, tuple):
        return isinstance(b, tuple) and len(a) == len(b) and all(sameval(x, y) for x, y in zip(a, b))
    if isinstance(a, (int, bool)) or isinstance(b, (int, bool)):
        return type(a) is type(b) and a == b
    if isinstance(b, (Ptr, tuple)) or a is None or b is None: return False
    return a.eq(b)

# ------------------------------------------------------------------ arrays
class AV:
    """array content, functional: element index (BV64) -> BV(w)"""
    w = None
class ABase(AV):
    def __init__(self, w, name):
        self.w = w
        self.f = z3.Function(name, z3.BitVecSort(64), z3.BitVecSort(w))
    def rd(self, i): return self.f(b64(i))
class AConst(AV):
    def __init__(self, w, val): self.w, self.val = w, val
    def rd(self, i): return self.val
class AFn(AV):
    def __init__(self, w, fn): self.w, self.fn = w, fn
    def rd(self, i): return self.fn(i)
class AStore(AV):
    def __init__(self, p, i, v):
        self.p, self.i, self.v, self.w = p, i, v, p.w
    def rd(self, i):
        n = self
        conds = []
        while isinstance(n, AStore):
            c = idxeq(i, n.i)
            if c is True:
                r = n.v
                break
            if c is not False:
                conds.append((c, n.v))
            n = n.p
        else:
            r = n.rd(i)
        for c, v in reversed(conds):
            r = ite(c, v, r, self.w)
        return r
class ARange(AV):
    """elements [lo, lo+n) come from fn(index), others from p"""
    def __init__(self, p, lo, n, fn):
        self.p, self.lo, self.n, self.fn, self.w = p, lo, n, fn, p.w
    def inside(self, i):
        return simpb(ult(sub(i, self.lo), self.n))
    def rd(self, i):
        c = self.inside(i)
        if c is True: return self.fn(i)
        if c is False: return self.p.rd(i)
        return ite(c, self.fn(i), self.p.rd(i), self.w)

def idxeq(a, b):
    if isc(a) and isc(b): return a == b
    d = simplify(b64(a) - b64(b))
    if is_bv_value(d): return d.as_long() == 0
    return b64(a) == b64(b)

# ------------------------------------------------------------------ regions
class Region:
    __slots__ = ('id', 'name', 'size', 'alive', 'writable', 'heap', 'cells', 'default', 'esz', 'arr', 'kind', 'info', 'born', 'nel')
    def __init__(self, id, name, size, kind='struct', default='undef', heap=None, writable=True):
        self.id, self.name, self.size, self.kind, self.default, self.heap, self.writable = id, name, size, kind, default, heap, writable
        self.alive = True
        self.cells = {}     # off -> (n, val)
        self.esz = None
        self.arr = None
        self.info = None
        self.born = 0
        self.nel = None
    def copy(self):
        r = Region.__new__(Region)
        r.id, r.name, r.size, r.kind, r.default, r.heap, r.writable = self.id, self.name, self.size, self.kind, self.default, self.heap, self.writable
        r.alive, r.esz, r.arr, r.info, r.born, r.nel = self.alive, self.esz, self.arr, self.info, self.born, self.nel
        r.cells = dict(self.cells) if self.cells is not None else None
        return r

class Frame:
    __slots__ = ('fn', 'blk', 'ip', 'regs', 'prev', 'ret', 'loops', 'allocas', 'tag')
    def __init__(self, fn):
        self.fn = fn
        self.blk = None; self.ip = 0; self.regs = {}; self.prev = None
        self.ret = None   # (call instr) in the caller
        self.loops = {}
        self.allocas = []
        self.tag = None
    def copy(self):
        f = Frame.__new__(Frame)
        f.fn, f.blk, f.ip, f.prev, f.ret, f.tag = self.fn, self.blk, self.ip, self.prev, self.ret, self.tag
        f.regs = dict(self.regs); f.loops = dict(self.loops); f.allocas = list(self.allocas)
        return f

class Fact:
    """forall var. body ; instantiated on terms matching triggers (decl, argexpr)"""
    _n = itertools.count(1)
    def __init__(self, var, body, triggers, name='', hints=()):
        self.var, self.body, self.name = var, tob(body), name
        self.id = next(self._n)
        self.trig = []
        self.hints = list(hints)
        unit, other = [], []
        for decl, e in triggers:
            s = self.solver_for(e)
            if s: (unit if getattr(s, 'unit', False) else other).append((decl, s))
        self.trig = unit or other               # a strided trigger (byte k/8 of a word) only where there is no direct one
        self.cache = {}
    def solver_for(self, e):
        v = self.var
        if not z3.is_bv(e): return None
        w = e.size()
        d = simplify(z3.substitute(e, (v, v + 1)) - e)
        e0 = simplify(z3.substitute(e, (v, BitVecVal(0, v.size()))))
        if not is_bv_value(d):
            # zero/sign extended narrower term
            k = e.decl().kind()
            inner = None
            if k in (z3.Z3_OP_ZERO_EXT, z3.Z3_OP_SIGN_EXT): inner = e.arg(0)
            elif k == z3.Z3_OP_CONCAT and e.num_args() == 2 and is_bv_value(e.arg(0)): inner = e.arg(1)
            if inner is not None:
                f = self.solver_for(inner)
                if f:
                    wi = inner.size()
                    g = lambda x: f(Extract(wi-1, 0, x))
                    g.unit = getattr(f, 'unit', False)
                    return g
            return None
        c = d.as_signed_long()
        vw = v.size()
        def fit(x):
            if w == vw: return x
            if w > vw: return Extract(vw-1, 0, x)
            return ZeroExt(vw - w, x)
        if c in (1, -1):
            f = (lambda k: [simplify(fit(k - e0))]) if c == 1 else (lambda k: [simplify(fit(e0 - k))])
            f.unit = True
            return f
        if c > 1 and c & (c-1) == 0:
            sh = c.bit_length()-1
            return lambda k: [simplify(fit(LShR(k - e0, sh)))]
        if c > 1:
            return lambda k: [simplify(fit(z3.UDiv(k - e0, BitVecVal(c, w))))]
        return None
    def inst(self, t):
        k = t.get_id()
        r = self.cache.get(k)
        if r is None:
            r = (t, z3.substitute(self.body, (self.var, t)))
            self.cache[k] = r
        return r[1]

class State:
    __slots__ = ('frames', 'mem', 'pc', 'facts', 'ghost', 'inexact', 'exc', 'caught', 'trace', 'note', 'allocs', 'steps')
    def __init__(self):
        self.frames = []
        self.mem = {}
        self.pc = []
        self.facts = []
        self.ghost = {}
        self.inexact = False
        self.exc = None       # in-flight exception
        self.caught = []
        self.trace = ()
        self.note = {}
        self.steps = 0
    def copy(self):
        s = State.__new__(State)
        s.frames = [f.copy() for f in self.frames]
        s.mem = dict(self.mem)
        s.pc = list(self.pc)
        s.facts = list(self.facts)
        s.ghost = dict(self.ghost)
        s.inexact = self.inexact
        s.exc = self.exc
        s.caught = list(self.caught)
        s.trace = self.trace
        s.note = dict(self.note)
        s.steps = self.steps
        return s
    def assume(self, c):
        if c is True: return
        if c is False: c = z3.BoolVal(False)
        self.pc.append(c)
    def reg(self, rid):
        """writable copy of a region"""
        r = self.mem[rid].copy()
        self.mem[rid] = r
        return r

class Exc:
    def __init__(self, ti, obj=NULL, ti_obj=None):
        self.ti, self.obj = ti, obj
    def __repr__(self): return 'Exc(%s)' % self.ti

def popcount(x, w, rw):
    """number of one bits of x (w bits) as rw bits"""
    x = bv(x, w)
    l = [Extract(i, i, x) for i in range(w)]
    n = 1
    while len(l) > 1:
        if len(l) & 1: l.append(BitVecVal(0, n))
        l = [ZeroExt(1, l[i]) + ZeroExt(1, l[i+1]) for i in range(0, len(l), 2)]; n += 1
    return ZeroExt(rw - n, l[0]) if rw >= n else Extract(rw-1, 0, l[0])
