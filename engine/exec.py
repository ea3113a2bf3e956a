"""Path-forking symbolic executor / VC generator over LLVM IR."""
import threading, time, re, subprocess, os, sys
import z3
from z3 import BitVecVal, BitVec, And, Or, Not, If, ULT, ULE, UGE, UGT, LShR, Extract, Concat, ZeroExt, SignExt, simplify, is_bv_value
import ir
from ir import Ty, I1, I8, I32, I64, PTR, VOID, V, Instr
from sym import *
import sym

DUMP = os.environ.get('VDUMP')
DUMPT = float(os.environ.get('VDUMPT', '2'))
_HARD = {}
def hard(e):
    """e contains a shift by a symbolic amount, a product or quotient of two unknowns"""
    if not z3.is_expr(e): return False
    i = e.get_id()
    c = _HARD.get(i)
    if c is not None and c[0].eq(e): return c[1]
    k = e.decl().kind() if z3.is_app(e) else None
    ch = e.children()
    r = False
    if k in (z3.Z3_OP_BSHL, z3.Z3_OP_BLSHR, z3.Z3_OP_BASHR, z3.Z3_OP_BUDIV, z3.Z3_OP_BSDIV, z3.Z3_OP_BUREM, z3.Z3_OP_BSREM, z3.Z3_OP_BUDIV_I, z3.Z3_OP_BUREM_I):
        r = not z3.is_bv_value(ch[1])
    elif k == z3.Z3_OP_BMUL:
        r = sum(not z3.is_bv_value(x) for x in ch) > 1
    r = r or any(hard(x) for x in ch)
    _HARD[i] = (e, r)
    return r
class Restart(Exception):
    pass
class Budget(Exception):
    pass

class Out:
    __slots__ = ('kind', 'st', 'val', 'why')
    def __init__(self, kind, st, val=None, why=None):
        self.kind, self.st, self.val, self.why = kind, st, val, why
    def __repr__(self): return 'Out(%s,%r,%s)' % (self.kind, self.val, self.why)

class Obl:
    """one generated obligation"""
    __slots__ = ('name', 'kind', 'status', 'loc', 'cex', 'ms', 'inexact', 'note')
    def __init__(self, name, kind, status, loc=None, cex=None, ms=0, inexact=False, note=''):
        self.name, self.kind, self.status, self.loc, self.cex, self.ms, self.inexact, self.note = name, kind, status, loc, cex, ms, inexact, note
    def as_dict(self):
        return {k: getattr(self, k) for k in self.__slots__}

_dem = {}
def demangle(names):
    need = [n for n in names if n not in _dem]
    if need:
        r = subprocess.run(['c++filt'], input='\n'.join(need), capture_output=True, text=True).stdout.split('\n')
        for n, d in zip(need, r): _dem[n] = d
    return [_dem[n] for n in names]
def dem(n):
    if n not in _dem: demangle([n])
    return _dem[n]

class Engine:
    def __init__(self, prog, opts=None):
        self.prog = prog
        o = opts or {}
        self.K = o.get('K', 10)             # unroll limit before invariants are used
        self.bmc = o.get('bmc', 0)          # >0: bounded run, loops cut at bmc
        self.timeout = o.get('timeout', 20000)
        self.feas_timeout = o.get('feas_timeout', 3000)
        self.deadline = o.get('deadline', None)
        self.max_paths = o.get('max_paths', 20000)
        self.rid = 0
        self.names = {}
        self.contracts = {}
        self.patterns = []
        self.modular = []
        self.pat_cache = {}
        self.obls = []
        self.used = {}           # trusted contracts used -> count
        self.inlined = {}        # functions executed
        self.silent = 0
        self.inv_loops = set(); self.inv_all = False; self.simple = False
        self.templates = []      # loop candidate templates
        self.cut = False
        self.solver_ms = 0
        self.nq = 0
        self.lines = set()
        self.globals = {}        # name -> rid (shared by states via lazily adding)
        self.gregions = {}       # rid -> Region  (constant globals)
        self.bases = {}          # rid -> z3 const base
        self.base_by_name = {}
        self.regname = {}
        self.axioms = []         # Facts valid everywhere
        self.abort_ok = None     # fn(st, why) -> bool
        self.loop_log = []
        self.lazy = {}
        self.npaths = 0
        self.typeids = {}
        self.allow_null_check = True
        self.concretize_limit = 40
        self.maydepth = 80
        self.on_loop = None
        self.cover = []
        self.nullok = set()
        self.ub_shift = True
        self.debug = o.get('debug', False)
        self.fresh_new_may_fail = False
        self.icmp_log = None
        self.safety = {}
        self.fpof = {}           # name of a bit pattern -> the floating-point term it is
        self.qlog = []
        self._ps = None; self._ps_stack = []

    # ------------------------------------------------------------ regions
    def new_rid(self):
        self.rid += 1
        return self.rid
    def alloc(self, st, name, size, kind='struct', default='undef', heap=None, writable=True, esz=None, arr=None):
        rid = self.new_rid()
        r = Region(rid, name, norm(size), kind, default, heap, writable)
        if kind == 'array':
            r.esz, r.arr = esz, arr
            k = esz.bit_length() - 1
            if not isc(r.size):
                q = self.unscale(st, r.size, k)
                r.nel = q
            else: r.nel = r.size // esz
            r.cells = None
        st.mem[rid] = r
        self.regname[rid] = name
        return Ptr(rid, 0)
    def array(self, st, name, n, esz, base=None, writable=True, heap=None):
        """array region of n elements of esz bytes with symbolic content"""
        a = base if base is not None else ABase(esz*8, fresh_name('A_' + name))
        return self.alloc(st, name, mul(n, esz), 'array', esz=esz, arr=a, writable=writable, heap=heap)
    def region(self, st, rid):
        r = st.mem.get(rid)
        if r is None:
            r = self.gregions.get(rid)
            if r is None: raise Unsupported('no region %s' % rid)
        return r
    def base(self, rid):
        b = self.bases.get(rid)
        if b is None:
            b = BitVec('base!%d' % rid, 64)
            self.bases[rid] = b
            self.base_by_name['base!%d' % rid] = rid
        return b
    def base_facts(self, st, rid):
        """assumptions on a symbolic region address"""
        key = ('base', rid)
        if key in st.note: return
        st.note[key] = True
        b = self.base(rid)
        r = self.region(st, rid)
        st.assume(b & 15 == 0)
        st.assume(UGE(b, 4096)); st.assume(ULT(b, 1 << 47))
        if r.size is not None and not isc(r.size):
            st.assume(ULT(r.size, 1 << 47))
    def p2i(self, st, p):
        if isinstance(p, int): return p
        if not isinstance(p, Ptr): return p
        if p.r == 0: return p.off
        self.base_facts(st, p.r)
        return simp(add(self.base(p.r), p.off))
    def i2p(self, st, v):
        if isinstance(v, Ptr): return v
        if isc(v): return Ptr(0, v)
        v = simplify(v)
        if is_bv_value(v): return Ptr(0, v.as_long())
        names = set()
        for d in consts_of(v):
            n = d.decl().name()
            if n in self.base_by_name: names.add(n)
        if len(names) == 1:
            rid = self.base_by_name[names.pop()]
            off = simplify(v - self.base(rid))
            if not any(x.decl().name() in self.base_by_name for x in consts_of(off)):
                return Ptr(rid, norm(off))
        raise Unsupported('inttoptr of %s' % str(v)[:80])

    # ------------------------------------------------------------ globals
    def global_ptr(self, name):
        name = self.prog.canon(name)
        rid = self.globals.get(name)
        if rid is not None: return Ptr(rid, 0)
        rid = self.new_rid()
        self.globals[name] = rid
        self.regname[rid] = '@' + name
        f = self.prog.func(name)
        g = None if f else self.prog.glob(name)
        if f or g is None:
            r = Region(rid, '@' + name, 1, 'func', None, None, False)
            r.info = name
            self.gregions[rid] = r
            return Ptr(rid, 0)
        mod, (const, ty, init) = g
        sz = mod.size(ty) if init is not None else None
        r = Region(rid, '@' + name, sz, 'struct', 'zero' if (init is not None and const) else 'sym', None, not const)
        if init is not None and const:
            self.gregions[rid] = r
            self.init_cells(mod, r, 0, ty, init)
        elif init is not None and not const and not name.startswith('_ZGV'):
            r.default = 'sym'
        self.gregions[rid] = r
        return Ptr(rid, 0)
    def init_cells(self, mod, r, off, ty, v):
        ty = mod.resolve(ty)
        if v.k in ('zero', 'undef'):
            n = mod.size(ty)
            if n <= 8 and n > 0: r.cells[off] = (n, NULL if ty.k == 'ptr' else 0)
            else:
                # recurse for pointer-precision; default is zero anyway
                if ty.k == 'struct':
                    lo = mod.layout(ty)
                    for e, o in zip(ty.a, lo[2]): self.init_cells(mod, r, off+o, e, V('zero', None, e))
                elif ty.k == 'array' and ty.a <= 4096:
                    es = mod.size(ty.b)
                    for i in range(ty.a): self.init_cells(mod, r, off+i*es, ty.b, V('zero', None, ty.b))
            return
        if v.k == 'str':
            for i, c in enumerate(v.v): r.cells[off+i] = (1, c)
            return
        if v.k == 'agg':
            if ty.k == 'struct':
                lo = mod.layout(ty)
                for e, o, x in zip(ty.a, lo[2], v.v): self.init_cells(mod, r, off+o, e, x)
            else:
                es = mod.size(ty.b)
                for i, x in enumerate(v.v): self.init_cells(mod, r, off+i*es, ty.b, x)
            return
        r.cells[off] = (mod.size(ty), self.const(mod, v, ty))
    def const(self, mod, v, ty=None):
        ty = ty or v.ty
        k = v.k
        if k == 'int':
            if ty.k == 'int' and ty.a == 1: return bool(v.v & 1)
            return v.v & mask(ty.a)
        if k == 'null': return NULL
        if k == 'global': return self.global_ptr(v.v)
        if k == 'fp': return fp_bits(v.v, mod.resolve(ty).k)
        if k in ('undef', 'zero'):
            t = mod.resolve(ty)
            if t.k == 'ptr': return NULL
            if t.k == 'int':
                return False if t.a == 1 else 0
            if t.k in ('float', 'double'): return 0
            if t.k == 'struct': return tuple(self.const(mod, V(k, None, e), e) for e in t.a)
            if t.k == 'array': return tuple(self.const(mod, V(k, None, t.b), t.b) for _ in range(t.a))
            raise Unsupported('const %s of %r' % (k, t))
        if k == 'ce':
            op, x, args = v.v
            if op == 'getelementptr':
                p = self.const(mod, args[0])
                off = self.gep_const(mod, x, args[1:])
                return p.plus(off & mask(64))
            if op == 'inttoptr': return Ptr(0, self.const(mod, args[0]))
            if op == 'ptrtoint':
                return ('p2i', self.const(mod, args[0]))
            if op == 'bitcast': return self.const(mod, args[0])
        if k == 'agg':
            return tuple(self.const(mod, e) for e in v.v)
        raise Unsupported('const %s %r' % (k, v.v))
    def gep_const(self, mod, t, idx):
        off = sgn(idx[0].v, 64) * mod.size(t) if idx else 0
        t = mod.resolve(t)
        for i in idx[1:]:
            if t.k == 'struct':
                off += mod.layout(t)[2][i.v]; t = mod.resolve(t.a[i.v])
            else:
                off += i.v * mod.size(t.b); t = mod.resolve(t.b)
        return off

    # ------------------------------------------------------------ solver
    def instantiate(self, facts, exprs, rounds=4, limit=1500):
        out = []
        if not facts: return out
        trig = {}
        for f in facts:
            for d, s in f.trig:
                trig.setdefault(d.name(), []).append((f, s))
        done = set()
        apps = set(); visited = {}
        keep = []
        new = list(exprs)
        for f in facts:
            for h in f.hints:
                key = (f.id, h.get_id())
                if key not in done:
                    done.add(key); keep.append(h)
                    i = f.inst(h); out.append(i); new.append(i)
        for rnd in range(rounds):
            found = []
            for e in new: collect_apps(e, trig, visited, apps, found)
            new = []
            for dn, a in found:
                for f, s in trig[dn]:
                    for tt in s(a):
                        key = (f.id, tt.get_id())
                        if key in done: continue
                        done.add(key); keep.append(tt)
                        i = f.inst(tt)
                        out.append(i); new.append(i)
                        if len(out) > limit: return out
            if not new: break
        self._keep = keep
        return out

    def sat(self, st, extra=(), timeout=None, want_model=False, facts=True):
        """'sat' / 'unsat' / 'unknown' of st.pc & extra"""
        ex = []
        for c in extra:
            if c is False: return ('unsat', None)
            if c is True: continue
            ex.append(c)
        self.budget()
        t0 = time.time()
        cs = list(st.pc) + ex
        full = timeout or self.timeout
        s = z3.SimpleSolver() if self.simple else z3.Solver()
        s.set('timeout', min(full, 600 if self.simple else 150))
        for c in cs: s.add(c)
        if facts and (st.facts or self.axioms):
            for i in self.instantiate(st.facts + self.axioms, cs): s.add(i)
        orig = list(s.assertions())             # (a check may rewrite them)
        r = s.check()
        hint = None
        if r == z3.unknown and full > 300:      # floating point terms as unknowns first: often only their recorded bounds matter
            ab, any_ = self.no_fp(orig)
            if any_:
                sa = z3.Solver(); sa.set('timeout', min(full, 4000))
                for c in ab: sa.add(c)
                ra = sa.check()
                if ra == z3.unknown:
                    try:
                        st2 = self.cvc5(sa, min(full, 10000), False, list(sa.assertions())); 
                        if st2(True) == 'unsat': ra = z3.unsat
                    except z3.Z3Exception: pass
                if ra == z3.unsat: r = z3.unsat
        if r == z3.unknown:                     # portfolio: cvc5 beside z3, the first answer counts
            ids = set(c.get_id() for c in ex if z3.is_expr(c))
            easy = [c for c in orig if c.get_id() in ids or not hard(c)]     # without the assumptions integers cannot express well
            stop = self.cvc5(s, full, want_model, easy if len(easy) < len(orig) else None)
            if full > 300:
                s.set('timeout', full)
                wd = threading.Timer(full / 1000 + 2, z3.main_ctx().interrupt)      # z3 does not look at its timeout in every phase
                wd.daemon = True; wd.start()
                try: r = s.check()
                except z3.Z3Exception: r = z3.unknown
                wd.cancel()
            hint = stop(r == z3.unknown)
            if r == z3.unknown:
                if hint == 'unsat': r = z3.unsat
                elif hint == 'sat' and not want_model: r = z3.sat
        if r == z3.unknown and full >= self.timeout and hint is None:
            s2 = z3.SolverFor('QF_AUFBV')
            s2.set('timeout', full)
            for c in s.assertions(): s2.add(c)
            r2 = s2.check()
            if r2 != z3.unknown: r, s = r2, s2
        self.nq += 1
        self.solver_ms += (time.time() - t0) * 1000
        self.qlog.append((time.time() - t0, str(r), len(cs)))
        if DUMP and time.time() - t0 > DUMPT: open('%s/q%d_%s.smt2' % (DUMP, len(self.qlog), r), 'w').write(s.to_smt2())
        if r == z3.sat:
            return ('sat', s.model() if want_model else None)
        return (str(r), None)

    def no_fp(self, cs):
        cache = self.__dict__.setdefault('_nofp', {}); any_ = [False]
        def isfp(e):
            return any(z3.is_fp(x) or z3.is_fprm(x) for x in e.children())
        def go(e):
            k = e.get_id()
            if k in cache: 
                any_[0] |= cache[k][2]; return cache[k][1]
            f = False
            if z3.is_quantifier(e) or z3.is_var(e): r = e
            elif z3.is_app(e) and e.num_args():
                if not z3.is_fp(e) and isfp(e):
                    f = True; r = z3.Const('nofp!%d' % k, e.sort())
                else:
                    ch = e.children(); save = any_[0]; any_[0] = False
                    n = [go(x) for x in ch]; f = any_[0]; any_[0] = save or f
                    r = e if not f else e.decl()(*n)
            else: r = e
            any_[0] |= f
            cache[k] = (e, r, f)
            return r
        return [go(c) for c in cs], any_[0]
    def cvc5(self, s, ms, want_model, easy=None):
        """second back end: cvc5 with bit-vectors as integers (linear arithmetic over offsets and lengths); runs beside z3"""
        weak = easy is not None
        if weak:
            s1 = z3.Solver()
            for c in easy: s1.add(c)
            txt = s1.to_smt2()
        else: txt = s.to_smt2()
        txt = re.sub(r'\b(bvsrem|bvsdiv|bvudiv|bvurem|bvsmod)_i\b', r'\1', txt)
        fp = 'FloatingPoint' in txt or 'fp.' in txt or 'to_fp' in txt
        if fp and 'to_ieee_bv' in txt: return lambda wait: None
        self.ncvc = getattr(self, 'ncvc', 0) + 1
        if not fp: ms = min(ms, 10000)
        p = subprocess.Popen(['cvc5', '--lang=smt2', '--tlimit=%d' % ms] + ([] if fp else ['--solve-bv-as-int=sum']), stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
        ctx = z3.main_ctx(); res = [None]; done = [False]
        def work():
            try:
                o = p.communicate('(set-logic ALL)\n' + txt, timeout=ms / 1000 + 3)[0].strip().split('\n')[0]
            except Exception: o = ''
            if o == 'unsat' or o == 'sat' and not weak:
                res[0] = o
                if not done[0] and (o == "unsat" or not want_model): ctx.interrupt()
        th = threading.Thread(target=work, daemon=True); th.start()
        def stop(wait):
            done[0] = True
            if not wait:
                try: p.kill()
                except Exception: pass
            th.join(ms / 1000 + 5)
            try: p.kill(); p.wait()
            except Exception: pass
            return res[0]
        return stop
    def feasible(self, st, cond):
        """quick over-approximate feasibility of pc & cond"""
        c = simpb(cond)
        if c is False: return False
        t0 = time.time()
        self.budget()
        s = self.prefix_solver(st.pc)
        s.push()
        if c is not True: s.add(c)
        s.set('timeout', 300 if (st.facts or self.axioms) else self.feas_timeout)
        r = s.check()
        s.pop()
        self.nq += 1
        dt = time.time() - t0
        if self.debug and dt > 0.3: print('SLOW feasible %.2f %s %d' % (dt, r, len(st.pc)), self.where(st), str(c)[:200])
        self.solver_ms += (time.time() - t0) * 1000
        if r == z3.unsat: return False
        if st.facts or self.axioms:
            r = self.sat(st, [c], timeout=self.feas_timeout)[0]
            if r == 'unsat': return False
        return True
    def prefix_solver(self, pc):
        if self._ps is None or len(self._ps_stack) > 3000:
            self._ps = z3.Solver(); self._ps_stack = []
        st = self._ps_stack
        i = 0
        n = min(len(st), len(pc))
        while i < n and st[i] is pc[i]: i += 1
        if i < len(st):
            self._ps.pop(len(st) - i)
            del st[i:]
        for c in pc[i:]:
            self._ps.push(); self._ps.add(c); st.append(c)
        return self._ps
    def budget(self):
        if self.deadline and time.time() > self.deadline:
            raise Budget('time budget exhausted')

    def implied(self, st, cond, timeout=None):
        c = simpb(cond)
        if c is True: return True
        if c is False: return not self.feasible(st, True)
        return self.sat(st, [bnot(c)], timeout=timeout)[0] == 'unsat'

    # ------------------------------------------------------------ obligations
    def where(self, st):
        for fr in reversed(st.frames):
            if fr.blk is None: continue
            ins = fr.fn.blocks[fr.blk].instrs
            i = ins[min(fr.ip, len(ins)-1)]
            l = fr.fn.mod.loc(i.dbg)
            if l and l[0] and ('/repo' in l[0] or not l[0].startswith('/usr')):
                return '%s:%d (%s)' % (os.path.basename(l[0]), l[1], short(fr.fn.name))
        if st.frames: return short(st.frames[-1].fn.name)
        return st.note.get('where')
    def oblige(self, st, name, cond, kind='post', note=''):
        """prove cond on this path (record), then assume it"""
        c = simpb(cond)
        if self.silent:
            if c is not True:
                st.assume(c)
                if z3.is_expr(c): self.safety[c.get_id()] = c
            return None
        t0 = time.time()
        o = Obl(name, kind, 'discharged', self.where(st), None, 0, st.inexact, note)
        if c is True:
            o.kind = kind
            self.obls.append(o)
            return o
        r, m = self.sat(st, [bnot(c)], want_model=True)
        o.ms = int((time.time() - t0) * 1000)
        if r == 'unsat': o.status = 'discharged'
        elif r == 'sat':
            o.status = 'failed'
            o.cex = self.cex(st, m)
            if self.debug:
                print('FAILED', name, o.loc, str(c)[:300])
        else:
            o.status = 'unknown'
        self.obls.append(o)
        st.assume(c)
        return o
    def cex(self, st, m):
        """values of the named inputs in a model"""
        d = {}
        for k, v in self.names.items():
            try:
                if isinstance(v, tuple):      # (array AV, length expr)
                    n = m.eval(b64(v[1]), model_completion=True).as_long()
                    d[k] = [norm(m.eval(bv(v[0].rd(i), v[0].w), model_completion=True)) for i in range(min(n, 64))]
                    d[k + '.n'] = n
                else:
                    x = m.eval(tob(v) if isinstance(v, bool) else (v if not isc(v) else BitVecVal(v, 64)), model_completion=True)
                    d[k] = x.as_long() if is_bv_value(x) else str(x)
            except Exception as e:
                d[k] = '?%s' % e
        return d
    def name(self, k, v):
        self.names[k] = v
        return v
    def forall_goal(self, st, name, fn, kind='post', w=64, pre='k'):
        """prove forall k. fn(k)"""
        k = fresh(w, pre)
        s = st.copy()
        return self.oblige(s, name, fn(k), kind)
    def covered(self, st, name):
        """vacuity guard: this state must be reachable"""
        if self.silent: return
        r = self.sat(st, [], timeout=10000)[0]
        self.cover.append((name, r == 'sat' or r == 'unknown'))
    def abort(self, st, why):
        if self.abort_ok and self.abort_ok(st, why):
            return Out('abort', st, None, why)
        self.oblige(st, 'no abort/UB: ' + why, False, 'safety')
        return Out('abort', st, None, why)

    # ------------------------------------------------------------ memory access
    def access(self, st, p, n, write):
        if isinstance(p, int): p = Ptr(0, p)
        if not isinstance(p, Ptr): raise Unsupported('access through %r' % (p,))
        if p.r == 0:
            self.oblige(st, 'no null dereference', False, 'safety')
            return None
        r = self.region(st, p.r)
        if r.kind == 'func': raise Unsupported('data access to function %s' % r.name)
        if not r.alive:
            self.oblige(st, 'no use after free (%s)' % r.name, False, 'safety')
            return None
        if write and not r.writable:
            self.oblige(st, 'frame: write to %s' % r.name, False, 'frame')
            return None
        size = r.size
        if size is None and isinstance(r.info, tuple) and r.info[0] == 'str':      # characters of a std::string: its length plus the terminator
            size = simp(add(self.load(st, r.info[1].plus(8), I64, self.prog.mods[0]), 1))
        if size is not None:
            if isc(n) and n == 0: return r
            off = p.off
            if isc(off) and isc(size) and isc(n):
                ok = 0 <= off and off + n <= size
                if not ok or not self.silent:
                    if not ok:
                        self.oblige(st, 'in bounds of %s' % r.name, False, 'safety'); return None
            else:
                if r.kind == 'array' and r.nel is not None and isc(n) and n == r.esz and r.esz > 1:
                    idx, rem = self.elem_index(st, off, r.esz)
                    if rem == 0:
                        c = simpb(ult(idx, r.nel))
                        if c is not True: self.oblige(st, 'in bounds of %s' % r.name, c, 'safety')
                        return r
                # off + n <= size without wrap
                c = band(ule(off, size), ule(n, sub(size, off)))
                c = simpb(c)
                if c is not True:
                    self.oblige(st, 'in bounds of %s' % r.name, c, 'safety')
        return r
    def elem_index(self, st, off, esz):
        """off / esz for an aligned offset; returns (index, rem) with rem int or None if symbolic"""
        if esz == 1: return off, 0
        k = esz.bit_length() - 1
        if isc(off):
            return off >> k, off & (esz - 1)
        o = simplify(off)
        if is_bv_value(o): return o.as_long() >> k, o.as_long() & (esz - 1)
        low = simplify(Extract(k-1, 0, o))
        if is_bv_value(low):
            lv = low.as_long()
            return self.unscale(st, simplify(o - lv) if lv else o, k), lv
        # ask the solver
        if self.sat(st, [low != 0])[0] == 'unsat':
            return norm(simplify(LShR(o, k))), 0
        return norm(simplify(LShR(o, k))), None
    def unscale(self, st, o, k, signed=False):
        """o >> k for an o with k low zero bits, as a 64-bit term without shifts when provable"""
        if isc(o): return (sgn(o, 64) >> k) & mask(64) if signed else o >> k
        o = simplify(o)
        if is_bv_value(o): return self.unscale(st, o.as_long(), k, signed)
        key = ('lift', o.get_id(), k, signed)
        r = st.note.get(key)
        if r is not None: return r[1]
        q = simplify((o >> k) if signed else LShR(o, k))
        x = divk(o, k)
        if x is None:
            e = simplify(Extract(63, k, o))
            x = lift(e, 64 - k)
        if x is not None:
            x = simplify(x)
            if is_bv_value(x) or self.sat(st, [x != q], timeout=5000)[0] != 'unsat':
                x = None
        r = norm(x if x is not None else q)
        st.note[key] = (o, r)
        return r
    def ensure_array(self, st, r, n):
        """raw region of symbolic size: choose the element width on first access"""
        if r.kind == 'raw':
            r = st.reg(r.id)
            r.kind = 'array'; r.esz = n if n in (1, 2, 4, 8) else 1
            r.arr = ABase(r.esz * 8, fresh_name('raw_' + r.name)); r.cells = None
        return r
    def arr_read(self, st, r, off, n):
        """n-byte little-endian integer from an array region at byte offset off"""
        idx, rem = self.elem_index(st, off, r.esz)
        if rem == 0 and n == r.esz:
            return norm(r.arr.rd(idx))
        if rem is None:
            if n == 1:
                w = bv(r.arr.rd(idx), r.esz*8)
                sh = (b64(off) & (r.esz-1)) << 3
                sh = Extract(r.esz*8-1, 0, sh) if r.esz < 8 else sh
                return norm(Extract(7, 0, LShR(w, sh)))
            raise Unsupported('unaligned array read')
        if rem + n <= r.esz:
            w = r.arr.rd(idx)
            if isc(w): return (w >> (8*rem)) & mask(8*n)
            return norm(Extract(8*(rem+n)-1, 8*rem, w))
        # spans elements
        parts = []
        o = rem; i = 0; left = n
        while left > 0:
            take = min(left, r.esz - o)
            w = bv(r.arr.rd(add(idx, i)), r.esz*8)
            parts.append(Extract(8*(o+take)-1, 8*o, w) if take < r.esz else w)
            left -= take; o = 0; i += 1
        x = parts[0] if len(parts) == 1 else Concat(*reversed(parts))
        return norm(simplify(x))
    def arr_write(self, st, r, off, n, val):
        val = bv(val, n*8) if n*8 <= 64 else val
        idx, rem = self.elem_index(st, off, r.esz)
        if rem == 0 and n == r.esz:
            r.arr = AStore(r.arr, idx, norm(val)); return
        if rem is None: raise Unsupported('unaligned array write')
        if rem + n <= r.esz:
            old = bv(r.arr.rd(idx), r.esz*8)
            parts = []
            if rem + n < r.esz: parts.append(Extract(r.esz*8-1, 8*(rem+n), old))
            parts.append(val)
            if rem > 0: parts.append(Extract(8*rem-1, 0, old))
            r.arr = AStore(r.arr, idx, norm(simplify(Concat(*parts) if len(parts) > 1 else parts[0])))
            return
        o = rem; i = 0; done = 0
        while done < n:
            take = min(n-done, r.esz - o)
            piece = Extract(8*(done+take)-1, 8*done, val)
            ii = add(idx, i)
            if take < r.esz:
                old = bv(r.arr.rd(ii), r.esz*8)
                parts = []
                if o + take < r.esz: parts.append(Extract(r.esz*8-1, 8*(o+take), old))
                parts.append(piece)
                if o > 0: parts.append(Extract(8*o-1, 0, old))
                piece = Concat(*parts)
            r.arr = AStore(r.arr, ii, norm(simplify(piece)))
            done += take; o = 0; i += 1

    def cell_read(self, st, r, off, n, want):
        c = r.cells.get(off)
        if c is not None and c[0] == n: return c[1]
        if c is not None and c[0] > n and not isinstance(c[1], (Ptr, tuple)):
            v = c[1]
            return v & mask(8*n) if isc(v) else norm(Extract(8*n-1, 0, tobv(v, c[0]*8)))
        # gather bytes
        ov = [(o, m, v) for o, (m, v) in r.cells.items() if o < off + n and off < o + m]
        if not ov:
            if r.default == 'zero': return NULL if want == 'ptr' else 0
            if r.default == 'sym' or r.default == 'undef':
                if r.default == 'sym':
                    if want == 'ptr': raise Unsupported('symbolic pointer from %s+%d' % (r.name, off))
                    return BitVec('in!%d!%d!%d' % (r.id, off, n), 8*n)
                if want == 'ptr': return ('undefptr',)
                return fresh(8*n, 'undef')
        bs = []
        for i in range(n):
            b = None
            for o, m, v in ov:
                if o <= off+i < o+m:
                    if isinstance(v, Ptr):
                        if v.r == 0 and isc(v.off): v = v.off
                        else: v = self.p2i(st, v)
                    if isinstance(v, tuple): v = fresh(8*m, 'undef')
                    j = off+i-o
                    b = (v >> (8*j)) & 255 if isc(v) else Extract(8*j+7, 8*j, tobv(v, 8*m))
                    break
            if b is None:
                b = 0 if r.default == 'zero' else (BitVec('in!%d!%d!1' % (r.id, off+i), 8) if r.default == 'sym' else fresh(8, 'undef'))
            bs.append(b)
        if all(isc(b) for b in bs):
            return sum(b << (8*i) for i, b in enumerate(bs))
        x = Concat(*[bv(b, 8) for b in reversed(bs)]) if n > 1 else bv(bs[0], 8)
        return norm(simplify(x))
    def cell_write(self, st, r, off, n, val):
        """r is a writable copy"""
        for o in [o for o, (m, v) in r.cells.items() if o < off + n and off < o + m and not (o == off and m == n)]:
            m, v = r.cells.pop(o)
            if o < off or o + m > off + n:
                if isinstance(v, Ptr): v = self.p2i(st, v)
                if isinstance(v, tuple): continue
                for j in range(m):
                    if not (off <= o+j < off+n):
                        b = (v >> (8*j)) & 255 if isc(v) else norm(Extract(8*j+7, 8*j, tobv(v, 8*m)))
                        r.cells[o+j] = (1, b)
        r.cells[off] = (n, val)

    def load(self, st, p, ty, mod):
        """value of IR type ty; may raise Fork for symbolic offsets"""
        ty = mod.resolve(ty)
        if ty.k in ('struct', 'array'):
            if ty.k == 'struct':
                lo = mod.layout(ty)
                return tuple(self.load(st, p.plus(o), e, mod) for e, o in zip(ty.a, lo[2]))
            es = mod.size(ty.b)
            return tuple(self.load(st, p.plus(i*es), ty.b, mod) for i in range(ty.a))
        n = mod.size(ty)
        r = self.access(st, p, n, False)
        if r is None:
            st.assume(False)
            return self.default_val(ty)
        if r.kind == 'raw': r = self.ensure_array(st, r, n)
        if r.kind == 'obj':
            v = r.info.load(self, st, r, p.off, n, ty)
        elif r.kind == 'array':
            if ty.k == 'ptr':
                v = self.arr_read(st, r, p.off, n)
                v = self.i2p(st, v)
            else:
                v = self.arr_read(st, r, p.off, n)
        else:
            off = p.off
            if not isc(off): off = simp(off)
            if not isc(off):
                v = self.sym_cell_read(st, r, off, n, ty)
            else:
                v = self.cell_read(st, r, off, n, ty.k)
        return self.coerce(st, v, ty, n)
    def coerce(self, st, v, ty, n):
        if ty.k == 'ptr':
            if isinstance(v, Ptr): return v
            if isinstance(v, tuple): return v
            return self.i2p(st, v)
        if isinstance(v, Ptr): v = self.p2i(st, v)
        if isinstance(v, tuple):
            if v[0] == 'p2i': v = self.p2i(st, v[1])
            else: v = fresh(8*n, 'undef')
        if ty.k == 'int' and ty.a == 1:
            if isinstance(v, bool): return v
            if isc(v): return bool(v & 1)
            if z3.is_bool(v): return v
            return simpb(Extract(0, 0, v) == 1)
        if isinstance(v, bool): return int(v)
        if z3.is_expr(v) and z3.is_bool(v): v = If(v, BitVecVal(1, 8*n), BitVecVal(0, 8*n))
        if ty.k == 'int' and ty.a < 8*n: return trunc(v, ty.a)
        return v
    def default_val(self, ty):
        if ty.k == 'ptr': return NULL
        if ty.k == 'int': return False if ty.a == 1 else fresh(ty.a, 'dead')
        if ty.k == 'float': return fresh(32, 'dead')
        if ty.k == 'double': return fresh(64, 'dead')
        raise Unsupported('default of %r' % ty)
    def sym_cell_read(self, st, r, off, n, ty):
        """ITE over int cells of equal size, else fork"""
        cand = [(o, v) for o, (m, v) in sorted(r.cells.items()) if m == n]
        if cand and ty.k != 'ptr' and len(cand) <= 300 and all(not isinstance(v, (Ptr, tuple)) for o, v in cand):
            # only offsets that are feasible
            aligned = [o for o, v in cand]
            ok = Or([b64(off) == o for o in aligned])
            if self.implied(st, ok):
                x = bv(cand[0][1], 8*n)
                for o, v in cand[1:]:
                    x = If(b64(off) == o, bv(v, 8*n), x)
                return norm(simplify(x))
        raise ForkOn(off)
    def store(self, st, p, val, ty, mod):
        ty = mod.resolve(ty)
        if ty.k == 'struct':
            lo = mod.layout(ty)
            for e, o, x in zip(ty.a, lo[2], val): self.store(st, p.plus(o), x, e, mod)
            return
        if ty.k == 'array':
            es = mod.size(ty.b)
            for i, x in enumerate(val): self.store(st, p.plus(i*es), x, ty.b, mod)
            return
        self.store_n(st, p, val, mod.size(ty), ty)
    def store_n(self, st, p, val, n, ty=None):
        if isinstance(val, bool): val = int(val)
        elif z3.is_expr(val) and z3.is_bool(val): val = If(val, BitVecVal(1, 8*n), BitVecVal(0, 8*n))
        elif z3.is_expr(val) and z3.is_bv(val) and val.size() < 8*n: val = ZeroExt(8*n - val.size(), val)
        r = self.access(st, p, n, True)
        if r is None:
            st.assume(False); return
        if r.kind == 'raw': r = self.ensure_array(st, r, n)
        if r.kind == 'obj':
            r.info.store(self, st, r, p.off, n, val); return
        r = self.wreg(st, r)
        if r.kind == 'array':
            if isinstance(val, Ptr): val = self.p2i(st, val)
            if isinstance(val, tuple): val = fresh(8*n, 'undef')
            self.arr_write(st, r, p.off, n, val)
            return
        off = p.off if isc(p.off) else simp(p.off)
        if not isc(off): raise ForkOn(off)
        self.cell_write(st, r, off, n, val)
    def wreg(self, st, r):
        if r.id not in st.mem:
            st.mem[r.id] = r
        return st.reg(r.id)
    def is_raw_struct(self, r): return r.kind == 'struct'
    def byte_fn(self, st, r, off):
        """function k -> byte of region r at off+k (array regions)"""
        r0 = r; s0 = st
        def f(k):
            return self.arr_read(s0, r0, add(off, k), 1)
        return f
    def memcpy(self, st, d, s, n, overlap_ok=True):
        n = simp(n)
        if isc(n) and n == 0: return
        rd = self.access(st, s, n, False)
        if rd is None: st.assume(False); return
        rw = self.access(st, d, n, True)
        if rw is None: st.assume(False); return
        if rd.kind == 'obj' or rw.kind == 'obj': raise Unsupported('memcpy on object region')
        if rw.kind == 'raw':
            rw = self.ensure_array(st, rw, rd.esz if rd.kind == 'array' else 1)
        if rd.kind == 'raw': rd = self.ensure_array(st, rd, rw.esz if rw.kind == 'array' else 1)
        if not overlap_ok and d.r == s.r:
            c = bor(ule(add(d.off, n), s.off), ule(add(s.off, n), d.off), eq(d.off, s.off))
            self.oblige(st, 'memcpy does not overlap', c, 'safety')
        if rw.kind == 'array' and rd.kind == 'array':
            w = self.wreg(st, rw)
            e = w.esz
            di, drem = self.elem_index(st, d.off, e)
            if isc(n): nn, nrem = n // e, n % e
            else: nn, nrem = self.elem_index(st, n, e)
            if drem != 0 or nrem != 0: raise Unsupported('memcpy not element aligned')
            src = rd
            if src.esz == e:
                si, srem = self.elem_index(st, s.off, e)
                if srem == 0:
                    sa = src.arr
                    delta = simp(sub(si, di))
                    if isc(nn) and nn <= 16:
                        vals = [sa.rd(add(si, i)) for i in range(nn)]
                        for i, v in enumerate(vals): w.arr = AStore(w.arr, add(di, i), norm(v))
                    else:
                        w.arr = ARange(w.arr, di, nn, lambda i, sa=sa, delta=delta: sa.rd(norm(add(i, delta))))
                    return
            so = s.off
            if isc(nn) and nn <= 16:
                vals = [self.arr_read(st, src, add(so, i*e), e) for i in range(nn)]
                for i, v in enumerate(vals): w.arr = AStore(w.arr, add(di, i), norm(v))
                return
            snap = st
            w.arr = ARange(w.arr, di, nn, lambda i, src=src, so=so, di=di, e=e: self.arr_read(snap, src, simp(add(so, mul(sub(i, di), e))), e))
            return
        if not isc(n): raise ForkOn(n)
        if n > 4096: raise Unsupported('large struct memcpy')
        # cellwise
        so = s.off if isc(s.off) else simp(s.off); do = d.off if isc(d.off) else simp(d.off)
        if rd.kind == 'struct' and not isc(so): raise ForkOn(so)
        if rw.kind == 'struct' and not isc(do): raise ForkOn(do)
        if rd.kind == 'struct' and rw.kind == 'struct':
            items = []
            o = 0
            cov = sorted((c, m, v) for c, (m, v) in [(a, b) for a, b in rd.cells.items()] if c >= so and c + m <= so + n) if False else [(c, rd.cells[c][0], rd.cells[c][1]) for c in sorted(rd.cells) if c >= so and c + rd.cells[c][0] <= so + n]
            covered = sum(m for c, m, v in cov)
            if covered == n or rd.default in ('undef', 'zero'):
                w = self.wreg(st, rw)
                part = [c for c in rd.cells if c < so+n and so < c + rd.cells[c][0] and not (c >= so and c + rd.cells[c][0] <= so + n)]
                if not part:
                    if covered < n:
                        # uninitialised/zero holes
                        pos = 0
                        holes = []
                        for c, m, v in cov:
                            if c - so > pos: holes.append((pos, c - so - pos))
                            pos = c - so + m
                        if pos < n: holes.append((pos, n - pos))
                        for ho, hn in holes:
                            if rd.default == 'zero':
                                for j in range(hn): self.cell_write(st, w, do+ho+j, 1, 0)
                            else:
                                for j in range(hn): self.cell_write(st, w, do+ho+j, 1, fresh(8, 'undef'))
                    for c, m, v in cov: self.cell_write(st, w, do + c - so, m, v)
                    return
            w = self.wreg(st, rw)
            vals = [self.cell_read(st, rd, so+j, 1, 'int') for j in range(n)]
            for j, v in enumerate(vals): self.cell_write(st, w, do+j, 1, v)
            return
        w = self.wreg(st, rw)
        if rd.kind == 'struct':
            step = w.esz if (n % w.esz == 0) else 1
            vals = []
            for j in range(0, n, step):
                v = self.cell_read(st, rd, so+j, step, 'int')
                if isinstance(v, Ptr): v = self.p2i(st, v)
                if isinstance(v, bool) or (z3.is_expr(v) and z3.is_bool(v)): v = tobv(v, 8*step)
                vals.append(v)
            for j, v in enumerate(vals): self.arr_write(st, w, add(do, j*step), step, v)
        else:
            step = 8 if n % 8 == 0 else 4 if n % 4 == 0 else 2 if n % 2 == 0 else 1
            if n in (1, 2, 4, 8): step = n
            vals = [self.arr_read(st, rd, add(so, j), step) for j in range(0, n, step)]
            for j, v in enumerate(vals): self.cell_write(st, w, do+j*step, step, v)
    def memset(self, st, d, val, n):
        n = simp(n)
        if isc(n) and n == 0: return
        rw = self.access(st, d, n, True)
        if rw is None: st.assume(False); return
        val = trunc(val, 8)
        if rw.kind == 'raw':
            rw = self.wreg(st, rw)
            if d.off == 0 and (rw.size is n or sameval(rw.size, n)) and isc(val) and val == 0:
                rw.info = 'zeroed'
            rw = self.ensure_array(st, rw, 8 if self.elem_index(st, n, 8)[1] == 0 and self.elem_index(st, d.off, 8)[1] == 0 else 1)
        w = self.wreg(st, rw)
        if w.kind == 'array':
            e = w.esz
            di, drem = self.elem_index(st, d.off, e)
            nn, nrem = self.elem_index(st, n, e)
            if drem != 0 or nrem != 0: raise Unsupported('memset alignment')
            v = bv(val, 8)
            x = v if e == 1 else Concat(*([v] * e))
            x = norm(simplify(x))
            if isc(nn) and nn <= 8:
                for i in range(nn): w.arr = AStore(w.arr, add(di, i), x)
            else:
                w.arr = ARange(w.arr, di, nn, lambda i, x=x: x)
            return
        if not isc(n): raise ForkOn(n)
        do = simp(d.off)
        if not isc(do): raise ForkOn(do)
        for o in [o for o in w.cells if o >= do and o + w.cells[o][0] <= do+n]: del w.cells[o]
        j = 0
        while j < n:
            k = 8 if (do+j) % 8 == 0 and n-j >= 8 else 1
            v = bv(val, 8)
            self.cell_write(st, w, do+j, k, norm(simplify(v if k == 1 else Concat(*([v]*8)))))
            j += k
    def free(self, st, p, how):
        if p.r == 0:
            return
        r = self.region(st, p.r)
        if not r.alive:
            self.oblige(st, 'no double free (%s)' % r.name, False, 'safety'); return
        if r.heap is None:
            self.oblige(st, 'free of non-heap memory (%s)' % r.name, False, 'safety'); return
        if r.heap != how and not (r.heap == 'any'):
            self.oblige(st, 'matching deallocation (%s: %s/%s)' % (r.name, r.heap, how), False, 'safety')
        if not (isc(p.off) and p.off == 0):
            self.oblige(st, 'free of interior pointer', eq(p.off, 0), 'safety')
        r = self.wreg(st, r)
        r.alive = False

    # ------------------------------------------------------------ operand evaluation
    def ev(self, st, fr, v):
        k = v.k
        if k == 'loc':
            return fr.regs[v.v]
        x = self.const(fr.fn.mod, v)
        if isinstance(x, tuple) and x and x[0] == 'p2i': return self.p2i(st, x[1])
        return x

    # ------------------------------------------------------------ running
    def push(self, st, fn, args, ret=None, tag=None):
        fr = Frame(fn)
        fr.ret = ret; fr.tag = tag
        if len(args) < len(fn.params): raise Unsupported('arity of %s' % fn.name)
        for (nm, t, pa), a in zip(fn.params, args):
            bvl = [x for x in pa if isinstance(x, tuple) and x[0] == 'byval']
            if bvl:
                n = fn.mod.size(bvl[0][1])
                q = self.alloc(st, 'byval', n)
                fr.allocas.append(q.r)
                self.memcpy(st, q, a, n)
                a = q
            fr.regs[nm] = a
        fr.blk = fn.entry if fn._blocks is not None else (fn.blocks and fn.entry)
        st.frames.append(fr)
        self.inlined[fn.name] = self.inlined.get(fn.name, 0) + 1
        return fr

    def call(self, fname, args, st):
        """run function fname from st; list of Out(ret/throw/abort)"""
        fn = self.prog.func(fname)
        if fn is None: raise Unsupported('no function %s' % fname)
        st = st.copy()
        self.push(st, fn, args, None, 'base')
        return self.run(st, None, len(st.frames))

    def run(self, st, stop=None, basedepth=1):
        work = [st]
        outs = []
        while work:
            s = work.pop()
            self.npaths += 1
            if self.npaths > self.max_paths: raise Budget('too many paths')
            try:
                self.run_path(s, stop, basedepth, work, outs)
            except ForkOn as f:
                raise
        return outs

    def run_path(self, st, stop, basedepth, work, outs):
        while True:
            fr = st.frames[-1]
            ins = fr.fn.blocks[fr.blk].instrs
            i = ins[fr.ip]
            st.steps += 1
            if st.steps > 400000: raise Budget('too many steps')
            try:
                r = self.step(st, fr, i, stop, basedepth)
            except ForkOn as f:
                ss = self.concretize(st, f.expr)
                if not ss: return
                work.extend(ss[1:])
                st = ss[0]
                continue
            if r is None: continue
            if isinstance(r, Out):
                outs.append(r); return
            if isinstance(r, list):
                # list of states / Outs
                nxt = None
                for x in r:
                    if isinstance(x, Out): outs.append(x)
                    elif nxt is None: nxt = x
                    else: work.append(x)
                if nxt is None: return
                st = nxt
                continue
    def concretize(self, st, e):
        """fork on the possible values of e; each state retries the instruction with e fixed"""
        vals = []
        s = st.copy()
        while True:
            r, m = self.sat(s, [], want_model=True)
            if r != 'sat':
                if r == 'unknown': raise Unsupported('concretize: solver unknown')
                break
            v = m.eval(b64(e) if not isc(e) else e, model_completion=True)
            vals.append(v)
            s.assume(e != v)
            if len(vals) > self.concretize_limit: raise Unsupported('concretize: too many values of %s' % str(e)[:100])
        out = []
        for v in vals:
            t = st.copy()
            t.assume(e == v)
            t.note[('conc', e.get_id())] = (e, v)
            # substitute in registers of the top frame so that the retry sees a constant
            for fr in t.frames:
                for k, x in list(fr.regs.items()):
                    fr.regs[k] = subst_val(x, e, v)
            for rid, r in list(t.mem.items()):
                if r.cells:
                    ch = None
                    for o, (m, x) in r.cells.items():
                        y = subst_val(x, e, v)
                        if y is not x:
                            ch = ch or t.reg(rid)
                            ch.cells[o] = (m, y)
            out.append(t)
        return out

    def jump(self, st, fr, target, stop):
        """take the edge fr.blk -> target; returns None or list/Out"""
        fn = fr.fn
        blk = fn.blocks[target]
        phis = []
        for i in blk.instrs:
            if i.op != 'phi': break
            for v, b in zip(i.args, i.x):
                if b == fr.blk:
                    phis.append((i.res, i.ty, self.ev(st, fr, v)))
                    break
            else: raise Unsupported('phi without edge')
        src = fr.blk
        depth = len(st.frames)
        if stop is not None and stop[0] == depth and fr.fn is stop[3]:
            if target == stop[1]:
                return Out('back', st, {n: v for n, t, v in phis})
            if target not in stop[2]:
                return Out('exit', st, (target, {n: v for n, t, v in phis}))
        L = fn.loops.get(target)
        # leaving loops: clear their counters
        if fr.loops:
            for h in list(fr.loops):
                if target not in fn.loops[h][0]: del fr.loops[h]
        nphi = len(phis)
        if L is not None:
            body, latches = L
            if src in body and target in fr.loops:
                c = fr.loops[target]
                if c[0] == 'inv':
                    return []           # back edge of a loop under invariant: proved separately
                n = c[1] + 1
                grew = len(st.pc) > c[2]
                if self.bmc:
                    if n > self.bmc and grew or n > 2000:
                        self.cut = True
                        return []
                elif (grew and n > self.K) or n > 2000:
                    self.inv_loops.add((fn.name, target))
                    raise Restart('%s/%s' % (fn.name, target))
                fr.loops[target] = ('n', n, c[2])
            else:
                if ((fn.name, target) in self.inv_loops or self.inv_all) and not self.bmc:
                    fr.prev = src; fr.blk = target; fr.ip = nphi
                    import loops
                    return loops.loop_entry(self, st, target, phis, src)
                fr.loops[target] = ('n', 0, len(st.pc))
        for n, t, v in phis: fr.regs[n] = v
        fr.prev = src; fr.blk = target; fr.ip = nphi
        return None

    def branch(self, st, conds_targets, stop):
        """conds_targets: list of (cond, target); explore feasible ones"""
        live = []
        cts = [(simpb(c), t) for c, t in conds_targets]
        cts = [(c, t) for c, t in cts if c is not False]
        if len(cts) == 1 and cts[0][0] is True:
            live = cts
        else:
            rest = len(cts)
            for idx, (c, t) in enumerate(cts):
                if c is True or self.feasible(st, c): live.append((c, t))
        out = []
        for j, (c, t) in enumerate(live):
            s = st if j == len(live) - 1 else st.copy()
            if c is not True: s.assume(c)
            r = self.jump(s, s.frames[-1], t, stop)
            if r is None: out.append(s)
            elif isinstance(r, Out): out.append(r)
            else: out.extend(r)
        if len(out) == 1 and not isinstance(out[0], Out): 
            if out[0] is st: return None
        return out

    def ret(self, st, val, stop, basedepth):
        fr = st.frames.pop()
        for a in fr.allocas:
            r = st.reg(a); r.alive = False
        if fr.tag == 'base' and len(st.frames) == basedepth - 1:
            return Out('ret', st, val)
        if stop is not None and len(st.frames) < stop[0]:
            return Out('leave', st, val)
        ci = fr.ret
        cf = st.frames[-1]
        if ci.res is not None: cf.regs[ci.res] = val
        if ci.op == 'invoke':
            return self.jump(st, cf, ci.x['normal'], stop)
        cf.ip += 1
        return None

    def throw(self, st, exc, stop, basedepth):
        """unwind"""
        st.exc = exc
        while st.frames:
            fr = st.frames[-1]
            i = fr.fn.blocks[fr.blk].instrs[fr.ip]
            if i.op == 'invoke':
                ub = i.x['unwind']
                lp = None
                for j in fr.fn.blocks[ub].instrs:
                    if j.op == 'landingpad': lp = j; break
                sel = self.match(st, fr, lp, exc)
                if sel is not None:
                    st.note['sel'] = sel
                    return self.jump(st, fr, ub, stop)
            # nounwind function => terminate
            st.frames.pop()
            for a in fr.allocas:
                r = st.reg(a); r.alive = False
            if fr.tag == 'base' and len(st.frames) == basedepth - 1:
                return Out('throw', st, exc)
            if stop is not None and len(st.frames) < stop[0]:
                return Out('leave', st, None)
        return Out('throw', st, exc)
    def match(self, st, fr, lp, exc):
        """selector value, or None when the landing pad is not entered"""
        cleanup = False
        for k, v in lp.x:
            if k == 'cleanup': cleanup = True
            elif k == 'catch':
                if v.k == 'null': return 0x7fff
                if self.isa(exc.ti, v.v): return self.typeid(v.v)
            elif k == 'filter':
                return -1 & mask(32)
        return 0 if cleanup else None
    def typeid(self, name):
        return self.typeids.setdefault(name, len(self.typeids) + 1)
    STDH = {'_ZTISt9bad_alloc': ['_ZTISt9exception'], '_ZTISt20bad_array_new_length': ['_ZTISt9bad_alloc'],
            '_ZTISt11logic_error': ['_ZTISt9exception'], '_ZTISt13runtime_error': ['_ZTISt9exception'],
            '_ZTISt12out_of_range': ['_ZTISt11logic_error'], '_ZTISt12length_error': ['_ZTISt11logic_error'],
            '_ZTISt16invalid_argument': ['_ZTISt11logic_error'], '_ZTISt12domain_error': ['_ZTISt11logic_error'],
            '_ZTISt14overflow_error': ['_ZTISt13runtime_error'], '_ZTISt11range_error': ['_ZTISt13runtime_error'],
            '_ZTISt15underflow_error': ['_ZTISt13runtime_error'], '_ZTISt8bad_cast': ['_ZTISt9exception'],
            '_ZTISt12bad_weak_ptr': ['_ZTISt9exception'], '_ZTISt17bad_function_call': ['_ZTISt9exception'],
            '_ZTINSt8ios_base7failureB5cxx11E': ['_ZTISt13runtime_error'], '_ZTISt10bad_typeid': ['_ZTISt9exception']}
    def parents(self, ti):
        if ti in self.STDH: return self.STDH[ti]
        g = self.prog.glob(ti)
        if not g or g[1][2] is None: return []
        out = []
        def w(v):
            if v.k == 'global' and v.v.startswith('_ZTI') : out.append(v.v)
            elif v.k == 'agg':
                for e in v.v: w(e)
        w(g[1][2])
        return out
    def isa(self, ti, base):
        if ti == base: return True
        return any(self.isa(p, base) for p in self.parents(ti))

    # ------------------------------------------------------------ one instruction
    def step(self, st, fr, i, stop, basedepth):
        op = i.op
        mod = fr.fn.mod
        if op == 'br':
            if not i.args:
                return self.jump(st, fr, i.x[0], stop)
            c = self.ev(st, fr, i.args[0])
            if isinstance(c, bool):
                return self.jump(st, fr, i.x[0 if c else 1], stop)
            if i.x[0] == i.x[1]: return self.jump(st, fr, i.x[0], stop)
            return self.branch(st, [(c, i.x[0]), (bnot(c), i.x[1])], stop)
        if op == 'switch':
            v = self.ev(st, fr, i.args[0]); w = i.ty.a
            d, cases = i.x
            if isinstance(v, bool): v = int(v)
            if isc(v):
                for cv, t in cases:
                    if cv & mask(w) == v: return self.jump(st, fr, t, stop)
                return self.jump(st, fr, d, stop)
            if w == 1: raise Unsupported('switch i1')
            cts = []
            by = {}
            for cv, t in cases: by.setdefault(t, []).append(cv & mask(w))
            for t, l in by.items(): cts.append((bor(*[v == c for c in l]), t))
            cts.append((band(*[v != (c & mask(w)) for c, t in cases]), d))
            return self.branch(st, cts, stop)
        if op == 'ret':
            val = self.ev(st, fr, i.args[0]) if i.args else None
            return self.ret(st, val, stop, basedepth)
        if op in ('call', 'invoke'):
            return self.do_call(st, fr, i, stop, basedepth)
        if op == 'unreachable':
            return self.abort(st, 'unreachable reached')
        if op == 'resume':
            fr.ip = fr.ip
            exc = st.exc
            # continue unwinding above this frame
            f = st.frames.pop()
            for a in f.allocas:
                r = st.reg(a); r.alive = False
            if f.tag == 'base' and len(st.frames) == basedepth - 1: return Out('throw', st, exc)
            if stop is not None and len(st.frames) < stop[0]: return Out('leave', st, None)
            return self.throw(st, exc, stop, basedepth)
        if op == 'landingpad':
            fr.regs[i.res] = (st.exc.obj if st.exc else NULL, st.note.get('sel', 0))
            fr.ip += 1
            return None
        if op == 'unsupported':
            raise Unsupported('instruction %s' % i.x)
        v = self.compute(st, fr, i, mod)
        if isinstance(v, Fork2):
            out = []
            for c, val in v.alts:
                if self.feasible(st, c):
                    s = st.copy(); s.assume(simpb(c)) if simpb(c) is not True else None
                    f = s.frames[-1]
                    f.regs[i.res] = val; f.ip += 1
                    out.append(s)
            return out
        if i.res is not None: fr.regs[i.res] = v
        fr.ip += 1
        return None

    def compute(self, st, fr, i, mod):
        op = i.op
        ev = lambda k: self.ev(st, fr, i.args[k])
        if op == 'load':
            return self.load(st, self.ptr(st, ev(0)), i.ty, mod)
        if op == 'store':
            self.store(st, self.ptr(st, ev(1)), ev(0), i.ty, mod)
            return None
        if op == 'alloca':
            n = mod.size(i.ty)
            if i.args:
                c = ev(0)
                n = mul(n, c)
            p = self.alloc(st, i.res, n, 'struct' if isc(n) else 'raw')
            fr.allocas.append(p.r)
            return p
        if op == 'getelementptr':
            p = self.ptr(st, ev(0))
            t = mod.resolve(i.ty)
            off = 0
            for k in range(1, len(i.args)):
                idx = ev(k)
                w = i.args[k].ty.a
                if k == 1:
                    off = add(off, mul(sext(idx, w, 64), mod.size(t)))
                elif t.k == 'struct':
                    off = add(off, mod.layout(t)[2][idx]); t = mod.resolve(t.a[idx])
                else:
                    off = add(off, mul(sext(idx, w, 64), mod.size(t.b))); t = mod.resolve(t.b)
            return Ptr(p.r, simp(add(p.off, off)))
        if op == 'icmp':
            a, b = ev(0), ev(1)
            if mod.resolve(i.ty).k == 'ptr':
                a, b = self.ptr(st, a), self.ptr(st, b)
                if self.icmp_log is not None and a.r == b.r and not (isc(a.off) and isc(b.off)): self.icmp_log.append((a.off, b.off, 64))
                return self.cmp_ptr(st, i.x, a, b)
            if i.ty.a == 1:
                a, b = tob(a), tob(b)
                if i.x == 'eq': return simpb(a == b)
                if i.x == 'ne': return simpb(a != b)
                a = tobv(a, 1); b = tobv(b, 1)
            if self.icmp_log is not None and not (isc(a) and isc(b)):
                self.icmp_log.append((a, b, i.ty.a))
            return icmp(i.x, a, b, i.ty.a)
        if op in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'udiv', 'sdiv', 'urem', 'srem'):
            a, b = ev(0), ev(1)
            return self.binop(st, op, a, b, i.ty.a, i.flags)
        if op in ('zext', 'sext', 'trunc'):
            a = ev(0); w0 = i.x.a; w = i.ty.a
            if w0 == 1:
                if isinstance(a, bool): return (1 if op == 'zext' else mask(w)) if a else 0
                return If(a, BitVecVal(1 if op == 'zext' else mask(w), w), BitVecVal(0, w))
            if op == 'zext': return zext(a, w0, w)
            if op == 'sext': return sext(a, w0, w)
            if w == 1:
                if isc(a): return bool(a & 1)
                return simpb(Extract(0, 0, a) == 1)
            return trunc(a, w)
        if op == 'select':
            c, a, b = ev(0), ev(1), ev(2)
            if isinstance(c, bool): return a if c else b
            if sameval(a, b): return a
            t = mod.resolve(i.ty)
            if t.k == 'ptr':
                a, b = self.ptr(st, a), self.ptr(st, b)
                if a.r == b.r: return Ptr(a.r, ite(c, a.off, b.off, 64))
                return Fork2([(c, a), (bnot(c), b)])
            if t.k == 'int' and t.a == 1:
                return simpb(If(c, tob(a), tob(b)))
            if isinstance(a, tuple): return Fork2([(c, a), (bnot(c), b)])
            w = t.a if t.k == 'int' else (32 if t.k == 'float' else 64)
            return ite(c, a, b, w)
        if op == 'freeze': return ev(0)
        if op == 'extractvalue':
            a = ev(0)
            for k in i.x: a = a[k]
            return a
        if op == 'insertvalue':
            a, b = ev(0), ev(1)
            return ins_val(a, i.x, b)
        if op == 'ptrtoint':
            v = self.p2i(st, self.ptr(st, ev(0)))
            return trunc(v, i.ty.a)
        if op == 'inttoptr': return self.i2p(st, ev(0))
        if op in ('bitcast', 'addrspacecast'): return ev(0)
        if op in ('fadd', 'fsub', 'fmul', 'fdiv', 'frem', 'fneg', 'fcmp', 'fptrunc', 'fpext', 'fptoui', 'fptosi', 'uitofp', 'sitofp'):
            return self.fpop(st, fr, i, ev)
        if op == 'atomicrmw':
            p = self.ptr(st, ev(0)); b = ev(1)
            a = self.load(st, p, i.ty, mod)
            o = {'add': 'add', 'sub': 'sub', 'and': 'and', 'or': 'or', 'xor': 'xor'}.get(i.x)
            n = b if i.x == 'xchg' else self.binop(st, o, a, b, i.ty.a, ())
            self.store(st, p, n, i.ty, mod)
            return a
        if op == 'cmpxchg':
            p = self.ptr(st, ev(0)); a, b = ev(1), ev(2)
            old = self.load(st, p, i.ty, mod)
            if isinstance(old, Ptr) or isinstance(a, Ptr):
                c = self.cmp_ptr(st, 'eq', self.ptr(st, old), self.ptr(st, a))
                if not isinstance(c, bool): raise Unsupported('cmpxchg ptr')
                if c: self.store(st, p, b, i.ty, mod)
                return (old, c)
            c = icmp('eq', old, a, i.ty.a)
            self.store(st, p, ite(c, b, old, i.ty.a), i.ty, mod)
            return (old, c)
        if op == 'fence': return None
        raise Unsupported('op %s' % op)

    def ptr(self, st, v):
        if isinstance(v, Ptr): return v
        if isinstance(v, tuple) and v and v[0] == 'undefptr':
            self.oblige(st, 'no use of uninitialised pointer', False, 'safety')
            st.assume(False)
            return NULL
        if isinstance(v, tuple) and v and v[0] == 'p2i': return v[1]
        return self.i2p(st, v)
    def cmp_ptr(self, st, pred, a, b):
        if a.r == b.r:
            return icmp(pred, a.off, b.off, 64)
        if pred in ('eq', 'ne'):
            return pred == 'ne'      # distinct objects have distinct addresses (one-past-end excluded)
        return icmp(pred, self.p2i(st, a), self.p2i(st, b), 64)

    def binop(self, st, op, a, b, w, flags=()):
        if w == 1:
            a, b = tob(a) if not isinstance(a, bool) else a, tob(b) if not isinstance(b, bool) else b
            if op == 'and' or op == 'mul': return simpb(band(a, b))
            if op == 'or': return simpb(bor(a, b))
            if op in ('xor', 'add', 'sub'): return simpb(z3.Xor(tob(a), tob(b)))
            raise Unsupported('i1 %s' % op)
        if isinstance(a, Ptr): a = self.p2i(st, a)
        if isinstance(b, Ptr): b = self.p2i(st, b)
        if op == 'add':
            r = add(a, b, w)
        elif op == 'sub':
            r = sub(a, b, w)
            if w == 64 and not isc(r) and self.bases and has_base(r): r = simp(r)
        elif op == 'mul': r = mul(a, b, w)
        elif isc(a) and isc(b):
            if op == 'and': return a & b
            if op == 'or': return a | b
            if op == 'xor': return a ^ b
            if op in ('shl', 'lshr', 'ashr'):
                if b >= w:
                    self.oblige(st, 'shift amount < width', False, 'safety'); return 0
                if op == 'shl': return (a << b) & mask(w)
                if op == 'lshr': return a >> b
                return (sgn(a, w) >> b) & mask(w)
            if b == 0:
                self.oblige(st, 'no division by zero', False, 'safety'); return 0
            if op == 'udiv': return a // b
            if op == 'urem': return a % b
            x, y = sgn(a, w), sgn(b, w)
            q = abs(x) // abs(y)
            if (x < 0) != (y < 0): q = -q
            if op == 'sdiv': return q & mask(w)
            return (x - q*y) & mask(w)
        else:
            A, B = bv(a, w), bv(b, w)
            if op == 'and':
                if isc(b) and b == mask(w): r = a
                elif (isc(a) and a == 0) or (isc(b) and b == 0): r = 0
                else: r = A & B
            elif op == 'or':
                if isc(b) and b == 0: r = a
                elif isc(a) and a == 0: r = b
                else: r = A | B
            elif op == 'xor': r = A ^ B
            elif op in ('shl', 'lshr', 'ashr'):
                if isc(b):
                    if b >= w: self.oblige(st, 'shift amount < width', False, 'safety')
                elif self.ub_shift:
                    c = simpb(ULT(B, w))
                    if c is not True: self.oblige(st, 'shift amount < width', c, 'safety')
                if w == 64 and op != 'shl' and isc(b) and 0 < b < 8 and low_zero(A, b):
                    return self.unscale(st, A, b, op == 'ashr')
                r = A << B if op == 'shl' else LShR(A, B) if op == 'lshr' else A >> B
            else:
                if isc(b):
                    if b == 0: self.oblige(st, 'no division by zero', False, 'safety')
                    if b & (b-1) == 0 and b > 0:
                        k = b.bit_length()-1
                        if op == 'udiv': return LShR(A, k) if k else a
                        if op == 'urem': return A & (b-1)
                        if op == 'sdiv' and 'exact' in flags: return self.unscale(st, A, k, True) if k else a
                    if op == 'sdiv' and 'exact' in flags and w == 64:
                        return self.exact_div(st, A, b)
                else:
                    self.oblige(st, 'no division by zero', B != 0, 'safety')
                r = {'udiv': lambda: z3.UDiv(A, B), 'urem': lambda: z3.URem(A, B), 'sdiv': lambda: A / B, 'srem': lambda: z3.SRem(A, B)}[op]()
        return r
    def exact_div(self, st, A, b):
        """(sdiv exact A b): A is a multiple of b; odd part by modular inverse"""
        k = (b & -b).bit_length() - 1
        odd = b >> k
        x = A >> k if k else A
        if odd != 1:
            # pattern q*b
            inv = pow(odd, -1, 1 << 64)
            x = x * BitVecVal(inv, 64)
        return norm(simplify(x))

    # floats are carried as their bit patterns
    def fsort(self, ty): return z3.FPSort(8, 24) if ty.k == 'float' else z3.FPSort(11, 53)
    def tofp(self, v, ty):
        if z3.is_const(v) and not z3.is_bv_value(v) and v.decl().name() in self.fpof: return self.fpof[v.decl().name()]
        return z3.fpBVToFP(bv(v, 32 if ty.k == 'float' else 64), self.fsort(ty))
    def frombits(self, st, f, ty):
        f = simplify(f)
        w = 32 if ty.k == 'float' else 64
        if z3.is_fp_value(f) and not f.isNaN():
            return simp(z3.fpToIEEEBV(f))
        if f.decl().kind() == z3.Z3_OP_FPA_TO_FP and f.num_args() == 1 and z3.is_bv(f.arg(0)):
            return f.arg(0)
        b = fresh(w, 'fpbits')
        st.assume(z3.fpBVToFP(b, self.fsort(ty)) == f)
        self.fpof[b.decl().name()] = f
        return b
    # conversions as uninterpreted functions of the value: what is proved holds for the IEEE ones in particular
    uf_conv = False
    def uf(self, name, x, w): return simp(z3.Function('conv_' + name, x.sort(), z3.BitVecSort(w))(x))
    def si_fp(self, x, w): return self.uf('si64_f%d' % w, x, w)       # signed 64 bit -> float
    def ui_fp(self, x, w): return self.uf('ui64_f%d' % w, x, w)
    def fp_ext(self, x): return self.uf('ext', x, 64)
    def fp_int(self, x, w, signed):                                    # double -> integer, defined in range only
        return simp(self.uf('f64_ui64', x, 64)) if w == 64 and not signed else simp(Extract(w - 1, 0, self.uf('f64_si64', x, 64)))
    def uf_fp(self, op, v, i):
        if op in ('uitofp', 'sitofp'):
            w = i.x.a; x = tobv(v, 8) if w == 1 else bv(v, w); w = x.size(); to = 32 if i.ty.k == 'float' else 64
            if w < 64: return self.si_fp(simp(bv((z3.SignExt if op == 'sitofp' else ZeroExt)(64 - w, x), 64)), to)
            return (self.si_fp if op == 'sitofp' else self.ui_fp)(x, to)
        x = bv(v, 32 if i.x.k == 'float' else 64)
        if op == 'fptrunc': return self.uf('trunc', x, 32)
        if op == 'fpext': return self.fp_ext(x)
        if x.size() == 32: x = bv(self.fp_ext(x), 64)
        return self.fp_int(x, i.ty.a, op == 'fptosi')
    def fpop(self, st, fr, i, ev):
        op = i.op
        rm = z3.RNE()
        if op == 'fcmp':
            a, b = self.tofp(ev(0), i.ty), self.tofp(ev(1), i.ty)
            un = Or(z3.fpIsNaN(a), z3.fpIsNaN(b))
            p = i.x
            base = {'eq': z3.fpEQ(a, b), 'gt': z3.fpGT(a, b), 'ge': z3.fpGEQ(a, b), 'lt': z3.fpLT(a, b), 'le': z3.fpLEQ(a, b), 'ne': And(Not(z3.fpEQ(a, b)), Not(un))}
            if p == 'ord': r = Not(un)
            elif p == 'uno': r = un
            elif p == 'true': r = z3.BoolVal(True)
            elif p == 'false': r = z3.BoolVal(False)
            elif p[0] == 'o': r = base[p[1:]]
            else: r = Or(un, base[p[1:]])
            return simpb(r)
        if op in ('fadd', 'fsub', 'fmul', 'fdiv'):
            a, b = self.tofp(ev(0), i.ty), self.tofp(ev(1), i.ty)
            f = {'fadd': z3.fpAdd, 'fsub': z3.fpSub, 'fmul': z3.fpMul, 'fdiv': z3.fpDiv}[op](rm, a, b)
            return self.frombits(st, f, i.ty)
        if op == 'fneg':
            w = 32 if i.ty.k == 'float' else 64
            return simp(bv(ev(0), w) ^ BitVecVal(1 << (w-1), w))
        if self.uf_conv and op in ('fptrunc', 'fpext', 'uitofp', 'sitofp', 'fptoui', 'fptosi'): return self.uf_fp(op, ev(0), i)
        if op in ('fptrunc', 'fpext'):
            a = self.tofp(ev(0), i.x)
            return self.frombits(st, z3.fpFPToFP(rm, a, self.fsort(i.ty)), i.ty)
        if op in ('uitofp', 'sitofp'):
            a = ev(0)
            w = i.x.a
            if w == 1: a = tobv(a, 8); w = 8
            a = bv(a, w)
            f = z3.fpUnsignedToFP(rm, a, self.fsort(i.ty)) if op == 'uitofp' else z3.fpSignedToFP(rm, a, self.fsort(i.ty))
            return self.frombits(st, f, i.ty)
        if op in ('fptoui', 'fptosi'):
            a = self.tofp(ev(0), i.x)
            w = i.ty.a
            r = z3.fpToUBV(z3.RTZ(), a, z3.BitVecSort(w)) if op == 'fptoui' else z3.fpToSBV(z3.RTZ(), a, z3.BitVecSort(w))
            return simp(r)
        raise Unsupported('fp op %s' % op)

    # ------------------------------------------------------------ calls
    def do_call(self, st, fr, i, stop, basedepth):
        cv = i.x['callee']
        if cv.k == 'asm':
            if cv.v.startswith('""'):     # compiler barrier
                fr.ip += 1; return None
            raise Unsupported('inline asm %s' % cv.v[:40])
        if cv.k == 'global':
            name = self.prog.canon(cv.v)
        else:
            p = self.ptr(st, self.ev(st, fr, cv))
            if p.r == 0:
                self.oblige(st, 'no call through null', False, 'safety'); return []
            r = self.region(st, p.r)
            if r.kind != 'func': raise Unsupported('indirect call to %s' % r.name)
            name = r.info
        args = [None if a.k == 'md' or a.ty.k == 'metadata' else self.ev(st, fr, a) for a in i.args]
        h = self.intrinsic(st, fr, i, name, args) if name.startswith('llvm.') else NotImplemented
        if h is NotImplemented:
            c = self.find_contract(name)
            if c is not None:
                tr = c(self, st, args, i)
                return self.finish(st, i, tr, stop, basedepth)
            fn = self.prog.func(name)
            if fn is None:
                raise Unsupported('external function without contract: %s' % dem(name))
            if len(st.frames) > self.maydepth: raise Unsupported('recursion too deep in %s' % dem(name))
            self.push(st, fn, args, i)
            return None
        return self.finish(st, i, h, stop, basedepth)
    def finish(self, st, i, tr, stop, basedepth):
        """tr: value | list of (kind, st, val)"""
        if not isinstance(tr, Tr):
            tr = Tr([('ret', st, tr)])
        out = []
        for kind, s, v in tr.l:
            if kind == 'ret':
                f = s.frames[-1]
                if i.res is not None: f.regs[i.res] = v
                if i.op == 'invoke':
                    r = self.jump(s, f, i.x['normal'], stop)
                    if r is None: out.append(s)
                    elif isinstance(r, Out): out.append(r)
                    else: out.extend(r)
                else:
                    f.ip += 1
                    out.append(s)
            elif kind == 'throw':
                r = self.throw(s, v, stop, basedepth)
                if r is None: out.append(s)
                elif isinstance(r, Out): out.append(r)
                else: out.extend(r)
            elif kind == 'abort':
                out.append(self.abort(s, v))
            elif kind == 'goto':       # state already positioned (contract pushed frames)
                out.append(s)
        if len(out) == 1 and out[0] is st: return None
        return out
    def find_contract(self, name):
        c = self.contracts.get(name)
        if c is not None: return c
        if name in self.pat_cache: return self.pat_cache[name]
        d = dem(name)
        r = None
        for rx, fn in self.patterns:
            m = rx.match(d)
            if m:
                r = (lambda fn, m, d: (lambda E, st, args, i: (E.note_used(d), fn(E, st, args, i, m))[1]))(fn, m, d)
                break
        self.pat_cache[name] = r
        return r
    def note_used(self, d):
        self.used[d] = self.used.get(d, 0) + 1
    def add_contract(self, name, fn, trusted=True):
        def c(E, st, args, i, fn=fn, name=name):
            if trusted: E.note_used(name)
            return fn(E, st, args, i)
        self.contracts[name] = c
    def contract_proved(self, name, fn):
        """a caller is checked against this contract; a separate job proves it on the body"""
        self.modular.append(name)
        self.add_contract(name, fn, trusted=False)
    def add_pattern(self, rx, fn, first=False):
        self.patterns.insert(0 if first else len(self.patterns), (re.compile(rx), fn))
        self.pat_cache = {}

    def intrinsic(self, st, fr, i, name, a):
        n = name[5:]
        if n.startswith(('lifetime', 'assume', 'dbg', 'experimental.noalias', 'donothing', 'prefetch', 'stackrestore', 'invariant', 'va_')):
            if n.startswith('va_'): raise Unsupported('varargs')
            return None
        if n.startswith('stacksave'): return NULL
        if n.startswith('expect'): return a[0]
        if n.startswith('memcpy'): self.memcpy(st, self.ptr(st, a[0]), self.ptr(st, a[1]), a[2]); return None
        if n.startswith('memmove'): self.memcpy(st, self.ptr(st, a[0]), self.ptr(st, a[1]), a[2]); return None
        if n.startswith('memset'): self.memset(st, self.ptr(st, a[0]), a[1], a[2]); return None
        if n.startswith(('trap', 'ubsantrap', 'debugtrap')):
            return Tr([('abort', st, '%s%s' % (n, '' if not a or a[0] is None else ':%s' % a[0]))])
        if n.startswith('is.constant'): return False
        if n.startswith('eh.typeid.for'):
            v = i.args[0]
            return self.typeid(v.v)
        w = i.ty.a if i.ty.k == 'int' else None
        if n.startswith('bswap'):
            x = a[0]
            if isc(x): return int.from_bytes(x.to_bytes(w//8, 'little'), 'big')
            return Concat(*[Extract(8*k+7, 8*k, x) for k in range(w//8)])
        if n.startswith('ctpop'):
            return simp(popcount(a[0], w, w))
        if n.startswith('cttz'):
            x = bv(a[0], w); r = BitVecVal(w, w)
            for k in reversed(range(w)): r = If(Extract(k, k, x) == 1, BitVecVal(k, w), r)
            return simp(r)
        if n.startswith('ctlz'):
            x = bv(a[0], w); r = BitVecVal(w, w)
            for k in range(w): r = If(Extract(k, k, x) == 1, BitVecVal(w-1-k, w), r)
            return simp(r)
        for nm, pr in (('umin', 'ult'), ('umax', 'ugt'), ('smin', 'slt'), ('smax', 'sgt')):
            if n.startswith(nm):
                return ite(icmp(pr, a[0], a[1], w), a[0], a[1], w)
        if n.startswith('abs'):
            return ite(icmp('slt', a[0], 0, w), sub(0, a[0], w), a[0], w)
        m = re.match(r'([us])(add|sub|mul)\.with\.overflow\.i(\d+)', n)
        if m:
            w = int(m.group(3)); A, B = bv(a[0], w), bv(a[1], w)
            r = self.binop(st, m.group(2), a[0], a[1], w)
            e = ZeroExt if m.group(1) == 'u' else SignExt
            k = w if m.group(2) == 'mul' else 2
            if m.group(2) == 'mul' and isc(a[1]) and m.group(1) == 'u':
                o = UGT(A, mask(w) // a[1]) if a[1] else z3.BoolVal(False)
            else:
                f = {'add': lambda x, y: x+y, 'sub': lambda x, y: x-y, 'mul': lambda x, y: x*y}[m.group(2)]
                o = f(e(k, A), e(k, B)) != e(k, f(A, B))
            return (r, simpb(o))
        m = re.match(r'([us])(add|sub)\.sat\.i(\d+)', n)
        if m and m.group(1) == 'u':
            w = int(m.group(3))
            if m.group(2) == 'sub': return ite(icmp('ult', a[0], a[1], w), 0, sub(a[0], a[1], w), w)
            s = add(a[0], a[1], w)
            return ite(icmp('ult', s, a[0], w), mask(w), s, w)
        if n.startswith('fabs'):
            w = 32 if i.ty.k == 'float' else 64
            return simp(bv(a[0], w) & mask(w-1))
        if n.startswith('fshl') or n.startswith('fshr'):
            A, B, C = (bv(x, w) for x in a[:3])
            c = z3.URem(C, BitVecVal(w, w))
            cat = Concat(A, B)
            if n.startswith('fshl'): return simp(Extract(2*w-1, w, cat << ZeroExt(w, c)))
            return simp(Extract(w-1, 0, LShR(cat, ZeroExt(w, c))))
        if n.startswith('objectsize'): return mask(64)
        raise Unsupported('intrinsic %s' % name)

class Tr:
    def __init__(self, l): self.l = l
class ForkOn(Exception):
    def __init__(self, e): self.expr = e
class Fork2:
    def __init__(self, alts): self.alts = alts

def low_zero(A, k):
    x = simplify(Extract(k-1, 0, A))
    return is_bv_value(x) and x.as_long() == 0
def divk(o, k):
    if is_bv_value(o):
        v = o.as_signed_long()
        return BitVecVal(v >> k, 64) if v & ((1 << k) - 1) == 0 else None
    kd = o.decl().kind()
    if kd == z3.Z3_OP_BADD:
        l = [divk(c, k) for c in o.children()]
        if any(x is None for x in l): return None
        r = l[0]
        for x in l[1:]: r = r + x
        return r
    if kd == z3.Z3_OP_BMUL and o.num_args() == 2 and is_bv_value(o.arg(0)):
        c = o.arg(0).as_signed_long()
        if c & ((1 << k) - 1) == 0: return BitVecVal(c >> k, 64) * o.arg(1)
        x = divk(o.arg(1), k)
        return None if x is None else o.arg(0) * x
    if kd == z3.Z3_OP_CONCAT:
        last = o.children()[-1]
        if is_bv_value(last) and last.size() >= k and last.as_long() & ((1 << k) - 1) == 0:
            return lift(simplify(Extract(63, k, o)), 64 - k)
        return None
    if kd == z3.Z3_OP_ITE:
        a, b = divk(o.arg(1), k), divk(o.arg(2), k)
        return None if a is None or b is None else If(o.arg(0), a, b)
    return None
def lift(e, w):
    """64-bit term congruent to the w-bit term e modulo 2^w (validity is checked by the caller)"""
    if is_bv_value(e):
        return BitVecVal(e.as_signed_long(), 64)
    k = e.decl().kind()
    if k == z3.Z3_OP_EXTRACT:
        hi, lo = e.params()
        if lo == 0 and e.arg(0).size() == 64: return e.arg(0)
        return None
    if k in (z3.Z3_OP_BADD, z3.Z3_OP_BMUL):
        l = [lift(c, w) for c in e.children()]
        if any(x is None for x in l): return None
        r = l[0]
        for x in l[1:]: r = r + x if k == z3.Z3_OP_BADD else r * x
        return r
    if k == z3.Z3_OP_CONCAT:
        last = e.children()[-1]
        if is_bv_value(last) and last.as_long() == 0:
            j = last.size()
            x = lift(simplify(Extract(w-1, j, e)), w - j)
            return None if x is None else x << j
        first = e.children()[0]
        if is_bv_value(first) and first.as_long() == 0:
            return ZeroExt(64 - w, e)
        return None
    if k == z3.Z3_OP_ITE:
        a, b = lift(e.arg(1), w), lift(e.arg(2), w)
        return None if a is None or b is None else If(e.arg(0), a, b)
    return None
def tobv(v, w):
    if isinstance(v, bool): return BitVecVal(int(v), w)
    if isc(v): return BitVecVal(v, w)
    if z3.is_bool(v): return If(v, BitVecVal(1, w), BitVecVal(0, w))
    return v
def ins_val(a, path, b):
    if not isinstance(a, tuple): a = (None, None)
    l = list(a)
    while len(l) <= path[0]: l.append(None)
    l[path[0]] = b if len(path) == 1 else ins_val(l[path[0]], path[1:], b)
    return tuple(l)
def icmp(p, a, b, w):
    if isinstance(a, bool): a = int(a)
    if isinstance(b, bool): b = int(b)
    if isc(a) and isc(b):
        x, y = sgn(a, w), sgn(b, w)
        return {'eq': a == b, 'ne': a != b, 'ult': a < b, 'ule': a <= b, 'ugt': a > b, 'uge': a >= b, 'slt': x < y, 'sle': x <= y, 'sgt': x > y, 'sge': x >= y}[p]
    A, B = bv(a, w), bv(b, w)
    r = {'eq': lambda: A == B, 'ne': lambda: A != B, 'ult': lambda: ULT(A, B), 'ule': lambda: ULE(A, B), 'ugt': lambda: UGT(A, B), 'uge': lambda: UGE(A, B),
         'slt': lambda: A < B, 'sle': lambda: A <= B, 'sgt': lambda: A > B, 'sge': lambda: A >= B}[p]()
    return simpb(r)
def fp_bits(s, k):
    import struct
    if s.startswith('0x'):
        if s[2] in 'KLMHR': raise Unsupported('fp80 constant')
        b = int(s, 16)
        if k == 'double': return b
        d = struct.unpack('<d', struct.pack('<Q', b))[0]
        return struct.unpack('<I', struct.pack('<f', d))[0]
    d = float(s)
    if k == 'double': return struct.unpack('<Q', struct.pack('<d', d))[0]
    return struct.unpack('<I', struct.pack('<f', d))[0]
def subst_val(x, e, v):
    if isinstance(x, Ptr):
        o = subst_val(x.off, e, v)
        return x if o is x.off else Ptr(x.r, o)
    if isinstance(x, tuple): return tuple(subst_val(y, e, v) for y in x)
    if z3.is_expr(x):
        y = z3.substitute(x, (e, v))
        if not y.eq(x): 
            y = simplify(y)
            if z3.is_true(y): return True
            if z3.is_false(y): return False
            return norm(y) if z3.is_bv(y) else y
    return x

_consts_cache = {}
def consts_of(e):
    """uninterpreted constants in e (list of exprs)"""
    k = e.get_id()
    c = _consts_cache.get(k)
    if c is not None and c[0].eq(e): return c[1]
    out = []; seen = set(); st = [e]
    while st:
        x = st.pop()
        i = x.get_id()
        if i in seen: continue
        seen.add(i)
        if z3.is_app(x):
            if x.num_args() == 0:
                if x.decl().kind() == z3.Z3_OP_UNINTERPRETED: out.append(x)
            else: st.extend(x.children())
    if len(_consts_cache) > 20000: _consts_cache.clear()
    _consts_cache[k] = (e, out)
    return out
def has_base(e):
    return any(x.decl().name().startswith('base!') for x in consts_of(e))
def decls_of(e):
    """names of all uninterpreted symbols (consts and functions)"""
    out = set(); seen = set(); st = [e]
    while st:
        x = st.pop()
        i = x.get_id()
        if i in seen: continue
        seen.add(i)
        if z3.is_app(x):
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED: out.add(x.decl().name())
            st.extend(x.children())
    return out
def collect_apps(e, names, visited, apps, found):
    st = [e]
    while st:
        x = st.pop()
        i = x.get_id()
        if i in visited: continue
        visited[i] = x
        if z3.is_app(x):
            if x.num_args() and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.decl().name() in names:
                a = simplify(x.arg(0))
                key = (x.decl().name(), a.get_id())
                if key not in apps:
                    apps.add(key); visited[('k', key)] = a
                    found.append((x.decl().name(), a))
            st.extend(x.children())
def all_apps(e):
    out = []; seen = set(); st = [e]
    while st:
        x = st.pop()
        i = x.get_id()
        if i in seen: continue
        seen.add(i)
        if z3.is_app(x):
            if x.num_args() and x.decl().kind() == z3.Z3_OP_UNINTERPRETED: out.append(x)
            st.extend(x.children())
    return out
def short(n):
    d = dem(n)
    d = d.replace('epics::pvData::', '')
    return d.split('(')[0][:80]
