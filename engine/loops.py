"""Loop invariants: closed forms in a ghost iteration counter t, history facts
(every completed iteration took a back edge), and Houdini candidates.  All of it
is checked to be inductive on the extracted code; nothing is assumed."""
import z3
from z3 import BitVecVal, BitVec, And, Or, Not, If, ULT, ULE, LShR, Extract, ZeroExt, simplify, is_bv_value
from sym import *
import sym
from exec import Out, decls_of, all_apps, Obl, short
TMAX = 1 << 60

class View:
    """a loop-head state as seen by candidate templates"""
    def __init__(self, E, st, t, L):
        self.E, self.st, self.t, self.L = E, st, t, L
    def get(self, loc): return get_loc(self.E, self.st, loc)

def get_loc(E, st, loc, phis=None):
    k = loc[0]
    if k == 'phi':
        if phis is not None: return phis[loc[1]]
        return st.frames[loc[2]].regs.get(loc[1])
    if k == 'cell':
        c = st.mem[loc[1]].cells.get(loc[2])
        return None if c is None or c[0] != loc[3] else c[1]
    if k == 'arr': return st.mem[loc[1]].arr
    if k == 'ghost': return st.ghost.get(loc[1])
def set_loc(E, st, loc, v):
    k = loc[0]
    if k == 'phi': st.frames[loc[2]].regs[loc[1]] = v
    elif k == 'cell':
        r = st.reg(loc[1]); E.cell_write(st, r, loc[2], loc[3], v)
    elif k == 'arr': st.reg(loc[1]).arr = v
    elif k == 'ghost': st.ghost[loc[1]] = v

def name_num(n):
    try: return int(n.rsplit('!', 1)[1])
    except Exception: return -1

class Loop:
    def __init__(self, E, st, header, phis, src):
        self.E, self.st, self.header, self.src = E, st, header, src
        self.depth = len(st.frames)
        fr = st.frames[-1]
        self.fn = fr.fn
        self.body = fr.fn.loops[header][0]
        self.phis = phis
        self.ctr0 = next(sym._ctr)
        self.t = BitVec(fresh_name('t'), 64)
        self.tname = self.t.decl().name()
        self.types = {n: t for n, t, v in phis}
        self.entry = {}
        self.order = []
        for n, t, v in phis:
            loc = ('phi', n, self.depth - 1)
            self.entry[loc] = v; self.order.append(loc)
        self.closed = {}
        self.banned = set()
        self.lost = set()
        self.facts = []
        self.kept = []
        self.rounds = 0
        self.strides = {}
        self.tbound = None       # w: 0 <= t < 2^w shown inductive (narrow counters)
        self.no_tbound = False
        self.discovery, self.aligned = True, set()
        self.shaped = {}

    def allowed(self, e):
        """e mentions only t and symbols that existed before the loop"""
        if not z3.is_expr(e): return True
        for n in decls_of(e):
            if n == self.tname or n.startswith(('base!', 'in!')): continue
            if name_num(n) > self.ctr0: return False
        return True

    def havoc(self, loc, v, s):
        if loc in self.lost: return ('lost',)
        if v is None:
            return fresh(8*loc[3], 'hv') if loc[0] == 'cell' else ('lost',)
        if isinstance(v, Ptr):
            r = s.mem.get(v.r)
            if r is not None and r.kind == 'obj' and getattr(r.info, 'stride', None) and r.info.whole(v.off):
                # stays at the start of some element (checked at every back edge)
                self.shaped[loc] = r.info
                return Ptr(v.r, simp(fresh(64, 'hvo') * (1 << r.info.stride)))
            if self.discovery and r is not None and (r.kind == 'raw' or r.kind == 'array' and r.esz > 1):
                # looking for closed forms: element-aligned offsets (redone without if the pointer stays open)
                self.aligned.add(loc)
                return Ptr(v.r, simp(add(v.off, fresh(64, 'hvo') * (r.esz or 8))))
            return Ptr(v.r, fresh(64, 'hvo'))
        if isinstance(v, bool) or (z3.is_expr(v) and z3.is_bool(v)): return freshb('hvb')
        if isinstance(v, int):
            if loc[0] == 'phi':
                t = self.types[loc[1]]
                w = t.a if t.k == 'int' else 32 if t.k == 'float' else 64
            elif loc[0] == 'cell': w = 8*loc[3]
            else: w = 64
            return fresh(w, 'hv')
        if isinstance(v, AV): return ABase(v.w, fresh_name('H'))
        if isinstance(v, tuple): return ('lost',)
        if z3.is_bv(v): return fresh(v.size(), 'hv')
        raise Unsupported('havoc %r' % (v,))

    def head(self, tval, entry=False):
        s = self.st.copy()
        s.frames[-1].loops[self.header] = ('inv',)
        for loc in self.order:
            v0 = self.entry[loc]
            if entry:
                if v0 is not None: set_loc(self.E, s, loc, v0)
                continue
            if loc in self.closed: v = self.closed[loc](tval)
            else: v = self.havoc(loc, v0, s)
            set_loc(self.E, s, loc, v)
        return s

    def explore(self, s):
        E = self.E
        E.silent += 1
        try:
            outs = E.run(s, (self.depth, self.header, self.body, self.fn), 10**9)
        finally:
            E.silent -= 1
        self.rounds += 1
        return [o for o in outs if o.kind == 'back'], outs

    def diff(self, s, o):
        """modified locations (besides phis) on one back edge"""
        out = []
        for rid, r0 in s.mem.items():
            r1 = o.st.mem.get(rid)
            if r1 is None or r1 is r0: continue
            if r0.alive != r1.alive:
                raise Unsupported('region %s freed in a loop' % r0.name)
            if r0.kind == 'raw' and r1.kind == 'array':
                r = self.st.reg(rid); r.kind = 'array'; r.esz = r1.esz; r.cells = None
                r.arr = ABase(r.esz*8, fresh_name('raw_' + r.name))
                # pre-loop object: keep its symbol out of the "new" range
                return 'again'
            if r1.kind == 'array':
                if r1.arr is not r0.arr: out.append(('arr', rid))
            elif r1.kind == 'struct':
                for off, (n, v) in r1.cells.items():
                    c = r0.cells.get(off)
                    if c is None or c[0] != n or not sameval(c[1], v): out.append(('cell', rid, off, n))
            elif r1.kind == 'obj':
                out.extend(r1.info.diff(rid, r0, r1))
        for k, v in o.st.ghost.items():
            v0 = s.ghost.get(k)
            if v is not v0 and not (not isinstance(v, AV) and v0 is not None and sameval(v, v0)):
                out.append(('ghost', k))
        return out

    def run(self):
        E, st = self.E, self.st
        while True:
            if self.rounds > 40: raise Unsupported('loop analysis does not converge')
            s = self.head(self.t)
            self.assume_t(s)
            mark = len(s.pc)
            E.icmp_log, saved = [], getattr(E, 'icmp_log', None)
            try:
                backs, outs = self.explore(s)
            finally:
                icl, E.icmp_log = E.icmp_log, saved
            if not backs:
                # body never comes back: loop head is visited once
                s = self.head(None, entry=True)
                return [s]
            again = False
            new = []
            for o in backs:
                d = self.diff(s, o)
                if d == 'again': again = True; break
                for loc in d:
                    if loc not in self.entry and loc not in new: new.append(loc)
            if again: continue
            if new:
                for loc in new:
                    v = get_loc(E, st, loc)
                    if v is None and loc[0] == 'cell' and any(o < loc[2]+loc[3] and loc[2] < o+c[0] for o, c in st.mem[loc[1]].cells.items()):
                        try:
                            v = E.cell_read(st, st.mem[loc[1]], loc[2], loc[3], 'int')
                        except Unsupported: v = None
                    if loc[0] == 'cell' and v is None and st.mem[loc[1]].default in ('sym', 'zero'):
                        bvv = None
                        for o in backs:
                            x = get_loc(E, o.st, loc)
                            if x is not None: bvv = x
                        if isinstance(bvv, Ptr): self.lost.add(loc)
                        v = E.cell_read(st, st.mem[loc[1]], loc[2], loc[3], 'int')
                    self.entry[loc] = v
                    self.order.append(loc)
                continue
            # pointer sanity: locations whose region changes are lost
            chg = False
            for loc in self.order:
                if loc in self.closed or loc in self.lost: continue
                v0 = self.entry[loc]
                for o in backs:
                    v = get_loc(E, o.st, loc, o.val if loc[0] == 'phi' else None)
                    if isinstance(v, tuple) or isinstance(v, Ptr) != isinstance(v0, Ptr) or (isinstance(v, Ptr) and v.r != v0.r):
                        if not (v0 is None and not isinstance(v, (Ptr, tuple))):
                            self.lost.add(loc); chg = True
                            break
                    elif loc in self.shaped and not self.shaped[loc].whole(v.off):
                        self.lost.add(loc); chg = True
                        break
            if chg: continue
            prog = False
            for loc in self.order:
                if loc in self.closed or loc in self.banned: continue
                f = self.close(loc, s, backs, mark)
                if f is not None:
                    self.closed[loc] = f; prog = True
            if prog: continue
            if self.tbound is None and not self.no_tbound and any(l not in self.closed and l not in self.lost for l in self.order):
                ws = sorted(set(self.types[l[1]].a for l in self.closed if l[0] == 'phi' and self.types[l[1]].k == 'int' and 8 <= self.types[l[1]].a < 64))
                for w in [x for y in ws for x in (y - 1, y)]:
                    if self.check_tbound(w, backs):
                        self.tbound = w; break
                else: self.no_tbound = True
                if self.tbound: self.banned.clear(); continue
            # verify closed forms
            bad = []
            if self.tbound is not None and not self.check_tbound(self.tbound, backs):
                self.tbound = None; self.no_tbound = True; self.closed.clear(); self.banned.clear()
                continue
            for loc in list(self.closed):
                for o in backs:
                    if not self.check_closed(loc, o): bad.append(loc); break
            if bad:
                for l in bad:
                    del self.closed[l]; self.banned.add(l)
                continue
            if self.discovery and any(l not in self.closed for l in self.aligned):
                self.discovery = False; self.closed.clear(); self.banned.clear()
                continue
            break
        self.backs0, self.mark, self.icl = backs, mark, icl
        self.history(s, backs, mark)
        # conditional candidates (Houdini)
        cands = self.candidates(icl)
        e0 = self.head(None, entry=True)
        live = []
        for nm, fn in cands:
            if self.prove_cand(fn, e0, BitVecVal(0, 64)): live.append((nm, fn))
        while live:
            s = self.head(self.t)
            self.add_facts(s)
            for nm, fn in live: self.assume_cand(fn, s, self.t)
            backs, outs = self.explore(s)
            drop = []
            for o in backs:
                # place the new phi values
                b = o.st
                for n, v in o.val.items(): b.frames[self.depth-1].regs[n] = v
                self.prefilter([c for c in live if c not in drop], b, drop)
                for c in live:
                    if c in drop: continue
                    if not self.prove_cand(c[1], b, self.t + 1): drop.append(c)
            if not drop: break
            live = [c for c in live if c not in drop]
        self.kept = live
        s = self.head(self.t)
        self.add_facts(s)
        for nm, fn in live: self.assume_cand(fn, s, self.t)
        open_locs = [l for l in self.order if l not in self.closed and l not in self.lost]
        if open_locs: s.inexact = True
        s.note[('loop', self.fn.name, self.header)] = self.t
        if not E.silent:
            l = None
            for i in self.fn.blocks[self.header].instrs:
                l = l or self.fn.mod.loc(i.dbg)
            E.loop_log.append({'fn': short(self.fn.name), 'line': l[1] if l else None, 'closed': len(self.closed), 'open': [self.locname(x) for x in open_locs],
                               'candidates_kept': [n for n, f in live], 'candidates_tried': len(cands)})
            o = Obl('loop invariant inductive', 'loop', 'discharged', '%s:%s' % (short(self.fn.name), l[1] if l else self.header))
            E.obls.append(o)
        return [s]

    def locname(self, loc):
        if loc[0] == 'phi': return 'phi %' + str(loc[1])
        if loc[0] in ('cell', 'arr'): return '%s %s %s' % (loc[0], self.E.regname.get(loc[1]), loc[2] if len(loc) > 2 else '')
        return str(loc)

    def assume_t(self, s):
        s.assume(ULT(self.t, TMAX if self.tbound is None else 1 << self.tbound))
    def check_tbound(self, w, backs):
        for o in backs:
            s = o.st.copy(); s.assume(ULT(self.t, 1 << w))
            if not self.E.implied(s, ULT(self.t + 1, 1 << w)): return False
        return True
    def add_facts(self, s):
        self.assume_t(s)
        for f in self.facts: s.facts.append(f)

    # ---- closed forms
    def close(self, loc, s, backs, mark):
        E = self.E
        v0 = self.entry[loc]
        if loc in self.lost: return None
        hv = get_loc(E, s, loc)
        vals = [get_loc(E, o.st, loc, o.val if loc[0] == 'phi' else None) for o in backs]
        if any(v is None for v in vals): return None
        if isinstance(hv, AV):
            return self.close_array(loc, hv, v0, s, backs, vals, mark)
        if isinstance(hv, Ptr):
            if any(v.r != hv.r for v in vals): return None
            f = self.close_int(hv.off, v0.off, [v.off for v in vals], 64)
            if f is None: return None
            return lambda t, f=f, r=hv.r: Ptr(r, simp(f(t)))
        if isinstance(hv, tuple): return None
        if z3.is_bool(hv):
            if all(self.eqv(v, vals[0]) for v in vals) and self.allowed(vals[0]):
                return self.shift_form(v0, vals[0], None)
            return None
        w = hv.size()
        return self.close_int(hv, v0, vals, w)
    def eqv(self, a, b): return sameval(a, b)
    def close_int(self, hv, v0, vals, w):
        if isinstance(vals[0], bool): return None
        c = None
        ok = True
        for v in vals:
            if z3.is_expr(v) and z3.is_bool(v): return None
            d = simp(bv(v, w) - hv)
            if not isc(d) or (c is not None and d != c): ok = False; break
            c = d
        if ok:
            if v0 is None: return None
            def f(t, c=c, v0=v0, w=w):
                if isc(t) and False: pass
                tt = t if w == 64 else (Extract(w-1, 0, t) if w < 64 else ZeroExt(w-64, t))
                if c == 0: return v0
                return norm(simplify(bv(v0, w) + BitVecVal(c, w) * tt))
            return f
        # repeated shift by a constant
        if v0 is not None and all(sameval(simp(x), simp(vals[0])) for x in vals) and w >= 8:
            for op in ('LShR', '<<'):
                for c in (1, 2, 4, 8, 16, 32):
                    if c < w and sameval(simp(vals[0]), simp(LShR(hv, c) if op == 'LShR' else hv << c)):
                        def f(t, c=c, v0=bv(v0, w), w=w, op=op):
                            if isc(t) and t == 0: return v0
                            n = b64(t) * c
                            n = Extract(w-1, 0, n) if w < 64 else n if w == 64 else ZeroExt(w-64, n)
                            n = BitVecVal(0, w) if isc(t) and t == 0 else n
                            return norm(simplify(If(ULT(b64(t), (w + c - 1) // c), LShR(v0, n) if op == 'LShR' else v0 << n, BitVecVal(0, w))))
                        return f
        # value independent of the previous one
        v = vals[0]
        if all(sameval(simp(x), simp(v)) for x in vals) and (isc(v) or self.allowed(v)):
            return self.shift_form(v0, v, w)
        return None
    def shift_form(self, v0, v, w):
        """x(0)=v0, x(t)=v(t-1)"""
        T = self.t
        def f(t):
            pv = z3.substitute(v, (T, t - 1)) if z3.is_expr(v) else v
            if v0 is None: return norm(simplify(pv)) if z3.is_expr(pv) else pv
            if w is None: return simpb(If(t == 0, tob(v0), tob(pv)))
            return norm(simplify(If(t == 0, bv(v0, w), bv(pv, w))))
        return f
    def close_array(self, loc, H, A0, s, backs, vals, mark):
        T = self.t
        paths = []
        if not isinstance(H, ABase): return None
        for o, a in zip(backs, vals):
            st = []
            while a is not H:
                if not isinstance(a, AStore): return None
                st.append((a.i, a.v)); a = a.p
            st.reverse()
            d = []
            for i, v in st:
                i = self.linear(bv(i, 64), o)
                for k, (j, _) in enumerate(d):
                    q = simplify(i - j)
                    if is_bv_value(q) and q.as_long() == 0: d[k] = (j, v); break
                else: d.append((i, v))
            paths.append(([c for c in (simpb(tob(c)) for c in o.st.pc[mark:]) if c is not True and not self.is_safety(c)], d))
        # what tells the paths apart (the resulting form is checked to be inductive)
        paths = [(And(*[tob(c) for c in cs if len(paths) == 1 or not all(any(z3.is_expr(x) and z3.is_expr(c) and x.eq(c) for x in c2) for c2, d2 in paths)] or [z3.BoolVal(True)]), d) for cs, d in paths]
        idxs = []
        for c, d in paths:
            for i, v in d:
                if not self.allowed(i): return None
                if not any(is_zero(i - j) for j in idxs): idxs.append(i)
        if not idxs: return None
        w = H.w
        step = None
        for i in idxs:
            q = simplify(z3.substitute(i, (T, T+1)) - i)
            if not is_bv_value(q): return None
            q = q.as_signed_long()
            if step is None: step = q
            elif step != q: return None
        if step == 0: return None
        e = [simplify(z3.substitute(i, (T, BitVecVal(0, 64)))) for i in idxs]
        ds = []
        for x in e:
            q = simplify(x - e[0])
            if not is_bv_value(q): return None
            ds.append(q.as_signed_long())
        mn = min(ds)
        m = ds.index(mn)
        ds = [d - mn for d in ds]
        e0 = e[m]
        if max(ds) >= abs(step): return None
        # values
        hname = H.f.name()
        def deH(v):
            if not z3.is_expr(v): return v
            for _ in range(4):
                subs = []
                for a in all_apps(v):
                    if a.decl().name() == hname:
                        subs.append((a, bv(A0.rd(a.arg(0)), w)))
                if not subs: return v
                v = z3.substitute(v, *subs)
            return v
        valof = []
        for i in idxs:
            x = None
            for c, d in reversed(paths):
                vv = None
                for j, v in d:
                    if is_zero(i - j): vv = v
                if vv is None: vv = H.rd(i)
                if x is None: x = bv(vv, w)
                else:
                    if bv(vv, w).eq(x): continue
                    cc = deH(c)
                    if not self.allowed(cc): return None
                    x = If(cc, bv(vv, w), x)
            x = deH(x)
            if not self.allowed(x): return None
            valof.append(x)
        n = abs(step)
        def f(t, T=T):
            def rd(k):
                k = b64(k)
                q = simplify(k - e0) if step > 0 else simplify(e0 + max(ds) - k)
                if step > 0:
                    tp = q if n == 1 else (LShR(q, n.bit_length()-1) if n & (n-1) == 0 else z3.UDiv(q, BitVecVal(n, 64)))
                    rem = None if n == 1 else (q & (n-1) if n & (n-1) == 0 else z3.URem(q, BitVecVal(n, 64)))
                else:
                    # going down: index e0 + d - n*t
                    tp = q if n == 1 else LShR(q, n.bit_length()-1)
                    if n != 1 and n & (n-1): raise Unsupported('stride')
                    rem = None if n == 1 else simplify(max(ds) - (q & (n-1)))
                tp = simplify(tp)
                res = bv(A0.rd(k), w)
                old = res
                inr = ULT(tp, t)
                for d, v in zip(ds, valof):
                    c = inr if rem is None else And(inr, rem == d)
                    res = If(c, z3.substitute(v, (T, tp)), res)
                return norm(simplify(res))
            return AFn(w, rd)
        if n > 1 and n & (n-1) == 0: self.strides[loc] = (n, e0)
        return f
    def is_safety(self, c):
        q = self.E.safety.get(c.get_id()) if z3.is_expr(c) else None
        return q is not None and q.eq(c)
    def linear(self, i, o):
        """write an index as e0 + c*t when that is provable on this path"""
        T = self.t
        if not self.allowed(i): return i
        q = simplify(z3.substitute(i, (T, T+1)) - i)
        if is_bv_value(q): return i
        e0 = simplify(z3.substitute(i, (T, BitVecVal(0, 64))))
        c = simplify(z3.substitute(i, (T, BitVecVal(1, 64))) - e0)
        if not is_bv_value(c): return i
        lin = simplify(e0 + c * T)
        return lin if self.E.implied(o.st, lin == i) else i
    def check_closed(self, loc, o):
        E = self.E
        t1 = self.t + 1
        want = self.closed[loc](t1)
        got = get_loc(E, o.st, loc, o.val if loc[0] == 'phi' else None)
        if isinstance(want, AV):
            if loc in self.strides:
                n, e0 = self.strides[loc]; b = n.bit_length() - 1
                q = fresh(64 - b, 'cq')
                for d in range(n):
                    k = simplify(e0 + z3.Concat(q, BitVecVal(d, b)))
                    if not E.implied(o.st, eq(got.rd(k), want.rd(k), want.w)): return False
                return True
            k = fresh(64, 'ck')
            return E.implied(o.st, eq(got.rd(k), want.rd(k), want.w))
        if isinstance(want, Ptr):
            return got.r == want.r and E.implied(o.st, eq(got.off, want.off))
        if isinstance(want, bool) or (z3.is_expr(want) and z3.is_bool(want)):
            return E.implied(o.st, tob(want) == tob(got))
        w = want.size() if z3.is_expr(want) else (got.size() if z3.is_expr(got) else 64)
        return E.implied(o.st, eq(want, got, w))

    # ---- history: forall t' < t. some back-edge path condition held at t'
    def history(self, s, backs, mark):
        alts = []
        for o in backs:
            cs = []
            for c in o.st.pc[mark:]:
                c = simpb(c)
                if c is True: continue
                q = self.E.safety.get(c.get_id())
                if q is not None and q.eq(c): continue
                if self.allowed(c): cs.append(c)
            alts.append(cs)
        # common conjuncts separately
        common = [c for c in alts[0] if all(any(c.eq(x) for x in a) for a in alts[1:])] if alts else []
        rest = [And(*[c for c in a if not any(c.eq(x) for x in common)]) if any(not any(c.eq(x) for x in common) for c in a) else z3.BoolVal(True) for a in alts]
        conj = list(common)
        if len(alts) > 1 and not any(z3.is_true(r) for r in rest): conj.append(Or(*rest))
        T = self.t
        for c in conj:
            tp = BitVec(fresh_name('h'), 64)
            b = z3.substitute(c, (T, tp))
            if not any(x.eq(T) for x in consts_in(c)):
                continue
            trig = []
            for a in all_apps(b):
                if any(x.eq(tp) for x in consts_in(a.arg(0))): trig.append((a.decl(), a.arg(0)))
            f = Fact(tp, z3.Implies(ULT(tp, T), b), trig, 'history', hints=[simplify(T - 1), BitVecVal(0, 64)])
            self.facts.append(f)
        for c in conj:
            if not any(x.eq(T) for x in consts_in(c)):
                # loop-invariant condition that held if at least one iteration ran
                tp = BitVec(fresh_name('h'), 64)
                self.facts.append(Fact(tp, z3.Implies(T != 0, c), [], 'history0', hints=[BitVecVal(0, 64)]))

    # ---- candidates
    def candidates(self, icl):
        T = self.t
        out = []
        seen = set()
        def addc(name, fn, key):
            if key in seen: return
            seen.add(key); out.append((name, fn))
        for a, b, w in icl:
            for x, y in ((a, b), (b, a)):
                if isc(x) or not z3.is_bv(x): continue
                if not self.allowed(x) or (not isc(y) and not self.allowed(y)): continue
                if not any(c.eq(T) for c in consts_in(x)): continue
                if not isc(y) and any(c.eq(T) for c in consts_in(y)): continue
                if w > 64: continue
                Y = bv(y, w)
                Y64 = Y if w == 64 else ZeroExt(64-w, Y)
                addc('t<=X', lambda v, Y64=Y64: ULE(v.t, Y64), ('t', Y64.get_id()))
                self._keep = getattr(self, '_keep', []) + [Y64]
                signed = False
                inner = x
                if x.decl().kind() in (z3.Z3_OP_ZERO_EXT, z3.Z3_OP_SIGN_EXT):
                    signed = x.decl().kind() == z3.Z3_OP_SIGN_EXT
                    inner = x.arg(0)
                wi = inner.size()
                d = simplify(z3.substitute(inner, (T, T+1)) - inner)
                if is_bv_value(d) and d.as_long() != 0:
                    c = d.as_signed_long()
                    e0 = simplify(z3.substitute(inner, (T, BitVecVal(0, 64))))
                    ext = (lambda z, n: z3.SignExt(64-n, z)) if signed else (lambda z, n: ZeroExt(64-n, z))
                    if wi < 64:
                        for sg in (False, True):
                            X = (z3.SignExt(64-wi, e0) if sg else ZeroExt(64-wi, e0))
                            YY = Y if w == 64 else (z3.SignExt(64-w, Y) if sg else ZeroExt(64-w, Y))
                            lin = lambda v, X=X, c=c: X + v.t * BitVecVal(c, 64)
                            k = (sg, X.get_id(), YY.get_id(), c)
                            self._keep += [X, YY]
                            if c > 0:
                                addc('lin<=X', lambda v, lin=lin, YY=YY: lin(v) <= YY, ('l', k))
                                addc('lin<X', lambda v, lin=lin, YY=YY: lin(v) < YY, ('m', k))
                            else:
                                addc('lin>=X', lambda v, lin=lin, YY=YY: lin(v) >= YY, ('l', k))
                                addc('lin>X', lambda v, lin=lin, YY=YY: lin(v) > YY, ('m', k))
                                addc('lin>=0', lambda v, lin=lin: lin(v) >= 0, ('n', k))
                    else:
                        rng = simplify((Y64 - e0) if c > 0 else (e0 - Y64))
                        self._keep += [rng]
                        ct = lambda v, c=abs(c): v.t * c if c != 1 else v.t
                        addc('|c|t<=X-e0', lambda v, rng=rng, ct=ct: ULE(ct(v), rng), ('r', c, rng.get_id()))
                        addc('|c|t<X-e0', lambda v, rng=rng, ct=ct: ULT(ct(v), rng), ('s', c, rng.get_id()))
        for tm in self.E.templates:
            for nm, fn in (tm(self) or []):
                out.append((nm, fn))
        return out
    def prefilter(self, cands, s, drop):
        """drop candidates that one model of the back edge already refutes"""
        E = self.E
        gs = []
        for c in cands:
            try: g = c[1](View(E, s, self.t + 1, self))
            except (Unsupported, KeyError, AttributeError, z3.Z3Exception): continue
            if g is None or isinstance(g, Forall): continue
            gs.append((c, tob(g)))
        for _ in range(12):
            if len(gs) < 2: return
            r, m = E.sat(s, [Not(And(*[g for c, g in gs]))], want_model=True, timeout=1500)
            if r != 'sat': return
            keep = []
            for c, g in gs:
                if z3.is_false(m.eval(g, model_completion=True)): drop.append(c)
                else: keep.append((c, g))
            if len(keep) == len(gs): return
            gs = keep
    def prove_cand(self, fn, s, t):
        E = self.E
        try:
            g = fn(View(E, s, t, self))
        except (Unsupported, KeyError, AttributeError, z3.Z3Exception):
            return False
        if g is None: return False
        if isinstance(g, Forall):
            k = fresh(64, 'ck')
            g = g.body(k)
        return E.implied(s, g, timeout=min(E.timeout, 8000))
    def assume_cand(self, fn, s, t):
        g = fn(View(self.E, s, t, self))
        if isinstance(g, Forall):
            s.facts.append(g.fact())
        else:
            s.assume(simpb(g))

class Forall:
    """forall k (64 bit). body(k)"""
    def __init__(self, body, name=''):
        self.body, self.name = body, name
    def fact(self, hints=()):
        k = BitVec(fresh_name('q'), 64)
        b = tob(self.body(k))
        trig = []
        for a in all_apps(b):
            if any(x.eq(k) for x in consts_in(a.arg(0))): trig.append((a.decl(), a.arg(0)))
        return Fact(k, b, trig, self.name, hints)

def consts_in(e):
    from exec import consts_of
    return consts_of(e)
def is_zero(e):
    e = simplify(e)
    return is_bv_value(e) and e.as_long() == 0

def loop_entry(E, st, header, phis, src):
    L = Loop(E, st, header, phis, src)
    return L.run()
