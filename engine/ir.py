"""Text LLVM-18 IR reader (opaque pointers).  Functions are parsed lazily.

The IR text is produced on every run from /repo's current source by clang, so
what is parsed here is the code that the C++ front end says is compiled.
"""
import re, sys

class IRError(Exception):
    pass

# ---------------------------------------------------------------- types
class Ty:
    __slots__ = ('k', 'a', 'b', 'name')
    # k: int(a=bits) float double ptr void array(a=n,b=ty) struct(a=[ty],b=packed) named vec label metadata
    def __init__(self, k, a=None, b=None, name=None):
        self.k, self.a, self.b, self.name = k, a, b, name
    def __repr__(self):
        if self.k == 'int': return 'i%d' % self.a
        if self.k == 'array': return '[%d x %r]' % (self.a, self.b)
        if self.k == 'struct': return '{%s}' % ','.join(map(repr, self.a))
        if self.k == 'named': return '%' + self.name
        return self.k
    def isint(self): return self.k == 'int'

I1 = Ty('int', 1); I8 = Ty('int', 8); I32 = Ty('int', 32); I64 = Ty('int', 64)
PTR = Ty('ptr'); VOID = Ty('void'); FLOAT = Ty('float'); DOUBLE = Ty('double')
_ints = {1: I1, 8: I8, 32: I32, 64: I64}

TOK = re.compile(r'''
   (?P<ws>[ \t\n]+|;[^\n]*)
 | (?P<str>c?"(?:[^"\\]|\\.)*")
 | (?P<gid>@(?:"(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+))
 | (?P<lid>%(?:"(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+))
 | (?P<md>!(?:"(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+)?)
 | (?P<attr>\#[0-9]+)
 | (?P<num>-?(?:0x[KLMHR]?[0-9A-Fa-f]+|[0-9]+\.[0-9]*(?:[eE][-+]?[0-9]+)?|[0-9]+))
 | (?P<word>[a-zA-Z_$.][-a-zA-Z_$.0-9]*)
 | (?P<dots>\.\.\.)
 | (?P<sym>[()\[\]{}<>,=*:|])
''', re.X)

def tokenize(s):
    out = []
    pos = 0
    n = len(s)
    m = TOK.match
    while pos < n:
        t = m(s, pos)
        if not t:
            raise IRError('lex error at %r' % s[pos:pos+40])
        k = t.lastgroup
        if k != 'ws':
            out.append((k, t.group(k)))
        pos = t.end()
    out.append(('eof', ''))
    return out

def unq(s):
    # strip sigil and quotes
    s = s[1:]
    if s.startswith('"'):
        s = s[1:-1]
    return s

# ---------------------------------------------------------------- values
class V:
    """operand: kind loc/global/int/fp/null/undef/zero/agg/str/ce/md/asm"""
    __slots__ = ('k', 'v', 'ty')
    def __init__(self, k, v, ty):
        self.k, self.v, self.ty = k, v, ty
    def __repr__(self):
        return '%s:%r' % (self.k, self.v)

class Instr:
    __slots__ = ('op', 'res', 'ty', 'args', 'x', 'dbg', 'flags')
    def __init__(self, op, res=None, ty=None, args=(), x=None, flags=()):
        self.op, self.res, self.ty, self.args, self.x, self.flags = op, res, ty, list(args), x, flags
        self.dbg = None
    def __repr__(self):
        return '%s = %s %r %r %r' % (self.res, self.op, self.ty, self.args, self.x)

class Block:
    __slots__ = ('name', 'instrs', 'succs', 'preds')
    def __init__(self, name):
        self.name, self.instrs, self.succs, self.preds = name, [], [], []

PARAM_ATTR = set('''noundef nonnull noalias nocapture readonly readnone writeonly signext zeroext returned
 nest swiftself immarg inreg noundef nofree writable dead_on_unwind inalloca allocptr swifterror'''.split())
LINK = set('''private internal available_externally linkonce weak common appending extern_weak linkonce_odr weak_odr
 external dso_local dso_preemptable default hidden protected unnamed_addr local_unnamed_addr'''.split())
FLAGS = set('nuw nsw exact inbounds fast nnan ninf nsz arcp contract afn reassoc volatile atomic disjoint nneg tail musttail notail samesign'.split())
ORDER = set('unordered monotonic acquire release acq_rel seq_cst'.split())

class Parser:
    def __init__(self, mod, toks):
        self.mod, self.t, self.i = mod, toks, 0
    def pk(self): return self.t[self.i][1]
    def pkk(self): return self.t[self.i][0]
    def nx(self):
        r = self.t[self.i]; self.i += 1
        return r[1]
    def acc(self, s):
        if self.t[self.i][1] == s and self.t[self.i][0] != 'str':
            self.i += 1
            return True
        return False
    def exp(self, s):
        if self.t[self.i][1] != s:
            raise IRError('expected %r got %r (context %r)' % (s, self.t[self.i], [x[1] for x in self.t[max(0,self.i-8):self.i+6]]))
        self.i += 1

    # ---- types
    def ty(self):
        t = self._ty()
        # function type "void (i32, ...)"
        while self.pk() == '(':
            # function type: skip
            d = 0
            while True:
                x = self.nx()
                if x == '(': d += 1
                if x == ')':
                    d -= 1
                    if d == 0: break
        return t
    def _ty(self):
        k, s = self.t[self.i]
        self.i += 1
        if k == 'word':
            if s[0] == 'i' and s[1:].isdigit():
                n = int(s[1:])
                return _ints.setdefault(n, Ty('int', n))
            if s == 'ptr':
                if self.acc('addrspace'):
                    self.exp('('); self.nx(); self.exp(')')
                return PTR
            if s == 'void': return VOID
            if s == 'float': return FLOAT
            if s == 'double': return DOUBLE
            if s in ('x86_fp80', 'fp128', 'half', 'label', 'metadata', 'token'): return Ty(s)
            if s == 'opaque': return Ty('opaque')
        if k == 'lid':
            return Ty('named', name=unq(s))
        if s == '[':
            n = int(self.nx()); self.exp('x'); e = self.ty(); self.exp(']')
            return Ty('array', n, e)
        if s == '{':
            l = []
            while not self.acc('}'):
                l.append(self.ty()); self.acc(',')
            return Ty('struct', l, False)
        if s == '<':
            if self.acc('{'):
                l = []
                while not self.acc('}'):
                    l.append(self.ty()); self.acc(',')
                self.exp('>')
                return Ty('struct', l, True)
            n = int(self.nx()); self.exp('x'); e = self.ty(); self.exp('>')
            return Ty('vec', n, e)
        raise IRError('type? %r' % ((k, s),))

    # ---- values
    def val(self, ty):
        k, s = self.t[self.i]
        self.i += 1
        if k == 'lid': return V('loc', unq(s), ty)
        if k == 'gid': return V('global', unq(s), ty)
        if k == 'num':
            if ty.k == 'int': return V('int', int(s), ty)
            return V('fp', s, ty)
        if k == 'md': return V('md', s, ty)
        if k == 'str':
            if s[0] == 'c': return V('str', cstr(s[2:-1]), ty)
            return V('md', s, ty)
        if k == 'word':
            if s == 'true': return V('int', 1, ty)
            if s == 'false': return V('int', 0, ty)
            if s == 'null': return V('null', None, ty)
            if s in ('undef', 'poison'): return V('undef', None, ty)
            if s == 'zeroinitializer': return V('zero', None, ty)
            if s == 'none': return V('zero', None, ty)
            if s == 'asm':
                while self.pkk() != 'str': self.nx()
                a = self.nx()
                if self.acc(','): a += self.nx()
                return V('asm', a, ty)
            if s in ('getelementptr', 'ptrtoint', 'inttoptr', 'bitcast', 'trunc', 'zext', 'sext', 'sub', 'add', 'mul', 'and', 'or', 'xor', 'shl', 'icmp', 'select', 'dso_local_equivalent', 'no_cfi'):
                return self.constexpr(s, ty)
        if s == '{' or s == '[' or s == '<':
            close = {'{': '}', '[': ']', '<': '>'}[s]
            packed = False
            if s == '<' and self.acc('{'):
                close = '}'; packed = True
            l = []
            while not self.acc(close):
                t = self.ty(); l.append(self.val(t)); self.acc(',')
            if packed: self.exp('>')
            return V('agg', l, ty)
        raise IRError('value? %r %r' % ((k, s), [x[1] for x in self.t[max(0,self.i-8):self.i+6]]))

    def constexpr(self, op, ty):
        while self.pk() in FLAGS or self.pk() == 'inrange': self.nx()
        if op in ('dso_local_equivalent', 'no_cfi'):
            return self.val(ty)
        if op == 'icmp': pred = self.nx()
        else: pred = None
        if self.acc('inrange'):
            pass
        self.exp('(')
        if op == 'getelementptr':
            et = self.ty(); self.exp(',')
            args = []
            while True:
                self.acc('inrange')
                t = self.ty(); args.append(self.val(t))
                if not self.acc(','): break
            self.exp(')')
            return V('ce', ('getelementptr', et, args), ty)
        args = []
        while True:
            t = self.ty(); args.append(self.val(t))
            if self.acc('to'):
                to = self.ty()
                self.exp(')')
                return V('ce', (op, to, args), ty)
            if not self.acc(','): break
        self.exp(')')
        return V('ce', (op, pred, args), ty)

    def tval(self):
        t = self.ty()
        self.skip_pattrs()
        return self.val(t)

    def skip_pattrs(self):
        r = []
        while True:
            k, s = self.t[self.i]
            if k == 'word':
                if s in PARAM_ATTR:
                    self.i += 1; r.append(s); continue
                if s in ('align',):
                    self.i += 1
                    if self.acc('('): self.nx(); self.exp(')')
                    else: self.nx()
                    continue
                if s in ('dereferenceable', 'dereferenceable_or_null', 'sret', 'byval', 'elementtype', 'range', 'initializes', 'captures', 'preallocated', 'byref'):
                    self.i += 1
                    if self.pk() == '(':
                        d = 0; st = self.i
                        while True:
                            x = self.nx()
                            if x == '(': d += 1
                            elif x == ')':
                                d -= 1
                                if d == 0: break
                        if s in ('byval', 'sret'):
                            p = Parser(self.mod, self.t[st+1:self.i-1] + [('eof', '')])
                            r.append((s, p.ty()))
                    continue
            if k == 'str':
                self.i += 1
                if self.acc('='): self.nx()
                continue
            break
        return r

    # ---- one instruction (tokens of one logical line)
    def instr(self):
        res = None
        if self.pkk() == 'lid' and self.t[self.i+1][1] == '=':
            res = unq(self.nx()); self.nx()
        fl = []
        while self.pk() in ('tail', 'musttail', 'notail'): self.nx()
        op = self.nx()
        I = None
        if op in ('call', 'invoke'):
            I = self.p_call(op, res)
        elif op == 'br':
            if self.acc('label'):
                I = Instr('br', x=[unq(self.nx())])
            else:
                self.ty(); c = self.val(I1); self.exp(','); self.exp('label'); a = unq(self.nx()); self.exp(','); self.exp('label'); b = unq(self.nx())
                I = Instr('br', args=[c], x=[a, b])
        elif op == 'ret':
            t = self.ty()
            I = Instr('ret', ty=t, args=[] if t.k == 'void' else [self.val(t)])
        elif op == 'switch':
            t = self.ty(); v = self.val(t); self.exp(','); self.exp('label'); d = unq(self.nx()); self.exp('[')
            cs = []
            while not self.acc(']'):
                ct = self.ty(); cv = int(self.nx()); self.exp(','); self.exp('label'); cs.append((cv, unq(self.nx())))
            I = Instr('switch', ty=t, args=[v], x=(d, cs))
        elif op == 'unreachable':
            I = Instr('unreachable')
        elif op == 'resume':
            t = self.ty(); I = Instr('resume', ty=t, args=[self.val(t)])
        elif op == 'phi':
            while self.pk() in FLAGS: self.nx()
            t = self.ty()
            inc = []
            while self.acc('['):
                v = self.val(t); self.exp(','); b = unq(self.nx()); self.exp(']'); inc.append((v, b))
                self.acc(',')
            I = Instr('phi', res, t, [v for v, b in inc], [b for v, b in inc])
        elif op == 'alloca':
            t = self.ty(); n = None
            while self.acc(','):
                if self.acc('align'): self.nx()
                elif self.acc('addrspace'): self.exp('('); self.nx(); self.exp(')')
                elif self.pkk() == 'md': break
                else:
                    nt = self.ty(); n = self.val(nt)
            I = Instr('alloca', res, t, [] if n is None else [n])
        elif op == 'load':
            at = False
            while self.pk() in ('volatile', 'atomic'): at |= self.nx() == 'atomic'
            t = self.ty(); self.exp(','); p = self.tval()
            I = Instr('load', res, t, [p])
        elif op == 'store':
            while self.pk() in ('volatile', 'atomic'): self.nx()
            v = self.tval(); self.exp(','); p = self.tval()
            I = Instr('store', None, v.ty, [v, p])
        elif op == 'getelementptr':
            while self.pk() in FLAGS: fl.append(self.nx())
            t = self.ty(); self.exp(',')
            args = [self.tval()]
            while self.pk() == ',' and self.t[self.i+1][0] != 'md':
                self.nx(); args.append(self.tval())
            I = Instr('getelementptr', res, t, args, flags=fl)
        elif op in ('icmp', 'fcmp'):
            while self.pk() in FLAGS: fl.append(self.nx())
            pred = self.nx(); t = self.ty(); a = self.val(t); self.exp(','); b = self.val(t)
            I = Instr(op, res, t, [a, b], pred, fl)
        elif op in ('add','sub','mul','udiv','sdiv','urem','srem','shl','lshr','ashr','and','or','xor','fadd','fsub','fmul','fdiv','frem'):
            while self.pk() in FLAGS: fl.append(self.nx())
            t = self.ty(); a = self.val(t); self.exp(','); b = self.val(t)
            I = Instr(op, res, t, [a, b], None, fl)
        elif op == 'fneg':
            while self.pk() in FLAGS: fl.append(self.nx())
            t = self.ty(); I = Instr(op, res, t, [self.val(t)])
        elif op in ('trunc','zext','sext','fptrunc','fpext','fptoui','fptosi','uitofp','sitofp','ptrtoint','inttoptr','bitcast','addrspacecast'):
            while self.pk() in FLAGS: fl.append(self.nx())
            t = self.ty(); a = self.val(t); self.exp('to'); to = self.ty()
            I = Instr(op, res, to, [a], t, fl)
        elif op == 'select':
            while self.pk() in FLAGS: self.nx()
            a = self.tval(); self.exp(','); b = self.tval(); self.exp(','); c = self.tval()
            I = Instr('select', res, b.ty, [a, b, c])
        elif op == 'freeze':
            a = self.tval(); I = Instr('freeze', res, a.ty, [a])
        elif op == 'extractvalue':
            a = self.tval(); idx = []
            while self.pk() == ',' and self.t[self.i+1][0] == 'num':
                self.nx(); idx.append(int(self.nx()))
            I = Instr('extractvalue', res, None, [a], idx)
        elif op == 'insertvalue':
            a = self.tval(); self.exp(','); b = self.tval(); idx = []
            while self.pk() == ',' and self.t[self.i+1][0] == 'num':
                self.nx(); idx.append(int(self.nx()))
            I = Instr('insertvalue', res, a.ty, [a, b], idx)
        elif op == 'landingpad':
            t = self.ty(); cl = []
            while self.pk() in ('cleanup', 'catch', 'filter'):
                k = self.nx()
                if k == 'cleanup': cl.append(('cleanup', None))
                else:
                    ct = self.ty(); cl.append((k, self.val(ct)))
            I = Instr('landingpad', res, t, [], cl)
        elif op in ('fence',):
            I = Instr('fence')
            while self.pkk() not in ('eof',): self.nx()
        elif op == 'atomicrmw':
            if self.pk() == 'volatile': self.nx()
            o = self.nx(); p = self.tval(); self.exp(','); v = self.tval()
            I = Instr('atomicrmw', res, v.ty, [p, v], o)
        elif op == 'cmpxchg':
            while self.pk() in ('weak', 'volatile'): self.nx()
            p = self.tval(); self.exp(','); a = self.tval(); self.exp(','); b = self.tval()
            I = Instr('cmpxchg', res, a.ty, [p, a, b])
        else:
            I = Instr('unsupported', res, None, [], op)
        # find !dbg
        while self.pkk() != 'eof':
            if self.pkk() == 'md' and self.pk() == '!dbg':
                self.nx(); I.dbg = self.nx(); continue
            self.i += 1
        return I

    def p_call(self, op, res):
        while True:
            s = self.pk()
            if s in FLAGS: self.nx(); continue
            if s in ('fastcc', 'ccc', 'coldcc', 'zeroext', 'signext'): self.nx(); continue
            if s == 'noundef': self.nx(); continue
            k = self.i
            self.skip_pattrs()
            if self.i == k: break
        rt = self.ty()
        callee = self.val(PTR)
        self.exp('(')
        args = []; pats = []
        while not self.acc(')'):
            if self.acc('...'): continue
            t = self.ty()
            pa = self.skip_pattrs()
            args.append(self.val(t)); pats.append(pa)
            self.acc(',')
        attrs = []
        while self.pkk() in ('attr', 'word', 'str') and self.pk() not in ('to',):
            attrs.append(self.nx())
        x = {'callee': callee, 'pats': pats, 'attrs': attrs}
        I = Instr(op, res, rt, args, x)
        if op == 'invoke':
            self.exp('to'); self.exp('label'); x['normal'] = unq(self.nx())
            self.exp('unwind'); self.exp('label'); x['unwind'] = unq(self.nx())
        return I

def cstr(s):
    out = bytearray()
    i = 0
    while i < len(s):
        if s[i] == '\\':
            if s[i+1] == '\\':
                out.append(92); i += 2
            else:
                out.append(int(s[i+1:i+3], 16)); i += 3
        else:
            out.extend(s[i].encode('latin-1', 'replace')); i += 1
    return bytes(out)

# ---------------------------------------------------------------- functions/modules
class Function:
    def __init__(self, mod, name, head, lines):
        self.mod, self.name, self.head, self.lines = mod, name, head, lines
        self._blocks = None
        self.params = None
        self._loops = None
        self.parse_head()
    def parse_head(self):
        m = re.search(r'!dbg (![0-9]+)', self.head)
        self.dbg = m.group(1) if m else None
        h = self.head
        p = Parser(self.mod, tokenize(h[len('define'):].rsplit('{', 1)[0]))
        while p.pk() in LINK or p.pk() in ('fastcc', 'ccc', 'coldcc'): p.nx()
        p.skip_pattrs()
        self.ret = p.ty()
        p.nx()  # name
        p.exp('(')
        self.params = []
        n = 0
        while not p.acc(')'):
            if p.acc('...'):
                continue
            t = p.ty(); a = p.skip_pattrs()
            if p.pkk() == 'lid':
                nm = unq(p.nx())
            else:
                nm = str(n)
            n += 1
            self.params.append((nm, t, a))
            p.acc(',')
    @property
    def blocks(self):
        if self._blocks is None:
            self.parse_body()
        return self._blocks
    def parse_body(self):
        blocks = {}
        cur = None
        # first block label: implicit number = nparams
        first = str(len(self.params))
        buf = None
        order = []
        def flush():
            nonlocal buf
            if buf is not None:
                cur.instrs.append(Parser(self.mod, tokenize(buf)).instr())
                buf = None
        depth = 0
        for ln in self.lines:
            if not ln.strip():
                continue
            m = re.match(r'^("(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+):', ln)
            if m and depth == 0:
                flush()
                nm = m.group(1)
                if nm.startswith('"'): nm = nm[1:-1]
                cur = Block(nm); blocks[nm] = cur; order.append(nm)
                continue
            if cur is None:
                cur = Block(first); blocks[first] = cur; order.append(first)
            if depth > 0 or ln.startswith('          '):
                # continuation (switch cases, landingpad clauses, invoke targets)
                buf += ' ' + ln
            else:
                flush()
                buf = ln
            if buf.lstrip().startswith('switch'):
                depth = 0 if re.search(r'\]', buf[buf.find('['):] if '[' in buf else '') else 1
        flush()
        for b in blocks.values():
            t = b.instrs[-1]
            if t.op == 'br': b.succs = list(dict.fromkeys(t.x))
            elif t.op == 'switch': b.succs = list(dict.fromkeys([t.x[0]] + [c[1] for c in t.x[1]]))
            elif t.op == 'invoke': b.succs = [t.x['normal'], t.x['unwind']]
        for b in blocks.values():
            for s in b.succs:
                blocks[s].preds.append(b.name)
        self._blocks = blocks
        self.entry = order[0]
    # ---- loops
    @property
    def loops(self):
        """header -> (set of body blocks, set of latch blocks)"""
        if self._loops is None:
            self._loops = find_loops(self)
        return self._loops

def find_loops(fn):
    bl = fn.blocks
    # reverse post order
    seen = set(); order = []
    st = [(fn.entry, iter(bl[fn.entry].succs))]
    seen.add(fn.entry)
    while st:
        n, it = st[-1]
        for s in it:
            if s not in seen:
                seen.add(s); st.append((s, iter(bl[s].succs)))
                break
        else:
            order.append(n); st.pop()
    order.reverse()
    idx = {n: i for i, n in enumerate(order)}
    idom = {fn.entry: fn.entry}
    ch = True
    while ch:
        ch = False
        for n in order:
            if n == fn.entry: continue
            new = None
            for p in bl[n].preds:
                if p in idom:
                    if new is None: new = p
                    else:
                        a, b = p, new
                        while a != b:
                            while idx[a] > idx[b]: a = idom[a]
                            while idx[b] > idx[a]: b = idom[b]
                        new = a
            if idom.get(n) != new:
                idom[n] = new; ch = True
    def dom(a, b):
        while True:
            if a == b: return True
            if b == fn.entry: return False
            b = idom[b]
    loops = {}
    for n in order:
        for s in bl[n].succs:
            if dom(s, n):
                body, lat = loops.setdefault(s, (set([s]), set()))
                lat.add(n)
                stack = [n]
                while stack:
                    x = stack.pop()
                    if x in body: continue
                    body.add(x)
                    stack.extend(p for p in bl[x].preds if p in idx)
    return loops

class Module:
    def __init__(self, path, taken=None):
        self.path = path
        self.taken = taken if taken is not None else set()
        self.types = {}
        self.globals = {}
        self.gtext = {}
        self.funcs = {}
        self.fhead = {}
        self.decls = {}
        self.aliases = {}
        self.mdtext = {}
        self.attrs = {}
        self._sz = {}
        self._al = {}
        self.read()
    def text(self):
        """the module's text, with local symbols that collide with those of an earlier module renamed"""
        with open(self.path, encoding='latin-1', newline='\n') as f: t = f.read()
        own, clash = set(), {}
        for m in re.finditer(r'^(?:@("(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+) = ([^\n]{0,40})|define ([^\n@]*)@("(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+)\()', t, re.M):
            nm = m.group(1) or m.group(4); how = (m.group(2) or m.group(3)).split()
            own.add(nm)
            if ('private' in how or 'internal' in how) and nm in self.taken:
                clash[nm] = nm[:-1] + '.m%d"' % len(self.taken) if nm.startswith('"') else '%s.m%d' % (nm, len(self.taken))
        if clash: t = re.sub(r'@("(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+)', lambda m: '@' + clash.get(m.group(1), m.group(1)), t)
        self.taken |= own
        return t
    def read(self):
        cur = None
        for ln in [self.text()]:
            for ln in ln.split('\n'):
                if cur is not None:
                    if ln.startswith('}'):
                        self.fhead[cur[0]] = cur
                        cur = None
                    else:
                        cur[2].append(ln.rstrip('\n'))
                    continue
                c = ln[0] if ln else ''
                if c == 'd' and ln.startswith('define'):
                    nm = re.search(r'@("(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+)\(', ln).group(1)
                    if nm.startswith('"'): nm = nm[1:-1]
                    cur = (nm, ln.rstrip('\n'), [])
                elif c == 'd':
                    m = re.search(r'@("(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+)\(', ln)
                    if m:
                        nm = m.group(1)
                        if nm.startswith('"'): nm = nm[1:-1]
                        self.decls[nm] = ln
                elif c == '@':
                    m = re.match(r'@("(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+) = (.*)', ln)
                    nm = m.group(1)
                    if nm.startswith('"'): nm = nm[1:-1]
                    rest = m.group(2)
                    if re.search(r'\balias\b', rest.split('@')[0]):
                        self.aliases[nm] = unq('@' + re.search(r'@("(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+)', rest).group(1))
                    else:
                        self.gtext[nm] = rest
                elif c == '%':
                    m = re.match(r'%("(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+) = type (.*)', ln)
                    nm = m.group(1)
                    if nm.startswith('"'): nm = nm[1:-1]
                    self.types[nm] = m.group(2)
                elif c == '!':
                    m = re.match(r'(![0-9]+) = (.*)', ln)
                    if m: self.mdtext[m.group(1)] = m.group(2)
                elif c == 'a' and ln.startswith('attributes'):
                    m = re.match(r'attributes (#[0-9]+) = \{(.*)\}', ln)
                    self.attrs[m.group(1)] = m.group(2)
    def resolve(self, t):
        while t.k == 'named':
            x = self.types.get(t.name)
            if x is None: return Ty('opaque')
            if isinstance(x, str):
                x = Parser(self, tokenize(x)).ty()
                self.types[t.name] = x
            t = x
        return t
    def size(self, t):
        t = self.resolve(t)
        if t.k == 'int': return max(1, 1 << ((t.a + 7) // 8 - 1).bit_length()) if t.a > 8 else 1
        if t.k == 'ptr': return 8
        if t.k == 'float': return 4
        if t.k == 'double': return 8
        if t.k == 'x86_fp80': return 16
        if t.k == 'array': return t.a * self.size(t.b)
        if t.k == 'struct':
            return self.layout(t)[0]
        if t.k == 'opaque' or t.k == 'void': return 0
        raise IRError('size of %r' % t)
    def align(self, t):
        t = self.resolve(t)
        if t.k == 'struct': return self.layout(t)[1]
        if t.k == 'array': return self.align(t.b)
        return max(1, self.size(t))
    def layout(self, t):
        key = id(t)
        r = self._sz.get(key)
        if r: return r[0]
        off = 0; al = 1; offs = []
        for e in t.a:
            s = self.size(e); a = 1 if t.b else self.align(e)
            off = (off + a - 1) // a * a
            offs.append(off); off += s; al = max(al, a)
        off = (off + al - 1) // al * al
        r = (off, al, offs)
        self._sz[key] = (r, t)
        return r
    def func(self, name):
        f = self.funcs.get(name)
        if f is None and name in self.fhead:
            n, h, l = self.fhead[name]
            f = Function(self, n, h, l)
            self.funcs[name] = f
        return f
    def glob(self, name):
        """(const?, ty, init V or None)"""
        g = self.globals.get(name)
        if g is None:
            rest = self.gtext.get(name)
            if rest is None: return None
            rest = re.sub(r', !dbg.*', '', rest)
            p = Parser(self, tokenize(rest))
            ext = False
            while True:
                s = p.pk()
                if s in LINK:
                    if s == 'external' or s == 'extern_weak': ext = True
                    p.nx(); continue
                if s in ('thread_local', 'addrspace', 'externally_initialized'):
                    p.nx()
                    if p.pk() == '(':
                        while p.nx() != ')': pass
                    continue
                break
            const = p.nx() == 'constant'
            t = p.ty()
            init = None
            if not ext and p.pk() not in (',', ''):
                init = p.val(t)
            g = (const, t, init)
            self.globals[name] = g
        return g
    def loc(self, md):
        """(file, line) for a !dbg id"""
        if md is None: return None
        s = self.mdtext.get(md)
        if not s: return None
        m = re.search(r'line: (\d+)', s)
        line = int(m.group(1)) if m else 0
        scope = re.search(r'scope: (![0-9]+)', s)
        fn = self._file(scope.group(1)) if scope else None
        return (fn, line)
    def _file(self, md, d=0):
        s = self.mdtext.get(md, '')
        if 'DIFile' in s.split('(')[0]:
            m = re.search(r'filename: "([^"]*)"', s)
            return m.group(1) if m else None
        m = re.search(r'file: (![0-9]+)', s)
        if m: return self._file(m.group(1), d+1)
        m = re.search(r'scope: (![0-9]+)', s)
        if m and d < 10: return self._file(m.group(1), d+1)
        return None

class Program:
    def __init__(self, paths):
        taken = set()
        self.mods = [Module(p, taken) for p in paths]
        self.alias = {}
        for m in self.mods:
            self.alias.update(m.aliases)
    def func(self, name):
        seen = 0
        while name in self.alias and seen < 5:
            name = self.alias[name]; seen += 1
        for m in self.mods:
            f = m.func(name)
            if f: return f
        return None
    def canon(self, name):
        seen = 0
        while name in self.alias and seen < 5:
            name = self.alias[name]; seen += 1
        return name
    def glob(self, name):
        best = None
        for m in self.mods:
            g = m.glob(name)
            if g:
                if g[2] is not None: return m, g
                best = best or (m, g)
        return best
    def isdecl(self, name):
        return any(name in m.decls for m in self.mods)
    def fattrs(self, name):
        for m in self.mods:
            d = m.decls.get(name)
            if d:
                x = re.findall(r'#[0-9]+', d)
                return ' '.join(m.attrs.get(a, '') for a in x) + d
        return ''
