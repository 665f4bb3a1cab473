"""Parser for textual LLVM IR (the subset clang 18 emits for this project)."""
import re

TOK = re.compile(r'''\s*(?:
 (?P<name>[%@](?:"[^"]*"|[-\w.$]+))|
 (?P<cstr>c"[^"]*")|
 (?P<str>"[^"]*")|
 (?P<meta>![\w.]*(?:\([^)]*\))?)|
 (?P<attr>\#\d+)|
 (?P<num>-?(?:0x[KMLHR]?[0-9A-Fa-f]+|\d+\.\d*(?:[eE][-+]?\d+)?|\d+))|
 (?P<word>[A-Za-z_][\w.]*)|
 (?P<dots>\.\.\.)|
 (?P<p>[()\[\]{}<>,=*:|])
)''', re.X)


def tokenize(s):
    out = []
    i = 0
    n = len(s)
    while i < n:
        if s[i] == ';':
            break
        m = TOK.match(s, i)
        if not m or m.end() == i:
            if s[i:].strip() == '':
                break
            raise SyntaxError("tok: %r" % s[i:i + 60])
        t = m.group().strip()
        if t.startswith(('%"', '@"')):
            t = t[0] + t[2:-1]
        out.append(t)
        i = m.end()
        # comments
        while i < n and s[i] in ' \t':
            i += 1
        if i < n and s[i] == ';':
            break
    return out


class Type:
    __slots__ = ('k', 'bits', 'elts', 'n', 'elem', 'name', 'packed', '_sz', '_al')

    def __init__(self, k, **kw):
        self.k = k
        self.bits = kw.get('bits')
        self.elts = kw.get('elts')
        self.n = kw.get('n')
        self.elem = kw.get('elem')
        self.name = kw.get('name')
        self.packed = kw.get('packed', False)
        self._sz = None

    def __repr__(self):
        if self.k == 'int': return 'i%d' % self.bits
        if self.k in ('ptr', 'void', 'double', 'float', 'label', 'metadata', 'x86_fp80'): return self.k
        if self.k == 'array': return '[%d x %r]' % (self.n, self.elem)
        if self.k == 'vec': return '<%d x %r>' % (self.n, self.elem)
        if self.k == 'named': return self.name
        return '{%s}' % ', '.join(map(repr, self.elts))


PTR = Type('ptr')
VOID = Type('void')
_int = {}


def IntT(b):
    if b not in _int: _int[b] = Type('int', bits=b)
    return _int[b]


PARAM_ATTRS = {'noundef', 'nonnull', 'zeroext', 'signext', 'inreg', 'noalias', 'nocapture', 'readonly', 'readnone', 'writeonly',
               'returned', 'dead_on_unwind', 'writable', 'immarg', 'noreturn', 'nounwind', 'nofree', 'nest', 'swiftself', 'allocptr', 'allocalign'}
PARAM_ATTRS_ARG = {'align', 'dereferenceable', 'dereferenceable_or_null', 'sret', 'byval', 'byref', 'elementtype', 'initializes', 'range', 'nofpclass'}
LINKAGE = {'private', 'internal', 'available_externally', 'linkonce', 'weak', 'common', 'appending', 'extern_weak', 'linkonce_odr',
           'weak_odr', 'external', 'dso_local', 'dso_preemptable', 'default', 'hidden', 'protected', 'dllimport', 'dllexport',
           'unnamed_addr', 'local_unnamed_addr', 'thread_local', 'externally_initialized', 'fastcc', 'ccc', 'coldcc', 'tail', 'musttail', 'notail'}


class P:
    def __init__(self, toks, mod):
        self.t = toks
        self.i = 0
        self.mod = mod

    def peek(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else None

    def next(self):
        x = self.t[self.i]
        self.i += 1
        return x

    def accept(self, x):
        if self.peek() == x:
            self.i += 1
            return True
        return False

    def expect(self, x):
        y = self.next()
        if y != x: raise SyntaxError("expected %r got %r in %r" % (x, y, ' '.join(self.t)))

    def type(self):
        t = self.next()
        if t == 'ptr':
            r = PTR
            if self.peek() == 'addrspace':
                self.next(); self.skip_paren()
        elif re.fullmatch(r'i\d+', t):
            r = IntT(int(t[1:]))
        elif t == 'void':
            r = VOID
        elif t in ('double', 'float', 'label', 'metadata', 'x86_fp80', 'half', 'token', 'opaque'):
            r = Type(t)
        elif t == '[':
            n = int(self.next()); self.expect('x')
            e = self.type(); self.expect(']')
            r = Type('array', n=n, elem=e)
        elif t == '{':
            r = Type('struct', elts=self.tlist('}'))
        elif t == '<':
            if self.peek() == '{':
                self.next()
                r = Type('struct', elts=self.tlist('}'), packed=True)
                self.expect('>')
            else:
                n = int(self.next()); self.expect('x')
                e = self.type(); self.expect('>')
                r = Type('vec', n=n, elem=e)
        elif t[0] == '%':
            r = Type('named', name=t)
        else:
            raise SyntaxError("type %r in %s" % (t, ' '.join(self.t)))
        while self.peek() == '(' and False:
            pass
        return r

    def tlist(self, end):
        out = []
        if self.accept(end): return out
        while True:
            out.append(self.type())
            if self.accept(end): return out
            self.expect(',')

    def skip_paren(self):
        self.expect('(')
        d = 1
        while d:
            x = self.next()
            if x == '(': d += 1
            elif x == ')': d -= 1

    def attrs(self):
        out = {}
        while True:
            x = self.peek()
            if x in PARAM_ATTRS:
                out[x] = True; self.next()
            elif x in PARAM_ATTRS_ARG:
                self.next()
                if self.peek() == '(':
                    if x in ('sret', 'byval'):
                        self.next(); out[x] = self.type(); self.expect(')')
                    else: self.skip_paren()
                elif x == 'align': self.next()
                out.setdefault(x, True)
            elif x and x[0] == '"':
                self.next()
                if self.accept('='): self.next()
            else: return out

    # constants / operands: returned as tuples
    def value(self, ty):
        t = self.next()
        if t[0] == '%': return ('reg', t)
        if t[0] == '@': return ('glob', t[1:])
        if t in ('true', 'false'): return ('int', 1 if t == 'true' else 0)
        if t == 'null': return ('null',)
        if t in ('undef', 'poison'): return ('undef',)
        if t == 'zeroinitializer': return ('zero',)
        if t == 'none': return ('undef',)
        if re.fullmatch(r'-?\d+', t):
            return ('int', int(t)) if ty.k == 'int' else ('fp', float(t))
        if re.fullmatch(r'0x[0-9A-Fa-f]+', t):
            if ty.k in ('double', 'float'):
                import struct
                return ('fp', struct.unpack('>d', bytes.fromhex(t[2:].zfill(16)))[0])
            return ('int', int(t, 16))
        if re.fullmatch(r'-?\d+\.\d*(?:[eE][-+]?\d+)?', t): return ('fp', float(t))
        if t.startswith('c"'): return ('cstr', t)
        if t in ('[', '{', '<'):
            end = {'[': ']', '{': '}', '<': '>'}[t]
            packed = False
            if t == '<' and self.peek() == '{':
                self.next(); end = '}'; packed = True
            out = []
            if not self.accept(end):
                while True:
                    et = self.type()
                    out.append((et, self.value(et)))
                    if self.accept(end): break
                    self.expect(',')
            if packed: self.expect('>')
            return ('agg', out)
        if t == 'getelementptr':
            while self.peek() in ('inbounds', 'nuw', 'nusw') or self.peek() == 'inrange':
                if self.next() == 'inrange' and self.peek() == '(': self.skip_paren()
            self.expect('(')
            sty = self.type(); self.expect(',')
            base = self.typed_value()
            idx = []
            while self.accept(','):
                self.accept('inrange')
                if self.peek() == '(':  # inrange(...)
                    self.skip_paren()
                idx.append(self.typed_value())
            self.expect(')')
            return ('gep', sty, base, idx)
        if t in ('bitcast', 'ptrtoint', 'inttoptr', 'addrspacecast', 'trunc', 'zext', 'sext'):
            self.expect('(')
            v = self.typed_value(); self.expect('to'); to = self.type(); self.expect(')')
            return ('castc', t, v, to)
        if t in ('sub', 'add'):
            while self.peek() in ('nuw', 'nsw'): self.next()
            self.skip_paren()
            return ('undef',)
        if t == 'no_cfi' or t == 'dso_local_equivalent':
            return self.value(ty)
        if t == 'asm': return ('undef',)
        raise SyntaxError("value %r in %s" % (t, ' '.join(self.t)))

    def typed_value(self):
        ty = self.type()
        self.attrs()
        return (ty, self.value(ty))


class Instr:
    __slots__ = ('op', 'res', 'ty', 'a', 'flags', 'line', 'x')

    def __init__(self, op, res=None, ty=None, a=(), flags=(), x=None):
        self.op, self.res, self.ty, self.a, self.flags, self.x = op, res, ty, a, flags, x

    def __repr__(self): return '%s = %s %r %r' % (self.res, self.op, self.ty, self.a)


SPECULATABLE = {'add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'icmp', 'select', 'zext', 'sext', 'trunc', 'fadd', 'fsub', 'fmul', 'fdiv', 'fneg', 'fcmp',
                'sitofp', 'uitofp', 'fptosi', 'fptoui', 'fpext', 'fptrunc', 'sdiv', 'srem', 'udiv', 'urem'}


class Block:
    __slots__ = ('name', 'ins', 'phis', 'succ')

    def __init__(self, name):
        self.name, self.ins, self.phis, self.succ = name, [], [], []


class Function:
    def __init__(self, name, ret, params, mod):
        self.name, self.ret, self.params, self.mod = name, ret, params, mod  # params: [(type, regname, attrs)]
        self.blocks = {}
        self.entry = None
        self._loops = None
        self.text = None

    def parse_body(self):
        if self.text is None: return
        lines, self.text = self.text, None
        cur = None
        i = 0
        while i < len(lines):
            l = lines[i]
            i += 1
            s = l.strip()
            if not s or s.startswith(';'): continue
            m = re.match(r'^("[^"]+"|[-\w.$]+):', l)
            if m:
                nm = '%' + m.group(1).strip('"')
                cur = Block(nm)
                self.blocks[nm] = cur
                if self.entry is None: self.entry = nm
                continue
            if cur is None:
                nm = '%' + str(len(self.params))
                cur = Block(nm)
                self.blocks[nm] = cur
                self.entry = nm
            # join multi-line
            mm = re.match(r'(?:%\S+ = |%"[^"]*" = )?(invoke|landingpad)\b', s)
            if mm or (s.startswith('switch') and not s.endswith(']')):
                if s.startswith('switch'):
                    while not lines[i].strip().startswith(']'):
                        s += ' ' + lines[i].strip(); i += 1
                    s += ' ]'; i += 1
                elif mm.group(1) == 'invoke':
                    s += ' ' + lines[i].strip(); i += 1
                else:
                    while i < len(lines) and re.match(r'\s+(cleanup|catch|filter)\b', lines[i]):
                        s += ' ' + lines[i].strip(); i += 1
            ins = self.parse_ins(s)
            if ins is None: continue
            if ins.op == 'phi': cur.phis.append(ins)
            else: cur.ins.append(ins)
        for b in self.blocks.values():
            t = b.ins[-1]
            if t.op == 'br': b.succ = list(t.x)
            elif t.op == 'switch': b.succ = [t.x[0]] + [c[1] for c in t.x[1]]
            elif t.op == 'invoke': b.succ = [t.x['normal'], t.x['unwind']]
            else: b.succ = []

    def live_from(self, block):
        """registers that the blocks reachable from block (its phi nodes excepted) may still read"""
        if not hasattr(self, '_live'): self._live = {}
        if block in self._live: return self._live[block]
        names = set()

        def regs(v):
            if isinstance(v, (tuple, list)):
                if len(v) == 2 and v[0] == 'reg' and isinstance(v[1], str): names.add(v[1])
                else:
                    for y in v: regs(y)
            elif isinstance(v, dict):
                for y in v.values(): regs(y)
        seen, st = set(), [block]
        while st:
            b = st.pop()
            if b in seen: continue
            seen.add(b)
            for ins in self.blocks[b].phis + self.blocks[b].ins:
                regs(ins.a); regs(ins.x)
            st += self.blocks[b].succ
        self._live[block] = names
        for ph in self.blocks[block].phis: names.add(ph.res)
        return names

    def speculated(self):
        """results that the optimizer moved in front of the test guarding them: all their uses end, within the block, as an
        alternative of a select (the value is unused when the other alternative is chosen)"""
        if getattr(self, '_spec', None) is not None: return self._spec
        uses = {}

        def regs(v, out):
            if isinstance(v, (tuple, list)):
                if len(v) == 2 and v[0] == 'reg' and isinstance(v[1], str): out.append(v[1])
                else:
                    for y in v: regs(y, out)
            elif isinstance(v, dict):
                for y in v.values(): regs(y, out)
        for b in self.blocks.values():
            for ins in b.phis + b.ins:
                out = []
                regs(ins.a, out); regs(ins.x, out)
                for r in out: uses.setdefault(r, []).append((b, ins))
        spec = set()
        for b in self.blocks.values():
            for ins in reversed(b.ins):
                if ins.res is None or ins.op not in SPECULATABLE: continue
                ok = bool(uses.get(ins.res))
                for ub, u in uses.get(ins.res, ()):
                    if ub is not b: ok = False
                    elif u.op == 'select':
                        out = []; regs(u.a[0], out)
                        if ins.res in out: ok = ok and u.res in spec
                    else: ok = ok and u.res in spec
                if ok: spec.add(ins.res)
        self._spec = spec
        return spec

    def parse_ins(self, s):
        p = P(tokenize(s), self.mod)
        res = None
        if len(p.t) > 1 and p.t[1] == '=' and p.t[0][0] == '%':
            res = p.next(); p.next()
        op = p.next()
        while op in ('tail', 'musttail', 'notail'): op = p.next()
        if op in ('add', 'sub', 'mul', 'sdiv', 'udiv', 'srem', 'urem', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr',
                  'fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
            fl = set()
            while p.peek() in ('nsw', 'nuw', 'exact', 'disjoint', 'fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc'): fl.add(p.next())
            ty = p.type(); a = p.value(ty); p.expect(','); b = p.value(ty)
            return Instr(op, res, ty, (a, b), fl)
        if op == 'fneg':
            ty = p.type()
            return Instr(op, res, ty, (p.value(ty),))
        if op in ('icmp', 'fcmp'):
            while p.peek() in ('fast', 'nnan', 'ninf', 'nsz', 'samesign'): p.next()
            pred = p.next()
            ty = p.type(); a = p.value(ty); p.expect(','); b = p.value(ty)
            return Instr(op, res, ty, (a, b), x=pred)
        if op in ('zext', 'sext', 'trunc', 'bitcast', 'ptrtoint', 'inttoptr', 'sitofp', 'uitofp', 'fptosi', 'fptoui', 'fpext', 'fptrunc', 'addrspacecast'):
            fl = set()
            while p.peek() in ('nneg', 'nuw', 'nsw'): fl.add(p.next())
            v = p.typed_value(); p.expect('to'); to = p.type()
            return Instr(op, res, to, (v,), fl)
        if op == 'select':
            c = p.typed_value(); p.expect(','); a = p.typed_value(); p.expect(','); b = p.typed_value()
            return Instr(op, res, a[0], (c, a, b))
        if op == 'phi':
            ty = p.type()
            inc = []
            while True:
                p.expect('['); v = p.value(ty); p.expect(','); bl = p.next(); p.expect(']')
                inc.append((v, bl))
                if not p.accept(','): break
            return Instr(op, res, ty, x=inc)
        if op == 'alloca':
            p.accept('inalloca')
            ty = p.type()
            cnt = None
            if p.accept(','):
                if p.peek() != 'align': cnt = p.typed_value()
            return Instr(op, res, ty, x=cnt)
        if op == 'load':
            while p.peek() in ('volatile', 'atomic'): p.next()
            ty = p.type(); p.expect(','); v = p.typed_value()
            return Instr(op, res, ty, (v,))
        if op == 'store':
            while p.peek() in ('volatile', 'atomic'): p.next()
            v = p.typed_value(); p.expect(','); d = p.typed_value()
            return Instr(op, None, v[0], (v, d))
        if op == 'getelementptr':
            while p.peek() in ('inbounds', 'nuw', 'nusw'): p.next()
            sty = p.type(); p.expect(',')
            base = p.typed_value()
            idx = []
            while p.accept(','): idx.append(p.typed_value())
            return Instr(op, res, PTR, (base,), x=(sty, idx))
        if op == 'br':
            if p.peek() == 'label':
                p.next(); return Instr(op, None, None, (), x=[p.next()])
            c = p.typed_value(); p.expect(','); p.expect('label'); a = p.next(); p.expect(','); p.expect('label'); b = p.next()
            return Instr(op, None, None, (c,), x=[a, b])
        if op == 'switch':
            v = p.typed_value(); p.expect(','); p.expect('label'); d = p.next(); p.expect('[')
            cs = []
            while not p.accept(']'):
                cv = p.typed_value(); p.expect(','); p.expect('label'); cs.append((cv[1][1], p.next()))
            return Instr(op, None, v[0], (v,), x=(d, cs))
        if op == 'ret':
            ty = p.type()
            if ty.k == 'void': return Instr(op, None, ty)
            return Instr(op, None, ty, ((ty, p.value(ty)),))
        if op in ('call', 'invoke'):
            while p.peek() in ('fast', 'nnan', 'ninf', 'nsz', 'fastcc', 'ccc', 'coldcc'): p.next()
            p.attrs()
            ty = p.type()
            if p.peek() == '(':  # function type (varargs)
                p.skip_paren()
            if p.peek() == 'asm':
                return Instr('asm', res, ty)
            callee = p.value(PTR)
            p.expect('(')
            args = []
            if not p.accept(')'):
                while True:
                    at = p.type()
                    if at.k == 'metadata':
                        d = 0
                        while not (d == 0 and p.peek() in (',', ')')):
                            t = p.next()
                            if t in '([{': d += 1
                            elif t in ')]}': d -= 1
                        args.append((at, ('undef',)))
                    else:
                        p.attrs()
                        args.append((at, p.value(at)))
                    if p.accept(')'): break
                    p.expect(',')
            x = {'callee': callee, 'args': args}
            if op == 'invoke':
                while p.peek() != 'to': p.next()
                p.next(); p.expect('label'); x['normal'] = p.next(); p.expect('unwind'); p.expect('label'); x['unwind'] = p.next()
            return Instr(op, res, ty, x=x)
        if op == 'landingpad':
            ty = p.type()
            return Instr(op, res, ty, x='catch' in p.t)
        if op == 'resume': return Instr(op)
        if op == 'unreachable': return Instr(op)
        if op == 'extractvalue':
            v = p.typed_value(); idx = []
            while p.accept(','): idx.append(int(p.next()))
            return Instr(op, res, None, (v,), x=idx)
        if op == 'insertvalue':
            v = p.typed_value(); p.expect(','); e = p.typed_value(); idx = []
            while p.accept(','): idx.append(int(p.next()))
            return Instr(op, res, v[0], (v, e), x=idx)
        if op == 'freeze':
            v = p.typed_value()
            return Instr('freeze', res, v[0], (v,))
        if op in ('fence',): return None
        if op in ('extractelement', 'insertelement', 'shufflevector', 'atomicrmw', 'cmpxchg'):
            return Instr('unsupported', res, None, x=s)
        raise SyntaxError("instr " + s)

    # ---- loops
    def loops(self):
        """header -> set(blocks) of natural loops."""
        if self._loops is not None: return self._loops
        self.parse_body()
        names = list(self.blocks)
        # dominators (iterative)
        order = []
        seen = set()

        def dfs(b):
            st = [(b, iter(self.blocks[b].succ))]
            seen.add(b)
            while st:
                n, it = st[-1]
                adv = False
                for s in it:
                    if s not in seen:
                        seen.add(s); st.append((s, iter(self.blocks[s].succ))); adv = True
                        break
                if not adv:
                    order.append(n); st.pop()
        dfs(self.entry)
        rpo = order[::-1]
        idx = {b: i for i, b in enumerate(rpo)}
        preds = {b: [] for b in rpo}
        for b in rpo:
            for s in self.blocks[b].succ:
                preds[s].append(b)
        dom = {self.entry: self.entry}
        ch = True
        while ch:
            ch = False
            for b in rpo[1:]:
                new = None
                for q in preds[b]:
                    if q in dom:
                        if new is None: new = q
                        else:
                            a, c = q, new
                            while a != c:
                                while idx[a] > idx[c]: a = dom[a]
                                while idx[c] > idx[a]: c = dom[c]
                            new = a
                if dom.get(b) != new:
                    dom[b] = new; ch = True

        def dominates(a, b):
            while True:
                if a == b: return True
                if b == self.entry: return False
                b = dom[b]
        L = {}
        for b in rpo:
            for s in self.blocks[b].succ:
                if dominates(s, b):
                    body = L.setdefault(s, {s})
                    st = [b]
                    while st:
                        x = st.pop()
                        if x in body: continue
                        body.add(x)
                        st.extend(preds[x])
        self._loops = L
        return L


class Module:
    def __init__(self, path):
        self.path = path
        self.types = {}
        self.funcs = {}
        self.decls = set()
        self.globals = {}
        self.aliases = {}
        self._lay = {}
        with open(path) as f:
            lines = f.read().split('\n')
        i = 0
        n = len(lines)
        while i < n:
            l = lines[i]
            i += 1
            if not l or l[0] in ';!': continue
            if l.startswith('define'):
                body = []
                while lines[i] != '}':
                    body.append(lines[i]); i += 1
                i += 1
                self._define(l, body)
            elif l.startswith('declare'):
                m = re.search(r'@("[^"]*"|[-\w.$]+)\(', l)
                if m: self.decls.add(m.group(1).strip('"'))
            elif l[0] == '%':
                m = re.match(r'^%("[^"]*"|[-\w.$]+) = type (.*)$', l)
                nm = '%' + m.group(1).strip('"')
                if m.group(2).strip() == 'opaque': continue
                self.types[nm] = P(tokenize(m.group(2)), self).type()
            elif l[0] == '@':
                self._global(l)

    def _global(self, l):
        m = re.match(r'^@("[^"]*"|[-\w.$]+) = (.*)$', l)
        nm = m.group(1).strip('"')
        rest = m.group(2)
        ma = re.search(r'\balias [^@]*@("[^"]*"|[-\w.$]+)', rest)
        if re.match(r'[\w ]*\balias\b', rest) and ma:
            self.aliases[nm] = ma.group(1).strip('"')
            return
        self.globals[nm] = rest

    def global_init(self, nm):
        """(type, value, is_const) or None"""
        r = self.globals.get(nm)
        if r is None: return None
        if not isinstance(r, str): return r
        toks = tokenize(r)
        p = P(toks, self)
        ext = False
        const = False
        while True:
            x = p.peek()
            if x in ('constant', 'global'):
                const = x == 'constant'
                p.next()
                break
            if x in ('external', 'extern_weak'): ext = True
            if x == 'thread_local' or x == 'addrspace':
                p.next()
                if p.peek() == '(': p.skip_paren()
                continue
            p.next()
        ty = p.type()
        v = None if ext else p.value(ty)
        self.globals[nm] = (ty, v, const)
        return self.globals[nm]

    def _define(self, l, body):
        m = re.search(r'@("[^"]*"|[-\w.$]+)\(', l)
        name = m.group(1).strip('"')
        pre = l[6:m.start()]
        p = P(tokenize(pre), self)
        while p.peek() in LINKAGE or p.peek() in ('comdat',):
            p.next()
        p.attrs()
        ret = p.type()
        # find params
        s = l[m.end() - 1:]
        q = P(tokenize(s), self)
        q.expect('(')
        params = []
        k = 0
        if not q.accept(')'):
            while True:
                if q.peek() == '...':
                    q.next(); q.expect(')')
                    break
                t = q.type(); at = q.attrs()
                nm = q.next() if q.peek() and q.peek()[0] == '%' else '%' + str(k)
                params.append((t, nm, at))
                k += 1
                if q.accept(')'): break
                q.expect(',')
        f = Function(name, ret, params, self)
        f.text = body
        self.funcs[name] = f

    # ---- layout
    def resolve(self, t):
        while t.k == 'named': t = self.types[t.name]
        return t

    def align(self, t):
        t = self.resolve(t)
        if t.k == 'int': return max(1, min(16, (t.bits + 7) // 8 if t.bits in (1, 8, 16, 32, 64, 128) else 8))
        if t.k in ('ptr', 'double'): return 8
        if t.k == 'float': return 4
        if t.k == 'array': return self.align(t.elem)
        if t.k == 'struct':
            if t.packed or not t.elts: return 1
            return max(self.align(e) for e in t.elts)
        if t.k == 'vec': return t.n * self.size(t.elem)
        if t.k == 'x86_fp80': return 16
        raise ValueError(t.k)

    def size(self, t):
        if t.k == 'named':
            if t.name in self._lay: return self._lay[t.name][0]
            return self.layout(t)[0]
        if t.k == 'int': return max(1, (t.bits + 7) // 8)
        if t.k in ('ptr', 'double'): return 8
        if t.k == 'float': return 4
        if t.k == 'array': return t.n * self.size(t.elem)
        if t.k == 'struct': return self.layout(t)[0]
        if t.k == 'vec': return t.n * self.size(t.elem)
        if t.k == 'x86_fp80': return 16
        raise ValueError(t.k)

    def layout(self, t):
        if t.k == 'named':
            if t.name in self._lay: return self._lay[t.name]
            r = self.layout(self.types[t.name])
            self._lay[t.name] = r
            return r
        off = 0
        offs = []
        al = 1
        for e in t.elts:
            a = 1 if t.packed else self.align(e)
            al = max(al, a)
            off = (off + a - 1) // a * a
            offs.append(off)
            off += self.size(e)
        off = (off + al - 1) // al * al
        return (off, offs)
