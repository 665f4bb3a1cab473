"""Symbolic executor / VC generator over LLVM IR with function contracts and inferred loop invariants."""
from llir import SPECULATABLE
import os
import z3, time, re
from llir import IntT, PTR, Type, Function, Module
import smt
from smt import ForAll, fresh_name


class Unsupported(Exception):
    pass


class Undecided(Exception):
    """raised when a run exceeds its budget"""


# ------------------------------------------------------------------ pointers
class Ptr:
    __slots__ = ('r', 'i', 'o')

    def __init__(self, r, i, o=0):
        self.r, self.i, self.o = r, i, o      # region id, element index (z3/int), byte offset inside element / struct

    def __repr__(self): return 'Ptr(%s,%s,%s)' % (self.r, self.i, self.o)


class NullP:
    def __repr__(self): return 'null'


NULL = NullP()


class GlobP:
    __slots__ = ('name', 'off')

    def __init__(self, name, off=0): self.name, self.off = name, off

    def __repr__(self): return '@%s+%d' % (self.name, self.off)


class Ref:
    """pointer to a heap node of class cls identified by an integer term (0 = null)"""
    __slots__ = ('cls', 't', 'o')

    def __init__(self, cls, t, o=0): self.cls, self.t, self.o = cls, t, o

    def __repr__(self): return 'Ref(%s,%s,%s)' % (self.cls, self.t, self.o)


class PIte:
    __slots__ = ('c', 'a', 'b')

    def __init__(self, c, a, b): self.c, self.a, self.b = c, a, b


class Opaque:
    def __init__(self, n): self.n = n

    def __repr__(self): return 'opaque(%s)' % self.n


class PtrInt:
    """integer made from a pointer (ptrtoint), with added byte offset"""

    def __init__(self, p): self.p = p


def is_ptr(v): return isinstance(v, (Ptr, NullP, GlobP, Ref, PIte, Opaque))


COOKIE = ('cookie',)     # Region.info of an array of objects; its element count lies 8 bytes before element 0


class Region:
    __slots__ = ('id', 'kind', 'name', 'nbytes', 'esz', 'n', 'arrs', 'fields', 'alive', 'info', 'sub', 'ety', 'ro')

    def __init__(self, id, kind, name):
        self.id, self.kind, self.name = id, kind, name
        self.nbytes = None
        self.esz = None
        self.n = None
        self.arrs = {}     # offset in element -> (sort-kind, z3 array)
        self.fields = {}   # off -> (size, value)
        self.alive = True
        self.info = None
        self.sub = {}
        self.ety = None
        self.ro = False

    def clone(self):
        r = Region(self.id, self.kind, self.name)
        r.nbytes, r.esz, r.n = self.nbytes, self.esz, self.n
        r.arrs, r.fields, r.alive, r.info, r.sub, r.ety, r.ro = dict(self.arrs), dict(self.fields), self.alive, self.info, dict(self.sub), self.ety, self.ro
        return r


class Frame:
    __slots__ = ('fn', 'block', 'ip', 'regs', 'prev', 'ret', 'active', 'visits', 'argmap', 'poison')

    def __init__(self, fn):
        self.fn = fn
        self.block = fn.entry
        self.ip = 0
        self.regs = {}
        self.prev = None
        self.ret = None       # (instr) pending in caller frame
        self.active = {}
        self.visits = {}
        self.poison = None

    def clone(self):
        f = Frame(self.fn)
        f.poison = dict(self.poison) if self.poison else None
        f.block, f.ip, f.prev, f.ret = self.block, self.ip, self.prev, self.ret
        f.regs = dict(self.regs)
        f.active = dict(self.active)
        f.visits = dict(self.visits)
        return f


class State:
    __slots__ = ('frames', 'pc', 'regions', 'ghost', 'heap', 'retval', 'decided', 'trace', 'own')

    def __init__(self):
        self.frames = []
        self.pc = []
        self.regions = {}
        self.ghost = {}
        self.heap = {}
        self.retval = None
        self.decided = {}
        self.trace = []
        self.own = set()

    def clone(self):
        s = State()
        s.frames = [f.clone() for f in self.frames]
        s.pc = list(self.pc)
        s.regions = dict(self.regions)
        s.ghost = dict(self.ghost)
        s.heap = dict(self.heap)
        s.retval = self.retval
        s.decided = dict(self.decided)
        s.trace = list(self.trace)
        s.own = set()
        self.own = set()
        return s

    @property
    def top(self): return self.frames[-1]

    def reg(self, rid):
        return self.regions[rid]

    def wreg(self, rid):
        if rid not in self.own:
            self.regions[rid] = self.regions[rid].clone()
            self.own.add(rid)
        return self.regions[rid]

    def assume(self, f):
        if isinstance(f, (list, tuple)):
            for x in f: self.assume(x)
            return
        if isinstance(f, bool):
            if f: return
            f = z3.BoolVal(False)
        if not isinstance(f, (ForAll, smt.Nested)) and z3.is_true(f): return
        self.pc.append(f)


class Fork(Exception):
    def __init__(self, cond): self.cond = cond


class ThreadExit(Exception): pass


class PathEnd(Exception):
    def __init__(self, why): self.why = why


class Throw(Exception):
    def __init__(self, what): self.what = what


# ------------------------------------------------------------------ arithmetic back ends
class BVArith:
    name = 'bv'
    isort = z3.BitVecSort(64)

    def sort(self, w): return z3.BoolSort() if w == 1 else z3.BitVecSort(w)

    def const(self, v, w):
        if w == 1: return z3.BoolVal(bool(v & 1))
        return z3.BitVecVal(v, w)

    def range(self, x, w): return []

    def idx(self, v): return z3.BitVecVal(v, 64) if isinstance(v, int) else v

    def slt(self, a, b, w=64): return a < b

    def sle(self, a, b, w=64): return a <= b

    def ult(self, a, b, w=64): return z3.ULT(a, b)

    def ule(self, a, b, w=64): return z3.ULE(a, b)


class IntArith:
    name = 'int'
    isort = z3.IntSort()

    def sort(self, w): return z3.BoolSort() if w == 1 else z3.IntSort()

    def const(self, v, w):
        if w == 1: return z3.BoolVal(bool(v & 1))
        m = 1 << w
        v %= m
        if w >= 32 and v >= m // 2: v -= m
        return z3.IntVal(v)

    def range(self, x, w):
        if w == 1: return []
        if w >= 32: return [x >= -(1 << (w - 1)), x < (1 << (w - 1))]
        return [x >= 0, x < (1 << w)]

    def idx(self, v): return z3.IntVal(v) if isinstance(v, int) else v

    def slt(self, a, b, w=64): return a < b

    def sle(self, a, b, w=64): return a <= b

    def ult(self, a, b, w=64): return a < b

    def ule(self, a, b, w=64): return a <= b


def iconst(e):
    """python int of a constant z3 int/bv expr, else None"""
    if isinstance(e, int): return e
    if z3.is_int_value(e): return e.as_long()
    if z3.is_bv_value(e): return e.as_signed_long()
    s = z3.simplify(e)
    if z3.is_int_value(s): return s.as_long()
    if z3.is_bv_value(s): return s.as_signed_long()
    return None


class Loop:
    def __init__(self, header, blocks, depth):
        self.header, self.blocks, self.depth = header, blocks, depth


class Ctx:
    """exploration context: restricts to a loop body when loop is set."""

    def __init__(self, loop=None, depth=None, record=False):
        self.loop, self.depth, self.record = loop, depth, record


class Obl:
    __slots__ = ('name', 'kind', 'status', 'time', 'backend', 'model', 'fn', 'detail', 'state')

    def __init__(self, **k):
        for a in self.__slots__: setattr(self, a, k.get(a))


def trunc_div(x, y):
    """quotient and remainder of the machine division (rounds towards zero) for a variable divisor, with their definition
    for y != 0 and some consequences about the product (which the solvers do not find)"""
    I = z3.IntSort()
    q, r = z3.Function('quotient', I, I, I)(x, y), z3.Function('remainder', I, I, I)(x, y)
    ay = z3.If(y > 0, y, -y)
    p = q * y
    f = [x == p + r, r < ay, r > -ay, z3.Implies(x >= 0, r >= 0), z3.Implies(x <= 0, r <= 0)]
    for sg in (1, -1):
        s = y if sg > 0 else -y
        t = p if sg > 0 else -p
        f.append(z3.Implies(s > 0, z3.And(z3.Implies(q >= 1, t >= s), z3.Implies(q >= 2, t >= 2 * s), z3.Implies(q <= -1, t <= -s), z3.Implies(q <= -2, t <= -2 * s))))
    f += [z3.Implies(q == 0, p == 0), z3.Implies(q == 1, p == y), z3.Implies(q == -1, p == -y)]
    f += [z3.Implies(x == 0, z3.And(q == 0, r == 0)), z3.Implies(y == 1, q == x), z3.Implies(y == -1, q == -x), z3.Implies(x >= 0, z3.And(q <= x, q >= -x)), z3.Implies(x <= 0, z3.And(q <= -x, q >= x))]
    f += [z3.Implies(z3.Or(y >= 2, y <= -2), z3.And(2 * q <= z3.If(x >= 0, x, -x), -2 * q <= z3.If(x >= 0, x, -x)))]
    return q, r, [z3.Implies(y != 0, z3.And(f))]


class Engine:
    def __init__(self, modules, contracts, mode='int', fp='real', offsets=None):
        self.mods = modules
        self.A = IntArith() if mode == 'int' else BVArith()
        self.mode = mode
        self.fp = fp
        self.contracts = contracts
        self.offsets = offsets or {}
        self.obls = []
        self.trusted = set()
        self.used_contracts = set()
        self.inlined = set()
        self.notes = []
        self.record = True
        self.unroll = None
        self.quiet = 0
        self.pending = None
        self.guards = None
        self.contract = None
        self.deadline = None
        self.loopinfo = []
        self.nreg = 0
        self.builtins = {}
        self.depth_limit = 14
        self.check_overflow = True
        self.timeout = 8000
        self.dropped = []
        self.refcls = {}       # (cls, off) -> class of pointed-to node
        self.nodes = []
        self.refnew = {}       # allocation size -> cls
        self.discover = 0
        self.refarr = None     # class of the nodes in arrays of pointers
        self.cookies = []      # element sizes of the class arrays new[] puts an element count in front of
        self.havocs = 0
        self.globobjs = {}
        from builtins_ir import install
        install(self)

    # ---------------------------------------------------------- lookup
    const_globals = {}
    tables = {}

    def find(self, name, seen=()):
        for m in self.mods:
            if name in m.funcs:
                f = m.funcs[name]
                f.parse_body()
                return f
        for m in self.mods:
            if name in m.aliases and name not in seen:
                r = self.find(m.aliases[name], seen + (name,))
                if r: return r
        # constructor/destructor variants
        for a, b in (('C1E', 'C2E'), ('D1E', 'D2E')):
            if a in name and name not in seen:
                r = self.find(name.replace(a, b), seen + (name,))
                if r: return r
        return None

    def canon(self, name):
        for m in self.mods:
            if name in m.aliases: return m.aliases[name]
        return name

    def contract_for(self, name):
        c = self.contracts.get(name)
        if c: return c
        n = self.canon(name)
        c = self.contracts.get(n)
        if c: return c
        for a, b in (('C1E', 'C2E'), ('D1E', 'D2E')):
            if a in name and name.replace(a, b) in self.contracts: return self.contracts[name.replace(a, b)]
        return None

    # ---------------------------------------------------------- fresh values
    def fresh_int(self, st, w, name='v'):
        x = z3.Const(fresh_name(name), self.A.sort(w))
        if st is not None: st.assume(self.A.range(x, w))
        return x

    def fpsort(self, ty):
        if self.fp == 'real': return z3.RealSort()
        if self.fp == 'bits': return z3.BitVecSort(64 if ty.k == 'double' else 32)
        return z3.FPSort(11, 53) if ty.k == 'double' else z3.FPSort(8, 24)

    def fresh(self, st, ty, name='v', mod=None):
        if ty.k == 'int': return self.fresh_int(st, ty.bits, name)
        if ty.k == 'ptr': return Opaque(fresh_name(name))
        if ty.k in ('double', 'float'): return z3.Const(fresh_name(name), self.fpsort(ty))
        if ty.k == 'named': return self.fresh(st, mod.resolve(ty), name, mod)
        if ty.k == 'struct': return tuple(self.fresh(st, e, name, mod) for e in ty.elts)
        raise Unsupported('fresh %r' % ty)

    def new_region(self, st, kind, name, nbytes=None, esz=None, n=None):
        self.nreg += 1
        r = Region(self.nreg, kind, name)
        r.nbytes, r.esz, r.n = nbytes, esz, n
        st.regions[r.id] = r
        st.own.add(r.id)
        return r

    def new_array(self, st, name, esz, n, sort=None):
        r = self.new_region(st, 'array', name, esz=esz, n=n)
        if sort is None: sort = self.A.sort(esz * 8)
        r.arrs[0] = z3.Const(fresh_name(name), z3.ArraySort(self.A.isort, sort))
        return r

    # ---------------------------------------------------------- solver helpers
    def tick(self):
        if self.deadline and time.time() > self.deadline: raise Undecided('time budget')

    def feasible(self, st, cond=None, timeout=1500):
        self.tick()
        if cond is not None:
            if isinstance(cond, bool):
                if not cond: return False
                cond = None
            else:
                c = z3.simplify(cond)
                if z3.is_false(c): return False
                if z3.is_true(c): cond = None
        fs = st.pc + ([cond] if cond is not None else [])
        return smt.check(fs, timeout).status != 'unsat'

    def implied(self, st, cond, timeout=1000):
        self.tick()
        c = z3.simplify(cond)
        if z3.is_true(c): return True
        if z3.is_false(c): return False
        g = [f for f in st.pc if not isinstance(f, (ForAll, smt.Nested))]
        return smt.check(g + [z3.Not(cond)], timeout, insts=False).status == 'unsat'

    def oblige(self, st, name, goal, kind='post', detail=None):
        """records (main run) or assumes (quiet run) an obligation. Returns True when it holds."""
        self.tick()
        if self.pending is not None and kind == 'overflow':
            self.pending.append((name, goal))
            return True
        if self.quiet:
            st.assume(goal)
            return True
        r = smt.prove(st.pc, goal, self.timeout)
        if r.status == 'sat' and r.cut:      # not all instances were made: try again with more
            m, smt.MAXINST = smt.MAXINST, 4 * smt.MAXINST
            try: r = smt.prove(st.pc, goal, self.timeout)
            finally: smt.MAXINST = m
        o = Obl(name=name, kind=kind, status=r.status, time=r.time, backend=r.backend, model=r.model, fn=self.contract.name if self.contract else '', detail=detail)
        if r.status != 'unsat':
            o.state = st
        self.obls.append(o)
        if r.status != 'unsat' and kind != 'post':
            pass
        st.assume(goal)
        return r.status == 'unsat'

    # ---------------------------------------------------------- operand evaluation
    def val(self, st, ty, v, mod):
        k = v[0]
        if k == 'reg':
            try: return st.top.regs[v[1]]
            except KeyError: raise Unsupported('undefined register %s in %s' % (v[1], st.top.fn.name))
        if ty.k in ('named',): ty = mod.resolve(ty)
        if k == 'int':
            return self.A.const(v[1], ty.bits)
        if k == 'null': return NULL
        if k == 'glob': return GlobP(v[1], 0)
        if k == 'fp':
            if self.fp == 'real':
                import fractions
                if v[1] != v[1] or v[1] in (float('inf'), float('-inf')): return z3.Const(repr(v[1]), z3.RealSort())
                fr = fractions.Fraction(v[1])
                return z3.RealVal(str(fr.numerator) + '/' + str(fr.denominator))
            return z3.FPVal(v[1], self.fpsort(ty))
        if k == 'undef':
            return self.fresh(st, ty, 'undef', mod)
        if k == 'zero':
            if ty.k == 'int': return self.A.const(0, ty.bits)
            if ty.k == 'ptr': return NULL
            if ty.k in ('double', 'float'): return self.val(st, ty, ('fp', 0.0), mod)
            if ty.k == 'struct': return tuple(self.val(st, e, v, mod) for e in ty.elts)
        if k == 'gep':
            b = self.val(st, v[2][0], v[2][1], mod)
            return self.gep(st, b, v[1], [(t, self.val(st, t, x, mod)) for t, x in v[3]], mod)
        if k == 'castc':
            x = self.val(st, v[2][0], v[2][1], mod)
            if v[1] in ('ptrtoint', 'inttoptr'): return Opaque('castc')
            return x
        if k == 'agg':
            return tuple(self.val(st, t, x, mod) for t, x in v[1])
        raise Unsupported('operand %r' % (v,))

    # ---------------------------------------------------------- pointers
    def resolve_ptr(self, st, p):
        while isinstance(p, PIte):
            i = p.c.get_id()
            if i in st.decided:
                p = p.a if st.decided[i] else p.b
            else:
                c = z3.simplify(p.c)
                if z3.is_true(c): p = p.a
                elif z3.is_false(c): p = p.b
                else: raise Fork(p.c)
        return p

    def add(self, a, b):
        if isinstance(a, int) and isinstance(b, int): return a + b
        a, b = self.A.idx(a), self.A.idx(b)
        return z3.simplify(a + b)

    def mulc(self, a, c):
        if c == 1: return a
        if isinstance(a, int): return a * c
        return z3.simplify(a * c)

    def toidx(self, v, ty):
        """index operand (sign-extended to 64)"""
        c = iconst(v)
        if c is not None: return c
        if ty.bits == 64: return v
        if self.mode == 'bv': return z3.SignExt(64 - ty.bits, v)
        if ty.bits == 32: return v
        return z3.If(v >= (1 << (ty.bits - 1)), v - (1 << ty.bits), v)

    def set_elem(self, st, r, esz, sort=None):
        r = st.wreg(r.id)
        r.esz = esz
        nb = r.nbytes
        c = iconst(nb)
        if c is not None: r.n = self.A.idx(c // esz)
        elif self.mode == 'int':
            r.n = self.divexact(nb, esz)
        else:
            r.n = self.divexact(nb, esz)
        if self.refarr and esz == 8 and not r.arrs and not r.info:      # new block of node pointers
            r.info = {('cls', 0): self.refarr}
            r.arrs[0] = z3.Const(fresh_name('uninit_' + r.name), z3.ArraySort(self.A.isort, z3.IntSort()))
        return r

    def divexact(self, nb, esz):
        if esz == 1: return nb
        nb = z3.simplify(nb)
        if self.mode == 'int':
            # c*x
            if z3.is_mul(nb) and nb.num_args() == 2 and z3.is_int_value(nb.arg(0)) and nb.arg(0).as_long() % esz == 0:
                k = nb.arg(0).as_long() // esz
                return z3.simplify(nb.arg(1) * k)
            if z3.is_add(nb):
                parts = []
                ok = True
                for a in nb.children():
                    if z3.is_int_value(a) and a.as_long() % esz == 0: parts.append(z3.IntVal(a.as_long() // esz))
                    elif z3.is_mul(a) and a.num_args() == 2 and z3.is_int_value(a.arg(0)) and a.arg(0).as_long() % esz == 0: parts.append(a.arg(1) * (a.arg(0).as_long() // esz))
                    else: ok = False
                if ok: return z3.simplify(z3.Sum(parts))
            return z3.simplify(nb / esz)
        # BV: k*x, x<<s as concat
        d = nb.decl().kind()
        if d == z3.Z3_OP_BMUL and z3.is_bv_value(nb.arg(0)):
            c = nb.arg(0).as_long()
            if c == esz: return nb.arg(1)
        sh = esz.bit_length() - 1
        if (1 << sh) == esz and d == z3.Z3_OP_CONCAT:
            last = nb.arg(nb.num_args() - 1)
            if z3.is_bv_value(last) and last.size() == sh and nb.num_args() == 2:
                hi = nb.arg(0)
                return z3.simplify(z3.ZeroExt(sh, hi)) if not (hi.decl().kind() == z3.Z3_OP_EXTRACT) else self._bvdiv(hi, sh)
        return z3.simplify(z3.LShR(nb, sh)) if (1 << sh) == esz else z3.simplify(z3.UDiv(nb, z3.BitVecVal(esz, 64)))

    def _bvdiv(self, hi, sh):
        # hi = extract(63-sh,0,x): byte count = x<<sh ; sizes are < 2^47 so x itself is the count
        x = hi.arg(0)
        if x.size() == 64: return x
        return z3.ZeroExt(sh, hi)

    def gep(self, st, base, sty, idx, mod):
        base = self.resolve_ptr(st, base)
        first_t, first_v = idx[0]
        i0 = self.toidx(first_v, first_t)
        if isinstance(base, Opaque): return Opaque('gep')
        if isinstance(base, NullP):
            if isinstance(i0, int) and i0 == 0 and len(idx) == 1: return NULL
            return Opaque('gep-null')
        if isinstance(base, GlobP):
            off, ok = base.off, True
            if not isinstance(i0, int): return self.gep(st, self.glob_region(st, base, mod), sty, idx, mod)
            off += i0 * mod.size(sty)
            t = sty
            sym = False
            for ty, v in idx[1:]:
                c = self.toidx(v, ty)
                if not isinstance(c, int):
                    sym = True
                    break
                t2 = mod.resolve(t)
                if t2.k == 'struct':
                    off += mod.layout(t2 if t.k != 'named' else t)[1][c]; t = t2.elts[c]
                elif t2.k == 'array':
                    off += c * mod.size(t2.elem); t = t2.elem
            if sym: return self.gep(st, self.glob_region(st, base, mod), sty, idx, mod)
            return GlobP(base.name, off)
        ssz = mod.size(sty)
        if isinstance(base, Ref):
            if not (isinstance(i0, int)): raise Unsupported('symbolic gep on heap node')
            o = base.o + i0 * ssz
            t = sty
            for ty, v in idx[1:]:
                c = self.toidx(v, ty)
                t2 = mod.resolve(t)
                if t2.k == 'struct':
                    o += mod.layout(t if t.k == 'named' else t2)[1][c]; t = t2.elts[c]
                else: raise Unsupported('array in heap node')
            return Ref(base.cls, base.t, o)
        r = st.reg(base.r)
        p = Ptr(base.r, base.i, base.o)
        if not (isinstance(i0, int) and i0 == 0):
            if r.kind == 'raw' or (r.kind == 'array' and r.esz is None):
                if not (isinstance(i0, int) and ssz == 1 and r.kind == 'raw'):
                    r = self.set_elem(st, r, ssz); r.kind = 'array'
            if r.kind == 'array':
                if ssz == r.esz: p.i = self.add(p.i, i0)
                elif r.info == COOKIE and ssz < r.esz and isinstance(i0, int) and -8 <= p.o + ssz * i0 <= 0: p.o += ssz * i0
                elif ssz < r.esz and isinstance(i0, int):
                    b = p.o + ssz * i0
                    p.i = self.add(p.i, b // r.esz); p.o = b % r.esz
                elif ssz < r.esz and r.esz % ssz == 0 and p.o == 0:
                    p.i = self.add(p.i, self.divexact(self.mulc(self.A.idx(i0), ssz), r.esz))
                elif ssz % r.esz == 0: p.i = self.add(p.i, self.mulc(i0, ssz // r.esz))
                else: raise Unsupported('gep stride %d on array of %d' % (ssz, r.esz))
            else:
                if not isinstance(i0, int): raise Unsupported('symbolic gep on struct %s' % r.name)
                p.o += i0 * ssz
        t = sty
        for ty, v in idx[1:]:
            c = self.toidx(v, ty)
            t2 = mod.resolve(t)
            if t2.k == 'struct':
                p.o += mod.layout(t if t.k == 'named' else t2)[1][c]; t = t2.elts[c]
            elif t2.k == 'array':
                es = mod.size(t2.elem)
                r = st.reg(p.r)
                if r.kind in ('struct',):
                    p = self.subarray(st, p, es, t2.n, t2.elem)
                    p.i = self.add(p.i, c)
                elif r.kind in ('raw', 'array'):
                    if r.esz is None:
                        self.set_elem(st, r, es); st.wreg(r.id).kind = 'array'
                        r = st.reg(r.id)
                    if r.esz == es and p.o == 0: p.i = self.add(p.i, c)
                    elif isinstance(c, int): p.o += c * es
                    else: raise Unsupported('nested array gep')
                t = t2.elem
            else: raise Unsupported('gep into %r' % t2)
        return p

    def subarray(self, st, p, es, n, ety):
        r = st.reg(p.r)
        if p.o in r.sub: return Ptr(r.sub[p.o], 0, 0)
        nr = self.new_region(st, 'array', r.name + '.sub%d' % p.o, esz=es, n=self.A.idx(n))
        w = st.wreg(r.id)
        w.sub[p.o] = nr.id
        # migrate already stored scalar fields (e.g. after memset)
        return Ptr(nr.id, 0, 0)

    def glob_region(self, st, g, mod):
        """materialise a constant global as a read-only region"""
        key = ('glob', g.name)
        rid = st.ghost.get(key)
        if rid is None:
            m, gi = self.glob(g.name)
            if gi is None or gi[1] is None: raise Unsupported('global %s' % g.name)
            ty, v, const = gi
            t = m.resolve(ty)
            if t.k != 'array': raise Unsupported('global region %s' % g.name)
            es = m.size(t.elem)
            r = self.new_region(st, 'array', '@' + g.name, esz=es, n=self.A.idx(t.n))
            if not const and g.name in self.const_globals:
                self.trusted.add('global table %s: %s' % (g.name, self.const_globals[g.name]))
                const = True
            r.ro = const
            et = m.resolve(t.elem)
            if et.k == 'int':
                vals = self.const_array(v, t, et)
                if not const:
                    r.arrs[0] = z3.Const('@' + g.name, z3.ArraySort(self.A.isort, self.A.sort(et.bits)))
                else:
                    # function-like constant table: K(array) with stores
                    a = z3.K(self.A.isort, self.A.const(0, et.bits))
                    name = 'tab_' + g.name
                    a = z3.Const(name, z3.ArraySort(self.A.isort, self.A.sort(et.bits)))
                    f = self.tables.get(re.sub(r'^_ZL?\d+', '', g.name))
                    if f is not None:
                        # the table has a closed form: compare it entry by entry, use the closed form from then on
                        for i, x in enumerate(vals):
                            e = z3.simplify(f(self, self.A.idx(i)) == self.A.const(x, et.bits))
                            if not z3.is_true(e): self.oblige(st, 'table %s agrees with its definition at index %d' % (g.name, i), e, 'table')
                        k = z3.Const(fresh_name('k'), self.A.isort)
                        o = getattr(f, 'opaque', None)
                        if o is None: st.assume(ForAll(k, z3.Implies(z3.And(k >= 0, k < len(vals)), z3.Select(a, k) == f(self, k)), [z3.Select(a, k)]))
                        else:       # the definition is kept under a name; only its range is used besides
                            lo, hi = min(vals), max(vals)
                            st.assume(ForAll(k, z3.Implies(z3.And(k >= 0, k < len(vals)), z3.And(z3.Select(a, k) == o(k), o(k) >= lo, o(k) <= hi)), [z3.Select(a, k)]))
                            st.assume(ForAll(k, z3.Implies(z3.And(k >= 0, k < len(vals)), z3.And(z3.Select(a, k) == o(k), o(k) >= lo, o(k) <= hi)), [o(k)]))
                    else:
                        for i, x in enumerate(vals):
                            st.assume(z3.Select(a, self.A.idx(i)) == self.A.const(x, et.bits))
                    r.arrs[0] = a
                    r.info = ('table', vals, et.bits)
            elif et.k == 'double':
                a = z3.Const('tab_' + g.name, z3.ArraySort(self.A.isort, self.fpsort(et)))
                if v[0] == 'agg' and const:
                    for i, (t_, x) in enumerate(v[1]):
                        st.assume(z3.Select(a, self.A.idx(i)) == self.val(st, t_, x, m))
                r.arrs[0] = a
            else: raise Unsupported('global element type %r' % et)
            rid = r.id
            st.ghost[key] = rid
        r = st.reg(rid)
        return Ptr(rid, g.off // r.esz, g.off % r.esz)

    def const_array(self, v, t, et):
        if v[0] == 'zero': return [0] * t.n
        if v[0] == 'cstr':
            s = v[1][2:-1]
            out = []
            i = 0
            while i < len(s):
                if s[i] == '\\':
                    out.append(int(s[i + 1:i + 3], 16)); i += 3
                else:
                    out.append(ord(s[i])); i += 1
            return out
        return [x[1][1] if x[1][0] == 'int' else 0 for x in v[1]]

    def glob(self, name):
        best = (None, None)
        for m in self.mods:
            if name in m.globals:
                gi = m.global_init(name)
                if gi is not None and gi[1] is not None: return m, gi
                best = (m, gi)
        return best

    # constant global objects (e.g. kEmptyString)
    def globobj(self, st, g):
        h = self.globobjs.get(g.name)
        if h is None or getattr(h, 'isval', False): return None
        key = ('gobj', g.name)
        rid = st.ghost.get(key)
        if rid is None or rid not in st.regions:
            p = h(self, st, g.name)
            st.ghost[key] = p.r
            rid = p.r
        return Ptr(rid, 0, g.off)

    # heap nodes
    def new_node(self, st, cls):
        import nodes
        return nodes.new_node(self, st, cls)

    def free_node(self, st, p):
        import nodes
        nodes.free_node(self, st, p)

    # ---------------------------------------------------------- memory
    def check_alive(self, st, r, what):
        if not r.alive:
            self.oblige(st, 'no use after free (%s)' % r.name, z3.BoolVal(False), 'safety')
            raise PathEnd('use after free')

    def inbounds(self, st, p, r, what):
        i = self.A.idx(p.i)
        if r.info == COOKIE and p.o == -8:
            if iconst(i) != 0: self.oblige(st, '%s of the element count of %s' % (what, r.name), i == 0, 'safety')
            return
        n = self.A.idx(r.n)
        goal = z3.And(self.A.idx(0) <= i, i < n)
        g = z3.simplify(goal)
        if z3.is_true(g): return
        self.oblige(st, '%s in bounds of %s' % (what, r.name), goal, 'safety')

    def load(self, st, p, ty, mod):
        p = self.resolve_ptr(st, p)
        ty = mod.resolve(ty)
        if ty.k == 'struct':
            off = mod.layout(ty)[1]
            return tuple(self.load(st, self.ptr_add(p, o), e, mod) for o, e in zip(off, ty.elts))
        sz = mod.size(ty)
        if isinstance(p, NullP) or isinstance(p, Opaque):
            self.oblige(st, 'no invalid read through %r' % p, z3.BoolVal(False), 'safety')
            raise PathEnd('null read')
        if isinstance(p, GlobP): return self.load_glob(st, p, ty, mod)
        if isinstance(p, Ref): return self.heap_load(st, p, ty)
        r = st.reg(p.r)
        self.check_alive(st, r, 'read')
        if r.kind == 'raw' and r.esz is None:
            if ty.k in ('int', 'double', 'float', 'ptr'):
                r = self.set_elem(st, r, sz); r.kind = 'array'
        if r.kind == 'array':
            if r.esz is None: r = self.set_elem(st, r, sz)
            self.inbounds(st, p, r, 'read')
            return self.arr_load(st, r, p, ty, sz)
        # struct
        if p.o in r.sub:
            sub = st.reg(r.sub[p.o])
            return self.load(st, Ptr(sub.id, 0, 0), ty, mod)
        for so, sid in r.sub.items():
            sub = st.reg(sid)
            c = iconst(sub.n)
            if so <= p.o < so + sub.esz * (c or 0):
                return self.load(st, Ptr(sid, (p.o - so) // sub.esz, (p.o - so) % sub.esz), ty, mod)
        f = r.fields.get(p.o)
        if f is None or f[0] != sz:
            v = self.load_partial(st, r, p.o, sz, ty)
            if v is None:
                if r.nbytes is not None and iconst(r.nbytes) is not None and (p.o < 0 or p.o + sz > iconst(r.nbytes)):
                    self.oblige(st, 'read in bounds of %s' % r.name, z3.BoolVal(False), 'safety')
                    raise PathEnd('oob')
                v = self.fresh(st, ty, 'uninit_%s_%d' % (r.name, p.o), mod)
                if not is_ptr(v): st.wreg(r.id).fields[p.o] = (sz, v)
            return v
        return self.coerce(st, f[1], ty)

    def load_partial(self, st, r, off, sz, ty):
        # integer read spanning several stored fields or part of one
        if ty.k != 'int': return None
        for o, (s, v) in r.fields.items():
            if o <= off and off + sz <= o + s and not is_ptr(v) and not isinstance(v, tuple):
                if z3.is_bv(v):
                    lo = (off - o) * 8
                    x = z3.Extract(lo + sz * 8 - 1, lo, v)
                    return x
                if z3.is_int(v):
                    u = v if s < 4 else z3.If(v < 0, v + (1 << (8 * s)), v)
                    x = (u / (1 << ((off - o) * 8))) % (1 << (sz * 8))
                    return self.canonu(x, sz * 8)
        parts = []
        o = off
        while o < off + sz:
            f = r.fields.get(o)
            if f is None or is_ptr(f[1]) or o + f[0] > off + sz: return None
            if not (z3.is_bv(f[1]) or z3.is_int(f[1])): return None
            parts.append((o - off, f)); o += f[0]
        if not parts: return None
        if self.mode == 'bv':
            e = z3.Concat(*[f[1] for _, f in reversed(parts)]) if len(parts) > 1 else parts[0][1][1]
            return e
        e = z3.Sum([self.tou(f[1], f[0] * 8) * (1 << (8 * o)) for o, f in parts])
        return self.canonu(e, sz * 8)

    def tou(self, v, w):
        return v if w < 32 else z3.If(v < 0, v + (1 << w), v)

    def canonu(self, x, w):
        return x if w < 32 else z3.If(x >= (1 << (w - 1)), x - (1 << w), x)

    def coerce(self, st, v, ty):
        if ty.k == 'ptr':
            if is_ptr(v): return v
            if isinstance(v, PtrInt): return v.p
            if z3.is_expr(v) and iconst(v) == 0: return NULL
            return Opaque('int-as-ptr')
        if ty.k == 'int':
            if is_ptr(v):
                if isinstance(v, NullP): return self.A.const(0, ty.bits)
                return PtrInt(v)
            if isinstance(v, PtrInt): return v
            if z3.is_bool(v) and ty.bits != 1: return z3.If(v, self.A.const(1, ty.bits), self.A.const(0, ty.bits))
            if z3.is_fp(v): return z3.fpToIEEEBV(v)
            if z3.is_real(v) and self.mode == 'int': raise Unsupported('real read as int')
            return v
        if ty.k in ('double', 'float'):
            if z3.is_expr(v) and v.sort() == self.fpsort(ty): return v
            if z3.is_bv(v) and self.fp == 'ieee': return z3.fpBVToFP(v, self.fpsort(ty))
            if z3.is_bv_value(v) and v.as_long() == 0 or (z3.is_int_value(v) and v.as_long() == 0):
                return self.val(st, ty, ('fp', 0.0), None)
            raise Unsupported('fp coerce')
        return v

    def arr_load(self, st, r, p, ty, sz):
        key = p.o
        i = self.A.idx(p.i)
        if r.info == COOKIE:
            if key == -8 and sz == 8: return self.A.idx(r.n)
            h = getattr(self.contract, 'elem_load', None)
            if h: return h(self, st, r, p, ty)
            raise Unsupported('member of an element of %s' % r.name)
        if ty.k == 'ptr':
            a = r.arrs.get(key)
            cls = r.info.get(('cls', key)) if isinstance(r.info, dict) else None
            if cls and a is not None: return Ref(cls, z3.Select(a, i))
            pl = r.info.get(('plist', key)) if isinstance(r.info, dict) else None
            if pl is not None:
                c = iconst(i)
                if c is not None and 0 <= c < len(pl): return pl[c]
            h = getattr(self.contract, 'ptr_elem', None)
            if h: return h(self, st, r, p)
            raise Unsupported('pointer load from array %s' % r.name)
        if r.esz != sz and key == 0 and len(r.arrs) <= 1 and (ty.k == 'int' or self.fp == 'bits') and r.esz < sz and sz % r.esz == 0:
            # wide read from a narrow array
            k = sz // r.esz
            parts = [self.arr_load(st, r, Ptr(p.r, self.add(p.i, j), 0), IntT(r.esz * 8), r.esz) for j in range(k)]
            self.inbounds(st, Ptr(p.r, self.add(p.i, k - 1), 0), r, 'read')
            if self.mode == 'bv': return z3.Concat(*parts[::-1])
            return self.canonu(z3.Sum([x * (1 << (8 * r.esz * j)) for j, x in enumerate(parts)]), sz * 8)
        a = r.arrs.get(key)
        if a is None:
            srt = self.fpsort(ty) if ty.k in ('double', 'float') else self.A.sort(sz * 8)
            a = z3.Const(fresh_name('uninit_' + r.name), z3.ArraySort(self.A.isort, srt))
            st.wreg(r.id).arrs[key] = a
        v = z3.Select(a, i)
        c = iconst(i)
        if isinstance(r.info, tuple) and r.info[0] == 'table' and c is not None and 0 <= c < len(r.info[1]):
            return self.A.const(r.info[1][c], r.info[2])
        v2 = z3.simplify(v)
        if z3.is_int_value(v2) or z3.is_bv_value(v2): v = v2
        if ty.k == 'int':
            if self.mode == 'int' and not z3.is_int_value(v): st.assume(self.A.range(v, ty.bits))
            if ty.bits == 1: raise Unsupported('i1 array')
            if v.sort() != self.A.sort(ty.bits): return self.coerce(st, v, ty)
            return v
        return self.coerce(st, v, ty)

    def ptr_add(self, p, o):
        if isinstance(p, Ptr): return Ptr(p.r, p.i, p.o + o)
        if isinstance(p, Ref): return Ref(p.cls, p.t, p.o + o)
        if isinstance(p, GlobP): return GlobP(p.name, p.off + o)
        raise Unsupported('ptr_add %r' % p)

    def load_glob(self, st, p, ty, mod):
        m, gi = self.glob(p.name)
        key = ('gv', p.name, p.off)
        if key in st.ghost: return self.coerce(st, st.ghost[key], ty)
        h = self.globval(st, p, ty)
        if h is not None: return h
        if gi is None: raise Unsupported('unknown global %s' % p.name)
        gty, v, const = gi
        if const and v is not None:
            t, off = gty, p.off
            while True:
                t2 = m.resolve(t)
                if t2.k == 'struct':
                    offs = m.layout(t if t.k == 'named' else t2)[1]
                    j = max(i for i, o in enumerate(offs) if o <= off)
                    off -= offs[j]
                    v = v[1][j][1] if v[0] == 'agg' else ('zero',)
                    t = t2.elts[j]
                elif t2.k == 'array':
                    if m.resolve(t2.elem).k == 'int':
                        return self.load(st, self.glob_region(st, p, m), ty, mod)
                    es = m.size(t2.elem)
                    j = off // es
                    off -= j * es
                    v = v[1][j][1] if v[0] == 'agg' else ('zero',)
                    t = t2.elem
                else: break
            return self.coerce(st, self.val(st, t2, v, m), ty)
        t = m.resolve(gty)
        if t.k == 'array' and m.resolve(t.elem).k in ('int', 'double'):
            return self.load(st, self.glob_region(st, p, m), ty, mod)
        x = self.fresh(st, ty, 'g_' + p.name, m)
        st.ghost[key] = x
        return x

    def globval(self, st, p, ty):
        g = self.globobjs.get(p.name)
        if getattr(g, 'isval', False): return g(self, st, p, ty)
        h = getattr(self.contract, 'globals', None)
        if h: return h(self, st, p, ty)
        return None

    def store(self, st, p, ty, v, mod):
        p = self.resolve_ptr(st, p)
        ty = mod.resolve(ty)
        if ty.k == 'struct':
            off = mod.layout(ty)[1]
            for o, e, x in zip(off, ty.elts, v): self.store(st, self.ptr_add(p, o), e, x, mod)
            return
        sz = mod.size(ty)
        if isinstance(p, NullP) or isinstance(p, Opaque):
            self.oblige(st, 'no invalid write through %r' % p, z3.BoolVal(False), 'safety')
            raise PathEnd('null write')
        if isinstance(p, GlobP):
            m, gi = self.glob(p.name)
            if gi and gi[0].k == 'array':
                return self.store(st, self.glob_region(st, p, mod), ty, v, mod)
            st.ghost[('gv', p.name, p.off)] = v
            return
        if isinstance(p, Ref): return self.heap_store(st, p, ty, v)
        r = st.reg(p.r)
        self.check_alive(st, r, 'write')
        if r.kind == 'raw' and r.esz is None:
            r = self.set_elem(st, r, sz); r.kind = 'array'
        if r.kind == 'array':
            if r.esz is None: r = self.set_elem(st, r, sz)
            self.inbounds(st, p, r, 'write')
            if r.ro:
                self.oblige(st, 'no write to constant %s' % r.name, z3.BoolVal(False), 'safety')
                raise PathEnd('ro')
            self.arr_store(st, r, p, ty, sz, v)
            return
        for so, sid in r.sub.items():
            sub = st.reg(sid)
            c = iconst(sub.n)
            if so <= p.o < so + sub.esz * (c or 0):
                return self.store(st, Ptr(sid, (p.o - so) // sub.esz, (p.o - so) % sub.esz), ty, v, mod)
        if r.nbytes is not None and iconst(r.nbytes) is not None and (p.o < 0 or p.o + sz > iconst(r.nbytes)):
            self.oblige(st, 'write in bounds of %s' % r.name, z3.BoolVal(False), 'safety')
            raise PathEnd('oob')
        w = st.wreg(r.id)
        # overlapping fields of a different shape
        for o in list(w.fields):
            s = w.fields[o][0]
            if o != p.o and o < p.o + sz and p.o < o + s:
                self.split_field(st, w, o, p.o, sz)
        if p.o in w.fields and w.fields[p.o][0] != sz: self.split_field(st, w, p.o, p.o, sz)
        w.fields[p.o] = (sz, v)

    def split_field(self, st, w, o, off, sz):
        s, v = w.fields.pop(o)
        if is_ptr(v) or isinstance(v, (tuple, PtrInt)): return
        for b in range(o, o + s):
            if off <= b < off + sz: continue
            if z3.is_bv(v): w.fields[b] = (1, z3.Extract((b - o) * 8 + 7, (b - o) * 8, v))
            elif z3.is_int(v): w.fields[b] = (1, (self.tou(v, s * 8) / (1 << (8 * (b - o)))) % 256)

    def arr_store(self, st, r, p, ty, sz, v):
        key = p.o
        i = self.A.idx(p.i)
        if r.info == COOKIE:
            if key == -8 and sz == 8:
                self.oblige(st, 'element count of %s' % r.name, v == self.A.idx(r.n), 'safety')
                return
            raise Unsupported('member of an element of %s' % r.name)
        r = st.wreg(r.id)
        if ty.k == 'ptr':
            cls = r.info.get(('cls', key)) if isinstance(r.info, dict) else None
            if cls:
                t = self.ref_term(v)
                r.arrs[key] = z3.Store(r.arrs[key], i, t)
                h = getattr(self.contract, 'elem_store', None)      # ghost step of the contract
                if h: h(self, st, r, i, t)
                return
            c = iconst(i)
            if c is not None:
                r.info = dict(r.info or {})
                pl = list(r.info.get(('plist', key)) or [])
                while len(pl) <= c: pl.append(Opaque('uninit'))
                pl[c] = v
                r.info[('plist', key)] = pl
                return
            h = getattr(self.contract, 'ptr_elem_store', None)
            if h: return h(self, st, r, p, v)
            raise Unsupported('pointer store into array %s' % r.name)
        if r.esz > sz and key == 0 and not r.arrs:
            raise Unsupported('narrow store')
        if r.esz < sz and (ty.k == 'int' or self.fp == 'bits') and sz % r.esz == 0:
            k = sz // r.esz
            self.inbounds(st, Ptr(p.r, self.add(p.i, k - 1), 0), r, 'write')
            for j in range(k):
                if self.mode == 'bv': x = z3.Extract((j + 1) * r.esz * 8 - 1, j * r.esz * 8, v)
                else: x = (self.tou(v, sz * 8) / (1 << (8 * r.esz * j))) % (1 << (8 * r.esz))
                self.arr_store(st, r, Ptr(p.r, self.add(p.i, j), 0), IntT(r.esz * 8), r.esz, z3.simplify(x))
            return
        a = r.arrs.get(key)
        if isinstance(v, PtrInt): raise Unsupported('ptr as int in array')
        if z3.is_bool(v): v = z3.If(v, self.A.const(1, 8), self.A.const(0, 8))
        if a is None:
            a = z3.Const(fresh_name('uninit_' + r.name), z3.ArraySort(self.A.isort, v.sort()))
        if a.sort().range() != v.sort():
            v = self.coerce_sort(v, a.sort().range())
        r.arrs[key] = z3.Store(a, i, v)

    def coerce_sort(self, v, s):
        if z3.is_fp(v) and s.kind() == z3.Z3_BV_SORT: return z3.fpToIEEEBV(v)
        raise Unsupported('sort mismatch %s %s' % (v.sort(), s))

    def ref_term(self, v):
        if isinstance(v, NullP): return z3.IntVal(0)
        if isinstance(v, Ref):
            if v.o != 0: raise Unsupported('interior ref')
            return v.t
        if isinstance(v, PIte): return z3.If(v.c, self.ref_term(v.a), self.ref_term(v.b))
        raise Unsupported('ref of %r' % v)

    # heap of nodes
    def heap_arr(self, st, cls, off, sort):
        k = (cls, off)
        if k not in st.heap:
            st.heap[k] = z3.Const('heap_%s_%d' % (cls, off), z3.ArraySort(z3.IntSort(), sort))
        return st.heap[k]

    def heap_check(self, st, p, what):
        import nodes
        nodes.access(self, st, p, what)

    def heap_load(self, st, p, ty):
        self.heap_check(st, p, 'read')
        if ty.k == 'ptr':
            import nodes
            v = nodes.vptr(self, st, p)
            if v is not None: return v
            cls = self.refcls.get((p.cls, p.o))
            if cls is None: raise Unsupported('heap pointer field %s+%d' % (p.cls, p.o))
            return Ref(cls, z3.Select(self.heap_arr(st, p.cls, p.o, z3.IntSort()), p.t))
        if ty.k == 'int':
            v = z3.Select(self.heap_arr(st, p.cls, p.o, self.A.sort(ty.bits)), p.t)
            st.assume(self.A.range(v, ty.bits))
            return v
        if ty.k in ('double', 'float'):
            return z3.Select(self.heap_arr(st, p.cls, p.o, self.fpsort(ty)), p.t)
        raise Unsupported('heap load %r' % ty)

    def heap_store(self, st, p, ty, v):
        self.heap_check(st, p, 'write')
        if ty.k == 'ptr':
            if (p.cls, p.o) not in self.refcls:
                if isinstance(v, GlobP): return      # vptr: nodes of a class are taken to be exactly of that class
                raise Unsupported('heap pointer store %s+%d' % (p.cls, p.o))
            t = self.ref_term(v)
            a = self.heap_arr(st, p.cls, p.o, z3.IntSort())
            st.heap[(p.cls, p.o)] = z3.Store(a, p.t, t)
            return
        if isinstance(v, PtrInt): raise Unsupported('heap ptrint')
        if z3.is_bool(v): v = z3.If(v, self.A.const(1, 8), self.A.const(0, 8))
        a = self.heap_arr(st, p.cls, p.o, v.sort())
        st.heap[(p.cls, p.o)] = z3.Store(a, p.t, v)

    # memcpy / memset on n bytes
    def memcpy(self, st, d, s, n, mod):
        d, s = self.resolve_ptr(st, d), self.resolve_ptr(st, s)
        c = iconst(n)
        if c == 0: return
        if isinstance(s, GlobP): s = self.glob_region(st, s, mod)
        if c is None and (isinstance(d, (NullP, Opaque)) or isinstance(s, (NullP, Opaque))):
            z = n == self.A.idx(0)
            self.oblige(st, 'memcpy through invalid pointer only with length 0', z, 'safety')
            return
        if any(isinstance(x, Ptr) and st.reg(x.r).info == COOKIE for x in (d, s)): raise Unsupported('memcpy of objects with a constructor')
        if isinstance(d, (NullP, Opaque)) or isinstance(s, (NullP, Opaque)):
            self.oblige(st, 'memcpy pointers valid', z3.BoolVal(False), 'safety')
            raise PathEnd('memcpy null')
        if isinstance(d, Ref) or isinstance(s, Ref): raise Unsupported('memcpy on heap node')
        rd, rs = st.reg(d.r), st.reg(s.r)
        self.check_alive(st, rd, 'memcpy'); self.check_alive(st, rs, 'memcpy')
        # struct <-> anything: field-wise
        if rs.kind == 'struct' or rd.kind == 'struct':
            if c is None: raise Unsupported('symbolic memcpy with struct')
            sub_s = s.o in rs.sub if rs.kind == 'struct' else False
            if rs.kind == 'struct' and rd.kind == 'struct':
                w = st.wreg(rd.id)
                for o in list(w.fields):
                    if d.o <= o < d.o + c: del w.fields[o]
                for o, (z, v) in list(rs.fields.items()):
                    if s.o <= o and o + z <= s.o + c: w.fields[o - s.o + d.o] = (z, v)
                    elif o < s.o + c and s.o < o + z: raise Unsupported('partial field memcpy')
                for o, sid in rs.sub.items():
                    if s.o <= o < s.o + c:
                        src = st.reg(sid)
                        nr = self.new_region(st, 'array', rd.name + '.sub', esz=src.esz, n=src.n)
                        nr.arrs = dict(src.arrs); nr.info = src.info if isinstance(src.info, dict) else None
                        w = st.wreg(rd.id); w.sub[o - s.o + d.o] = nr.id
                return
            if rs.kind == 'struct' and sub_s:
                return self.memcpy(st, d, Ptr(rs.sub[s.o], 0, 0), n, mod)
            if rd.kind == 'struct' and d.o in rd.sub:
                return self.memcpy(st, Ptr(rd.sub[d.o], 0, 0), s, n, mod)
            if rs.kind == 'struct':   # struct -> array element
                for o, (z, v) in list(rs.fields.items()):
                    if s.o <= o and o + z <= s.o + c:
                        if rd.kind == 'raw': rd = self.set_elem(st, rd, c); rd.kind = 'array'
                        ty = PTR if is_ptr(v) else (IntT(z * 8) if z3.is_bv(v) or z3.is_int(v) or z3.is_bool(v) else Type('double'))
                        self.store(st, Ptr(d.r, d.i, d.o + o - s.o), ty, v, mod)
                return
            # array element -> struct
            w = st.wreg(rd.id)
            if c == rs.esz or rs.esz in (None,) or (rs.arrs and len(rs.arrs) > 1):
                if rs.esz is None: rs = self.set_elem(st, rs, c)
                keys = list(rs.arrs) or [0]
                for k in keys:
                    if k == 0 and len(keys) == 1: z = rs.esz
                    else: z = self._arr_width(rs, k)
                    ty = self._arr_type(rs, k, z)
                    v = self.load(st, Ptr(s.r, s.i, s.o + k), ty, mod)
                    self.store(st, Ptr(d.r, d.i, d.o + k), ty, v, mod)
                return
            if c % rs.esz == 0 and c // rs.esz <= 16:
                ty = self._arr_type(rs, 0, rs.esz)
                for j in range(c // rs.esz):
                    v = self.load(st, Ptr(s.r, self.add(s.i, j), 0), ty, mod)
                    self.store(st, Ptr(d.r, d.i, d.o + j * rs.esz), ty, v, mod)
                return
            raise Unsupported('memcpy array->struct')
        if rd.esz is None and rs.esz is None: raise Unsupported('memcpy between untyped')
        if rd.esz is None: rd = self.set_elem(st, rd, rs.esz); rd.kind = 'array'
        if rs.esz is None: rs = self.set_elem(st, rs, rd.esz); rs.kind = 'array'
        if rd.esz != rs.esz: raise Unsupported('memcpy element size %s/%s' % (rd.esz, rs.esz))
        es = rd.esz
        if s.o or d.o: raise Unsupported('memcpy interior')
        cnt = self.divexact(self.A.idx(n) if not isinstance(n, int) else self.A.idx(n), es)
        di, si = self.A.idx(d.i), self.A.idx(s.i)
        Z = self.A.idx(0)
        if c is not None and c // es <= 4:
            for j in range(c // es):
                ty = self._arr_type(rs, 0, es)
                v = self.load(st, Ptr(s.r, self.add(s.i, j), 0), ty, mod)
                self.store(st, Ptr(d.r, self.add(d.i, j), 0), ty, v, mod)
            return
        self.oblige(st, 'memcpy length not negative', cnt >= Z, 'safety')
        self.oblige(st, 'memcpy source in bounds of %s' % rs.name, z3.Or(cnt == Z, z3.And(si >= Z, si <= self.A.idx(rs.n), cnt <= self.A.idx(rs.n) - si)), 'safety')
        self.oblige(st, 'memcpy destination in bounds of %s' % rd.name, z3.Or(cnt == Z, z3.And(di >= Z, di <= self.A.idx(rd.n), cnt <= self.A.idx(rd.n) - di)), 'safety')
        if rd.id == rs.id:
            self.oblige(st, 'memcpy ranges do not overlap', z3.Or(cnt == Z, di + cnt <= si, si + cnt <= di), 'safety')
        if rs.info and isinstance(rs.info, dict): raise Unsupported('memcpy of pointer array')
        keys = list(rs.arrs) or [0]
        for k in keys:
            sa = rs.arrs.get(k)
            if sa is None:
                sa = z3.Const(fresh_name('uninit'), z3.ArraySort(self.A.isort, self.A.sort(es * 8)))
                st.wreg(rs.id).arrs[k] = sa
            da = rd.arrs.get(k)
            na = z3.Const(fresh_name('cp_' + rd.name), sa.sort())
            kv = z3.Const(fresh_name('k'), self.A.isort)
            old = z3.Select(da, kv) if da is not None and da.sort() == sa.sort() else None
            inr = z3.And(di <= kv, kv < di + cnt)
            src = z3.Select(sa, z3.simplify(kv - di + si))
            body = (z3.Select(na, kv) == z3.If(inr, src, old)) if old is not None else z3.Implies(inr, z3.Select(na, kv) == src)
            st.assume(ForAll(kv, body, [z3.Select(na, kv)]))
            st.wreg(rd.id).arrs[k] = na

    def _arr_width(self, r, k):
        ks = sorted(r.arrs) + [r.esz]
        return ks[ks.index(k) + 1] - k

    def _arr_type(self, r, k, z):
        a = r.arrs.get(k)
        if isinstance(r.info, dict) and (('cls', k) in r.info or ('plist', k) in r.info): return PTR
        if a is not None:
            s = a.sort().range()
            if s.kind() in (z3.Z3_FLOATING_POINT_SORT, z3.Z3_REAL_SORT): return Type('double' if z == 8 else 'float')
        return IntT(z * 8)

    def memset(self, st, d, b, n, mod):
        d = self.resolve_ptr(st, d)
        if isinstance(d, Ptr) and st.reg(d.r).info == COOKIE: raise Unsupported('memset of objects with a constructor')
        c = iconst(n)
        if c == 0: return
        if isinstance(d, (NullP, Opaque)):
            self.oblige(st, 'memset pointer valid or length 0', (n == self.A.idx(0)) if c is None else z3.BoolVal(False), 'safety')
            return
        if isinstance(d, Ref):
            import nodes
            if c is None or iconst(b) != 0: raise Unsupported('memset of a node')
            return nodes.zero(self, st, d, c)
        r = st.reg(d.r)
        self.check_alive(st, r, 'memset')
        bc = iconst(b)
        if r.kind == 'struct':
            if c is None: raise Unsupported('symbolic memset on struct')
            if d.o in r.sub: return self.memset(st, Ptr(r.sub[d.o], 0, 0), b, n, mod)
            w = st.wreg(r.id)
            for o in list(w.fields):
                if d.o <= o < d.o + c:
                    z, v = w.fields[o]
                    if bc == 0: w.fields[o] = (z, NULL if is_ptr(v) else (self.A.const(0, z * 8) if (z3.is_bv(v) or z3.is_int(v)) else self.val(st, Type('double'), ('fp', 0.0), None)))
                    else: del w.fields[o]
            for o in range(d.o, d.o + c):
                if not any(q <= o < q + w.fields[q][0] for q in w.fields): w.fields[o] = (1, b)
            return
        if r.esz is None: r = self.set_elem(st, r, 1); r.kind = 'array'
        es = r.esz
        if es != 1 and bc != 0: raise Unsupported('memset nonzero wide')
        cnt = self.divexact(self.A.idx(n) if isinstance(n, int) else n, es)
        di = self.A.idx(d.i)
        Z = self.A.idx(0)
        self.oblige(st, 'memset length not negative', cnt >= Z, 'safety')
        self.oblige(st, 'memset in bounds of %s' % r.name, z3.Or(cnt == Z, z3.And(di >= Z, di <= self.A.idx(r.n), cnt <= self.A.idx(r.n) - di)), 'safety')
        w = st.wreg(r.id)
        if isinstance(r.info, dict):
            raise Unsupported('memset of pointer array')
        a = w.arrs.get(0)
        srt = a.sort().range() if a is not None else self.A.sort(es * 8)
        if bc == 0 and srt.kind() in (z3.Z3_REAL_SORT,): v = z3.RealVal(0)
        elif bc == 0 and srt.kind() == z3.Z3_FLOATING_POINT_SORT: v = z3.FPVal(0.0, srt)
        else: v = b if es == 1 else self.A.const(0, es * 8)
        na = z3.Const(fresh_name('set_' + r.name), z3.ArraySort(self.A.isort, srt))
        kv = z3.Const(fresh_name('k'), self.A.isort)
        inr = z3.And(di <= kv, kv < di + cnt)
        body = z3.Select(na, kv) == (z3.If(inr, v, z3.Select(a, kv)) if a is not None else v) if a is not None else z3.Implies(inr, z3.Select(na, kv) == v)
        st.assume(ForAll(kv, body, [z3.Select(na, kv)]))
        w.arrs[0] = na

    # ---------------------------------------------------------- integer operations
    def wrap(self, st, e, w):
        """mathematical integer e -> canonical w-bit value (int mode)"""
        e = z3.simplify(e)
        c = iconst(e)
        if c is not None: return self.A.const(c, w)
        lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if w >= 32 else (0, (1 << w) - 1)
        if self.implied(st, z3.And(e >= lo, e <= hi)): return e
        m = 1 << w
        if w >= 32:
            return ((e + (m >> 1)) % m) - (m >> 1)
        return e % m

    def sgn(self, st, x, w):
        """signed mathematical value"""
        if w >= 32: return x
        c = iconst(x)
        if c is not None: return z3.IntVal(c - (1 << w) if c >= (1 << (w - 1)) else c)
        if self.implied(st, x < (1 << (w - 1))): return x
        return z3.If(x >= (1 << (w - 1)), x - (1 << w), x)

    def uns(self, st, x, w):
        if w < 32: return x
        c = iconst(x)
        if c is not None: return z3.IntVal(c + (1 << w) if c < 0 else c)
        if self.implied(st, x >= 0): return x
        return z3.If(x < 0, x + (1 << w), x)

    def nowrap(self, st, e, w, what):
        lo, hi = -(1 << (w - 1)), (1 << (w - 1)) - 1
        g = z3.simplify(z3.And(e >= lo, e <= hi))
        if z3.is_true(g): return
        self.oblige(st, 'no signed overflow in %s' % what, g, 'overflow')

    def binop(self, st, op, a, b, w, flags):
        if isinstance(a, PtrInt) or isinstance(b, PtrInt): return self.ptrint(st, op, a, b, w)
        if w == 1:
            if op == 'and': return z3.simplify(z3.And(a, b))
            if op == 'or': return z3.simplify(z3.Or(a, b))
            if op in ('xor', 'add', 'sub'): return z3.simplify(z3.Xor(a, b))
            raise Unsupported('i1 ' + op)
        if self.mode == 'bv': return self.bv_binop(st, op, a, b, w, flags)
        ca, cb = iconst(a), iconst(b)
        if op in ('add', 'sub', 'mul'):
            if w < 32 or ('nsw' not in flags):
                x, y = (a, b) if w < 32 else (a, b)
                if 'nuw' in flags or 'nsw' not in flags and w >= 32:
                    pass
                e = {'add': lambda: x + y, 'sub': lambda: x - y, 'mul': lambda: x * y}[op]()
                return self.wrap(st, e, w)
            e = {'add': lambda: a + b, 'sub': lambda: a - b, 'mul': lambda: a * b}[op]()
            e = z3.simplify(e)
            if self.check_overflow: self.nowrap(st, e, w, '%s i%d' % (op, w))
            return e
        if op in ('sdiv', 'srem'):
            x, y = self.sgn(st, a, w), self.sgn(st, b, w)
            if cb is None: self.oblige(st, 'divisor not zero', y != 0, 'safety')
            elif cb == 0:
                self.oblige(st, 'divisor not zero', z3.BoolVal(False), 'safety'); raise PathEnd('div0')
            if cb == -1 or cb is None:
                self.oblige(st, 'no overflow in division', z3.Not(z3.And(x == -(1 << (w - 1)), y == -1)), 'overflow')
            if cb is None and op == 'srem' and getattr(self.contract, 'opaque_rem', False) and self.implied(st, z3.And(x >= 0, y > 0)): return self.orem(st, x, y)
            q = self.tdiv(st, x, y)
            if op == 'sdiv': return q if w >= 32 else self.wrap(st, q, w)
            r = self.trem(st, x, y)
            return r if w >= 32 else self.wrap(st, r, w)
        if op in ('udiv', 'urem'):
            x, y = self.uns(st, a, w), self.uns(st, b, w)
            if cb is None: self.oblige(st, 'divisor not zero', y != 0, 'safety')
            if cb is None and op == 'urem' and getattr(self.contract, 'opaque_rem', False) and self.implied(st, y > 0): return self.wrap(st, self.orem(st, x, y), w)
            r = x / y if op == 'udiv' else x % y
            return self.wrap(st, r, w)
        if op == 'and':
            if ca is not None: a, b, ca, cb = b, a, cb, ca
            if cb is not None:
                m = cb % (1 << w)
                if m == 0: return z3.IntVal(0)
                if (m & (m + 1)) == 0:
                    if m == (1 << w) - 1: return a
                    if self.implied(st, z3.And(a >= 0, a <= m)): return a
                    return a % (m + 1)
                # contiguous high mask
                low = (m & -m).bit_length() - 1
                if (m >> low) & ((m >> low) + 1) == 0:
                    k = (m >> low) + 1
                    u = self.uns(st, a, w)
                    return self.canonu(((u / (1 << low)) % k) * (1 << low), w) if m >= (1 << (w - 1)) else ((u / (1 << low)) % k) * (1 << low)
                if (m ^ ((1 << w) - 1)) and ((m ^ ((1 << w) - 1)) + 1) & (m ^ ((1 << w) - 1)) == 0:
                    z = (m ^ ((1 << w) - 1)) + 1
                    return a - (a % z)
        if op == 'shl' and cb is not None:
            e = a * (1 << cb)
            if 'nsw' in flags and w >= 32:
                if self.check_overflow: self.nowrap(st, e, w, 'shl')
                return z3.simplify(e)
            return self.wrap(st, e, w)
        if op == 'lshr' and cb is not None:
            return self.wrap(st, self.uns(st, a, w) / (1 << cb), w)
        if op == 'ashr' and cb is not None:
            return self.wrap(st, self.sgn(st, a, w) / (1 << cb), w)
        if op == 'xor' and cb is not None and cb % (1 << w) == (1 << w) - 1:
            return self.wrap(st, -a - 1, w)
        if ca is not None and cb is not None:
            f = {'and': lambda x, y: x & y, 'or': lambda x, y: x | y, 'xor': lambda x, y: x ^ y}.get(op)
            if f: return self.A.const(f(ca, cb), w)
        if op in ('or', 'and', 'xor'):      # one operand chosen between constants
            for x, y in ((a, b), (b, a)):
                if z3.is_app_of(y, z3.Z3_OP_ITE) and z3.is_int_value(y.arg(1)) and z3.is_int_value(y.arg(2)):
                    return z3.If(y.arg(0), self.binop(st, op, x, y.arg(1), w, flags), self.binop(st, op, x, y.arg(2), w, flags))
        if op == 'or':
            for x, c in ((a, cb), (b, ca)):
                if c == 0: return x
                if c == -(1 << (w - 1)) and w >= 32: return z3.If(x < 0, x, x + c)
            # disjoint or as addition
            for x, y in ((a, b), (b, a)):
                c = iconst(y)
                if c is not None and c >= 0:
                    k = c.bit_length()
                    if self.implied(st, z3.And(x >= 0, x % (1 << k) == 0)): return z3.simplify(x + y)
            for x, y in ((a, b), (b, a)):
                k = self.low_zeros(x)
                if not k: continue
                disj = z3.And(x % (1 << k) == 0, y >= 0, y < (1 << k))
                if k >= w - 1 and w >= 32: continue
                if self.implied(st, disj): return z3.simplify(x + y)
                if self.low_zeros(y) == 0 and (w < 32 or self.implied(st, z3.And(x >= 0, y >= 0, x + y < (1 << (w - 1))))):
                    r = self.fresh_int(st, w, 'or')
                    st.assume([r >= x, r >= y, r <= x + y, z3.Implies(disj, r == x + y)])
                    return r
        # fall back on bit vectors
        x, y = z3.Int2BV(a, w), z3.Int2BV(b, w)
        r = {'and': lambda: x & y, 'or': lambda: x | y, 'xor': lambda: x ^ y, 'shl': lambda: x << y, 'lshr': lambda: z3.LShR(x, y), 'ashr': lambda: x >> y}[op]()
        return z3.BV2Int(r, is_signed=(w >= 32))

    def low_zeros(self, e):
        """number of low bits that the shape of the term shows to be zero"""
        if z3.is_int_value(e):
            v = e.as_long()
            return 64 if v == 0 else (v & -v).bit_length() - 1
        if z3.is_mul(e): return sum(self.low_zeros(c) for c in e.children())
        if z3.is_add(e) or z3.is_sub(e): return min(self.low_zeros(c) for c in e.children())
        k = e.decl().kind()
        if k == z3.Z3_OP_ITE: return min(self.low_zeros(e.arg(1)), self.low_zeros(e.arg(2)))
        if k in (z3.Z3_OP_MOD, z3.Z3_OP_IDIV) and z3.is_int_value(e.arg(1)):
            m = e.arg(1).as_long(); j = self.low_zeros(e.arg(0))
            if m > 0 and m & (m - 1) == 0:
                if k == z3.Z3_OP_MOD: return min(j, 64) if j < m.bit_length() - 1 else 64
                return max(0, j - (m.bit_length() - 1))
        if k == z3.Z3_OP_UMINUS: return self.low_zeros(e.arg(0))
        return 0

    def tdiv(self, st, x, y):
        cy = iconst(y)
        cx = iconst(x)
        if cx is not None and cy is not None:
            q = abs(cx) // abs(cy)
            return z3.IntVal(q if (cx >= 0) == (cy >= 0) else -q)
        if cy is not None and cy > 0:
            if self.implied(st, x >= 0): return x / y
            return z3.If(x >= 0, x / y, -((-x) / y))
        if cy is not None:
            return z3.If(x >= 0, -(x / -cy), (-x) / (-cy))
        return self.tdivmod(st, x, y)[0]

    def trem(self, st, x, y):
        cy = iconst(y)
        if cy is not None:
            c = abs(cy)
            if iconst(x) is not None:
                v = iconst(x)
                return z3.IntVal(abs(v) % c if v >= 0 else -(abs(v) % c))
            if self.implied(st, x >= 0): return x % c
            return z3.If(x >= 0, x % c, -((-x) % c))
        return self.tdivmod(st, x, y)[1]

    def tdivmod(self, st, x, y):
        q, r, facts = trunc_div(x, y)
        st.assume(facts)
        return q, r

    def bv_binop(self, st, op, a, b, w, flags):
        cb = iconst(b)
        if 'nsw' in flags and self.check_overflow and op in ('add', 'sub', 'mul', 'shl'):
            if op == 'add': g = z3.And(z3.BVAddNoOverflow(a, b, True), z3.BVAddNoUnderflow(a, b))
            elif op == 'sub': g = z3.And(z3.BVSubNoOverflow(a, b), z3.BVSubNoUnderflow(a, b, True))
            elif op == 'mul': g = z3.And(z3.BVMulNoOverflow(a, b, True), z3.BVMulNoUnderflow(a, b))
            else: g = None
            if g is not None:
                g = z3.simplify(g)
                if not z3.is_true(g): self.oblige(st, 'no signed overflow in %s i%d' % (op, w), g, 'overflow')
        if op in ('sdiv', 'srem', 'udiv', 'urem'):
            if cb is None: self.oblige(st, 'divisor not zero', b != 0, 'safety')
            elif cb == 0:
                self.oblige(st, 'divisor not zero', z3.BoolVal(False), 'safety'); raise PathEnd('div0')
        r = {'add': lambda: a + b, 'sub': lambda: a - b, 'mul': lambda: a * b, 'sdiv': lambda: a / b, 'srem': lambda: z3.SRem(a, b),
             'udiv': lambda: z3.UDiv(a, b), 'urem': lambda: z3.URem(a, b), 'and': lambda: a & b, 'or': lambda: a | b, 'xor': lambda: a ^ b,
             'shl': lambda: a << b, 'lshr': lambda: z3.LShR(a, b), 'ashr': lambda: a >> b}[op]()
        return z3.simplify(r)

    def orem(self, st, x, y):
        """remainder by a symbolic divisor as an opaque function with its bounds"""
        r = OREM(x, y)
        st.assume([r >= 0, r < y, z3.Implies(x < y, r == x)])
        return r

    def ptrint(self, st, op, a, b, w):
        if op == 'sub' and isinstance(a, PtrInt) and isinstance(b, PtrInt):
            p, q = self.resolve_ptr(st, a.p), self.resolve_ptr(st, b.p)
            if isinstance(p, Ptr) and isinstance(q, Ptr) and p.r == q.r:
                r = st.reg(p.r)
                es = r.esz or 1
                d = self.add(self.mulc(self.A.idx(p.i), es), p.o - q.o)
                return z3.simplify(self.A.idx(d) - self.A.idx(self.mulc(self.A.idx(q.i), es)))
        raise Unsupported('pointer arithmetic on integers')

    def icmp(self, st, pred, a, b, ty):
        if ty.k == 'ptr' or isinstance(a, PtrInt) or isinstance(b, PtrInt): return self.pcmp(st, pred, a, b)
        w = ty.bits
        if w == 1:
            if pred == 'eq': return a == b
            if pred == 'ne': return a != b
            raise Unsupported('i1 cmp')
        if pred == 'eq': r = a == b
        elif pred == 'ne': r = a != b
        elif self.mode == 'bv':
            r = {'slt': lambda: a < b, 'sle': lambda: a <= b, 'sgt': lambda: a > b, 'sge': lambda: a >= b, 'ult': lambda: z3.ULT(a, b),
                 'ule': lambda: z3.ULE(a, b), 'ugt': lambda: z3.UGT(a, b), 'uge': lambda: z3.UGE(a, b)}[pred]()
        else:
            x, y = (self.sgn(st, a, w), self.sgn(st, b, w)) if pred[0] == 's' else (self.uns(st, a, w), self.uns(st, b, w))
            r = {'lt': lambda: x < y, 'le': lambda: x <= y, 'gt': lambda: x > y, 'ge': lambda: x >= y}[pred[1:]]()
        if self.guards is not None and not isinstance(r, bool): self.guards.append((a, b))
        return z3.simplify(r) if not isinstance(r, bool) else z3.BoolVal(r)

    def pcmp(self, st, pred, a, b):
        if isinstance(a, PtrInt): a = a.p
        if isinstance(b, PtrInt): b = b.p
        if not is_ptr(a) and iconst(a) == 0: a = NULL
        if not is_ptr(b) and iconst(b) == 0: b = NULL
        if isinstance(a, PIte): return z3.If(a.c, self.pcmp(st, pred, a.a, b), self.pcmp(st, pred, a.b, b))
        if isinstance(b, PIte): return z3.If(b.c, self.pcmp(st, pred, a, b.a), self.pcmp(st, pred, a, b.b))
        if pred in ('ne',): return z3.Not(self.pcmp(st, 'eq', a, b))
        T, F = z3.BoolVal(True), z3.BoolVal(False)
        if pred == 'eq':
            if isinstance(a, NullP) and isinstance(b, NullP): return T
            if isinstance(a, Ref) or isinstance(b, Ref):
                if isinstance(a, (Ref, NullP)) and isinstance(b, (Ref, NullP)) and any(isinstance(x, Ref) and x.o for x in (a, b)):
                    if isinstance(a, NullP) or isinstance(b, NullP): return z3.BoolVal(False)      # address of a member
                    if a.cls == b.cls: return a.t == b.t if a.o == b.o else z3.BoolVal(False)
                    raise Unsupported('comparison of member addresses')
                if isinstance(a, (Ref, NullP)) and isinstance(b, (Ref, NullP)): return z3.simplify(self.ref_term(a) == self.ref_term(b))
                if isinstance(a, Ptr) or isinstance(b, Ptr): return F
                raise Unsupported('ref compare')
            if isinstance(a, NullP) or isinstance(b, NullP):
                o = b if isinstance(a, NullP) else a
                if isinstance(o, Opaque): return z3.Const(fresh_name('nullcmp'), z3.BoolSort())
                return F
            if isinstance(a, Ptr) and isinstance(b, Ptr):
                if a.r != b.r: return F
                if a.o != b.o and isinstance(a.i, int) and isinstance(b.i, int) and a.i == b.i: return F
                r = z3.simplify(z3.And(self.A.idx(a.i) == self.A.idx(b.i), z3.BoolVal(a.o == b.o)))
                if self.guards is not None: self.guards.append((self.A.idx(a.i), self.A.idx(b.i)))
                return r
            if isinstance(a, GlobP) and isinstance(b, GlobP): return T if (a.name == b.name and a.off == b.off) else F
            if isinstance(a, Opaque) or isinstance(b, Opaque):
                if a is b: return T
                return z3.Const(fresh_name('pcmp'), z3.BoolSort())
            return F
        if isinstance(a, Ptr) and isinstance(b, Ptr) and a.r == b.r:
            x, y = self.A.idx(a.i), self.A.idx(b.i)
            if self.guards is not None: self.guards.append((x, y))
            if a.o == b.o:
                return {'lt': x < y, 'le': x <= y, 'gt': x > y, 'ge': x >= y}[pred[1:]]
        raise Unsupported('pointer order')

    # ---------------------------------------------------------- casts
    def cast(self, st, op, v, fty, tty):
        if op in ('bitcast', 'addrspacecast'):
            return v
        if op == 'ptrtoint': return PtrInt(v) if not isinstance(v, NullP) else self.A.const(0, tty.bits)
        if op == 'inttoptr':
            if isinstance(v, PtrInt): return v.p
            if iconst(v) == 0: return NULL
            return Opaque('inttoptr')
        if isinstance(v, PtrInt):
            if op in ('zext', 'sext', 'trunc'): raise Unsupported('cast of pointer integer')
        if op in ('zext', 'sext', 'trunc'):
            f, t = fty.bits, tty.bits
            if f == 1:
                one = self.A.const(1, t) if op == 'zext' else self.A.const(-1, t)
                return z3.simplify(z3.If(v, one, self.A.const(0, t)))
            if t == 1:
                if self.mode == 'bv': return z3.simplify(z3.Extract(0, 0, v) == 1)
                if z3.is_app(v) and v.decl().kind() == z3.Z3_OP_ITE and iconst(v.arg(1)) == 1 and iconst(v.arg(2)) == 0: return v.arg(0)
                return z3.simplify(v % 2 == 1)
            if self.mode == 'bv':
                if op == 'zext': return z3.simplify(z3.ZeroExt(t - f, v))
                if op == 'sext': return z3.simplify(z3.SignExt(t - f, v))
                return z3.simplify(z3.Extract(t - 1, 0, v))
            if op == 'zext': return self.uns(st, v, f) if f >= 32 else v
            if op == 'sext':
                x = self.sgn(st, v, f)
                return x if t >= 32 else self.wrap(st, x, t)
            return self.wrap(st, v, t)
        if self.fp == 'bits' and op in ('sitofp', 'uitofp', 'fptosi', 'fptoui', 'fpext', 'fptrunc'): raise Unsupported('floating point conversion of bit patterns')
        if op in ('sitofp', 'uitofp'):
            if self.fp == 'real':
                if self.mode == 'bv': return z3.ToReal(z3.BV2Int(v, is_signed=(op == 'sitofp')))
                return z3.ToReal(self.sgn(st, v, fty.bits) if op == 'sitofp' else self.uns(st, v, fty.bits))
            if self.mode == 'int': v = z3.Int2BV(v, fty.bits)
            return z3.fpSignedToFP(z3.RNE(), v, self.fpsort(tty)) if op == 'sitofp' else z3.fpUnsignedToFP(z3.RNE(), v, self.fpsort(tty))
        if op in ('fptosi', 'fptoui'):
            if self.fp == 'real':
                t = z3.If(v >= 0, z3.ToInt(v), -z3.ToInt(-v))
                w = tty.bits
                if op == 'fptosi': lo, hi = -(1 << (w - 1)), (1 << (w - 1)) - 1
                else: lo, hi = 0, (1 << w) - 1
                self.oblige(st, 'float to integer conversion in range', z3.And(t >= lo, t <= hi), 'overflow')
                if self.mode == 'bv': return z3.Int2BV(t, w)
                return self.canonu(t, w) if op == 'fptoui' else (t if w >= 32 else self.wrap(st, t, w))
            w = tty.bits
            lo, hi = (-(2.0 ** (w - 1)) - 1, 2.0 ** (w - 1)) if op == 'fptosi' else (-1.0, 2.0 ** w)
            srt = v.sort()
            lo_c = z3.fpGT(v, z3.FPVal(lo, srt)) if w < 53 else z3.fpGEQ(v, z3.FPVal(lo + 1 if op == 'fptosi' else -0.0, srt))
            self.oblige(st, 'float to integer conversion in range', z3.And(lo_c, z3.fpLT(v, z3.FPVal(hi, srt))), 'overflow')
            r = z3.fpToSBV(z3.RTZ(), v, z3.BitVecSort(w)) if op == 'fptosi' else z3.fpToUBV(z3.RTZ(), v, z3.BitVecSort(w))
            return r if self.mode == 'bv' else z3.BV2Int(r, is_signed=(w >= 32))
        if op in ('fpext', 'fptrunc'):
            if self.fp == 'real': return v
            return z3.fpFPToFP(z3.RNE(), v, self.fpsort(tty))
        raise Unsupported('cast ' + op)

    def fbin(self, st, op, a, b):
        if self.fp == 'bits': raise Unsupported('floating point arithmetic on bit patterns')
        if self.fp == 'real':
            if op == 'fadd': return a + b
            if op == 'fsub': return a - b
            if op == 'fmul': return a * b
            if op == 'fdiv':
                return a / b
            raise Unsupported(op)
        rm = z3.RNE()
        return {'fadd': z3.fpAdd, 'fsub': z3.fpSub, 'fmul': z3.fpMul, 'fdiv': z3.fpDiv}[op](rm, a, b)

    def fcmp(self, st, pred, a, b):
        if self.fp == 'bits': raise Unsupported('floating point comparison of bit patterns')
        if self.fp == 'real':
            m = {'eq': lambda: a == b, 'ne': lambda: a != b, 'lt': lambda: a < b, 'le': lambda: a <= b, 'gt': lambda: a > b, 'ge': lambda: a >= b}
            if pred in ('ord', 'true'): return z3.BoolVal(True)
            if pred in ('uno', 'false'): return z3.BoolVal(False)
            return z3.simplify(m[pred[1:]]())
        un = z3.Or(z3.fpIsNaN(a), z3.fpIsNaN(b))
        if pred == 'ord': return z3.Not(un)
        if pred == 'uno': return un
        base = {'eq': z3.fpEQ, 'lt': z3.fpLT, 'le': z3.fpLEQ, 'gt': z3.fpGT, 'ge': z3.fpGEQ}
        if pred[1:] == 'ne': r = z3.Not(z3.fpEQ(a, b)); r = z3.And(z3.Not(un), r) if pred[0] == 'o' else r
        else:
            r = base[pred[1:]](a, b)
            if pred[0] == 'u': r = z3.Or(un, r)
        return r

    # ---------------------------------------------------------- execution
    def explore(self, st, ctx):
        """returns leaves: list of (kind, state)"""
        work = [st]
        parked = {}
        leaves = []
        n = 0
        while work:
            s = work.pop()
            n += 1
            if n > self.max_paths: raise Undecided('path budget')
            self.tick()
            r = self.advance(s, ctx)
            if r[0] == 'leaf': leaves.append((r[1], r[2]))
            elif r[0] == 'park': parked.setdefault((-len(r[2].frames), list(r[2].top.fn.blocks).index(r[1].header)), []).append((r[1], r[2]))
            else: work.extend(r[1])
            if not work and parked:      # all the ways to the loop have been followed: one analysis for those that differ in values only
                for L, s in self.merge_states(parked.pop(min(parked))):
                    self.loop_enter(s, L, ctx)
                    s.top.active[L.header] = True
                    work.append(s)
        return leaves

    max_paths = 3000
    merging = False

    def merge_states(self, lst):
        out = []
        for L, s in lst:
            for i, (L2, s2) in enumerate(out):
                if L2.header != L.header or L2.depth != L.depth or s2.top.fn is not s.top.fn: continue
                m = self.merge2(s2, s)
                if m is not None:
                    out[i] = (L2, m); break
            else: out.append((L, s))
        return out

    def merge_val(self, g, a, b):
        """value that is a under g, else b; None if there is none"""
        if same(a, b): return a
        if isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef) and a.sort() == b.sort(): return z3.If(g, a, b)
        if isinstance(a, (bool, int)) and isinstance(b, (bool, int)): return a if a is b or a == b and type(a) is type(b) else None
        if isinstance(a, Ptr) and isinstance(b, Ptr) and a.r == b.r and a.o == b.o: return Ptr(a.r, z3.If(g, self.A.idx(a.i), self.A.idx(b.i)), a.o)
        if isinstance(a, Ref) and isinstance(b, Ref) and a.cls == b.cls and a.o == b.o: return Ref(a.cls, z3.If(g, a.t, b.t), a.o)
        return None

    def merge2(self, a, b):
        if len(a.frames) != len(b.frames) or set(a.regions) != set(b.regions) or set(a.ghost) != set(b.ghost) or set(a.heap) != set(b.heap): return None
        if a.retval is not b.retval: return None
        g = z3.Bool(fresh_name('via'))
        m = a.clone()
        for fa, fb, fm in zip(a.frames, b.frames, m.frames):
            if fa.fn is not fb.fn or fa.block != fb.block or fa.ip != fb.ip or fa.ret is not fb.ret or fa.active != fb.active or fa.poison or fb.poison: return None
            live = fa.fn.live_from(fa.block)
            for r in set(fa.regs) | set(fb.regs):
                if r not in live: fm.regs.pop(r, None); continue
                if r not in fa.regs or r not in fb.regs: fm.regs.pop(r, None); continue
                v = self.merge_val(g, fa.regs[r], fb.regs[r])
                if v is None: return None
                fm.regs[r] = v
        for k in a.ghost:
            if a.ghost[k] is not b.ghost[k] and not same(a.ghost[k], b.ghost[k]):
                try:
                    if a.ghost[k] == b.ghost[k] is True: continue
                except Exception: pass
                return None
        for k in a.heap:
            v = self.merge_val(g, a.heap[k], b.heap[k])
            if v is None: return None
            m.heap[k] = v
        for k in a.regions:
            x, y = a.regions[k], b.regions[k]
            if x is y: continue
            if x.kind != y.kind or x.alive != y.alive or x.esz != y.esz or set(x.arrs) != set(y.arrs) or set(x.fields) != set(y.fields) or x.info is not y.info or x.ro != y.ro: return None
            if set(x.sub) != set(y.sub) or any(x.sub[q] is not y.sub[q] and x.sub[q] != y.sub[q] for q in x.sub): return None
            w = m.wreg(k)
            for f in x.fields:
                if x.fields[f][0] != y.fields[f][0]: return None
                v = self.merge_val(g, x.fields[f][1], y.fields[f][1])
                if v is None: return None
                w.fields[f] = (x.fields[f][0], v)
            for f in x.arrs:
                p, q = x.arrs[f], y.arrs[f]
                if p is q or (z3.is_expr(p) and z3.is_expr(q) and p.eq(q)): continue
                if not (z3.is_expr(p) and z3.is_expr(q) and p.sort() == q.sort()): return None
                w.arrs[f] = z3.If(g, p, q)
            for at in ('n', 'nbytes'):
                p, q = getattr(x, at), getattr(y, at)
                if p is q: continue
                if p is None or q is None: return None
                if z3.is_expr(p) and z3.is_expr(q): setattr(w, at, p if p.eq(q) else z3.If(g, p, q))
                elif p != q: return None
        n = 0
        while n < len(a.pc) and n < len(b.pc) and (a.pc[n] is b.pc[n] or (z3.is_expr(a.pc[n]) and z3.is_expr(b.pc[n]) and a.pc[n].eq(b.pc[n]))): n += 1
        m.pc = list(a.pc[:n])
        for side, rest in ((g, a.pc[n:]), (z3.Not(g), b.pc[n:])):
            for f in rest:
                if isinstance(f, smt.Nested): m.pc.append(smt.Nested(f.var, f.trigs, ForAll(f.inner.var, z3.Implies(side, f.inner.body), f.inner.trigs if f.inner.trigs is not None else [f.inner.body])))
                elif isinstance(f, ForAll): m.pc.append(ForAll(f.var, z3.Implies(side, f.body), f.trigs if f.trigs is not None else [f.body]))
                else: m.pc.append(z3.Implies(side, f))
        m.decided = {k: v for k, v in a.decided.items() if b.decided.get(k) == v}
        return m

    def fork(self, st, cond, tag=None):
        """split on cond; returns feasible states (true, false) with cond assumed and recorded."""
        out = []
        c = z3.simplify(cond)
        for v in (True, False):
            if z3.is_true(c) and not v or z3.is_false(c) and v: continue
            f = cond if v else z3.Not(cond)
            s = st.clone()
            s.decided[cond.get_id()] = v
            _keepalive.append(cond)
            if not (z3.is_true(c) or z3.is_false(c)):
                if not self.feasible(s, f): continue
                s.assume(f)
            out.append((v, s))
        return out

    def advance(self, st, ctx):
        if '__leaf' in st.ghost:
            return ('leaf', st.ghost.pop('__leaf'), st)
        while True:
            fr = st.top
            blk = fr.fn.blocks[fr.block]
            ins = blk.ins[fr.ip]
            try:
                r = self.exec(st, ins, ctx)
            except Fork as f:
                return ('fork', [s for _, s in self.fork(st, f.cond)])
            except PathEnd as e:
                return ('leaf', 'end', st)
            except ThreadExit:
                if ctx.loop is not None: raise Unsupported('pthread_exit in a loop')
                st.retval = NULL
                return ('leaf', 'ret', st)
            except Throw as t:
                r = self.unwind(st, ctx, t.what)
            if r is None:
                st.top.ip += 1 if st.top is fr else 0
                continue
            if r == 'moved': continue
            return r

    def goto(self, st, target, ctx):
        """transfer to block; returns None/'moved' or leaf tuple"""
        fr = st.top
        prev = fr.block
        d = len(st.frames)
        if ctx.loop is not None and d == ctx.depth:
            if target not in ctx.loop.blocks and target != ctx.loop.header:
                return ('leaf', 'exit', st)
        blk = fr.fn.blocks[target]
        mod = fr.fn.mod
        vals = []
        for ph in blk.phis:
            for v, b in ph.x:
                if b == prev:
                    vals.append((ph.res, self.val(st, ph.ty, v, mod)))
                    break
            else: raise Unsupported('phi without edge')
        for k, v in vals: fr.regs[k] = v
        fr.prev, fr.block, fr.ip = prev, target, 0
        if ctx.loop is not None and d == ctx.depth and target == ctx.loop.header:
            return ('leaf', 'back', st)
        loops = fr.fn.loops()
        if target in loops:
            body = loops[target]
            inside = prev in body
            if self.unroll is not None:
                n = fr.visits.get(target, 0) + 1 if inside else 1
                fr.visits[target] = n
                if n > self.unroll: return ('leaf', 'cut', st)
                return 'moved'
            if inside and target in fr.active:
                return ('leaf', 'closed', st)
            if self.merging: return ('park', Loop(target, body, d), st)
            self.loop_enter(st, Loop(target, body, d), ctx)
            st.top.active[target] = True
            return 'moved'
        return 'moved'

    def unwind(self, st, ctx, what):
        """exception propagation; the frame that throws has no handler active unless it used invoke"""
        while True:
            fr = st.top
            ins = fr.fn.blocks[fr.block].ins[fr.ip]
            if ins.op == 'invoke':
                ub = fr.fn.blocks[ins.x['unwind']]
                st.ghost['exc'] = what
                return self.goto(st, ins.x['unwind'], ctx)
            if ctx.loop is not None and len(st.frames) == ctx.depth: return ('leaf', 'exit', st)
            if len(st.frames) == 1 or fr.ret is None:
                st.ghost['exc'] = what
                return ('leaf', 'throw', st)
            st.frames.pop()

    def op(self, st, tv, mod):
        return self.val(st, tv[0], tv[1], mod)

    def exec(self, st, ins, ctx):
        fr = st.top
        if ins.res is not None and (fr.poison or ins.op in SPECULATABLE and ins.res in fr.fn.speculated()): return self.exec_spec(st, ins, ctx)
        return self.exec_ins(st, ins, ctx)

    def exec_spec(self, st, ins, ctx):
        """instruction whose result is only used where the code chose it: conditions on its value are due at the choice"""
        fr = st.top
        spec = ins.op in SPECULATABLE and ins.res in fr.fn.speculated()
        if not spec and ins.op != 'select': return self.exec_ins(st, ins, ctx)
        self.pending = []
        try:
            r = self.exec_ins(st, ins, ctx)
            due = self.pending
        finally:
            self.pending = None
        po = fr.poison or {}
        if ins.op == 'select':
            c = self.op(st, ins.a[0], fr.fn.mod)
            for tv, g in ((ins.a[0], None), (ins.a[1], c), (ins.a[2], z3.Not(c))):
                if tv[1][0] == 'reg':
                    for nm, f in po.get(tv[1][1], ()): due.append((nm, f if g is None else z3.Implies(g, f)))
        else:
            for v in ins.a:
                if len(v) == 2 and v[0] != 'reg' and isinstance(v[1], tuple): v = v[1]
                if v[0] == 'reg': due += po.get(v[1], [])
        if spec:
            if due:
                fr.poison = dict(po)
                fr.poison[ins.res] = due
        else:
            for nm, f in due:
                f = z3.simplify(f)
                if not z3.is_true(f): self.oblige(st, nm, f, 'overflow')
        return r

    def exec_ins(self, st, ins, ctx):
        fr = st.top
        mod = fr.fn.mod
        op = ins.op
        regs = fr.regs
        if op == 'br':
            if not ins.a: return self.goto(st, ins.x[0], ctx)
            c = self.op(st, ins.a[0], mod)
            cs = z3.simplify(c)
            if z3.is_true(cs): return self.goto(st, ins.x[0], ctx)
            if z3.is_false(cs): return self.goto(st, ins.x[1], ctx)
            out = []
            for v, s in self.fork(st, c):
                r = self.goto(s, ins.x[0] if v else ins.x[1], ctx)
                out.append((r, s))
            return self.merge_results(out, ctx)
        if op == 'switch':
            c = self.op(st, ins.a[0], mod)
            w = ins.ty.bits
            k = iconst(c)
            if k is not None:
                for cv, b in ins.x[1]:
                    if iconst(self.A.const(cv, w)) == k: return self.goto(st, b, ctx)
                return self.goto(st, ins.x[0], ctx)
            out = []
            groups = {}
            for cv, b in ins.x[1]: groups.setdefault(b, []).append(cv)
            neg = []
            for b, cvs in groups.items():
                eqs = [c == self.A.const(cv, w) for cv in cvs]
                f = z3.Or(*eqs) if len(eqs) > 1 else eqs[0]
                neg.append(z3.Not(f))
                s = st.clone()
                if self.feasible(s, f):
                    s.assume(f)
                    out.append((self.goto(s, b, ctx), s))
            s = st.clone()
            f = z3.And(*neg) if len(neg) > 1 else neg[0]
            if self.feasible(s, f):
                s.assume(f)
                out.append((self.goto(s, ins.x[0], ctx), s))
            return self.merge_results(out, ctx)
        if op in BIN:
            ty = mod.resolve(ins.ty)
            a, b = self.val(st, ty, ins.a[0], mod), self.val(st, ty, ins.a[1], mod)
            if ty.k != 'int': raise Unsupported('vector op')
            regs[ins.res] = self.binop(st, op, a, b, ty.bits, ins.flags)
            return None
        if op in FBIN:
            a, b = self.val(st, ins.ty, ins.a[0], mod), self.val(st, ins.ty, ins.a[1], mod)
            if op == 'frem': raise Unsupported('frem')
            regs[ins.res] = self.fbin(st, op, a, b)
            return None
        if op == 'fneg':
            a = self.val(st, ins.ty, ins.a[0], mod)
            regs[ins.res] = -a if self.fp == 'real' else z3.fpNeg(a)
            return None
        if op == 'icmp':
            a, b = self.val(st, ins.ty, ins.a[0], mod), self.val(st, ins.ty, ins.a[1], mod)
            regs[ins.res] = self.icmp(st, ins.x, a, b, ins.ty)
            return None
        if op == 'fcmp':
            a, b = self.val(st, ins.ty, ins.a[0], mod), self.val(st, ins.ty, ins.a[1], mod)
            regs[ins.res] = self.fcmp(st, ins.x, a, b)
            return None
        if op in CASTS:
            v = self.op(st, ins.a[0], mod)
            regs[ins.res] = self.cast(st, op, v, mod.resolve(ins.a[0][0]), mod.resolve(ins.ty))
            return None
        if op == 'select':
            c = self.op(st, ins.a[0], mod)
            a, b = self.op(st, ins.a[1], mod), self.op(st, ins.a[2], mod)
            cs = z3.simplify(c)
            if z3.is_true(cs): regs[ins.res] = a
            elif z3.is_false(cs): regs[ins.res] = b
            elif is_ptr(a) or is_ptr(b): regs[ins.res] = PIte(cs, a, b)
            else: regs[ins.res] = z3.If(c, a, b)
            return None
        if op == 'load':
            regs[ins.res] = self.load(st, self.op(st, ins.a[0], mod), ins.ty, mod)
            return None
        if op == 'store':
            self.store(st, self.op(st, ins.a[1], mod), ins.ty, self.op(st, ins.a[0], mod), mod)
            return None
        if op == 'getelementptr':
            b = self.op(st, ins.a[0], mod)
            regs[ins.res] = self.gep(st, b, ins.x[0], [(t, self.val(st, t, v, mod)) for t, v in ins.x[1]], mod)
            return None
        if op == 'alloca':
            ty = mod.resolve(ins.ty)
            if ty.k == 'array':
                r = self.new_region(st, 'array', 'local', esz=mod.size(ty.elem), n=self.A.idx(ty.n), nbytes=mod.size(ty))
            elif ins.x is not None and iconst(self.val(st, ins.x[0], ins.x[1], mod)) != 1:
                raise Unsupported('variable alloca')
            else:
                r = self.new_region(st, 'struct', 'local', nbytes=mod.size(ty))
            regs[ins.res] = Ptr(r.id, 0, 0)
            return None
        if op == 'extractvalue':
            v = self.op(st, ins.a[0], mod)
            if not isinstance(v, tuple): raise Unsupported('extractvalue')
            for i in ins.x: v = v[i]
            regs[ins.res] = v
            return None
        if op == 'insertvalue':
            v = self.op(st, ins.a[0], mod)
            e = self.op(st, ins.a[1], mod)
            if len(ins.x) != 1: raise Unsupported('insertvalue')
            v = list(v); v[ins.x[0]] = e
            regs[ins.res] = tuple(v)
            return None
        if op == 'freeze':
            regs[ins.res] = self.op(st, ins.a[0], mod)
            return None
        if op == 'ret':
            v = self.op(st, ins.a[0], mod) if ins.a else None
            return self.do_return(st, v, ctx)
        if op in ('call', 'invoke'):
            return self.call(st, ins, ctx)
        if op == 'landingpad':
            if ins.x: raise Unsupported('catch clause')
            regs[ins.res] = (Opaque('exc'), self.fresh_int(st, 32, 'excsel'))
            return None
        if op == 'resume':
            if ctx.loop is not None and len(st.frames) == ctx.depth: return ('leaf', 'exit', st)
            if len(st.frames) == 1: return ('leaf', 'throw', st)
            st.frames.pop()
            return self.unwind(st, ctx, st.ghost.get('exc'))
        if op == 'unreachable':
            raise PathEnd('unreachable')
        raise Unsupported('instruction %s %s' % (op, ins.x if op == 'unsupported' else ''))

    def merge_results(self, out, ctx):
        sts = []
        leaves = []
        for r, s in out:
            if r == 'moved' or r is None: sts.append(s)
            else: leaves.append(r)
        if not leaves: return ('fork', sts)
        if not sts and len(leaves) == 1: return leaves[0]
        # wrap leaves as states that immediately report
        for l in leaves:
            l[2].ghost['__leaf'] = l[1]
            sts.append(l[2])
        return ('fork', sts)

    def do_return(self, st, v, ctx):
        d = len(st.frames)
        if ctx.loop is not None and d == ctx.depth: return ('leaf', 'ret-in-loop', st)
        if d == 1:
            st.retval = v
            return ('leaf', 'ret', st)
        callee = st.frames.pop()
        ins = callee.ret
        fr = st.top
        if ins.res is not None: fr.regs[ins.res] = v
        return self.after_call(st, ins, ctx)

    def after_call(self, st, ins, ctx):
        if ins.op == 'invoke': return self.goto(st, ins.x['normal'], ctx)
        st.top.ip += 1
        return 'moved'

    def call(self, st, ins, ctx):
        fr = st.top
        mod = fr.fn.mod
        cal = ins.x['callee']
        args = [(t, self.val(st, t, v, mod)) for t, v in ins.x['args']]
        if cal[0] == 'glob': name = cal[1]
        else:
            f = self.resolve_ptr(st, self.val(st, PTR, cal, mod))
            if isinstance(f, GlobP): name = f.name
            else:
                h = getattr(self.contract, 'virtual_call', None)
                if h:
                    r = h(self, st, ins, f, args)
                    if r is not NotImplemented:
                        if ins.res is not None: fr.regs[ins.res] = r
                        return self.after_call(st, ins, ctx)
                raise Unsupported('indirect call through %r in %s' % (f, fr.fn.name))
        return self.call_named(st, ins, name, args, ctx)

    def call_named(self, st, ins, name, args, ctx):
        fr = st.top
        mod = fr.fn.mod
        if name.startswith('_ZThn') or name.startswith('_ZTv'):
            pass
        hook = getattr(self.contract, 'call_hook', None)
        if hook:
            r = hook(self, st, name, args, ins)
            if r is not NotImplemented:
                if ins.res is not None: fr.regs[ins.res] = r
                return self.after_call(st, ins, ctx)
        b = self.builtins.get(name)
        if b is None:
            for pref, fn in self.builtin_prefix:
                if name.startswith(pref):
                    b = fn
                    break
        if b is not None:
            r = b(self, st, args, ins, mod)
            if ins.res is not None: fr.regs[ins.res] = r
            return self.after_call(st, ins, ctx)
        c = self.contract_for(name)
        if c is not None and self.unroll is None and not (self.contract and (c.name in getattr(self.contract, 'inline', ()) )):
            from contract import CannotApply
            try:
                outs = c.apply(self, st, [a for _, a in args], ins)
            except CannotApply as e:
                outs = None
                self.notes.append('contract of %s not applicable at a call in %s (%s): body inlined' % (c.name, fr.fn.name, e))
            if outs is not None:
                self.used_contracts.add(c.name)
                res = []
                for kind, s, rv in outs:
                    if kind == 'ret':
                        if ins.res is not None: s.top.regs[ins.res] = rv
                        res.append((self.after_call(s, ins, ctx), s))
                    else:
                        res.append((self.unwind(s, ctx, 'contract ' + c.name), s))
                if len(res) == 1: return res[0][0] if res[0][1] is st else self.merge_results(res, ctx)
                return self.merge_results(res, ctx)
        f = self.find(name)
        if f is None: raise Unsupported('call of %s without body or contract' % name)
        if len(st.frames) > self.depth_limit: raise Unsupported('inline depth at %s' % name)
        if sum(1 for x in st.frames if x.fn is f) >= (2 if self.unroll is None else 12): raise Unsupported('recursion through %s' % name)
        self.inlined.add(f.name)
        nf = Frame(f)
        for (t, nm, at), (_, v) in zip(f.params, args): nf.regs[nm] = v
        nf.ret = ins
        st.frames.append(nf)
        if f.entry in f.loops(): raise Unsupported('entry block is loop header')
        return 'moved'

    # ---------------------------------------------------------- loops
    def locs_changed(self, entry, leaf, depth, known):
        """locations of the entry state that differ in leaf"""
        out = set()
        for rid, r in entry.regions.items():
            r2 = leaf.regions.get(rid)
            if r2 is None or r2 is r: continue
            if r.alive and not r2.alive: out.add(('dead', rid))
            for k, a in r2.arrs.items():
                b = r.arrs.get(k)
                if b is None or not a.eq(b): out.add(('arr', rid, k))
            for k in r.arrs:
                if k not in r2.arrs: out.add(('arr', rid, k))
            for o, (z, v) in r2.fields.items():
                f = r.fields.get(o)
                if f is None or f[0] != z or not same(f[1], v): out.add(('fld', rid, o, z))
            for o, (z, v) in r.fields.items():
                if o not in r2.fields: out.add(('fld', rid, o, z))
            if isinstance(r2.info, dict) and r2.info is not r.info:
                for k in r2.info:
                    if k[0] == 'plist' and (not isinstance(r.info, dict) or r.info.get(k) != r2.info[k]): out.add(('plist', rid, k))
        for k, v in leaf.ghost.items():
            if k in ('exc', '__leaf') or (isinstance(k, tuple) and k[0] in ('glob', 'gobj', 'heap', 'kind')): continue
            b = entry.ghost.get(k)
            if b is None or not same(b, v): out.add(('ghost', k))
        for k, v in leaf.heap.items():
            b = entry.heap.get(k)
            if b is None:
                if len(k) == 2 and z3.is_expr(v) and v.decl().name() == 'heap_%s_%s' % k: continue
                out.add(('heap', k))
            elif not same(b, v): out.add(('heap', k))
        return out - known

    def getloc(self, st, loc):
        k = loc[0]
        if k == 'phi': return st.top.regs[loc[1]]
        if k == 'arr': return st.regions[loc[1]].arrs.get(loc[2])
        if k == 'fld':
            f = st.regions[loc[1]].fields.get(loc[2])
            return f[1] if f and f[0] == loc[3] else None
        if k == 'ghost': return st.ghost.get(loc[1])
        if k == 'heap':
            v = st.heap.get(loc[1])
            return v
        if k == 'plist': return None
        return None

    def setloc(self, st, loc, v):
        k = loc[0]
        if k == 'phi': st.top.regs[loc[1]] = v
        elif k == 'arr':
            if v is None: st.wreg(loc[1]).arrs.pop(loc[2], None)
            else: st.wreg(loc[1]).arrs[loc[2]] = v
        elif k == 'fld':
            if v is None: st.wreg(loc[1]).fields.pop(loc[2], None)
            else: st.wreg(loc[1]).fields[loc[2]] = (loc[3], v)
        elif k == 'ghost':
            if v is None: st.ghost.pop(loc[1], None)
            else: st.ghost[loc[1]] = v
        elif k == 'heap':
            st.heap[loc[1]] = v
        elif k == 'dead': st.wreg(loc[1]).alive = False
        elif k == 'plist':
            r = st.wreg(loc[1]); r.info = dict(r.info or {}); r.info.pop(loc[2], None)

    def havoc_value(self, st, v, name, H, loc, width=None):
        """fresh value of the same shape; H.consts collects (const, accessor) pairs"""
        if v is None: return None
        if isinstance(v, tuple) or isinstance(v, PtrInt): return None
        if isinstance(v, Ptr):
            pend = H.ptrs.get(loc)
            if pend == 'multi':
                return self.summary_ptr(st, v, name, H, loc)
            if isinstance(v.i, int) and st.regions[v.r].kind == 'struct': return v
            c = z3.Const(fresh_name(name + '_i'), self.A.isort)
            H.consts.append((c, loc, 'idx'))
            return Ptr(v.r, c, v.o)
        if isinstance(v, Ref):
            c = z3.Const(fresh_name(name + '_r'), z3.IntSort())
            H.consts.append((c, loc, 'ref'))
            return Ref(v.cls, c, v.o)
        if isinstance(v, NullP):
            cls = H.refhint.get(loc)
            if cls:
                c = z3.Const(fresh_name(name + '_r'), z3.IntSort())
                H.consts.append((c, loc, 'ref'))
                return Ref(cls, c, 0)
            return v
        if isinstance(v, (GlobP, Opaque, PIte)): return v
        c = z3.Const(fresh_name(name), v.sort())
        H.consts.append((c, loc, None))
        return c

    def summary_ptr(self, st, v, name, H, loc):
        r = st.regions[v.r]
        nr = self.new_region(st, r.kind, 'sum_' + r.name, esz=r.esz)
        if r.kind != 'array': raise Unsupported('pointer to changing struct')
        n = z3.Const(fresh_name(name + '_n'), self.A.isort)
        nr.n = n
        nr.info = r.info
        H.consts.append((n, loc, 'n'))
        for k, a in r.arrs.items():
            c = z3.Const(fresh_name(name + '_a'), a.sort())
            nr.arrs[k] = c
            H.consts.append((c, loc, ('arr', k)))
        H.summary[loc] = nr.id
        if ('heap', v.r) in st.ghost: st.ghost[('heap', nr.id)] = st.ghost[('heap', v.r)]
        H.shape[loc] = (v.r, r.esz, st.ghost.get(('heap', v.r)))
        if iconst(self.A.idx(v.i)) != 0: raise Unsupported('moving pointer to changing block')
        # the block of the first iteration is only reachable through its summary from here on
        if r.alive: st.wreg(v.r).alive = False
        return Ptr(nr.id, 0, v.o)

    def check_shapes(self, h, s, H, locs=()):
        """a pointer summarised over iterations must own its block: the previous block is gone, the new one is
        made in the body, and no two such pointers share a block"""
        seen = set()
        def leaves(v): return leaves(v.a) + leaves(v.b) if isinstance(v, PIte) else [v]
        for loc in locs:
            if loc in H.summary: continue
            v0, v1 = self.getloc(h, loc), self.getloc(s, loc)
            if v0 is None or z3.is_expr(v0) and z3.is_expr(v1): continue
            if v1 is None or same(v0, v1): continue
            part = [x for _, l, x in H.consts if l == loc]
            if isinstance(v0, Ptr) and 'idx' in part and isinstance(v1, Ptr) and v1.r == v0.r and v1.o == v0.o: continue
            if isinstance(v0, Ref) and 'ref' in part and v0.o == 0 and all(isinstance(x, NullP) or isinstance(x, Ref) and x.cls == v0.cls and x.o == 0 for x in leaves(v1)): continue
            raise Unsupported('value of %s changes its shape in a loop: %r, %r' % (loc, v0, v1))
        for loc, rid in H.summary.items():
            v = self.getloc(s, loc)
            if not isinstance(v, Ptr): raise Unsupported('pointer %s loses its block in a loop' % (loc,))
            if v.r in seen: raise Unsupported('shared block in a loop')
            seen.add(v.r)
            r = s.regions[v.r]
            if not r.alive: raise Unsupported('dangling pointer carried around a loop')
            if v.r != rid:
                if v.r in h.regions: raise Unsupported('pointer to an older block carried around a loop')
                if s.regions[rid].alive: raise Unsupported('block replaced without being released in a loop')
                if iconst(self.A.idx(v.i)) != 0 or r.esz != H.shape[loc][1] or s.ghost.get(('heap', v.r)) != H.shape[loc][2]: raise Unsupported('block shape changes in a loop')

    def read_const(self, st, loc, part):
        v = self.getloc(st, loc)
        if v is None: return None
        if part is None: return v if z3.is_expr(v) else None
        if part == 'idx': return self.A.idx(v.i) if isinstance(v, Ptr) else None
        if part == 'ref':
            try: return self.ref_term(v)
            except Unsupported: return None
        if part == 'n': return self.A.idx(st.regions[v.r].n) if isinstance(v, Ptr) and st.regions[v.r].n is not None else None
        if part[0] == 'arr': return st.regions[v.r].arrs.get(part[1]) if isinstance(v, Ptr) else None
        return None

    def loop_enter(self, st, L, ctx):
        """havoc + invariant inference at loop header; st is modified in place to the arbitrary-iteration state."""
        self.tick()
        fr = st.top
        blk = fr.fn.blocks[L.header]
        phis = [('phi', ph.res) for ph in blk.phis]
        phity = {('phi', ph.res): ph.ty for ph in blk.phis}
        entry = st.clone()
        mods = set()
        H = None
        bctx = Ctx(L, L.depth)
        ptrmode = {}
        refhint = {}
        saved_guards = self.guards
        self.quiet += 1
        try:
            for it in range(12):
                self.guards = []
                h = entry.clone()
                H = Hdr()
                H.ptrs = ptrmode
                H.refhint = refhint
                self.havoc_header(h, entry, phis, mods, H, phity)
                self.discover += bool(getattr(self.contract, 'lazy_inner', False))
                try: leaves = self.explore(h.clone(), bctx)
                finally: self.discover -= bool(getattr(self.contract, 'lazy_inner', False))
                new = set()
                changed = False
                for kind, s in leaves:
                    if kind != 'back': continue
                    ch = self.locs_changed(h, s, L.depth, mods)
                    for loc in ch:      # array first written inside the loop: give it an (arbitrary) value at entry
                        if loc[0] == 'arr' and loc[1] in entry.regions and entry.regions[loc[1]].arrs.get(loc[2]) is None:
                            r1, r2 = entry.regions[loc[1]], s.regions[loc[1]]
                            if r2.arrs.get(loc[2]) is None: continue
                            if r1.esz is None and r2.esz is not None: r1 = self.set_elem(entry, r1, r2.esz)
                            if r1.esz == r2.esz:
                                entry.wreg(r1.id).kind = r2.kind
                                entry.wreg(r1.id).arrs[loc[2]] = z3.Const(fresh_name('uninit_' + r1.name), r2.arrs[loc[2]].sort()); changed = True
                    new |= ch
                    for loc in list(phis) + list(mods) + [x for x in new if x not in mods]:
                        v0 = self.getloc(h, loc)
                        v1 = self.getloc(s, loc)
                        if isinstance(v0, Ptr) and isinstance(v1, Ptr) and v1.r != v0.r:
                            if ptrmode.get(loc) != 'multi' or v0.r not in h.regions:
                                ptrmode[loc] = 'multi'; changed = True
                        if isinstance(v0, NullP) and loc not in refhint:
                            x = v1
                            while isinstance(x, PIte): x = x.a if not isinstance(x.a, NullP) else x.b
                            if isinstance(x, Ref):
                                refhint[loc] = x.cls; changed = True
                new = {self.norm_loc(x, H) for x in new}
                new = {x for x in new if x is not None and x not in mods}
                if not new and not changed: break
                mods |= new
            else:
                raise Unsupported('loop modification set does not stabilise')
            guards = self.guards
            # candidates over header constants
            h = entry.clone()
            H = Hdr(); H.ptrs = ptrmode; H.refhint = refhint
            self.guards = None
            self.havoc_header(h, entry, phis, mods, H, phity)
            # re-run once to collect guards over these header constants
            cands = []
            if not self.discover:      # only the changed locations matter while an outer loop looks for its own
                self.guards = []
                leaves = self.explore(h.clone(), bctx)
                guards = self.guards
                self.guards = None
                cands = self.candidates(entry, h, H, guards, L, fr, leaves)
                # entry filter
                sub0 = self.subst_pairs(entry, H)
                cands = self.filter_cands(entry, cands, sub0, 'entry')
            # consecution
            rounds = 0
            while not self.discover:
                rounds += 1
                self.tick()
                hh = h.clone()
                for nm, f in cands: hh.assume(f)
                leaves = self.explore(hh, bctx)
                n0 = len(cands)
                for kind, s in leaves:
                    if kind != 'back': continue
                    self.check_shapes(hh, s, H, list(phis) + list(mods))
                    cands = self.filter_cands(s, cands, self.subst_pairs(s, H), 'step')
                if len(cands) == n0: break
        finally:
            self.quiet -= 1
            self.guards = saved_guards
        # shape obligations: pointers that changed shape between iterations were summarised above
        info = dict(fn=fr.fn.name, header=L.header, kept=[n for n, _ in cands], mods=[str(m) for m in mods], rounds=rounds)
        if not self.quiet:
            self.loopinfo.append(info)
            self.obls.append(Obl(name='loop invariant established and preserved: %s in %s (%d conjuncts)' % (L.header, fr.fn.name, len(cands)), kind='invariant', status='unsat',
                                 time=0.0, backend='z3', fn=self.contract.name if self.contract else ''))
        # install h into st
        for nm, f in cands: h.assume(f)
        st.frames, st.pc, st.regions, st.ghost, st.heap, st.decided = h.frames, h.pc, h.regions, h.ghost, h.heap, h.decided
        st.own = set()

    def norm_loc(self, loc, H):
        # modifications inside a summary region belong to its pointer location
        if loc[0] in ('arr', 'dead') and loc[1] in H.summary.values(): return None
        return loc

    def havoc_header(self, h, entry, phis, mods, H, phity):
        for loc in phis:
            v = self.getloc(h, loc)
            nv = self.havoc_value(h, v, 'h' + loc[1].replace('%', ''), H, loc)
            if nv is None: nv = v
            if phity[loc].k == 'int' and z3.is_expr(nv): h.assume(self.A.range(nv, phity[loc].bits))
            self.setloc(h, loc, nv)
        for loc in sorted(mods, key=str):
            if loc[0] == 'dead':
                self.setloc(h, loc, None)
                continue
            v = self.getloc(h, loc)
            if loc[0] == 'heap' and v is None:
                continue
            nv = self.havoc_value(h, v, 'm', H, loc)
            if loc[0] == 'fld' and z3.is_expr(nv) and z3.is_int(nv): h.assume(self.A.range(nv, loc[3] * 8))
            self.setloc(h, loc, nv)

    def subst_pairs(self, st, H):
        out = []
        for c, loc, part in H.consts:
            v = self.read_const(st, loc, part)
            if v is None or v.sort() != c.sort():
                v = z3.Const(fresh_name('unk'), c.sort())
            out.append((c, v))
        return out

    def step_of(self, v, c):
        """constant k with v = c + k, where wrap-around cases of v are left aside"""
        st, ds, n = [v], [], 0
        while st and n < 64:
            n += 1
            x = st.pop()
            d = z3.simplify(x - c)
            if z3.is_int_value(d): ds.append(d.as_long()); continue
            ms = self.kind_in(x, z3.Z3_OP_MOD)
            ms = [m for m in ms if z3.is_int_value(m.arg(1)) and m.arg(1).as_long() >= 256]
            if ms:
                st.append(z3.simplify(z3.substitute(x, *[(m, m.arg(0)) for m in ms]))); continue
            e = z3.simplify(x, pull_cheap_ite=True) if x.decl().kind() != z3.Z3_OP_ITE else x
            todo = [e]
            y = e
            while y.num_args() and y.decl().kind() != z3.Z3_OP_ITE:
                its = [q for q in self.ite_in(y)]
                y = its[0] if its else None
                if y is None: break
            if y is None or not y.num_args(): continue
            st.append(z3.simplify(z3.substitute(e, (y, y.arg(1))))); st.append(z3.simplify(z3.substitute(e, (y, y.arg(2)))))
        small = [d for d in ds if abs(d) < (1 << 24)]
        return min(small, key=abs) if small else None

    def kind_in(self, e, kind):
        st, seen, out = [e], set(), []
        while st:
            x = st.pop()
            if x.get_id() in seen: continue
            seen.add(x.get_id())
            if z3.is_app(x) and x.decl().kind() == kind: out.append(x)
            st.extend(x.children())
        return out

    def ite_in(self, e):
        st, seen = [e], set()
        while st:
            x = st.pop()
            if x.get_id() in seen: continue
            seen.add(x.get_id())
            if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_ITE: return [x]
            st.extend(x.children())
        return []

    def candidates(self, entry, h, H, guards, L, fr, leaves=()):
        A = self.A
        cands = []
        seen = set()
        skip = getattr(self.contract, 'skip', None)
        hc = {c.get_id() for c, _, _ in H.consts}
        # names visible outside the body: everything free in entry pc is fine; symbols created in the body are not.

        def add(name, f):
            if isinstance(f, (list, tuple)):
                for i, x in enumerate(f): add('%s.%d' % (name, i), x)
                return
            if isinstance(f, bool): return
            if isinstance(f, smt.Nested): k = (f.inner.body.get_id(), f.var.get_id())
            elif not isinstance(f, ForAll):
                s = z3.simplify(f)
                if z3.is_true(s) or z3.is_false(s): return
                k = s.get_id()
                _keepalive.append(s)
            else: k = (f.body.get_id(), f.var.get_id())
            if k in seen or (skip and name.startswith(skip)): return
            seen.add(k)
            cands.append((name, f))
        ints = []
        for c, loc, part in H.consts:
            if (z3.is_int(c) or (z3.is_bv(c) and c.size() in (32, 64))) and part in (None, 'idx', 'n'):
                init = self.read_const(entry, loc, part)
                ints.append((c, init, loc, part))
        for c, init, loc, part in ints:
            if init is None: continue
            add('ge-init %s' % c, c >= init)
            add('le-init %s' % c, c <= init)
            if z3.is_bv(c): add('uge-init', z3.UGE(c, init))
        for x in range(len(ints)):
            for y in range(len(ints)):
                if x == y: continue
                c, i, *_ = ints[x]; d, j, *_ = ints[y]
                if i is None or j is None or c.sort() != d.sort(): continue
                if x < y:
                    add('diff', c - d == i - j)
                    add('sum', c + d == i + j)
                add('le2', c <= d)
        # counters of different width (bit vectors): distances from the start agree
        for c, i, *_ in ints:
            if i is None or not z3.is_bv(c): continue
            for d, j, *_ in ints:
                if j is None or not z3.is_bv(d) or d.size() >= c.size(): continue
                for nm, zx in (('z', z3.ZeroExt), ('s', z3.SignExt)):
                    add('dist', c - i == zx(c.size() - d.size(), j - d)); add('dist', c - i == zx(c.size() - d.size(), d - j))
                    add('dist', c - i == zx(c.size() - d.size(), j) - zx(c.size() - d.size(), d)); add('dist', c - i == zx(c.size() - d.size(), d) - zx(c.size() - d.size(), j))
                add('uge', z3.ULE(d, j)); add('ule', z3.UGE(d, j))
        # constant steps: proportional distances, divisibility
        if self.mode == 'int':
            st = []
            backs = [s for k, s in leaves if k == 'back']
            for c, i, loc, part in ints:
                if i is None or not backs: continue
                ds = set()
                for s in backs:
                    v = self.read_const(s, loc, part)
                    ds.add(self.step_of(v, c) if v is not None and v.sort() == c.sort() else None)
                if len(ds) == 1:
                    d = ds.pop()
                    if d: st.append((c, i, d))
            for x in range(len(st)):
                c, i, d = st[x]
                if abs(d) > 1: add('step', (c - i) % abs(d) == 0)
                for c2, i2, d2 in st[x + 1:]:
                    if d != d2: add('prop', (c - i) * d2 == (c2 - i2) * d)
            for a, b in guards:
                if a.sort() != b.sort() or not z3.is_int(a): continue
                for c, i, d in st:
                    if abs(d) == 1: continue
                    for x, y in ((a, b), (b, a)):
                        if x.eq(c) and not self.mentions(y, hc):
                            add('g<=+d', x <= y + (d - 1) if d > 0 else x >= y + (d + 1))
                            add('g<=+d|init', z3.Or(x == i, x <= y + (d - 1)) if d > 0 else z3.Or(x == i, x >= y + (d + 1)))
        # predicates from guards
        outer = self.outer_symbols(entry, H)
        for a, b in guards:
            if not (z3.is_int(a) or z3.is_bv(a)) or a.sort() != b.sort(): continue
            if not self.closed(a, outer) or not self.closed(b, outer): continue
            if not (self.mentions(a, hc) or self.mentions(b, hc)): continue
            add('g<=', a <= b); add('g>=', a >= b); add('g<=+1', a <= b + 1); add('g>=-1', a >= b - 1); add('g!=', a != b)
            if z3.is_bv(a): add('gu<=', z3.ULE(a, b))
            for e in (a, b):
                for c, i, l, p2 in ints:
                    if e.eq(c) and i is not None:
                        add('g<=|init', z3.Or(c == i, a <= b)); add('g>=|init', z3.Or(c == i, a >= b))
        # summary region size equals int fields of the same object
        for c, loc, part in H.consts:
            if part == 'n' and loc[0] == 'fld':
                for d, i, loc2, p2 in ints:
                    if d is not c and d.sort() == c.sort():
                        add('cap==', c == d); add('cap>=', c >= d); add('cap>', c > d)
                add('n>=0', c >= 0)
        # class invariants of the objects around
        for k, kind in list(h.ghost.items()):
            if isinstance(k, tuple) and k[0] == 'kind' and k[1] in h.regions and h.regions[k[1]].alive:
                try: fs = kind.wf(self, kind.view(self, h, Ptr(k[1], 0, k[2])))
                except Exception: continue
                for f in fs:
                    if isinstance(f, ForAll):
                        if self.mentions(f.body, hc): add('class invariant', f)
                    elif isinstance(f, smt.Nested):
                        if self.mentions(f.inner.body, hc): add('class invariant', f)
                    elif not isinstance(f, bool) and self.mentions(f, hc): add('class invariant', f)
        # arrays unchanged except below/above index
        tmpl = getattr(self.contract, 'loops', None)
        view = LoopView(self, entry, h, H, ints, L, fr)
        view.c = getattr(self.contract, 'cur', None)
        preds = self.contract.preds(view.c) if getattr(self.contract, 'preds', None) else []
        for pi, P in enumerate(preds):
            for i, init, loc, part in ints:
                if init is None or i.sort() != A.isort or part == 'n': continue
                k = z3.Const(fresh_name('k'), A.isort)
                for nm, rng in (('up', z3.And(k >= init, k < i)), ('down', z3.And(k <= init, k > i))):
                    add('pred%d %s' % (pi, nm), ForAll(k, z3.Implies(rng, P(k))))
                    add('npred%d %s' % (pi, nm), ForAll(k, z3.Implies(rng, z3.Not(P(k)))))
        recs = self.contract.recs(view.c) if getattr(self.contract, 'recs', None) else []
        for ri, R in enumerate(recs):
            for c, loc, part in H.consts:
                for i, init, l2, p2 in ints:
                    if i.sort() != A.isort or init is None or c.eq(i): continue
                    for nm, e in (('i', i), ('i-i0', i - init), ('i+1', i + 1), ('i0-i', init - i)):
                        f = R(e)
                        if f is not None and f.sort() == c.sort(): add('rec%d(%s)' % (ri, nm), c == f)
        self.default_templates(view, add)
        self.history_templates(view, leaves, h, add)
        if tmpl:
            for i, f in enumerate(tmpl(view) or []):
                if isinstance(f, tuple): add(f[0], f[1])
                else: add('spec%d' % i, f)
        return cands

    def default_templates(self, V, add):
        """frame conditions for arrays written at a moving index: unchanged below / above every loop index"""
        A = self.A
        for c, loc, part in V.H.consts:
            if not (z3.is_array(c)): continue
            if c.sort().domain() != A.isort: continue
            a0 = self.read_const(V.entry, loc, part)
            if a0 is None: continue
            k = z3.Const(fresh_name('k'), A.isort)
            for i, init, l2, p2 in V.ints:
                if i.sort() != A.isort: continue
                add('unchanged>=', ForAll(k, z3.Implies(k >= i, z3.Select(c, k) == z3.Select(a0, k)), [z3.Select(c, k)]))
                add('unchanged>', ForAll(k, z3.Implies(k > i, z3.Select(c, k) == z3.Select(a0, k)), [z3.Select(c, k)]))
                add('unchanged<', ForAll(k, z3.Implies(k < i, z3.Select(c, k) == z3.Select(a0, k)), [z3.Select(c, k)]))
                if init is not None:
                    add('unch<init', ForAll(k, z3.Implies(k < init, z3.Select(c, k) == z3.Select(a0, k)), [z3.Select(c, k)]))

    def history_templates(self, V, leaves, h, add):
        """facts about all earlier iterations, read off the loop body: what had to hold to go round once more, and what was stored where"""
        A = self.A
        H = V.H
        backs = [s for k, s in leaves if k == 'back']
        if not backs or len(backs) > 6: return
        consts = {c.get_id(): (c, loc, part) for c, loc, part in H.consts}
        nh = len(h.pc)
        # constant steps
        steps = {}
        for c, init, loc, part in V.ints:
            if init is None: continue
            ds = set()
            for s in backs:
                v = self.read_const(s, loc, part)
                if v is None or v.sort() != c.sort(): ds.add(None); continue
                d = z3.simplify(v - c)
                ds.add(iconst(d) if (z3.is_int_value(d) or z3.is_bv_value(d)) else None)
            if len(ds) == 1:
                d = ds.pop()
                if d is not None: steps[c.get_id()] = (c, init, d)
        arrs = []
        for c, loc, part in H.consts:
            if z3.is_array(c) and c.sort().domain() == A.isort:
                a0 = self.read_const(V.entry, loc, part)
                arrs.append((c, a0, loc, part))
        lim = max([self._serial_limit([c.decl().name() for c, _, _ in H.consts])] + [0])
        for i, i0, d in list(steps.values()):
            if d not in (1, -1): continue
            rew = []
            for j, j0, dj in steps.values():
                if j.get_id() == i.get_id(): continue
                if j.sort() == i.sort(): rew.append((j, j0 + (dj // d if dj % d == 0 else 0) * (i - i0)))
            for c, a0, loc, part in arrs:
                if a0 is not None and a0.sort() == c.sort(): rew.append((c, a0))
            bad = {cid for cid in consts if cid != i.get_id() and not any(cid == x.get_id() for x, _ in rew)}

            def norm(e):
                e2 = z3.substitute(e, *rew) if rew else e
                return e2

            def usable(e):
                st = [e]; seen = set()
                while st:
                    x = st.pop(); xi = x.get_id()
                    if xi in seen: continue
                    seen.add(xi)
                    if xi in bad: return False
                    if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                        n = x.decl().name()
                        if '!' in n:
                            try:
                                if int(n.rsplit('!', 1)[1]) > lim: return False
                            except ValueError: pass
                    st.extend(x.children())
                return True
            conds = []
            for s in backs:
                cs = []
                for f in s.pc[nh:]:
                    if isinstance(f, (ForAll, smt.Nested)): continue
                    g = norm(f)
                    if usable(g): cs.append(g)
                conds.append(z3.And(*cs) if len(cs) > 1 else (cs[0] if cs else z3.BoolVal(True)))
            k = z3.Const(fresh_name('k'), i.sort())
            rng = z3.And(k >= i0, k < i) if d == 1 else z3.And(k <= i0, k > i)
            if i.sort() == A.isort or i.sort().kind() == z3.Z3_INT_SORT:
                body = z3.Or(*conds) if len(conds) > 1 else conds[0]
                bs = z3.simplify(body)
                if not z3.is_true(bs) and self.mentions(body, {i.get_id()}):
                    if len(conds) == 1 and z3.is_and(conds[0]):
                        for x in conds[0].children():
                            if self.mentions(x, {i.get_id()}): add('history', ForAll(k, z3.Implies(rng, z3.substitute(x, (i, k)))))
                    else:
                        add('history', ForAll(k, z3.Implies(rng, z3.substitute(body, (i, k)))))
            if i.sort() != A.isort: 
                continue
            for c, a0, loc, part in arrs:
                groups = {}
                okk = True
                for s, cond in zip(backs, conds):
                    e = self.read_const(s, loc, part)
                    if e is None: okk = False; break
                    while z3.is_app(e) and e.decl().kind() == z3.Z3_OP_STORE:
                        ix, vv = norm(e.arg(1)), e.arg(2)
                        # nested reads through earlier stores of the same iteration
                        vv = norm(z3.simplify(vv))
                        p = z3.simplify(ix - i)
                        q = z3.simplify(ix + i)
                        if not self.mentions(p, {i.get_id()}): key, off = ('+', p.get_id()), p
                        elif not self.mentions(q, {i.get_id()}): key, off = ('-', q.get_id()), q
                        else: okk = False; break
                        _keepalive.append(off)
                        groups.setdefault(key, (off, []))[1].append((cond, vv))
                        e = e.arg(0)
                    if not okk or not e.eq(c): okk = False; break
                if not okk or not groups: continue
                ranges = []
                for (sg, _), (off, lst) in groups.items():
                    if not usable(off): continue
                    kk = (k - off) if sg == '+' else (off - k)
                    lo = z3.And(kk >= i0, kk < i) if d == 1 else z3.And(kk <= i0, kk > i)
                    ranges.append(lo)
                    for cond, vv in lst:
                        if not usable(vv): continue
                        pre = lo if z3.is_true(z3.simplify(cond)) or len(backs) == 1 else z3.And(lo, z3.substitute(cond, (i, kk)))
                        add('stored', ForAll(k, z3.Implies(pre, z3.Select(c, k) == z3.substitute(vv, (i, kk))), [z3.Select(c, k)]))
                    if len(lst) < len(backs) and a0 is not None and len(groups) == 1:
                        nz = [z3.Not(z3.substitute(cd, (i, kk))) for cd, _ in lst]
                        add('kept', ForAll(k, z3.Implies(z3.And(lo, *nz), z3.Select(c, k) == z3.Select(a0, k)), [z3.Select(c, k)]))
                if a0 is not None and ranges:
                    add('outside', ForAll(k, z3.Implies(z3.Not(z3.Or(*ranges)), z3.Select(c, k) == z3.Select(a0, k)), [z3.Select(c, k)]))

    def outer_symbols(self, entry, H):
        s = set()
        for c, _, _ in H.consts: s.add(c.decl().name())
        return s

    def closed(self, e, outer):
        """no symbol created during body exploration: those carry a higher serial than the header constants"""
        lim = self._serial_limit(outer)
        st = [e]
        seen = set()
        while st:
            x = st.pop()
            if x.get_id() in seen: continue
            seen.add(x.get_id())
            if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                n = x.decl().name()
                if '!' in n:
                    try:
                        if int(n.rsplit('!', 1)[1]) > lim: return False
                    except ValueError: pass
            st.extend(x.children())
        return True

    def _serial_limit(self, outer):
        m = 0
        for n in outer:
            if '!' in n:
                try: m = max(m, int(n.rsplit('!', 1)[1]))
                except ValueError: pass
        return m

    def mentions(self, e, ids):
        st = [e]
        seen = set()
        while st:
            x = st.pop()
            i = x.get_id()
            if i in seen: continue
            seen.add(i)
            if i in ids: return True
            st.extend(x.children())
        return False

    def subst(self, f, pairs):
        if isinstance(f, (ForAll, smt.Nested)): return f.subst(pairs)
        return z3.substitute(f, *pairs) if pairs else f

    def filter_cands(self, st, cands, pairs, what):
        """keep the candidates implied by st's facts (checked together, dropping those refuted by models)"""
        cur = list(cands)
        while cur:
            self.tick()
            negs = []
            for nm, f in cur:
                g = smt.neg(self.subst(f, pairs))
                negs.append(g)
            r = smt.check(st.pc + [z3.Or(*negs)], 4000, want_model=True)
            if r.status == 'unsat': return cur
            if os.environ.get('VP_DBG'):
                for (nm, f), n in zip(cur, negs):
                    if r.model is not None and z3.is_true(r.model.eval(n, model_completion=True)) and nm in os.environ['VP_DBG'].split(','):
                        print('DROP', what, nm, f, 'cut', r.cut, r.ninst); print(n); print(r.model if not os.environ.get('VP_PC') else st.pc)
            if r.status == 'sat' and r.model is not None and not (r.cut and len(cur) <= 40):
                keep = [c for c, n in zip(cur, negs) if not z3.is_true(r.model.eval(n, model_completion=True))]
                if len(keep) < len(cur):
                    cur = keep
                    continue
            # individually
            keep = []
            for (nm, f), n in zip(cur, negs):
                r = smt.check(st.pc + [n], 2000)
                if r.status == 'unsat': keep.append((nm, f))
                elif os.environ.get('VP_DBG') and nm in os.environ['VP_DBG'].split(','): print('DROP1', what, r.status, r.ninst, r.time, n); 
            return keep
        return cur


class Hdr:
    def __init__(self):
        self.consts = []
        self.ptrs = {}
        self.refhint = {}
        self.summary = {}
        self.shape = {}


class LoopView:
    """what a contract's loop templates may look at; nothing here depends on source-level names"""

    def __init__(self, eng, entry, h, H, ints, L, fr):
        self.eng, self.entry, self.h, self.H, self.ints, self.L, self.fr = eng, entry, h, H, ints, L, fr

    @property
    def idx(self):
        """loop-carried index-sorted header constants"""
        return [c for c, i, l, p in self.ints if c.sort() == self.eng.A.isort and p != 'n']

    def ints_of(self, w):
        return [c for c, i, l, p in self.ints]

    def scal(self):
        return [(c, self.eng.read_const(self.entry, loc, part), loc) for c, loc, part in self.H.consts if not z3.is_array(c)]

    @property
    def arrays(self):
        """[(header array const, entry array, loc, part)]"""
        return [(c, self.eng.read_const(self.entry, loc, part), loc, part) for c, loc, part in self.H.consts if z3.is_array(c)]

    def allarrays(self, esz=None):
        """every array reachable in the header state (term), including unmodified ones"""
        out = []
        for rid, r in self.h.regions.items():
            if r.kind == 'array' and r.alive and (esz is None or r.esz == esz):
                for k, a in r.arrs.items(): out.append((rid, k, a))
        return out


def same(a, b):
    if a is b: return True
    if z3.is_expr(a) and z3.is_expr(b): return a.eq(b)
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        if a.r != b.r or a.o != b.o: return False
        x, y = a.i, b.i
        if isinstance(x, int) and isinstance(y, int): return x == y
        if isinstance(x, int) or isinstance(y, int): return iconst(x) is not None and iconst(x) == iconst(y)
        return x.eq(y)
    if isinstance(a, NullP) and isinstance(b, NullP): return True
    if isinstance(a, GlobP) and isinstance(b, GlobP): return a.name == b.name and a.off == b.off
    if isinstance(a, Ref) and isinstance(b, Ref): return a.cls == b.cls and a.o == b.o and a.t.eq(b.t)
    return False


OREM = z3.Function('remainder', z3.IntSort(), z3.IntSort(), z3.IntSort())
_keepalive = []
BIN = {'add', 'sub', 'mul', 'sdiv', 'udiv', 'srem', 'urem', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr'}
FBIN = {'fadd', 'fsub', 'fmul', 'fdiv', 'frem'}
CASTS = {'zext', 'sext', 'trunc', 'bitcast', 'ptrtoint', 'inttoptr', 'sitofp', 'uitofp', 'fptosi', 'fptoui', 'fpext', 'fptrunc', 'addrspacecast'}
