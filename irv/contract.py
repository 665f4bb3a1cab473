"""Function contracts: kinds of parameters (ownership + data invariants), pre / post / throws conditions,
verification of a function body against its contract and use of the contract at call sites."""
import z3, time
import smt
from smt import ForAll, fresh_name
from symex import (Engine, State, Frame, Ctx, Ptr, NULL, NullP, GlobP, Ref, PIte, Opaque, PtrInt, PathEnd, Throw, Unsupported, Undecided,
                   iconst, is_ptr, Obl)


class CannotApply(Exception):
    pass


class View(object):
    def __init__(self, **k): self.__dict__.update(k)

    def __getitem__(self, k): return z3.Select(self.arr, k)

    def at(self, k): return z3.Select(self.arr, k)


class NS(object):
    def __init__(self): self.__dict__['_d'] = {}

    def __getattr__(self, k):
        try: return self._d[k]
        except KeyError: raise AttributeError(k)

    def set(self, k, v): self._d[k] = v


# ------------------------------------------------------------------ scalar kinds
class IntK:
    ref = False

    def __init__(self, w, lo=None, hi=None): self.w, self.lo, self.hi = w, lo, hi

    def make(self, eng, st, name): return eng.fresh_int(st, self.w, name)

    def view(self, eng, st, v):
        if isinstance(v, (PtrInt, Opaque)): raise CannotApply('pointer used as integer')
        return v

    def wf(self, eng, v): return []


I1, I8, I16, I32, I64 = IntK(1), IntK(8), IntK(16), IntK(32), IntK(64)


class FpK:
    ref = False

    def __init__(self, ty='double'): self.ty = ty

    def make(self, eng, st, name):
        from llir import Type
        return z3.Const(fresh_name(name), eng.fpsort(Type(self.ty)))

    def view(self, eng, st, v): return v

    def wf(self, eng, v): return []


F64, F32 = FpK('double'), FpK('float')


class ElemRet:
    """returned reference to an element of the buffer of an argument: the contract sees its index"""

    def __init__(self, arg): self.arg = arg

    def make_ret(self, eng, st, c):
        v = getattr(c.o, self.arg)
        i = z3.Const(fresh_name('elem'), eng.A.isort)
        return Ptr(v.bufs[0], i, 0)

    def view(self, eng, st, v): return eng.A.idx(v.i)

    def view_ret(self, eng, s, rv, cc):
        b = getattr(cc.n, self.arg).bufs
        rv = eng.resolve_ptr(s, rv)
        if not isinstance(rv, Ptr) or not b or rv.r != b[0] or rv.o != 0: raise CannotApply('the result is no element of %s' % self.arg)
        return eng.A.idx(rv.i)

    def wf(self, eng, v): return []


class AnyPtr:
    """pointer the function neither follows nor keeps"""
    ref = False

    def make(self, eng, st, name): return Opaque(name)

    def view(self, eng, st, v): return v

    def wf(self, eng, v): return []


class CellK:
    """reference to one plain variable (out-parameters)"""
    ref = True
    heapkind = None

    def __init__(self, w=None, fp=None): self.w, self.fp = w, fp

    def type(self):
        from llir import IntT, Type
        return Type(self.fp) if self.fp else IntT(self.w)

    def nbytes(self): return (8 if self.fp == 'double' else 4) if self.fp else self.w // 8

    def fresh(self, eng, st, name): return z3.Const(fresh_name(name), eng.fpsort(self.type())) if self.fp else eng.fresh_int(st, self.w, name)

    def raw(self, eng, st, name):
        return Ptr(eng.new_region(st, 'struct', name, nbytes=eng.A.const(self.nbytes(), 64)).id, 0, 0)

    def make(self, eng, st, name):
        p = self.raw(eng, st, name)
        st.wreg(p.r).fields[0] = (self.nbytes(), self.fresh(eng, st, name))
        return p

    def view(self, eng, st, v):
        p = obj_ptr(eng, st, v)
        r = st.reg(p.r)
        if r.kind in ('raw', 'struct'):
            f = r.fields.get(p.o)
            if f is None: return View(ptr=p, val=self.fresh(eng, st, 'uninit'), bufs=[])
        return View(ptr=p, val=eng.load(st, p, self.type(), eng.mods[0]), bufs=[])

    def wf(self, eng, v): return []

    def same(self, eng, a, b): return [a.val == b.val]

    def release(self, eng, st, p): pass

    def havoc(self, eng, st, p, fresh_obj):
        eng.store(st, obj_ptr(eng, st, p), self.type(), self.fresh(eng, st, 'r'), eng.mods[0])


class BufK:
    """pointer to the first of bufn elements of a plain array"""
    ref = True
    heapkind = None

    def __init__(self, esz, fp=None, heap=None): self.esz, self.fp, self.heapkind = esz, fp, heap

    def elsort(self, eng):
        if self.fp:
            from llir import Type
            return eng.fpsort(Type(self.fp))
        return eng.A.sort(self.esz * 8)

    def make(self, eng, st, name):
        n = z3.Const(fresh_name(name + '_n'), eng.A.isort)
        st.assume([n >= 0, n <= (1 << 46)])
        return Ptr(eng.new_array(st, name, self.esz, n, self.elsort(eng)).id, 0, 0)

    def raw(self, eng, st, name): return self.make(eng, st, name)

    def length(self, eng, v): return v.bufn

    def set_null(self, eng, st, v):
        st.wreg(v.r).alive = False
        return NULL

    def view(self, eng, st, v):
        if isinstance(v, NullP): return View(ptr=v, arr=z3.Const(fresh_name('nullbuf'), z3.ArraySort(eng.A.isort, self.elsort(eng))), bufn=eng.A.idx(0), bufs=[], isnull=True)
        vw = self.view_(eng, st, v)
        vw.isnull = False
        p = obj_ptr(eng, st, v)
        inf, i = st.reg(p.r).info, iconst(eng.A.idx(p.i))
        vw.table = inf[1][i:] if isinstance(inf, tuple) and inf[0] == 'table' and i is not None else None
        return vw

    def view_(self, eng, st, v):
        p = obj_ptr(eng, st, v)
        r = st.reg(p.r)
        if not r.alive: raise CannotApply('dead buffer')
        if r.kind == 'raw' or r.esz is None:
            r = eng.set_elem(st, r, self.esz); r.kind = 'array'
        if r.kind != 'array' or r.esz != self.esz or p.o: raise CannotApply('element size of buffer')
        a = r.arrs.get(0)
        if a is None:
            a = z3.Const(fresh_name('uninit'), z3.ArraySort(eng.A.isort, self.elsort(eng)))
            st.wreg(r.id).arrs[0] = a
        i = eng.A.idx(p.i)
        if iconst(i) == 0: return View(ptr=p, arr=a, bufn=eng.A.idx(r.n), bufs=[])
        b = z3.Const(fresh_name('part'), a.sort())
        k = z3.Const(fresh_name('k'), eng.A.isort)
        st.assume(ForAll(k, z3.Select(b, k) == z3.Select(a, k + i), [z3.Select(b, k)]))
        st.assume(ForAll(k, z3.Select(b, k - i) == z3.Select(a, k), [z3.Select(a, k)]))
        return View(ptr=p, arr=b, bufn=eng.A.idx(r.n) - i, bufs=[])

    def wf(self, eng, v): return []

    def same(self, eng, a, b):
        if a.arr.eq(b.arr): return []
        k = z3.Const(fresh_name('k'), eng.A.isort)
        return [ForAll(k, z3.Implies(z3.And(k >= 0, k < a.bufn), z3.Select(a.arr, k) == z3.Select(b.arr, k)), [z3.Select(b.arr, k)])]

    def release(self, eng, st, p): st.wreg(p.r).alive = False

    def havoc(self, eng, st, p, fresh_obj):
        p = obj_ptr(eng, st, p)
        r = st.wreg(p.r)
        a = r.arrs.get(0)
        b = z3.Const(fresh_name('hv'), z3.ArraySort(eng.A.isort, self.elsort(eng)))
        r.arrs[0] = b
        if a is not None and iconst(eng.A.idx(p.i)) != 0:
            k = z3.Const(fresh_name('k'), eng.A.isort)
            st.assume(ForAll(k, z3.Implies(k < eng.A.idx(p.i), z3.Select(b, k) == z3.Select(a, k)), [z3.Select(b, k)]))

    # result of a function: a new heap block
    def make_ret(self, eng, st, c):
        p = self.make(eng, st, 'ret')
        if self.heapkind: st.ghost[('heap', p.r)] = self.heapkind
        return p

    def view_ret(self, eng, s, rv, cc):
        v = self.view(eng, s, rv)
        if self.heapkind:
            p = obj_ptr(eng, s, rv)
            if s.ghost.get(('heap', p.r)) != self.heapkind or iconst(eng.A.idx(p.i)) != 0: raise CannotApply('result is not a new heap block')
            v.bufs = [p.r]
        return v


# ------------------------------------------------------------------ object kinds
def obj_ptr(eng, st, p):
    p = eng.resolve_ptr(st, p)
    if isinstance(p, GlobP):
        g = eng.globobj(st, p)
        if g is not None: p = g
    if not isinstance(p, Ptr): raise CannotApply('object pointer %r' % (p,))
    return p


class ObjK:
    """struct object with plain fields: fields = {name: (offset key, bits)}; subclasses add buffers.
    A kind has: cls (key in eng.offsets), make, view, wf, havoc, same."""
    ref = True
    cls = None
    scal = ()        # (name, width)  integer members
    fps = ()         # (name, 'double'|'float')
    buf = None       # member that owns a new[]-allocated buffer
    esz = None       # element size of the buffer
    heapkind = 'new[]'
    hdr = True       # has the Object header
    nullbuf = False  # buffer may be null
    lax = False      # members of one byte may be uninitialised (their value is arbitrary)
    vtab = None      # vtable symbol: virtual calls on objects of exactly this class are resolved

    def __init__(self, **k): self.opt = k

    def off(self, eng, m):
        try: return eng.offsets[self.cls][m]
        except KeyError: raise Unsupported('member %s::%s not found' % (self.cls, m))

    def size(self, eng): return eng.offsets[self.cls]['sizeof']

    def make(self, eng, st, name):
        r = eng.new_region(st, 'struct', name, nbytes=eng.A.const(self.size(eng), 64))
        p = Ptr(r.id, 0, 0)
        self.init(eng, st, p, name)
        return p

    def raw(self, eng, st, name):
        """uninitialised storage"""
        r = eng.new_region(st, 'struct', name, nbytes=eng.A.const(self.size(eng), 64))
        return Ptr(r.id, 0, 0)

    def header(self, eng, st, w, p, name):
        w.fields[p.o] = (8, GlobP(self.vtab, 16) if self.vtab else Opaque('vptr_' + self.cls))
        w.fields[p.o + 8] = (4, eng.fresh_int(st, 32, name + '_refcnt'))
        w.fields[p.o + 16] = (8, NULL)

    def bufcount(self, eng, vals, name, st):
        raise NotImplementedError

    def init(self, eng, st, p, name, keep_header=False):
        w = st.wreg(p.r)
        st.ghost[('kind', p.r, p.o)] = self
        if self.hdr and not keep_header: self.header(eng, st, w, p, name)
        for m, bits in self.scal:
            w.fields[p.o + self.off(eng, m)] = (bits // 8, eng.fresh_int(st, bits, '%s_%s' % (name, m)))
        for m, t in self.fps:
            from llir import Type
            w.fields[p.o + self.off(eng, m)] = (8 if t == 'double' else 4, z3.Const(fresh_name('%s_%s' % (name, m)), eng.fpsort(Type(t))))
        if self.buf:
            n = z3.Const(fresh_name(name + '_cap'), eng.A.isort)
            b = eng.new_array(st, name + '_buf', self.esz, n, self.elsort(eng))
            st.ghost[('heap', b.id)] = self.heapkind
            st.assume([n >= 0, n <= (1 << 46)])
            st.wreg(p.r).fields[p.o + self.off(eng, self.buf)] = (8, Ptr(b.id, 0, 0))
        self.init_extra(eng, st, p, name)

    def init_extra(self, eng, st, p, name): pass

    def set_null(self, eng, st, p):
        w = st.wreg(p.r)
        b = w.fields[p.o + self.off(eng, self.buf)][1]
        st.ghost.pop(('heap', b.r), None)
        st.wreg(b.r).alive = False
        w.fields[p.o + self.off(eng, self.buf)] = (8, NULL)

    def elsort(self, eng): return None

    def getf(self, eng, st, p, m, size):
        f = st.reg(p.r).fields.get(p.o + self.off(eng, m))
        if f is None and self.lax and size <= 4:
            f = (size, eng.fresh_int(st, size * 8, 'uninit'))
            st.wreg(p.r).fields[p.o + self.off(eng, m)] = f
        if f is None or f[0] != size: raise CannotApply('field %s::%s not initialised' % (self.cls, m))
        return f[1]

    def view(self, eng, st, v):
        p = obj_ptr(eng, st, v)
        r = st.reg(p.r)
        if r.kind == 'raw':
            st.wreg(r.id).kind = 'struct'
            r = st.reg(r.id)
        if r.kind != 'struct': raise CannotApply('%s not in a struct region' % self.cls)
        if not r.alive: raise CannotApply('dead object')
        d = {}
        for m, bits in self.scal:
            x = self.getf(eng, st, p, m, bits // 8)
            if is_ptr(x) or isinstance(x, PtrInt): raise CannotApply('pointer in integer member')
            if z3.is_bool(x): x = z3.If(x, eng.A.const(1, 8), eng.A.const(0, 8))
            d[m] = x
        for m, t in self.fps: d[m] = self.getf(eng, st, p, m, 8 if t == 'double' else 4)
        vw = View(ptr=p, rid=p.r, **d)
        vw.bufs = []
        if self.buf:
            b = self.getf(eng, st, p, self.buf, 8)
            b = eng.resolve_ptr(st, b)
            if isinstance(b, NullP) and self.nullbuf:
                vw.arr = z3.Const(fresh_name('nullbuf'), z3.ArraySort(eng.A.isort, self.elsort(eng) if self.elsort(eng) is not None else eng.A.sort(self.esz * 8)))
                vw.bufn = eng.A.idx(0)
                vw.isnull = True
            else:
                if not isinstance(b, Ptr): raise CannotApply('buffer of %s is %r' % (self.cls, b))
                br = st.reg(b.r)
                if not br.alive: raise CannotApply('buffer of %s already released' % self.cls)
                if iconst(eng.A.idx(b.i)) != 0 or b.o: raise CannotApply('buffer pointer inside a block')
                if br.kind in ('raw',) or br.esz is None:
                    br = eng.set_elem(st, br, self.esz); br.kind = 'array'
                if br.kind != 'array' or br.esz != self.esz: raise CannotApply('element size of buffer')
                a = br.arrs.get(0)
                if a is None:
                    a = z3.Const(fresh_name('uninit'), z3.ArraySort(eng.A.isort, self.elsort(eng) if self.elsort(eng) is not None else eng.A.sort(self.esz * 8)))
                    st.wreg(br.id).arrs[0] = a
                vw.arr = a
                vw.bufn = eng.A.idx(br.n)
                vw.isnull = False
                vw.bufs = [b.r]
        self.view_extra(eng, st, p, vw)
        return vw

    def view_extra(self, eng, st, p, vw): pass

    def wf(self, eng, v): return []

    def same(self, eng, a, b):
        """equality of the observable parts of two views"""
        out = []
        for m, _ in self.scal: out.append(getattr(a, m) == getattr(b, m))
        for m, _ in self.fps: out.append(getattr(a, m) == getattr(b, m))
        if self.buf and not a.arr.eq(b.arr):
            k = z3.Const(fresh_name('k'), eng.A.isort)
            out.append(ForAll(k, z3.Implies(z3.And(k >= 0, k < self.length(eng, a)), z3.Select(a.arr, k) == z3.Select(b.arr, k))))
        return out

    def length(self, eng, v): return v.bufn

    def release(self, eng, st, p):
        if self.buf:
            f = st.reg(p.r).fields.get(p.o + self.off(eng, self.buf))
            if f is not None:
                b = eng.resolve_ptr(st, f[1])
                if isinstance(b, Ptr) and b.r in st.regions: st.wreg(b.r).alive = False

    def havoc(self, eng, st, p, fresh_obj):
        p = obj_ptr(eng, st, p)
        r = st.reg(p.r)
        if r.kind == 'raw': st.wreg(r.id).kind = 'struct'
        if not fresh_obj: self.release(eng, st, p)
        self.init(eng, st, p, 'r', keep_header=not fresh_obj)


class Param:
    def __init__(self, name, kind, mode='in'): self.name, self.kind, self.mode = name, kind, mode


def P(name, kind, mode='in'): return Param(name, kind, mode)


class CCtx:
    """what pre / post / throws conditions see"""

    def __init__(self, eng, st):
        self.eng, self.st = eng, st
        self.A = eng.A
        self.o, self.n, self.args = NS(), NS(), NS()
        self.ret = None
        self.same = {}
        self.applying = False
        self.memo = {}
        self.retval = None
        self.heap_o = {}

    def all(self, f, trigs=None, name='q'):
        k = z3.Const(fresh_name(name), self.A.isort)
        t = trigs(k) if trigs else None
        return ForAll(k, f(k), t)

    def idx(self, v): return self.A.idx(v)

    # arrays of the node pools before and after
    def ho(self, cl, m):
        import nodes
        return self.heap_o[nodes.key(self.eng, cl, m)]

    def hn(self, cl, m):
        import nodes
        return self.st.heap[nodes.key(self.eng, cl, m)]

    def ghost(self, key, make):
        """ghost symbols determined by (the terms in) key: the same terms give the same symbols"""
        d = self.eng.__dict__.setdefault('ghostdefs', {})
        k = tuple(x.get_id() if isinstance(x, z3.AstRef) else x for x in key)
        if k not in d: d[k] = (make(), key)
        return d[k][0]

    # sequence algebra --------------------------------------------------
    def cat(self, arr, n, pieces, label='content'):
        """arr[0..n) is the concatenation of pieces; piece = (fn(k) -> element, length)"""
        out = []
        off = self.A.idx(0)
        for j, (fn, ln) in enumerate(pieces):
            ln = self.A.idx(ln) if isinstance(ln, int) else ln
            o = off

            def body(k, fn=fn, o=o, ln=ln):
                return z3.Implies(z3.And(k >= o, k < o + ln), z3.Select(arr, k) == fn(z3.simplify(k - o)))
            if iconst(ln) == 1:
                out.append(('%s[%d]' % (label, j), z3.Select(arr, z3.simplify(o)) == fn(self.A.idx(0))))
            elif iconst(ln) == 0: pass
            else: out.append(('%s[%d]' % (label, j), self.all(body, lambda k: [z3.Select(arr, k)])))
            off = z3.simplify(off + ln)
        out.append(('length', n == off))
        return out

    def sub(self, arr, i, n): return (lambda k: z3.Select(arr, z3.simplify(k + i)), n)

    def one(self, x): return (lambda k: x, 1)

    def fill(self, x, n): return (lambda k: x, n)


CONTRACTS = {}


class Contract:
    def __init__(self, sig, params, ret=None, pre=None, post=None, throws=None, alias=(), sret=None, loops=None, mode=None, retfn=None,
                 inline=(), preds=None, recs=None, attrs=None, prop=None, timeout=None, budget=120, fp=None, note=None, assumed=None, throw_mod=False, nothrow=False, variants=None, noleak=True, specs=None):
        self.sig = sig
        self.params = params
        self.retk = ret
        self.pre_, self.post_, self.throws_ = pre, post, throws
        self.alias = alias
        self.sret = sret
        if loops: self.loops = loops
        self.mode = mode
        self.retfn = retfn
        self.inline = set(inline)
        self.preds, self.recs = preds, recs
        self.prop = prop
        self.timeout = timeout
        self.budget = budget
        self.fp = fp
        self.assumed = assumed
        self.throw_mod = throw_mod
        self.variants = variants
        self.noleak = noleak
        self.specs = specs
        self.name = None
        self.heap = None
        for k, v in (attrs or {}).items(): setattr(self, k, v)

    def allparams(self):
        ps = []
        if self.sret: ps.append(Param('ret', self.sret, 'out'))
        return ps + self.params

    def pre(self, c):
        return list(self.pre_(c)) if self.pre_ else []

    def post(self, c):
        r = self.post_(c) if self.post_ else []
        out = []
        for x in r:
            if isinstance(x, tuple) and len(x) == 2 and isinstance(x[0], str): out.append(x)
            elif isinstance(x, list): out += [y if isinstance(y, tuple) else ('post', y) for y in x]
            else: out.append(('post', x))
        return out

    def throws(self, c):
        return self.throws_(c) if self.throws_ else None

    # ---------------------------------------------------------------- call sites
    def apply(self, eng, st, args, ins):
        ps = self.allparams()
        if len(args) < len(ps): raise CannotApply('argument count')
        c = CCtx(eng, st)
        c.applying = True
        c.heap_o = dict(st.heap)
        ptrs = {}
        for p, a in zip(ps, args):
            if p.kind.ref and isinstance(a, NullP): pass
            elif p.kind.ref:
                q = obj_ptr(eng, st, a)
                key = (q.r, str(q.i), q.o)
                if key in ptrs:
                    other = ptrs[key]
                    if p.mode != 'in' or other.mode != 'in':
                        if (other.name, p.name) not in self.alias: raise CannotApply('arguments %s and %s alias' % (other.name, p.name))
                    c.same[p.name] = other.name
                else: ptrs[key] = p
            if p.mode != 'out':
                v = p.kind.view(eng, st, a)
                c.o.set(p.name, v)
            c.args.set(p.name, a)
        for p, a in zip(ps, args):
            if p.mode in ('in', 'mut', 'dead'):
                for f in p.kind.wf(eng, getattr(c.o, p.name)):
                    eng.oblige(st, 'argument %s of %s satisfies its invariant' % (p.name, self.sig), f, 'pre')
        for f in self.pre(c):
            nm, f = f if isinstance(f, tuple) else ('', f)
            eng.oblige(st, 'precondition %s of %s' % (nm, self.sig), f, 'pre')
        outs = []
        t = self.throws(c)
        if t is not None:
            ts = z3.simplify(t) if not isinstance(t, bool) else z3.BoolVal(t)
            if z3.is_true(ts): return [('throw', st, None)]
            if not z3.is_false(ts):
                if eng.guards is not None: self._guards(eng, t)
                s2 = st.clone()
                if eng.feasible(s2, t):
                    s2.assume(t)
                    if getattr(self, 'throw_defs', False) and self.specs:     # what the condition is about (definitions of the ghosts in it)
                        for f in self.specs(c): s2.assume(f)
                    if self.throw_mod:
                        for p, a in zip(ps, args):
                            if p.mode == 'mut' and p.kind.ref and p.name not in c.same and not isinstance(a, NullP):
                                p.kind.havoc(eng, s2, a, False)
                                for f in p.kind.wf(eng, p.kind.view(eng, s2, a)): s2.assume(f)
                    outs.append(('throw', s2, None))
                    if not eng.feasible(st, z3.Not(t)): return outs
                st.assume(z3.Not(t))
        try:
            return self.apply_effect(eng, st, c, ps, args, outs)
        except CannotApply as e: raise Undecided('effect of %s: %s' % (self.sig, e))

    def apply_effect(self, eng, st, c, ps, args, outs):
        for p, a in zip(ps, args):
            if p.name in c.same: continue
            if isinstance(a, NullP): continue
            if p.mode in ('mut', 'out') and p.kind.ref: p.kind.havoc(eng, st, a, p.mode == 'out')
            if p.mode == 'dead': p.kind.release(eng, st, obj_ptr(eng, st, a))
        if eng.nodes: self.heap_apply(eng, st, c, ps, args)
        for p, a in zip(ps, args):
            if p.mode in ('mut', 'out', 'in') and p.kind.ref:
                if p.mode == 'in' and c.same.get(p.name) is None:
                    c.n.set(p.name, getattr(c.o, p.name))
                else:
                    v = p.kind.view(eng, st, a)
                    c.n.set(p.name, v)
                    if p.mode != 'in':
                        for f in p.kind.wf(eng, v): st.assume(f)
        rv = self.make_ret(eng, st, c, args, ps)
        for nm, f in self.post(c): st.assume(f)
        outs.append(('ret', st, rv))
        return outs

    # effect on the node pools: {(class, member): term over the old and new views, None = arbitrary, or (term, [axioms])}
    def heap_terms(self, eng, c):
        import nodes
        out, ax = {}, []
        for (cl, m), t in (self.heap(c) if self.heap else {}).items():
            k = nodes.key(eng, cl, m)
            if isinstance(t, tuple): t, a = t; ax += a
            out[k] = t
        return out, ax

    def prelim(self, eng, st, c, ps, args):
        for p, a in zip(ps, args):
            if p.kind.ref and p.mode in ('mut', 'out') and not isinstance(a, NullP) and p.name not in c.same: c.n.set(p.name, p.kind.view(eng, st, a))

    def heap_apply(self, eng, st, c, ps, args):
        if not self.heap: return
        self.prelim(eng, st, c, ps, args)
        k = self.retk
        if callable(getattr(k, 'make_ret', None)) and self.retfn is None:
            c.retval = k.make_ret(eng, st, c)
            c.ret = k.view(eng, st, c.retval)
        t, ax = self.heap_terms(eng, c)
        free = [k for k, x in t.items() if x is None]
        if free:     # arbitrary members first: the terms of the others may speak about their new values
            for k in free: st.heap[k] = z3.Const(fresh_name('heap'), st.heap[k].sort())
            self.prelim(eng, st, c, ps, args)
            t, ax = self.heap_terms(eng, c)
        for k, x in t.items():
            if x is not None: st.heap[k] = x
        for a in ax: st.assume(a)

    def heap_return(self, eng, s, c, cc, ps, vals):
        """ghost members get their new value, the others are compared"""
        import nodes
        t = {}
        if self.heap:
            self.prelim(eng, s, cc, ps, vals)
            if callable(getattr(self.retk, 'view_ret', None)): cc.ret = self.retk.view_ret(eng, s, s.retval, cc)
            t, ax = self.heap_terms(eng, cc)
            for a in ax: s.assume(a)
        out = []
        for n in eng.nodes:
            for m, k, so in n.keys(eng):
                if m in n.ghosts:
                    if k in t: s.heap[k] = z3.Const(fresh_name('heap'), s.heap[k].sort()) if t[k] is None else t[k]
                    continue
                x = t[k] if k in t else c.heap_o[k]
                y = s.heap[k]
                if x is None or y.eq(x): continue
                q = z3.Const(fresh_name('node'), z3.IntSort())
                g = z3.Select(y, q) == z3.Select(x, q)
                if m != 'alive' and not n.foreign: g = z3.Implies(z3.Select(s.heap[(n.name, 'alive')], q), g)
                out.append(('%s of every %s is as described' % (m, n.name), ForAll(q, z3.Implies(q > 0, g), [z3.Select(y, q)])))
        return out

    def _guards(self, eng, t):
        todo = [t]
        while todo:
            x = todo.pop()
            if z3.is_le(x) or z3.is_lt(x) or z3.is_ge(x) or z3.is_gt(x): eng.guards.append((x.arg(0), x.arg(1)))
            elif z3.is_bool(x): todo += x.children()

    def make_ret(self, eng, st, c, args, ps):
        if self.retfn is not None:
            c.ret = self.retfn(c)
            if isinstance(c.ret, tuple): return tuple(c.ret)
            return c.ret
        k = self.retk
        if k is None: return None
        if isinstance(k, str) and k.startswith('arg:'):
            for p, a in zip(ps, args):
                if p.name == k[4:]: return a
        if isinstance(k, IntK):
            c.ret = eng.fresh_int(st, k.w, 'ret')
            return c.ret
        if isinstance(k, FpK):
            c.ret = k.make(eng, st, 'ret')
            return c.ret
        if callable(getattr(k, 'make_ret', None)):
            rv = c.retval if getattr(c, 'retval', None) is not None else k.make_ret(eng, st, c)
            c.ret = k.view(eng, st, rv)
            for f in k.wf(eng, c.ret): st.assume(f)
            return rv
        raise Unsupported('return kind')

    # ---------------------------------------------------------------- verification
    def verify(self, eng, alias=None, variant=None):
        t0 = time.time()
        smt.reset_names()
        smt.MAXINST = getattr(self, 'maxinst', 800)
        fn = eng.find(self.name)
        if fn is None: raise Unsupported('function %s not found' % self.sig)
        eng.contract = self
        st = State()
        if eng.nodes:
            import nodes
            nodes.setup(eng, st)
        c = CCtx(eng, st)
        c.heap_o = dict(st.heap)
        self.cur = c
        self.variant = variant
        ps = self.allparams()
        vals = []
        byname = {}
        for p in ps:
            if alias and p.name == alias[1] and alias[0] != 'null':
                v = byname[alias[0]]
                c.same[p.name] = alias[0]
            elif p.mode == 'out': v = p.kind.raw(eng, st, p.name)
            else: v = p.kind.make(eng, st, p.name)
            if alias and alias[0] == 'null' and alias[1] == p.name:
                v2 = p.kind.set_null(eng, st, v)
                if v2 is not None: v = v2
            byname[p.name] = v
            vals.append(v)
            c.args.set(p.name, v)
        for p, v in zip(ps, vals):
            if p.mode == 'out': continue
            vw = p.kind.view(eng, st, v)
            c.o.set(p.name, vw)
            for f in p.kind.wf(eng, vw): st.assume(f)
        for f in self.pre(c):
            f = f[1] if isinstance(f, tuple) else f
            st.assume(f)
        if variant is not None: st.assume(variant(c))
        if smt.check(st.pc, 5000).status == 'unsat':
            raise Unsupported('precondition of %s is unsatisfiable' % self.sig)
        base_regions = set(st.regions)
        fr = Frame(fn)
        if len(fn.params) != len(vals): raise Unsupported('parameter count of %s changed' % self.sig)
        for (t, nm, at), v in zip(fn.params, vals): fr.regs[nm] = v
        st.frames = [fr]
        self.entry_state = st.clone()
        if self.recs or self.preds or self.specs:
            self.cur = c
            for f in self.spec_axioms(c): st.assume(f)
        leaves = eng.explore(st, Ctx())
        nret = nthrow = 0
        for kind, s in leaves:
            if kind == 'ret':
                nret += 1
                self.check_return(eng, s, c, ps, vals, base_regions)
            elif kind == 'throw':
                nthrow += 1
                cc = self.clone_ctx(eng, s, c)
                t = self.throws(cc)
                if t is None: eng.oblige(s, 'no exception is thrown', z3.BoolVal(False), 'throws')
                else:
                    eng.oblige(s, 'exception only under its condition', t if not isinstance(t, bool) else z3.BoolVal(t), 'throws')
                    if not self.throw_mod:
                        for p, v in zip(ps, vals):
                            if p.kind.ref and p.mode in ('in', 'mut') and p.name not in c.same:
                                try: nv = p.kind.view(eng, s, v)
                                except CannotApply as e:
                                    eng.oblige(s, 'argument %s intact after the exception (%s)' % (p.name, e), z3.BoolVal(False), 'throws'); continue
                                for f in p.kind.same(eng, getattr(c.o, p.name), nv):
                                    eng.oblige(s, 'argument %s unchanged when an exception is thrown' % p.name, f, 'throws')
        if nret == 0 and nthrow == 0:
            raise Unsupported('no path of %s reaches its end (vacuous)' % self.sig)
        if nret == 0 and not self.throws_: raise Unsupported('no normal return of %s' % self.sig)
        return dict(returns=nret, throws=nthrow, time=time.time() - t0)

    def clone_ctx(self, eng, s, c):
        cc = CCtx(eng, s)
        cc.o, cc.args, cc.same, cc.memo, cc.heap_o = c.o, c.args, c.same, c.memo, c.heap_o
        return cc

    def spec_axioms(self, c):
        out = []
        if self.specs: out += list(self.specs(c))
        return out

    def check_return(self, eng, s, c, ps, vals, base_regions):
        cc = self.clone_ctx(eng, s, c)
        t = self.throws(cc)
        if t is not None: eng.oblige(s, 'normal return only when no exception is due', z3.Not(t) if not isinstance(t, bool) else z3.BoolVal(not t), 'throws')
        owned = []
        hposts = []
        if eng.nodes:
            try: hposts = self.heap_return(eng, s, c, cc, ps, vals)
            except CannotApply as e:
                eng.oblige(s, 'valid objects at return (%s)' % e, z3.BoolVal(False), 'invariant')
                return
        for p, v in zip(ps, vals):
            if p.mode == 'dead':
                for b in getattr(getattr(c.o, p.name), 'bufs', []):
                    eng.oblige(s, 'memory of %s is released' % p.name, z3.BoolVal(not s.regions[b].alive), 'invariant')
            if not p.kind.ref or p.mode == 'dead': continue
            if p.name in c.same:
                cc.n.set(p.name, getattr(cc.n, c.same[p.name])); continue
            try:
                nv = p.kind.view(eng, s, v)
            except CannotApply as e:
                eng.oblige(s, '%s is a valid object at return (%s)' % (p.name, e), z3.BoolVal(False), 'invariant')
                return
            cc.n.set(p.name, nv)
            for b in getattr(nv, 'bufs', []): owned.append((p.name, b))
            if p.mode in ('mut', 'out'):
                for i, f in enumerate(p.kind.wf(eng, nv)):
                    eng.oblige(s, 'class invariant of %s at return (%d)' % (p.name, i), f, 'invariant')
                for b in getattr(nv, 'bufs', []):
                    if s.ghost.get(('heap', b)) != p.kind.heapkind:
                        eng.oblige(s, 'buffer of %s is owned heap memory' % p.name, z3.BoolVal(False), 'invariant')
            else:
                if nv.bufs != getattr(c.o, p.name).bufs:
                    eng.oblige(s, 'buffer of %s untouched' % p.name, z3.BoolVal(False), 'frame')
                for f in p.kind.same(eng, getattr(c.o, p.name), nv):
                    eng.oblige(s, '%s unchanged' % p.name, f, 'frame')
        seen = {}
        for nm, b in owned:
            if b in seen: eng.oblige(s, 'buffers of %s and %s are independent' % (seen[b], nm), z3.BoolVal(False), 'invariant')
            seen[b] = nm
        rv = s.retval
        k = self.retk
        if isinstance(k, str) and k.startswith('arg:'):
            want = dict((p.name, v) for p, v in zip(ps, vals))[k[4:]]
            eng.oblige(s, 'returns its argument %s' % k[4:], eng.pcmp(s, 'eq', rv, want), 'post')
        elif isinstance(k, (IntK, FpK)):
            if isinstance(rv, (PtrInt,)) or is_ptr(rv): raise Unsupported('returned pointer as value')
            cc.ret = rv
        elif k is not None and callable(getattr(k, 'view_ret', None)):
            try: cc.ret = k.view_ret(eng, s, rv, cc)
            except CannotApply as e:
                eng.oblige(s, 'valid result (%s)' % e, z3.BoolVal(False), 'post')
                return
            for f in k.wf(eng, cc.ret): eng.oblige(s, 'invariant of the result', f, 'post')
            for b in getattr(cc.ret, 'bufs', []): seen[b] = 'result'
        elif self.retfn is not None: cc.ret = rv
        if self.retfn is not None:
            e = self.retfn(cc)
            r = rv
            if isinstance(e, tuple):
                for i, (x, y) in enumerate(zip(r, e)): eng.oblige(s, 'result.%d' % i, x == y, 'post')
            else:
                eng.oblige(s, 'result value', r == e, 'post')
        if self.noleak:
            for rid in s.regions:
                r = s.regions[rid]
                if r.alive and ('heap', rid) in s.ghost and rid not in seen and not self.is_reachable(s, rid, vals, rv, base_regions, seen):
                    eng.oblige(s, 'no memory leaked (%s)' % r.name, z3.BoolVal(False), 'leak')
        for nm, f in hposts: eng.oblige(s, nm, f, 'frame')
        for nm, f in self.post(cc): eng.oblige(s, nm, f, 'post')

    def is_reachable(self, s, rid, vals, rv, base, seen):
        todo = [v.r for v in vals if isinstance(v, Ptr)] + list(base) + ([rv.r] if isinstance(rv, Ptr) else []) + list(seen)
        done = set()
        while todo:
            x = todo.pop()
            if x in done or x not in s.regions: continue
            done.add(x)
            if x == rid: return True
            r = s.regions[x]
            for o, (z, v) in r.fields.items():
                if isinstance(v, Ptr): todo.append(v.r)
                elif isinstance(v, PIte): todo += _pts(v)
            todo += list(r.sub.values())
            if isinstance(r.info, dict):
                for k, pl in r.info.items():
                    if isinstance(pl, list): todo += [q.r for q in pl if isinstance(q, Ptr)]
        return False


def _pts(v):
    if isinstance(v, Ptr): return [v.r]
    if isinstance(v, PIte): return _pts(v.a) + _pts(v.b)
    return []
