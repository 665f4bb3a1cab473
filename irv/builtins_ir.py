"""Models of the run-time functions the IR calls (allocation, memory, exceptions, a few libc/libm functions).
Everything in this file is part of the trusted base and is reported as such."""
import z3
import smt
import nodes
from smt import ForAll, fresh_name


def install(E):
    import symex
    from symex import Ptr, NULL, NullP, GlobP, Ref, Opaque, PathEnd, Throw, Unsupported, iconst, is_ptr, PtrInt, Fork
    MAXBYTES = 1 << 46

    def alloc(eng, st, args, ins, mod, kind='raw'):
        n = args[0][1]
        eng.trusted.add('operator new (allocation succeeds, at most 2^46 bytes; failure path not examined)')
        c = iconst(n)
        if c is not None:
            if c in eng.refnew:
                cls = eng.refnew[c]
                return eng.new_node(st, cls)
            if c < 0: raise PathEnd('allocation failure')
            if kind == 'new[]':
                for z in eng.cookies:
                    if c >= 8 and (c - 8) % z == 0: return class_array(eng, st, z, eng.A.const((c - 8) // z, 64))
            r = eng.new_region(st, 'struct' if kind == 'new' else 'raw', 'heap%d' % c, nbytes=eng.A.const(c, 64))
            r.info = None
            st.ghost[('heap', r.id)] = kind
            return Ptr(r.id, 0, 0)
        lo, hi = eng.A.idx(0), eng.A.idx(MAXBYTES)
        cond = z3.And(lo <= n, n <= hi)
        if not eng.feasible(st, cond): raise PathEnd('allocation failure')
        st.assume(cond)
        if kind == 'new[]':
            for z in eng.cookies:
                x = z3.simplify(n - 8)
                parts = x.children() if z3.is_add(x) else [x]
                if all(z3.is_int_value(y) and y.as_long() % z == 0 or z3.is_mul(y) and y.num_args() == 2 and z3.is_int_value(y.arg(0)) and y.arg(0).as_long() % z == 0 for y in parts):
                    return class_array(eng, st, z, eng.divexact(x, z))
        r = eng.new_region(st, 'raw', 'heap', nbytes=n)
        st.ghost[('heap', r.id)] = kind
        return Ptr(r.id, 0, 0)

    def class_array(eng, st, esz, n):
        """new T[n] of a class with a destructor: the count in front of the elements"""
        r = eng.new_region(st, 'array', 'heap', esz=esz, n=n)
        r.info = symex.COOKIE
        st.ghost[('heap', r.id)] = 'new[]'
        return Ptr(r.id, 0, -8)

    def new_array(eng, st, args, ins, mod): return alloc(eng, st, args, ins, mod, 'new[]')

    def new_one(eng, st, args, ins, mod): return alloc(eng, st, args, ins, mod, 'new')

    def malloc(eng, st, args, ins, mod): return alloc(eng, st, args, ins, mod, 'malloc')

    def calloc(eng, st, args, ins, mod): raise Unsupported('calloc')

    def release(kind):
        def f(eng, st, args, ins, mod):
            p = eng.resolve_ptr(st, args[0][1])
            if isinstance(p, NullP): return None
            if isinstance(p, Ref):
                eng.free_node(st, p)
                return None
            if isinstance(p, PtrInt): p = p.p
            if not isinstance(p, Ptr):
                eng.oblige(st, 'delete of a heap block', z3.BoolVal(False), 'safety')
                raise PathEnd('bad delete')
            r = st.reg(p.r)
            if not r.alive:
                eng.oblige(st, 'no double delete of %s' % r.name, z3.BoolVal(False), 'safety')
                raise PathEnd('double free')
            k = st.ghost.get(('heap', r.id))
            i = iconst(eng.A.idx(p.i))
            base = -8 if r.info == symex.COOKIE else 0
            if i != 0 or p.o != base:
                eng.oblige(st, 'delete of the start of a block', z3.BoolVal(False) if p.o != base else eng.A.idx(p.i) == 0, 'safety')
            if k is None or k != kind:
                eng.oblige(st, 'block %s released with the matching operator (%s, allocated by %s)' % (r.name, kind, k), z3.BoolVal(False), 'safety')
            st.wreg(r.id).alive = False
            return None
        return f

    def umul(eng, st, args, ins, mod):
        a, b = args[0][1], args[1][1]
        eng.trusted.add('array size computation of new[] does not overflow (otherwise bad_array_new_length is thrown)')
        w = args[0][0].bits
        if eng.mode == 'int':
            ua, ub = eng.uns(st, a, w), eng.uns(st, b, w)
            e = z3.simplify(ua * ub)
            cond = z3.And(e <= MAXBYTES, a >= 0)
            if not eng.feasible(st, cond): raise PathEnd('allocation failure')
            st.assume(cond)
            return (z3.simplify(a * b), z3.BoolVal(False))
        c = iconst(b)
        if c is not None and c > 0: cond = z3.And(a >= 0, a <= MAXBYTES // c)
        else: cond = z3.BVMulNoOverflow(a, b, False)
        if not eng.feasible(st, cond): raise PathEnd('allocation failure')
        st.assume(cond)
        return (z3.simplify(a * b), z3.BoolVal(False))

    def uadd(eng, st, args, ins, mod):
        a, b = args[0][1], args[1][1]
        w = args[0][0].bits
        if eng.mode == 'int':
            ua, ub = eng.uns(st, a, w), eng.uns(st, b, w)
            cond = ua + ub <= MAXBYTES
            if not eng.feasible(st, cond): raise PathEnd('allocation failure')
            st.assume(cond)
            return (z3.simplify(a + b), z3.BoolVal(False))
        cond = z3.BVAddNoOverflow(a, b, False)
        st.assume(cond)
        return (z3.simplify(a + b), z3.BoolVal(False))

    def memcpy(eng, st, args, ins, mod):
        eng.memcpy(st, args[0][1], args[1][1], args[2][1], mod)
        return args[0][1]

    def memset(eng, st, args, ins, mod):
        b = args[1][1]
        if args[1][0].bits > 8: b = eng.cast(st, 'trunc', b, args[1][0], symex.IntT(8))
        eng.memset(st, args[0][1], b, args[2][1], mod)
        return args[0][1]

    def throw(eng, st, args, ins, mod):
        raise Throw('exception')

    def end(why):
        def f(eng, st, args, ins, mod): raise PathEnd(why)
        return f

    def terminate(eng, st, args, ins, mod):
        eng.oblige(st, 'no call of std::terminate', z3.BoolVal(False), 'safety')
        raise PathEnd('terminate')

    def nop(eng, st, args, ins, mod):
        if ins.res is not None: return eng.fresh(st, mod.resolve(ins.ty), 'ext', mod)
        return None

    def guard_acquire(eng, st, args, ins, mod):
        return eng.A.const(0, 32)

    def iabs(eng, st, args, ins, mod):
        x = args[0][1]
        w = args[0][0].bits
        lo = -(1 << (w - 1))
        eng.oblige(st, 'no signed overflow in abs', x != (lo if eng.mode == 'int' else z3.BitVecVal(lo, w)), 'overflow')
        return z3.If(x < 0, -x, x)

    def minmax(kind):
        def f(eng, st, args, ins, mod):
            a, b = args[0][1], args[1][1]
            w = args[0][0].bits
            if kind[0] == 's':
                if eng.mode == 'int': a2, b2 = eng.sgn(st, a, w), eng.sgn(st, b, w)
                else: a2, b2 = a, b
                c = a2 < b2
            else:
                if eng.mode == 'int': c = eng.uns(st, a, w) < eng.uns(st, b, w)
                else: c = z3.ULT(a, b)
            return z3.If(c, a, b) if kind[1:] == 'min' else z3.If(c, b, a)
        return f

    def fabs(eng, st, args, ins, mod):
        x = args[0][1]
        return z3.If(x >= 0, x, -x) if eng.fp == 'real' else z3.fpAbs(x)

    def fsqrt(eng, st, args, ins, mod):
        x = args[0][1]
        if eng.fp != 'real': return z3.fpSqrt(z3.RNE(), x)
        eng.trusted.add('sqrt is the exact non-negative square root (real arithmetic)')
        r = z3.Const(fresh_name('sqrt'), z3.RealSort())
        st.assume(z3.Implies(x >= 0, z3.And(r >= 0, r * r == x)))
        return r

    def rnd(kind):
        def f(eng, st, args, ins, mod):
            x = args[0][1]
            if eng.fp == 'real':
                fl = z3.ToReal(z3.ToInt(x))
                if kind == 'floor': return fl
                if kind == 'ceil': return -z3.ToReal(z3.ToInt(-x))
                if kind == 'trunc': return z3.If(x >= 0, fl, -z3.ToReal(z3.ToInt(-x)))
                if kind == 'round': return z3.If(x >= 0, z3.ToReal(z3.ToInt(x + z3.Q(1, 2))), -z3.ToReal(z3.ToInt(-x + z3.Q(1, 2))))
            m = {'floor': z3.RTN(), 'ceil': z3.RTP(), 'trunc': z3.RTZ(), 'round': z3.RNA()}[kind]
            return z3.fpRoundToIntegral(m, x)
        return f

    def isnan(eng, st, args, ins, mod):
        x = args[0][1]
        r = z3.BoolVal(False) if eng.fp == 'real' else z3.fpIsNaN(x)
        return z3.If(r, eng.A.const(1, 32), eng.A.const(0, 32)) if ins.ty.k == 'int' and ins.ty.bits == 32 else r

    def fmuladd(eng, st, args, ins, mod):
        a, b, c = [x for _, x in args[:3]]
        if eng.fp == 'real': return a * b + c
        # llvm.fmuladd: contraction is allowed; the x86-64 baseline target has no fma, it is a multiplication and an addition
        return z3.fpAdd(z3.RNE(), z3.fpMul(z3.RNE(), a, b), c)

    def uf1(name):
        def f(eng, st, args, ins, mod):
            eng.trusted.add('libm %s as an uninterpreted function' % name)
            s = eng.fpsort(args[0][0])
            return z3.Function('libm_' + name, *([s] * (len(args) + 1)))(*[x for _, x in args])
        return f

    def strlen(eng, st, args, ins, mod):
        p = eng.resolve_ptr(st, args[0][1])
        if isinstance(p, GlobP): p = eng.glob_region(st, p, mod)
        if not isinstance(p, Ptr): 
            eng.oblige(st, 'strlen of a valid pointer', z3.BoolVal(False), 'safety'); raise PathEnd('strlen')
        r = st.reg(p.r)
        a = r.arrs.get(0)
        if a is None or r.esz != 1: raise Unsupported('strlen')
        eng.trusted.add('strlen (specified, not verified)')
        n = z3.Const(fresh_name('strlen'), eng.A.isort)
        i = eng.A.idx(p.i)
        # a terminating zero inside the block is required
        h = getattr(eng.contract, 'terminated', None)
        if h is None: raise Unsupported('strlen without terminator knowledge')
        t = h(eng, st, r, i)
        st.assume([n >= 0, z3.Select(a, i + n) == eng.A.const(0, 8), i + n < eng.A.idx(r.n), n <= t])
        k = z3.Const(fresh_name('k'), eng.A.isort)
        st.assume(ForAll(k, z3.Implies(z3.And(i <= k, k < i + n), z3.Select(a, k) != eng.A.const(0, 8)), [z3.Select(a, k)]))
        return n

    def memcmp(eng, st, args, ins, mod):
        p, q, n = eng.resolve_ptr(st, args[0][1]), eng.resolve_ptr(st, args[1][1]), args[2][1]
        if isinstance(p, GlobP): p = eng.glob_region(st, p, mod)
        if isinstance(q, GlobP): q = eng.glob_region(st, q, mod)
        if not (isinstance(p, Ptr) and isinstance(q, Ptr)): raise Unsupported('memcmp')
        rp, rq = st.reg(p.r), st.reg(q.r)
        if rp.esz is None or rp.esz != rq.esz or p.o or q.o: raise Unsupported('memcmp')
        A = eng.A
        cnt = eng.divexact(A.idx(n), rp.esz)
        pi, qi = A.idx(p.i), A.idx(q.i)
        for nm, ii, rr in (('first', pi, rp), ('second', qi, rq)):
            eng.oblige(st, 'memcmp %s range in bounds' % nm, z3.Or(cnt == 0, z3.And(cnt >= 0, ii >= 0, ii + cnt <= A.idx(rr.n))), 'safety')
        a, b = rp.arrs.get(0), rq.arrs.get(0)
        if a is None or b is None: raise Unsupported('memcmp of uninitialised')
        eng.trusted.add('memcmp (specified, not verified)')
        res = eng.fresh_int(st, 32, 'memcmp')
        w = z3.Const(fresh_name('w'), A.isort)
        k = z3.Const(fresh_name('k'), A.isort)
        same = res == A.const(0, 32)
        st.assume(ForAll(k, z3.Implies(z3.And(same, 0 <= k, k < cnt), z3.Select(a, pi + k) == z3.Select(b, qi + k)), [z3.Select(a, pi + k)]))
        st.assume(ForAll(k, z3.Implies(z3.And(same, 0 <= k, k < cnt), z3.Select(a, pi + k) == z3.Select(b, qi + k)), [z3.Select(b, qi + k)]))
        st.assume(z3.Implies(z3.Not(same), z3.And(0 <= w, w < cnt, z3.Select(a, pi + w) != z3.Select(b, qi + w))))
        if rp.esz == 1:
            st.assume(ForAll(k, z3.Implies(z3.And(z3.Not(same), 0 <= k, k < w), z3.Select(a, pi + k) == z3.Select(b, qi + k)), [z3.Select(a, pi + k)]))
            x, y = z3.Select(a, pi + w), z3.Select(b, qi + w)
            lt = x < y if eng.mode == 'int' else z3.ULT(x, y)
            st.assume(z3.Implies(z3.Not(same), (res < 0) == lt))
        return res

    def cls(fn):
        def f(eng, st, args, ins, mod): return fn(eng, st, *[x for _, x in args])
        return f

    def pool(eng, st, args, ins, mod):
        eng.trusted.add('System::autoreleasePool returns the pool of the thread')
        for n in eng.nodes:
            if n.name in ('Pool', 'AP'):
                t = z3.Const('threadpool', z3.IntSort())
                st.assume(t > 0)
                return Ref(n.name, t, 0)
        return Opaque('pool')

    def mutex(v):
        def f(eng, st, args, ins, mod):
            eng.trusted.add('pthread_mutex_lock/unlock (external; mutual exclusion)')
            if eng.nodes: nodes.lock(eng, st, eng.resolve_ptr(st, args[0][1]), v)
            return eng.A.const(0, 32)
        return f

    B = E.builtins
    B['_ZN2jm6System15autoreleasePoolEv'] = pool
    def zero(eng, st, args, ins, mod): return eng.A.const(0, 32)

    def condwait(eng, st, args, ins, mod):
        eng.trusted.add('pthread_cond_wait (external; releases the mutex while waiting)')
        if eng.nodes:
            nodes.lock(eng, st, eng.resolve_ptr(st, args[1][1]), False)
            nodes.lock(eng, st, eng.resolve_ptr(st, args[1][1]), True)
        return eng.fresh_int(st, 32, 'wait')

    def texit(eng, st, args, ins, mod):
        eng.trusted.add('pthread_exit ends the thread')
        raise symex.ThreadExit()

    def join(eng, st, args, ins, mod):
        eng.trusted.add('pthread_join returns when the thread has ended')
        st.ghost['joined'] = args[0][1]
        return zero(eng, st, args, ins, mod)

    def create(eng, st, args, ins, mod):
        eng.trusted.add('pthread_create starts the thread function with its argument, or fails with a code other than 0')
        h = getattr(eng.contract, 'create_hook', None)
        if h is None: raise Unsupported('pthread_create')
        return h(eng, st, args)

    B['pthread_exit'], B['pthread_join'], B['pthread_create'] = texit, join, create

    def pure(eng, st, args, ins, mod):
        p = args[0][1]
        if isinstance(p, Ref) and 'ran' in nodes.cls(eng, p.cls).tracked:
            k = (p.cls, 't:ran')
            st.heap[k] = z3.Store(st.heap[k], p.t, z3.Select(st.heap[k], p.t) + 1)
            return None
        raise Unsupported('pure virtual call')

    B['__cxa_pure_virtual'] = pure
    for n in ('mutex_init', 'mutexattr_init', 'cond_init', 'condattr_init', 'mutex_destroy', 'cond_destroy', 'cond_signal', 'cond_broadcast'): B['pthread_' + n] = zero
    B['pthread_cond_wait'] = B['pthread_cond_timedwait'] = condwait
    B['pthread_mutex_lock'], B['pthread_mutex_unlock'] = mutex(True), mutex(False)
    B.update({
        '_Znwm': new_one, '_Znam': new_array, 'malloc': malloc, 'calloc': calloc,
        '_ZdaPv': release('new[]'), '_ZdaPvm': release('new[]'), '_ZdlPv': release('new'), '_ZdlPvm': release('new'), 'free': release('malloc'),
        'memcpy': memcpy, 'memmove': memcpy, 'memset': memset,
        '__cxa_allocate_exception': throw, '__cxa_throw': throw, '__cxa_rethrow': throw,
        '_ZSt9terminatev': terminate, '__clang_call_terminate': terminate, 'abort': terminate,
        '_ZSt20__throw_length_errorPKc': throw, '_ZSt17__throw_bad_allocv': end('bad_alloc'), '__cxa_throw_bad_array_new_length': end('bad_array_new_length'),
        '__cxa_guard_acquire': guard_acquire, '__cxa_guard_release': nop, '__cxa_atexit': nop,
        'abs': iabs, 'labs': iabs, 'llabs': iabs, 'fabs': fabs, 'sqrt': fsqrt, 'floor': rnd('floor'), 'ceil': rnd('ceil'), 'trunc': rnd('trunc'), 'round': rnd('round'),
        'strlen': strlen, 'memcmp': memcmp, 'bcmp': memcmp,
        'llvm.fmuladd.f64': fmuladd, 'llvm.fmuladd.f32': fmuladd,
    })
    for n in ('sin', 'cos', 'tan', 'atan2', 'atan', 'acos', 'asin', 'exp', 'log', 'pow', 'fmod', 'log2', 'log10', 'cbrt', 'hypot'): B[n] = uf1(n)

    def with_prefix(p, f): E.builtin_prefix.append((p, f))
    E.builtin_prefix = []
    with_prefix('llvm.memcpy', memcpy)
    with_prefix('llvm.memmove', memcpy)
    with_prefix('llvm.memset', memset)
    with_prefix('llvm.umul.with.overflow', umul)
    with_prefix('llvm.uadd.with.overflow', uadd)
    with_prefix('llvm.lifetime', nop)
    with_prefix('llvm.dbg', nop)
    with_prefix('llvm.stacksave', nop)
    with_prefix('llvm.stackrestore', nop)
    with_prefix('llvm.experimental.noalias', nop)
    with_prefix('llvm.assume', nop)
    with_prefix('llvm.abs', iabs)
    for k in ('smin', 'smax', 'umin', 'umax'): with_prefix('llvm.' + k, minmax(k))
    with_prefix('llvm.fabs', fabs)
    with_prefix('llvm.sqrt', fsqrt)
    for k in ('floor', 'ceil', 'trunc', 'round'): with_prefix('llvm.%s.' % k, rnd(k))
    for k in ('sin', 'cos', 'pow', 'exp', 'log'): with_prefix('llvm.%s.' % k, uf1(k))
    with_prefix('llvm.is.fpclass', lambda eng, st, args, ins, mod: z3.BoolVal(False) if eng.fp == 'real' else isnan(eng, st, args, ins, mod))
    with_prefix('llvm.trap', end('trap'))
