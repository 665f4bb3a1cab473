"""Locks, reference counts under concurrency, thread life flag (C31). Every function is verified against all interleavings: on
acquiring a mutex the data it protects gets any value the other threads may have left (its invariant is assumed), on releasing it
the invariant is proved and the data becomes arbitrary again; protected members may be touched only while the mutex is held.
mine(q): references to object q this thread owns, theirs(q): those of the other threads and of the pool."""
import z3
from symex import Ref, GlobP
from contract import *
from nodes import NodeCls, RefK, key
from smt import ForAll, Nested, fresh_name

SOURCES = ['src/core/Object.cpp', 'src/core/Mutex.cpp', 'src/core/AutoreleasePool.cpp', 'src/core/Thread.cpp']
CLASSES = {'Obj': ('jm::Object', ['mRefCount', 'mPool']), 'AP': ('jm::AutoreleasePool', ['mPool', 'mTop', 'mMutex', 'mPoolMutex']), 'PE': ('jm::AutoreleasePool::PoolEntry', ['object', 'next']),
           'Mx': ('jm::Mutex', ['criticalSection']), 'Th': ('jm::Thread', ['alive', 'criticalSection', 'thread', 'Object::mPool', 'Object::mRefCount'])}
INT, BOOL = z3.IntSort(), z3.BoolSort()
Sel, Sto, Z = z3.Select, z3.Store, z3.IntVal(0)
TP = z3.Const('threadpool', INT)
MAXREF = (1 << 31) - 2


def H(eng, st, cl, m): return st.heap[key(eng, cl, m)]


def setH(eng, st, cl, m, v): st.heap[key(eng, cl, m)] = v


def fresh(eng, st, cl, m):
    k = key(eng, cl, m)
    st.heap[k] = z3.Const(fresh_name('other_' + m), st.heap[k].sort())
    return st.heap[k]


def all1(body, trigs):
    q = z3.Const(fresh_name('q'), INT)
    return ForAll(q, body(q), trigs(q))


def low(r): return z3.If(r < 0, r + (1 << 31), r)      # without the high bit, which carries no reference


def counted(eng, st, p):
    """invariant of the mutex of pool p: the count of a live object is the number of its references"""
    al, rc, mi, th, mp = [H(eng, st, 'Obj', m) for m in ('alive', 'mRefCount', 'mine', 'theirs', 'mPool')]
    return lambda q: z3.Implies(z3.And(q > 0, Sel(al, q), Sel(mp, q) == p), z3.And(low(Sel(rc, q)) == Sel(mi, q) + Sel(th, q)))


def others_rc(eng, st, p):
    """what the other threads may do to reference counts while this one does not hold the mutex"""
    al0, mi, rc0, th0, mp = [H(eng, st, 'Obj', m) for m in ('alive', 'mine', 'mRefCount', 'theirs', 'mPool')]
    al, rc, th = fresh(eng, st, 'Obj', 'alive'), fresh(eng, st, 'Obj', 'mRefCount'), fresh(eng, st, 'Obj', 'theirs')
    cond = lambda q: z3.And(q > 0, Sel(al0, q))
    st.assume(all1(lambda q: z3.Implies(q > 0, Sel(th, q) >= 0), lambda q: [Sel(th, q)]))
    # references owned keep an object alive; without any reference nobody else may touch or destroy it
    st.assume(all1(lambda q: z3.Implies(z3.And(cond(q), z3.Or(Sel(mi, q) > 0, Sel(th0, q) == 0)), Sel(al, q)), lambda q: [Sel(al, q)]))
    st.assume(all1(lambda q: z3.Implies(z3.And(cond(q), Sel(mi, q) == 0, Sel(th0, q) == 0), Sel(th, q) == 0), lambda q: [Sel(th, q)]))
    inv = counted(eng, st, p)
    st.assume(all1(lambda q: z3.Implies(q > 0, z3.And(inv(q), z3.Implies(Sel(al, q), z3.And(Sel(rc, q) >= -(1 << 31), Sel(rc, q) < (1 << 31), low(Sel(rc, q)) <= MAXREF)))), lambda q: [Sel(rc, q)]))


def rc_acquire(eng, st, p):
    others_rc(eng, st, p)
    st.ghost[('cs', st.ghost.get('ncs', 0))] = H(eng, st, 'Obj', 'mRefCount')
    st.ghost['ncs'] = st.ghost.get('ncs', 0) + 1


def rc_release(eng, st, p):
    k = eng.contract
    st.ghost[('ce', st.ghost.get('ncs', 0) - 1)] = H(eng, st, 'Obj', 'mRefCount')
    g = getattr(k, 'critical', None)
    if g: g(eng, st)
    inv = counted(eng, st, p)
    eng.oblige(st, 'reference counts exact when the mutex is released', all1(inv, lambda q: [Sel(H(eng, st, 'Obj', 'mRefCount'), q)]), 'invariant')
    others_rc(eng, st, p)


# the list of registrations of the pool, protected by its second mutex
class Pool:
    def __init__(self, h, p):
        self.h, self.p = h, p
        self.n, self.first, self.top = Sel(h('AP', 'n'), p), Sel(h('AP', 'mPool'), p), Sel(h('AP', 'mTop'), p)
        self.at = lambda k: Sel(h('PE', 'at'), k)
        self.pos = lambda x: Sel(h('PE', 'pos'), x)
        self.item = lambda k: Sel(h('PE', 'object'), self.at(k))
        self.inl = lambda x: z3.And(x > 0, self.pos(x) >= 0, self.pos(x) < self.n, self.at(self.pos(x)) == x)

    def wf(self):
        nx, al, n = self.h('PE', 'next'), self.h('PE', 'alive'), self.n

        def body(k):
            x = self.at(k)
            return z3.Implies(z3.And(k >= 0, k < n), z3.And(x > 0, Sel(al, x), self.pos(x) == k, x != self.first, Sel(nx, x) == z3.If(k == n - 1, Z, self.at(k + 1)), self.item(k) > 0, Sel(self.h('Obj', 'mPool'), self.item(k)) > 0))
        return [n >= 0, self.first > 0, Sel(al, self.first), self.top == z3.If(n == 0, self.first, self.at(n - 1)), Sel(nx, self.first) == z3.If(n == 0, Z, self.at(0)), z3.Not(self.inl(self.first)),
                all1(body, lambda k: [self.at(k)]), all1(lambda k: z3.Implies(z3.And(k >= 0, k < n), Sel(self.h('Obj', 'alive'), self.item(k))), lambda k: [self.at(k)])]      # a registration owns a reference, so its object lives


def here(eng, st):
    hp = dict(st.heap)
    return lambda cl, m: hp[key(eng, cl, m)]


def pool_acquire(eng, st, p):
    for cl, m in (('PE', 'alive'), ('PE', 'object'), ('PE', 'next'), ('PE', 'at'), ('PE', 'pos'), ('AP', 'mTop'), ('AP', 'n')): fresh(eng, st, cl, m)
    P_ = Pool(here(eng, st), p)
    for f in P_.wf(): st.assume(f)
    st.ghost['pool'] = here(eng, st)
    st.ghost['npool'] = st.ghost.get('npool', 0) + 1
    g = getattr(eng.contract, 'taken', None)
    if g: g(eng, st, P_)


def pool_release(eng, st, p):
    g = getattr(eng.contract, 'critical', None)
    if g: g(eng, st)
    P_ = Pool(here(eng, st), p)
    for i, f in enumerate(P_.wf()): eng.oblige(st, 'list of registrations valid when the mutex is released (%d)' % i, f, 'invariant')
    st.ghost['poolend'] = here(eng, st)


# the life flag of a thread: set until the thread is interrupted
def th_acquire(eng, st, t):
    a0 = H(eng, st, 'Th', 'alive')
    v, b = z3.Const(fresh_name('alive'), INT), z3.Const(fresh_name('interrupted'), BOOL)
    i0 = H(eng, st, 'Th', 'interrupted')
    st.assume([z3.Or(v == 0, v == 1), z3.Implies(Sel(i0, t), b), b == (v == 0)])
    setH(eng, st, 'Th', 'alive', Sto(a0, t, v))
    setH(eng, st, 'Th', 'interrupted', Sto(i0, t, b))
    st.ghost['flag'] = v


def th_release(eng, st, t):
    g = getattr(eng.contract, 'critical', None)
    if g: g(eng, st)
    eng.oblige(st, 'the life flag is clear exactly when the thread has been interrupted', Sel(H(eng, st, 'Th', 'interrupted'), t) == (Sel(H(eng, st, 'Th', 'alive'), t) == 0), 'invariant')
    th_acquire(eng, st, t)


def held(m, cl='AP'): return lambda eng, st, t: Sel(H(eng, st, cl, 'held_' + m), t)


def entry_guard(eng, st, t):
    """an entry is touched under the mutex of the pool, or before anybody else can know it"""
    return z3.Or(Sel(H(eng, st, 'AP', 'held_mPoolMutex'), TP), z3.Not(Sel(eng.contract.cur.heap_o[('PE', 'alive')], t)))


HOOKS = {'nodes': [
    NodeCls('Obj', ptrs={'mPool': 'AP'}, ints={'mRefCount': 32}, tracked={'mine': INT, 'theirs': INT, 'freed': BOOL}, vtab='_ZTVN2jm6ObjectE',
            guards={'mRefCount': lambda eng, st, t: Sel(H(eng, st, 'AP', 'held_mMutex'), Sel(H(eng, st, 'Obj', 'mPool'), t))}),
    NodeCls('AP', ptrs={'mPool': 'PE', 'mTop': 'PE'}, ghosts={}, tracked={'n': INT}, foreign=True, locks={'mMutex': (rc_acquire, rc_release), 'mPoolMutex': (pool_acquire, pool_release)}, guards={'mTop': held('mPoolMutex')}),
    NodeCls('PE', ptrs={'object': 'Obj', 'next': 'PE'}, tracked={'at': INT, 'pos': INT}, guards={'next': entry_guard, 'object': entry_guard}),
    NodeCls('Mx', foreign=True, locks={'criticalSection': (None, None)}),
    NodeCls('Th', ptrs={'Object::mPool': 'AP'}, ints={'alive': 8, 'thread': 64, 'Object::mRefCount': 32}, tracked={'interrupted': BOOL, 'started': BOOL, 'ran': INT}, foreign=True, vtab='_ZTVN2jm6ThreadE', locks={'criticalSection': (th_acquire, th_release)}, guards={'alive': held('criticalSection', 'Th')})]}
C = []


def con(sig, params, **k):
    x = Contract(sig, params, prop=['C31'], **k)
    C.append(x)
    return x


OB, AP, MX, TH = RefK('Obj'), RefK('AP'), RefK('Mx'), RefK('Th')
T = [P('this', OB)]
h = lambda c, m, cl='Obj': c.ho(cl, m)
g = lambda c, m, cl='Obj': c.hn(cl, m)
# ---------------------------------------------------------------- Mutex
X = 'jm::Mutex::'
XH = lambda c: h(c, 'held_criticalSection', 'Mx')
con(X + 'lock()', [P('this', MX)], pre=lambda c: [c.o.this > 0, z3.Not(Sel(XH(c), c.o.this))], attrs=dict(heap=lambda c: {('Mx', 'held_criticalSection'): Sto(XH(c), c.o.this, z3.BoolVal(True))}))
con(X + 'unlock()', [P('this', MX)], pre=lambda c: [c.o.this > 0, Sel(XH(c), c.o.this)], attrs=dict(heap=lambda c: {('Mx', 'held_criticalSection'): Sto(XH(c), c.o.this, z3.BoolVal(False))}))
con(X + 'sleep()', [P('this', MX)], pre=lambda c: [c.o.this > 0, z3.Not(Sel(XH(c), c.o.this))])
con(X + 'wakeUp()', [P('this', MX)], pre=lambda c: [c.o.this > 0])
# ---------------------------------------------------------------- reference counts
O = 'jm::Object::'
pool = lambda c: Sel(h(c, 'mPool'), c.o.this)
owned = lambda c, x: [x > 0, Sel(h(c, 'alive'), x), Sel(h(c, 'mine'), x) >= 1, Sel(h(c, 'mPool'), x) > 0]
unlocked = lambda c, p: [z3.Not(Sel(h(c, 'held_mMutex', 'AP'), p))]
mines = lambda c: [c.all(lambda q: z3.Implies(q > 0, Sel(h(c, 'mine'), q) >= 0), lambda q: [Sel(h(c, 'mine'), q)])]


def give(d):
    """at the end of the critical section this thread owns d more references"""
    def f(eng, st):
        m, x = H(eng, st, 'Obj', 'mine'), eng.contract.cur.o.this
        setH(eng, st, 'Obj', 'mine', Sto(m, x, Sel(m, x) + d))
    return f


def step(d):
    def f(c):
        out = [('references of the thread', z3.BoolVal(True))]
        if not c.applying:
            G = c.st.ghost
            out.append(('one critical section', z3.BoolVal(G.get('ncs') == 1)))
            if G.get('ncs') == 1: out.append(('the count changes by %d in one critical section' % d, all1(lambda q: z3.Implies(z3.And(q > 0), Sel(G[('ce', 0)], q) == Sel(Sto(G[('cs', 0)], c.o.this, Sel(G[('cs', 0)], c.o.this) + d), q)), lambda q: [Sel(G[('ce', 0)], q)])))
        return out
    return f


def rel_post(c):
    out = step(-1)(c)
    G = c.st.ghost
    if not c.applying and G.get('ncs') == 1:
        out.append(('destroyed by this thread exactly when its release was the last', Sel(g(c, 'freed'), c.o.this) == z3.Or(Sel(h(c, 'freed'), c.o.this), low(Sel(G[('ce', 0)], c.o.this)) == 0)))
    out.append(('nothing else destroyed', c.all(lambda q: z3.Implies(z3.And(q > 0, q != c.o.this), Sel(g(c, 'freed'), q) == Sel(h(c, 'freed'), q)), lambda q: [Sel(g(c, 'freed'), q)])))
    out.append(('owned objects stay alive', c.all(lambda q: z3.Implies(z3.And(q > 0, Sel(h(c, 'alive'), q), Sel(g(c, 'mine'), q) > 0), Sel(g(c, 'alive'), q)), lambda q: [Sel(g(c, 'alive'), q)])))
    out.append(('pools', c.all(lambda q: z3.Implies(z3.And(q > 0, Sel(g(c, 'alive'), q)), Sel(g(c, 'mPool'), q) == Sel(h(c, 'mPool'), q)), lambda q: [Sel(g(c, 'mPool'), q)])))
    return out


OTHERS = {('Obj', 'alive'): None, ('Obj', 'mRefCount'): None, ('Obj', 'theirs'): None}
con(O + 'retain()', T, pre=lambda c: owned(c, c.o.this) + unlocked(c, pool(c)), ret=OB, attrs=dict(critical=give(1), heap=lambda c: {('Obj', 'mine'): Sto(h(c, 'mine'), c.o.this, Sel(h(c, 'mine'), c.o.this) + 1), **OTHERS}),
    post=lambda c: [('returns the object', c.ret == c.o.this)] + step(1)(c))
con(O + 'release()', T, pre=lambda c: owned(c, c.o.this) + unlocked(c, pool(c)), attrs=dict(critical=give(-1), heap=lambda c: {('Obj', 'mine'): Sto(h(c, 'mine'), c.o.this, Sel(h(c, 'mine'), c.o.this) - 1), ('Obj', 'freed'): None, ('Obj', 'mPool'): None, **OTHERS}), post=rel_post)


def high_post(c):
    G = c.st.ghost
    if c.applying: return []
    if G.get('ncs') != 1: return [('one critical section', z3.BoolVal(False))]
    a, b, x = G[('cs', 0)], G[('ce', 0)], c.o.this
    st = c.o.s if z3.is_bool(c.o.s) else c.o.s != 0
    return [('the references stay', low(Sel(b, x)) == low(Sel(a, x))), ('the bit', (Sel(b, x) < 0) == st), ('other objects', all1(lambda q: z3.Implies(z3.And(q > 0, q != x), Sel(b, q) == Sel(a, q)), lambda q: [Sel(b, q)]))]


con(O + 'setHighBit(bool)', T + [P('s', I1)], pre=lambda c: owned(c, c.o.this) + unlocked(c, pool(c)), attrs=dict(heap=lambda c: OTHERS), post=high_post)
# ---------------------------------------------------------------- the pool
A = 'jm::AutoreleasePool::'
TPAR = [P('this', AP)]
free_ = lambda c: [c.o.this > 0, c.o.this == TP, z3.Not(Sel(h(c, 'held_mPoolMutex', 'AP'), TP))]
POOLM = {('PE', 'alive'): None, ('PE', 'object'): None, ('PE', 'next'): None, ('PE', 'at'): None, ('PE', 'pos'): None, ('AP', 'mTop'): None, ('AP', 'n'): None}


def register(who):
    def f(eng, st):
        """ghost: the entry just appended gets the next position; a reference of the thread passes to the pool"""
        p, x = TP, who(eng.contract.cur)
        n, e = Sel(H(eng, st, 'AP', 'n'), p), Sel(H(eng, st, 'AP', 'mTop'), p)
        setH(eng, st, 'PE', 'at', Sto(H(eng, st, 'PE', 'at'), n, e))
        setH(eng, st, 'PE', 'pos', Sto(H(eng, st, 'PE', 'pos'), e, n))
        setH(eng, st, 'AP', 'n', Sto(H(eng, st, 'AP', 'n'), p, n + 1))
        setH(eng, st, 'Obj', 'mine', Sto(H(eng, st, 'Obj', 'mine'), x, Sel(H(eng, st, 'Obj', 'mine'), x) - 1))
        setH(eng, st, 'Obj', 'theirs', Sto(H(eng, st, 'Obj', 'theirs'), x, Sel(H(eng, st, 'Obj', 'theirs'), x) + 1))
    return f


def add_heap(who):
    return lambda c: {('Obj', 'mine'): Sto(h(c, 'mine'), who(c), Sel(h(c, 'mine'), who(c)) - 1), ('Obj', 'theirs'): Sto(h(c, 'theirs'), who(c), Sel(h(c, 'theirs'), who(c)) + 1), **POOLM}


def add_post(who):
    def f(c):
        G = c.st.ghost
        if c.applying: return []
        if G.get('npool') != 1 or 'poolend' not in G: return [('one critical section', z3.BoolVal(False))]
        a, b = Pool(G['pool'], TP), Pool(G['poolend'], TP)
        return [('registered last', z3.And(b.n == a.n + 1, b.item(a.n) == who(c))), ('earlier registrations', all1(lambda k: z3.Implies(z3.And(k >= 0, k < a.n), b.item(k) == a.item(k)), lambda k: [b.at(k)]))]
    return f


me, ob = lambda c: c.o.this, lambda c: c.o.object
con(A + 'add(jm::Object*)', TPAR + [P('object', OB)], pre=lambda c: free_(c) + owned(c, c.o.object), attrs=dict(critical=register(ob), heap=add_heap(ob)), post=add_post(ob))
con(O + 'autorelease()', T, pre=lambda c: owned(c, c.o.this) + [pool(c) == TP, z3.Not(Sel(h(c, 'held_mPoolMutex', 'AP'), TP))], ret=OB, attrs=dict(critical=register(me), heap=add_heap(me)), post=lambda c: [('returns the object', c.ret == c.o.this)])


def N(c): return c.ghost('registrations', lambda: z3.Function(fresh_name('registrations'), INT, z3.ArraySort(INT, INT)))


def taken(eng, st, o):
    """the references of the pool become references of the thread that drains it"""
    c = eng.contract.cur
    n_ = N(c)
    m0 = H(eng, st, 'Obj', 'mine')
    st.ghost['mine0'] = m0
    m = fresh(eng, st, 'Obj', 'mine')
    st.assume([Sel(n_(Z), Z) == 0, all1(lambda q: Sel(n_(Z), q) == 0, lambda q: [Sel(n_(Z), q)]),
               all1(lambda k: z3.Implies(z3.And(k >= 0, k < o.n), n_(k + 1) == Sto(n_(k), o.item(k), Sel(n_(k), o.item(k)) + 1)), lambda k: [o.at(k)]),
               all1(lambda q: z3.Implies(q > 0, Sel(m, q) == Sel(m0, q) + Sel(n_(o.n), q)), lambda q: [Sel(m, q)])])
    # monotone (LEMMAS)
    k, j = z3.Const(fresh_name('k'), INT), z3.Const(fresh_name('j'), INT)
    st.assume(Nested(k, [n_(k)], ForAll(j, z3.Implies(z3.And(k >= 0, k <= j, j < o.n), Sel(n_(o.n), o.item(j)) > Sel(n_(k), o.item(j))), [o.at(j)])))


def drain_loop(V):
    c = V.c
    G = V.eng_state.ghost if hasattr(V, 'eng_state') else V.h.ghost
    hh = lambda cl, m: V.h.heap[key(V.eng, cl, m)]
    o, n_ = Pool(G['pool'], TP), N(c)
    m0, al0 = G['mine0'], None
    out = []
    for x, i, l in V.scal():
        if l[0] == 'heap': continue
        k = z3.If(x == 0, o.n, o.pos(x))
        out.append(z3.Or(x == 0, o.inl(x)))
        out.append(c.all(lambda q: z3.Implies(q > 0, Sel(hh('Obj', 'mine'), q) == Sel(m0, q) + Sel(n_(o.n), q) - Sel(n_(k), q)), lambda q: [Sel(hh('Obj', 'mine'), q)]))
        out.append(c.all(lambda q: z3.Implies(q > 0, Sel(hh('PE', 'alive'), q) == z3.And(Sel(G['pool']('PE', 'alive'), q), z3.Not(z3.And(o.inl(q), o.pos(q) < k)))), lambda q: [Sel(hh('PE', 'alive'), q)]))
        out.append(c.all(lambda j: z3.Implies(z3.And(j >= k, j >= 0, j < o.n), z3.And(Sel(hh('Obj', 'alive'), o.item(j)), Sel(hh('Obj', 'mPool'), o.item(j)) == Sel(G['pool']('Obj', 'mPool'), o.item(j)))), lambda j: [o.at(j)]))
        out.append(c.all(lambda q: z3.Implies(z3.And(q > 0, Sel(hh('Obj', 'mine'), q) > 0, Sel(G['pool']('Obj', 'alive'), q)), Sel(hh('Obj', 'alive'), q)), lambda q: [Sel(hh('Obj', 'alive'), q)]))
    return out


def drained(eng, st):
    """ghost: the list is empty again"""
    setH(eng, st, 'AP', 'n', Sto(H(eng, st, 'AP', 'n'), TP, Z))


con(A + 'drain()', TPAR, pre=lambda c: free_(c) + mines(c) + [z3.Not(Sel(h(c, 'held_mMutex', 'AP'), TP)), c.all(lambda q: z3.Implies(q > 0, z3.Not(Sel(h(c, 'held_mMutex', 'AP'), q))), lambda q: [Sel(h(c, 'held_mMutex', 'AP'), q)])], loops=drain_loop,
    attrs=dict(critical=drained, taken=taken, heap=lambda c: {('Obj', 'mine'): None, ('Obj', 'freed'): None, ('Obj', 'mPool'): None, **OTHERS, **POOLM}),
    post=lambda c: [('every registration released once', c.all(lambda q: z3.Implies(q > 0, Sel(g(c, 'mine'), q) == Sel(h(c, 'mine'), q)), lambda q: [Sel(g(c, 'mine'), q)])), ('one critical section', z3.BoolVal(c.applying or c.st.ghost.get('npool') == 1))])

# ---------------------------------------------------------------- threads
D = 'jm::Thread::'
THP = [P('this', TH)]
tf = lambda c: [c.o.this > 0, z3.Not(Sel(h(c, 'held_criticalSection', 'Th'), c.o.this))]
intr, intr1 = lambda c: h(c, 'interrupted', 'Th'), lambda c: g(c, 'interrupted', 'Th')
TM = {('Th', 'alive'): None, ('Th', 'interrupted'): None}
SH = lambda c: h(c, 'held_criticalSection', 'Th')
con(D + 'lock()', THP, pre=tf, attrs=dict(heap=lambda c: {('Th', 'held_criticalSection'): Sto(SH(c), c.o.this, z3.BoolVal(True)), **TM}))
con(D + 'unlock()', THP, pre=lambda c: [c.o.this > 0, Sel(SH(c), c.o.this), Sel(intr(c), c.o.this) == (Sel(h(c, 'alive', 'Th'), c.o.this) == 0)], attrs=dict(heap=lambda c: {('Th', 'held_criticalSection'): Sto(SH(c), c.o.this, z3.BoolVal(False)), **TM}))
stays = lambda c: ('an interruption stays', z3.Implies(Sel(intr(c), c.o.this), Sel(intr1(c), c.o.this)))
con(D + 'sleep()', THP, pre=tf, attrs=dict(heap=lambda c: TM), post=lambda c: [stays(c)])
con(D + 'isAlive()', THP, pre=tf, ret=IntK(1), attrs=dict(heap=lambda c: TM), post=lambda c: [stays(c), ('an interrupted thread sees it', z3.Implies(Sel(intr(c), c.o.this), z3.Not(c.ret))), ('no thread sees it that is not interrupted', z3.Implies(z3.Not(Sel(intr1(c), c.o.this)), c.ret))])


def interrupted(v):
    def f(eng, st):
        setH(eng, st, 'Th', 'interrupted', Sto(H(eng, st, 'Th', 'interrupted'), eng.contract.cur.o.this, z3.BoolVal(v)))
    return f


con(D + 'interrupt()', THP, pre=tf, attrs=dict(critical=interrupted(True), heap=lambda c: TM), post=lambda c: [('interrupted', Sel(intr1(c), c.o.this)), ('waits for the thread', z3.BoolVal(c.applying) if c.applying else z3.BoolVal('joined' in c.st.ghost) if 'joined' not in c.st.ghost else c.st.ghost['joined'] == Sel(h(c, 'thread', 'Th'), c.o.this))])


def created(eng, st, args):
    """pthread_create in Thread::start"""
    c = eng.contract.cur
    t = c.o.this
    p, fn, a = eng.resolve_ptr(st, args[0][1]), args[2][1], eng.resolve_ptr(st, args[3][1])
    ok = isinstance(p, Ref) and p.cls == 'Th' and p.o == eng.offsets['Th']['thread'] and isinstance(a, Ref) and a.cls == 'Th' and a.o == 0 and isinstance(fn, GlobP) and fn.name == 'StartThread'
    eng.oblige(st, 'the thread function is started with the thread', z3.And(p.t == t, a.t == t) if ok else z3.BoolVal(False), 'safety')
    eng.oblige(st, 'the life flag is set before the thread starts', z3.BoolVal(st.ghost.get('set') == 1), 'safety')
    eng.oblige(st, 'the new thread can take the mutex', z3.Not(Sel(H(eng, st, 'Th', 'held_criticalSection'), t)), 'safety')
    r = z3.Const(fresh_name('created'), INT)
    st.assume([r >= 0, r < (1 << 31), z3.Const('createfails', BOOL) == (r != 0)])
    setH(eng, st, 'Th', 'thread', Sto(H(eng, st, 'Th', 'thread'), t, z3.Const(fresh_name('thread'), INT)))
    setH(eng, st, 'Th', 'started', Sto(H(eng, st, 'Th', 'started'), t, r == 0))
    return r


def startcs(eng, st):
    n = st.ghost.get('set', 0)
    interrupted(n > 0)(eng, st)      # the first critical section brings the thread to life, a further one takes it back when it could not be started
    st.ghost['set'] = n + 1


con(D + 'start()', THP, pre=lambda c: tf(c) + [Sel(intr(c), c.o.this)], throws=lambda c: z3.Const('createfails', BOOL), throw_mod=True, attrs=dict(critical=startcs, create_hook=created, heap=lambda c: {('Th', 'thread'): None, ('Th', 'started'): Sto(h(c, 'started', 'Th'), c.o.this, z3.BoolVal(True)), **TM}),
    post=lambda c: [('brought to life once', z3.BoolVal(c.applying or c.st.ghost.get('set') == 1))])
con('StartThread', [P('arg', TH)], pre=lambda c: [c.o.arg > 0, z3.Not(Sel(SH(c), c.o.arg))], attrs=dict(heap=lambda c: {('Th', 'ran'): Sto(h(c, 'ran', 'Th'), c.o.arg, Sel(h(c, 'ran', 'Th'), c.o.arg) + 1), **TM}),
    post=lambda c: [('an interruption stays', z3.Implies(Sel(intr(c), c.o.arg), Sel(intr1(c), c.o.arg)))])


def count_lemmas():
    A_ = z3.ArraySort(INT, INT)
    nj, nj1, nk, x, q = z3.Const('nj', A_), z3.Const('nj1', A_), z3.Const('nk', A_), z3.Int('x'), z3.Int('q')
    step_ = [nj1 == Sto(nj, x, Sel(nj, x) + 1), Sel(nj, q) >= Sel(nk, q)]
    return [('the number of registrations grows (induction step)', step_, Sel(nj1, q) >= Sel(nk, q)), ('a registration counts', step_ + [q == x], Sel(nj1, q) > Sel(nk, q))]


LEMMAS = count_lemmas()
