"""Reference counting and the autorelease pool (C18)."""
import z3
from contract import *
from nodes import NodeCls, RefK
from smt import ForAll, fresh_name

SOURCES = ['src/core/Object.cpp', 'src/core/Mutex.cpp', 'src/core/AutoreleasePool.cpp']
CLASSES = {'Obj': ('jm::Object', ['mRefCount', 'mPool']), 'AP': ('jm::AutoreleasePool', ['mPool', 'mTop', 'mMutex', 'mPoolMutex', 'Object::mPool', 'Object::mRefCount']), 'PE': ('jm::AutoreleasePool::PoolEntry', ['object', 'next'])}
INT = z3.IntSort()
HOOKS = {'nodes': [NodeCls('Obj', ptrs={'mPool': 'AP'}, ints={'mRefCount': 32}, vtab='_ZTVN2jm6ObjectE'),
                   NodeCls('AP', ptrs={'mPool': 'PE', 'mTop': 'PE', 'Object::mPool': 'AP'}, ints={'Object::mRefCount': 32}, vtab='_ZTVN2jm15AutoreleasePoolE', ghosts={'n': INT}, foreign=True),
                   NodeCls('PE', ptrs={'object': 'Obj', 'next': 'PE'}, ghosts={'at': INT, 'pos': INT})]}
Sel, Sto, Z = z3.Select, z3.Store, z3.IntVal(0)
C = []
OB, AP = RefK('Obj'), RefK('AP')
T = [P('this', OB)]


def con(sig, params, **k):
    x = Contract(sig, params, prop=['C18'], **k)
    C.append(x)
    return x


def h(c, m, cl='Obj'): return c.ho(cl, m)


alive = lambda c, x: [x > 0, Sel(h(c, 'alive'), x)]
rc = lambda c, x: Sel(h(c, 'mRefCount'), x)
ranged = lambda c, x: alive(c, x) + [rc(c, x) >= -(1 << 31), rc(c, x) < (1 << 31)]
usable = lambda c, x: alive(c, x) + [Sel(h(c, 'mPool'), x) > 0]
O = 'jm::Object::'
con(O + 'Object()', T, pre=lambda c: alive(c, c.o.this), attrs=dict(heap=lambda c: {('Obj', 'mRefCount'): Sto(h(c, 'mRefCount'), c.o.this, z3.IntVal(1)), ('Obj', 'mPool'): Sto(h(c, 'mPool'), c.o.this, z3.Const('threadpool', INT))}))
con(O + 'Object(jm::Object const&)', T + [P('o', OB)], pre=lambda c: alive(c, c.o.this) + alive(c, c.o.o), attrs=dict(heap=lambda c: {('Obj', 'mRefCount'): Sto(h(c, 'mRefCount'), c.o.this, z3.IntVal(1)), ('Obj', 'mPool'): Sto(h(c, 'mPool'), c.o.this, z3.Const('threadpool', INT))}))
con(O + 'operator=(jm::Object const&)', T + [P('o', OB)], pre=lambda c: alive(c, c.o.this) + alive(c, c.o.o), ret=OB, post=lambda c: [('returns the object', c.ret == c.o.this)])
con(O + '~Object()', T, pre=lambda c: alive(c, c.o.this), attrs=dict(heap=lambda c: {('Obj', 'mPool'): Sto(h(c, 'mPool'), c.o.this, Z)}))
con(O + 'retain()', T, pre=lambda c: usable(c, c.o.this) + [rc(c, c.o.this) > 0, rc(c, c.o.this) < (1 << 31) - 1], ret=OB, attrs=dict(heap=lambda c: {('Obj', 'mRefCount'): Sto(h(c, 'mRefCount'), c.o.this, rc(c, c.o.this) + 1)}), post=lambda c: [('returns the object', c.ret == c.o.this)])
con(O + 'release()', T, pre=lambda c: usable(c, c.o.this) + [rc(c, c.o.this) > 0],
    attrs=dict(heap=lambda c: {('Obj', 'mRefCount'): Sto(h(c, 'mRefCount'), c.o.this, rc(c, c.o.this) - 1), ('Obj', 'alive'): Sto(h(c, 'alive'), c.o.this, rc(c, c.o.this) != 1)}))
con(O + 'referenceCount() const', T, pre=lambda c: ranged(c, c.o.this), retfn=lambda c: z3.If(rc(c, c.o.this) < 0, rc(c, c.o.this) + (1 << 31), rc(c, c.o.this)))
con(O + 'highBit() const', T, pre=lambda c: ranged(c, c.o.this), retfn=lambda c: rc(c, c.o.this) < 0)
con(O + 'setHighBit(bool)', T + [P('s', I1)], pre=lambda c: ranged(c, c.o.this) + [Sel(h(c, 'mPool'), c.o.this) >= 0], attrs=dict(heap=lambda c: {('Obj', 'mRefCount'): Sto(h(c, 'mRefCount'), c.o.this, sethigh(c))}))


def sethigh(c):
    r = rc(c, c.o.this)
    low = z3.If(r < 0, r + (1 << 31), r)
    return z3.If(c.o.s if z3.is_bool(c.o.s) else c.o.s != 0, low - (1 << 31), low)


# ---------------------------------------------------------------- the pool: a dummy entry followed by the entries 0 .. n-1
class Pool:
    def __init__(self, h, p):
        self.h, self.p = h, p
        self.n, self.first, self.top = Sel(h('AP', 'n'), p), Sel(h('AP', 'mPool'), p), Sel(h('AP', 'mTop'), p)
        self.at = lambda k: Sel(h('PE', 'at'), k)
        self.pos = lambda x: Sel(h('PE', 'pos'), x)
        self.item = lambda k: Sel(h('PE', 'object'), self.at(k))
        self.inl = lambda x: z3.And(x > 0, self.pos(x) >= 0, self.pos(x) < self.n, self.at(self.pos(x)) == x)

    def wf(self, c):
        nx, al, n = self.h('PE', 'next'), self.h('PE', 'alive'), self.n

        def body(k):
            x = self.at(k)
            return z3.Implies(z3.And(k >= 0, k < n), z3.And(x > 0, Sel(al, x), self.pos(x) == k, x != self.first, Sel(nx, x) == z3.If(k == n - 1, Z, self.at(k + 1)), self.item(k) > 0))
        return [n >= 0, self.first > 0, Sel(al, self.first), self.top == z3.If(n == 0, self.first, self.at(n - 1)), Sel(nx, self.first) == z3.If(n == 0, Z, self.at(0)), z3.Not(self.inl(self.first)),
                c.all(body, lambda k: [self.at(k)])]


old = lambda c, p: Pool(c.ho, p)
new = lambda c, p: Pool(c.hn, p)
named = lambda nm, fs: [('%s (%d)' % (nm, i), f) for i, f in enumerate(fs)]


def entry(c, p):
    """the new entry: the last one of the pool"""
    if c.applying: return c.ghost(('entry', c.ho('PE', 'alive'), p), lambda: z3.Const(fresh_name('entry'), INT))
    return Sel(c.hn('AP', 'mTop'), p)


def add_heap(c, p, x):
    o, e = old(c, p), entry(c, p)
    return {('PE', 'alive'): Sto(c.ho('PE', 'alive'), e, z3.BoolVal(True)), ('PE', 'object'): Sto(c.ho('PE', 'object'), e, x), ('PE', 'next'): Sto(Sto(c.ho('PE', 'next'), o.top, e), e, Z),
            ('AP', 'mTop'): Sto(c.ho('AP', 'mTop'), p, e), ('AP', 'n'): Sto(c.ho('AP', 'n'), p, o.n + 1), ('PE', 'at'): Sto(c.ho('PE', 'at'), o.n, e), ('PE', 'pos'): Sto(c.ho('PE', 'pos'), e, o.n)}


def add_post(c, p, x):
    o, t, e = old(c, p), new(c, p), entry(c, p)
    return [('a new entry', z3.And(e > 0, z3.Not(Sel(c.ho('PE', 'alive'), e))))] + named('pool', t.wf(c)) + [
        ('registered last', z3.And(t.n == o.n + 1, t.item(o.n) == x)), ('earlier registrations', c.all(lambda k: z3.Implies(z3.And(k >= 0, k < o.n), t.item(k) == o.item(k)), lambda k: [t.at(k)]))]


A = 'jm::AutoreleasePool::'
TP = [P('this', AP)]
con(A + 'add(jm::Object*)', TP + [P('object', OB)], pre=lambda c: [c.o.this > 0, c.o.object > 0] + old(c, c.o.this).wf(c), attrs=dict(heap=lambda c: add_heap(c, c.o.this, c.o.object)), post=lambda c: add_post(c, c.o.this, c.o.object))
mine = lambda c: Sel(h(c, 'mPool'), c.o.this)
con(O + 'autorelease()', T, pre=lambda c: usable(c, c.o.this) + old(c, mine(c)).wf(c), ret=OB, attrs=dict(heap=lambda c: add_heap(c, mine(c), c.o.this)), post=lambda c: [('returns the object', c.ret == c.o.this)] + add_post(c, mine(c), c.o.this))


# number of registrations of every object among the first k entries
def counts(c):
    o = old(c, c.o.this)
    return c.ghost(('counts', o.h('PE', 'at'), o.h('PE', 'object')), lambda: z3.Function(fresh_name('registrations'), INT, z3.ArraySort(INT, INT)))


def counts_ax(c):
    o, N = old(c, c.o.this), counts(c)
    return [N(Z) == z3.K(INT, Z), c.all(lambda k: z3.Implies(z3.And(k >= 0, k < o.n), z3.And(N(k + 1) == Sto(N(k), o.item(k), Sel(N(k), o.item(k)) + 1), Sel(N(k), o.item(k)) >= 0)), lambda k: [o.at(k)])]


def drained(c, k, r, al):
    """the first k registrations have been released"""
    N, r0, al0 = counts(c), c.ho('Obj', 'mRefCount'), c.ho('Obj', 'alive')
    return [c.all(lambda q: z3.Implies(q > 0, Sel(r, q) == Sel(r0, q) - Sel(N(k), q)), lambda q: [Sel(r, q)]),
            c.all(lambda q: z3.Implies(q > 0, Sel(al, q) == z3.And(Sel(al0, q), z3.Not(z3.And(Sel(N(k), q) > 0, Sel(r0, q) == Sel(N(k), q))))), lambda q: [Sel(al, q)])]


def drain_pre(c):
    o, N = old(c, c.o.this), counts(c)
    return [c.o.this > 0] + o.wf(c) + counts_ax(c) + [('every registration owns a reference', c.all(lambda k: z3.Implies(z3.And(k >= 0, k < o.n), z3.And(Sel(N(k), o.item(k)) < Sel(c.ho('Obj', 'mRefCount'), o.item(k)), Sel(c.ho('Obj', 'alive'), o.item(k)), Sel(c.ho('Obj', 'mPool'), o.item(k)) > 0)), lambda k: [o.at(k)]))]


def drain_loop(V):
    c = V.c
    o = old(c, c.o.this)
    hh = lambda cl, m: V.h.heap[__import__('nodes').key(V.eng, cl, m)]
    out = []
    for x, i, l in V.scal():
        if l[0] == 'heap': continue
        k = z3.If(x == 0, o.n, o.pos(x))
        out.append(z3.Or(x == 0, o.inl(x)))
        out += drained(c, k, hh('Obj', 'mRefCount'), hh('Obj', 'alive'))
        out.append(c.all(lambda q: z3.Implies(q > 0, Sel(hh('PE', 'alive'), q) == z3.And(Sel(c.ho('PE', 'alive'), q), z3.Not(z3.And(o.inl(q), o.pos(q) < k)))), lambda q: [Sel(hh('PE', 'alive'), q)]))
        out.append(c.all(lambda q: z3.Implies(Sel(hh('Obj', 'alive'), q), Sel(hh('Obj', 'mPool'), q) == Sel(c.ho('Obj', 'mPool'), q)), lambda q: [Sel(hh('Obj', 'mPool'), q)]))
    return out


def drain_heap(c):
    p = c.o.this
    o = old(c, p)
    return {('PE', 'alive'): None, ('PE', 'next'): Sto(c.ho('PE', 'next'), o.first, Z), ('AP', 'mTop'): Sto(c.ho('AP', 'mTop'), p, o.first), ('AP', 'n'): Sto(c.ho('AP', 'n'), p, Z), ('Obj', 'mRefCount'): None, ('Obj', 'alive'): None}


def drain_post(c, keepfirst=True):
    o = old(c, c.o.this)
    r, al, pe = c.hn('Obj', 'mRefCount'), c.hn('Obj', 'alive'), c.hn('PE', 'alive')
    f = drained(c, o.n, z3.Lambda if False else r, al)
    gone = (lambda q: o.inl(q)) if keepfirst else (lambda q: z3.Or(o.inl(q), q == o.first))
    return [('references: one less per registration', c.all(lambda q: z3.Implies(z3.And(q > 0, Sel(al, q)), Sel(r, q) == Sel(c.ho('Obj', 'mRefCount'), q) - Sel(counts(c)(o.n), q)), lambda q: [Sel(r, q)])), ('destroyed exactly at the last reference', f[1]),
            ('entries', c.all(lambda q: z3.Implies(q > 0, Sel(pe, q) == z3.And(Sel(c.ho('PE', 'alive'), q), z3.Not(gone(q)))), lambda q: [Sel(pe, q)]))]


con(A + 'drain()', TP, pre=drain_pre, loops=drain_loop, attrs=dict(heap=drain_heap), post=lambda c: drain_post(c) + named('pool', new(c, c.o.this).wf(c)))


def ctor_heap(c):
    p, e = c.o.this, (c.ghost(('dummy', c.o.this), lambda: z3.Const(fresh_name('dummy'), INT)) if c.applying else Sel(c.hn('AP', 'mPool'), c.o.this))
    return {('AP', 'mPool'): Sto(h(c, 'mPool', 'AP'), p, e), ('AP', 'mTop'): Sto(h(c, 'mTop', 'AP'), p, e), ('AP', 'n'): Sto(h(c, 'n', 'AP'), p, Z), ('AP', 'Object::mPool'): Sto(h(c, 'Object::mPool', 'AP'), p, z3.Const('threadpool', INT)), ('AP', 'Object::mRefCount'): Sto(h(c, 'Object::mRefCount', 'AP'), p, z3.IntVal(1)),
            ('PE', 'alive'): Sto(h(c, 'alive', 'PE'), e, z3.BoolVal(True)), ('PE', 'next'): Sto(h(c, 'next', 'PE'), e, Z), ('PE', 'object'): Sto(h(c, 'object', 'PE'), e, Z), ('PE', 'pos'): Sto(h(c, 'pos', 'PE'), e, z3.IntVal(-1))}


con(A + 'AutoreleasePool()', TP, pre=lambda c: [c.o.this > 0], attrs=dict(heap=ctor_heap), post=lambda c: named('empty pool', new(c, c.o.this).wf(c) + [new(c, c.o.this).n == 0, z3.Not(Sel(h(c, 'alive', 'PE'), new(c, c.o.this).first))]))


def dtor_heap(c):
    p = c.o.this
    o = old(c, p)
    return {('PE', 'alive'): None, ('PE', 'next'): None, ('AP', 'mTop'): None, ('AP', 'n'): None, ('AP', 'Object::mPool'): None, ('Obj', 'mRefCount'): None, ('Obj', 'alive'): None}


con(A + '~AutoreleasePool()', TP, pre=drain_pre, attrs=dict(heap=dtor_heap), post=lambda c: drain_post(c, False))
con(A + 'mutex()', TP, pre=lambda c: [c.o.this > 0], ret=RefK('AP', 'mMutex'), post=lambda c: [('the mutex of the pool', c.ret == c.o.this)])
