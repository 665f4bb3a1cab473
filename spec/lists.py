"""Linked list (C14)."""
import z3
from contract import *
from nodes import NodeCls, NodeContK, RefK
from smt import ForAll, fresh_name

SOURCES = ['src/core/LinkedList.cpp', 'src/core/Object.cpp', 'src/core/Mutex.cpp', 'src/core/AutoreleasePool.cpp']
CLASSES = {'LE': ('jm::LListElement', ['next', 'prev', 'data', 'mRefCount', 'mPool']), 'LL': ('jm::LinkedList', ['listStart', 'listEnd', 'current', 'count', 'mOwner', 'mRefCount', 'mPool']),
           'LI': ('jm::LinkedListIterator', ['listStart', 'listEnd', 'current', 'count']), 'Pool': ('jm::AutoreleasePool', ['mMutex']), 'Obj': ('jm::Object', ['mRefCount']), 'UM': ('jm::UndoManager', ['mActive'])}
C = []
INT = z3.IntSort()
HOOKS = {'nodes': [NodeCls('LE', ptrs={'next': 'LE', 'prev': 'LE', 'data': 'Obj', 'mPool': 'Pool'}, ints={'mRefCount': 32}, ghosts={'at': INT, 'pos': INT}, vtab='_ZTVN2jm12LListElementE'),
                   NodeCls('Pool', foreign=True), NodeCls('Obj', foreign=True), NodeCls('UM', foreign=True)]}
Sel, Sto = z3.Select, z3.Store
N = 'LE'


def con(sig, params, **k):
    x = Contract(sig, params, prop=['C14'], **k)
    C.append(x)
    return x


class SeqK(NodeContK):
    """something that walks the elements at(0) .. at(n-1)"""
    scal = (('count', 32),)
    pool = N
    hdr = False

    def view_extra(self, eng, st, p, v):
        NodeContK.view_extra(self, eng, st, p, v)
        v.n = v.count
        v.at = lambda k: Sel(v.h('at'), k)
        v.pos = lambda x: Sel(v.h('pos'), x)
        v.item = lambda k: Sel(v.h('data'), v.at(k))
        v.inl = lambda x: z3.And(x > 0, v.pos(x) >= 0, v.pos(x) < v.n, v.at(v.pos(x)) == x)
        v.idx = z3.If(v.current == 0, v.n, v.pos(v.current))

    cursor, live = True, True

    def wf(self, eng, v):
        at, pos, prev, nxt, al, rc = (v.h(m) for m in ('at', 'pos', 'prev', 'next', 'alive', 'mRefCount'))
        n = v.n
        k = z3.Const(fresh_name('k'), INT)
        x = Sel(at, k)
        Z = z3.IntVal(0)
        liv = z3.And(Sel(al, x), Sel(rc, x) > 0, Sel(v.h('mPool'), x) > 0)
        out = [n >= 0, v.listStart == z3.If(n == 0, Z, Sel(at, 0)), v.listEnd == z3.If(n == 0, Z, Sel(at, n - 1)),
               ForAll(k, z3.Implies(z3.And(k >= 0, k < n), z3.And(x > 0, Sel(pos, x) == k, z3.Implies(z3.BoolVal(True) if self.live else k >= v.idx, liv),
                                                                  z3.Implies(z3.BoolVal(True) if self.live else k >= v.idx, z3.And(Sel(prev, x) == z3.If(k == 0, Z, Sel(at, k - 1)), Sel(nxt, x) == z3.If(k == n - 1, Z, Sel(at, k + 1)))))), [x])]
        if self.cursor: out.append(z3.Or(v.current == 0, v.inl(v.current)))
        return out


class ListK(SeqK):
    cls = 'LL'
    refs = (('listStart', N), ('listEnd', N), ('current', N), ('mOwner', 'Obj'))


class WalkK(ListK):
    """list whose elements in front of the cursor may be gone already"""
    live = False


class OpenK(ListK):
    """list whose cursor may stand on an element that was taken out"""
    cursor = False


class IterK(SeqK):
    cls = 'LI'
    refs = (('listStart', N), ('listEnd', N), ('current', N))


LL, LI, LE, OB, UM = ListK(), IterK(), RefK(N), RefK('Obj'), RefK('UM')
LW, LO = WalkK(), OpenK()
T, TM, TO = [P('this', LL)], [P('this', LL, 'mut')], [P('this', LL, 'out')]
L = 'jm::LinkedList::'
I = 'jm::LinkedListIterator::'


def seq(c, n, f, t=None):
    t = t or c.n.this
    return [('number of elements', t.n == n), ('elements', c.all(lambda k: z3.Implies(z3.And(k >= 0, k < n), t.item(k) == f(k)), lambda k: [t.at(k)]))]


def same_place(c): return [('owner', c.n.this.mOwner == c.o.this.mOwner)]


def put(a, cond, i, x): return Sto(a, i, z3.If(cond, x, Sel(a, i)))


def shifted(c, o, p, x, found=True):
    """at and pos with x inserted at position p"""
    at, pos = z3.Const(fresh_name('at'), z3.ArraySort(INT, INT)), z3.Const(fresh_name('pos'), z3.ArraySort(INT, INT))
    a1 = c.all(lambda k: Sel(at, k) == z3.If(k < p, o.at(k), z3.If(k == p, x, o.at(k - 1))), lambda k: [Sel(at, k)])
    a2 = c.all(lambda q: Sel(pos, q) == z3.If(z3.And(found, q == x), p, z3.If(z3.And(found, o.pos(q) >= p), o.pos(q) + 1, o.pos(q))), lambda q: [Sel(pos, q)])
    return {(N, 'at'): (at, [a1]), (N, 'pos'): (pos, [a2])}


def without(c, o, p, x):
    at, pos = z3.Const(fresh_name('at'), z3.ArraySort(INT, INT)), z3.Const(fresh_name('pos'), z3.ArraySort(INT, INT))
    a1 = c.all(lambda k: Sel(at, k) == z3.If(k < p, o.at(k), o.at(k + 1)), lambda k: [Sel(at, k)])
    a2 = c.all(lambda q: Sel(pos, q) == z3.If(q == x, z3.IntVal(-1), z3.If(o.pos(q) > p, o.pos(q) - 1, o.pos(q))), lambda q: [Sel(pos, q)])
    return {(N, 'at'): (at, [a1]), (N, 'pos'): (pos, [a2])}


# ---------------------------------------------------------------- the element and its release
def h(c, m): return c.ho(N, m)


def rel_heap(c, x):
    rc = h(c, 'mRefCount')
    return {(N, 'mRefCount'): Sto(rc, x, Sel(rc, x) - 1), (N, 'alive'): put(h(c, 'alive'), Sel(rc, x) == 1, x, z3.BoolVal(False))}


con('jm::Object::release()', [P('this', LE)], pre=lambda c: [c.o.this > 0, Sel(h(c, 'alive'), c.o.this), Sel(h(c, 'mRefCount'), c.o.this) > 0, Sel(h(c, 'mPool'), c.o.this) > 0],
    attrs=dict(heap=lambda c: rel_heap(c, c.o.this)))
con('jm::LListElement::LListElement()', [P('this', LE)], pre=lambda c: [c.o.this > 0, Sel(h(c, 'alive'), c.o.this)],
    attrs=dict(heap=lambda c: dict([((N, m), Sto(h(c, m), c.o.this, z3.IntVal(v))) for m, v in (('next', 0), ('prev', 0), ('data', 0), ('mRefCount', 1))] + [((N, 'mPool'), None)])),
    post=lambda c: [('pool', c.all(lambda q: z3.If(q == c.o.this, Sel(c.hn(N, 'mPool'), q) > 0, Sel(c.hn(N, 'mPool'), q) == Sel(h(c, 'mPool'), q)), lambda q: [Sel(c.hn(N, 'mPool'), q)]))])

# ---------------------------------------------------------------- looking
con(L + 'LinkedList(jm::Object*)', TO + [P('owner', OB)], pre=lambda c: [c.o.owner > 0], post=lambda c: [('empty', c.n.this.n == 0)])
con(L + 'size() const', T, retfn=lambda c: c.o.this.n)
con(L + 'first() const', T, ret=OB, post=lambda c: [('first element', c.ret == z3.If(c.o.this.n == 0, z3.IntVal(0), c.o.this.item(z3.IntVal(0))))])
con(L + 'last() const', T, ret=OB, post=lambda c: [('last element', c.ret == z3.If(c.o.this.n == 0, z3.IntVal(0), c.o.this.item(c.o.this.n - 1)))])
keep = lambda c: seq(c, c.o.this.n, c.o.this.item) + same_place(c)
con(L + 'rewind()', TM, post=lambda c: keep(c) + [('at the start', c.n.this.idx == 0)])
con(L + 'hasNext()', [P('this', LW)], retfn=lambda c: c.o.this.idx < c.o.this.n)
con(L + 'next()', [P('this', LW, 'mut')], ret=OB, pre=lambda c: [c.o.this.current != 0], post=lambda c: keep(c) + [('the element', c.ret == c.o.this.item(c.o.this.idx)), ('one further', c.n.this.idx == c.o.this.idx + 1)])
con(L + 'nextElement()', [P('this', LW, 'mut')], ret=LE, pre=lambda c: [c.o.this.current != 0], post=lambda c: keep(c) + [('the element', c.ret == c.o.this.current), ('one further', c.n.this.idx == c.o.this.idx + 1)])

# ---------------------------------------------------------------- undo manager (assumed here)
def um_heap(c):
    rc, r2 = h(c, 'mRefCount'), z3.Const(fresh_name('rc'), z3.ArraySort(INT, INT))
    return {(N, 'mRefCount'): (r2, [c.all(lambda q: Sel(r2, q) >= Sel(rc, q), lambda q: [Sel(r2, q)])])}


for nm, mn, ps in (('registerChange(jm::Object*, jm::Object**)', '14registerChangeEPNS_6ObjectEPS2_', 2), ('registerChange(jm::Object*, unsigned int*)', '14registerChangeEPNS_6ObjectEPj', 2), ('registerRelease(jm::Object*)', '15registerReleaseEPNS_6ObjectE', 1)):
    con('jm::UndoManager::' + nm, [P('this', UM), P('object', AnyPtr())] + ([P('pointer', AnyPtr())] if ps == 2 else []), attrs=dict(heap=um_heap, symbol='_ZN2jm11UndoManager' + mn),
        assumed='recording a change takes references to elements and changes neither the list nor its links (no element is freed with the discarded redo steps)')


# ---------------------------------------------------------------- changing
def refs(c, fresh=None, found=None):
    """reference counts: as before (1 for a new element) without undo manager, at least that with one"""
    n, o = c.hn(N, 'mRefCount'), h(c, 'mRefCount')

    def body(q):
        b = Sel(o, q)
        if fresh is not None: b = z3.If(q == fresh if found is None else z3.And(found, q == fresh), z3.IntVal(1), b)
        return z3.Implies(q > 0, z3.If(c.o.um == 0, Sel(n, q) == b, Sel(n, q) >= b))
    return [('references', c.all(body, lambda q: [Sel(n, q)]))]


def add_heap(c, x, data=None, fresh=False):
    o = c.o.this
    nx, pv = o.h('next'), o.h('prev')
    if fresh: nx = Sto(nx, x, z3.IntVal(0))
    hp = {(N, 'next'): put(nx, o.listEnd != 0, o.listEnd, x), (N, 'prev'): Sto(pv, x, o.listEnd), (N, 'at'): Sto(o.h('at'), o.n, x), (N, 'pos'): Sto(o.h('pos'), x, o.n), (N, 'mRefCount'): None}
    if fresh: hp.update({(N, 'data'): Sto(o.h('data'), x, data), (N, 'alive'): Sto(o.h('alive'), x, z3.BoolVal(True)), (N, 'mPool'): None})
    return hp


def freepre(c, x):
    return [x > 0, Sel(h(c, 'alive'), x), z3.Not(c.o.this.inl(x)), Sel(h(c, 'next'), x) == 0, Sel(h(c, 'mRefCount'), x) > 0, Sel(h(c, 'mPool'), x) > 0, c.o.this.n < (1 << 31) - 1]


poolkeep = lambda c, x: [('pool', c.all(lambda q: z3.If(q == x, Sel(c.hn(N, 'mPool'), q) > 0, Sel(c.hn(N, 'mPool'), q) == Sel(h(c, 'mPool'), q)), lambda q: [Sel(c.hn(N, 'mPool'), q)]))]
fresh = lambda c, x: [('a new element', z3.And(x > 0, z3.Not(Sel(h(c, 'alive'), x))))]
con(L + 'add(jm::LListElement*, jm::UndoManager*)', TM + [P('item', LE), P('um', UM)], pre=lambda c: freepre(c, c.o.item),
    attrs=dict(heap=lambda c: add_heap(c, c.o.item)),
    post=lambda c: seq(c, c.o.this.n + 1, lambda k: z3.If(k == c.o.this.n, Sel(h(c, 'data'), c.o.item), c.o.this.item(k))) + same_place(c) + [('added at the end', c.n.this.listEnd == c.o.item)] + refs(c) + [('cursor', c.n.this.current == c.o.this.current)])
con(L + 'add(jm::Object*, jm::UndoManager*)', TM + [P('data', OB), P('um', UM)], pre=lambda c: [c.o.this.n < (1 << 31) - 1],
    attrs=dict(heap=lambda c: add_heap(c, c.n.this.listEnd, c.o.data, True)),
    post=lambda c: seq(c, c.o.this.n + 1, lambda k: z3.If(k == c.o.this.n, c.o.data, c.o.this.item(k))) + same_place(c) + fresh(c, c.n.this.listEnd) + poolkeep(c, c.n.this.listEnd) + refs(c, c.n.this.listEnd) + [('cursor', c.n.this.current == c.o.this.current)])


def ins_heap(c, found, p, x, data=None, fresh=False):
    """x inserted in front of position p"""
    o = c.o.this
    b = o.at(p)
    a = Sel(o.h('prev'), b)
    hp = {(N, 'prev'): put(put(o.h('prev'), found, x, a), found, b, x), (N, 'next'): put(put(o.h('next'), found, x, b), z3.And(found, a != 0), a, x), (N, 'mRefCount'): None}
    sh = shifted(c, o, z3.If(found, p, o.n), x, found)
    for k, (t, ax) in sh.items(): hp[k] = (t, ax)
    if fresh: hp.update({(N, 'data'): put(o.h('data'), found, x, data), (N, 'alive'): put(o.h('alive'), found, x, z3.BoolVal(True)), (N, 'mPool'): None})
    return hp


inserted = lambda c, p, d: seq(c, c.o.this.n + 1, lambda k: z3.If(k < p, c.o.this.item(k), z3.If(k == p, d, c.o.this.item(k - 1))))
con(L + 'addBefore(jm::LListElement*, jm::LListElement*, jm::UndoManager*)', TM + [P('before', LE), P('item', LE), P('um', UM)], pre=lambda c: freepre(c, c.o.item) + [c.o.this.inl(c.o.before)],
    attrs=dict(heap=lambda c: ins_heap(c, z3.BoolVal(True), c.o.this.pos(c.o.before), c.o.item)),
    post=lambda c: inserted(c, c.o.this.pos(c.o.before), Sel(h(c, 'data'), c.o.item)) + same_place(c) + refs(c) + [('cursor', c.n.this.current == c.o.this.current)])


def first_of(c, d):
    """position of the first element with data d, the number of elements when there is none"""
    o = c.o.this
    return c.ghost(('first', o.h('at'), o.h('data'), o.n, d), lambda: z3.Const(fresh_name('first'), INT))


def first_ax(c, d):
    o, f = c.o.this, first_of(c, d)
    return [f >= 0, f <= o.n, c.all(lambda k: z3.Implies(z3.And(k >= 0, k < f), o.item(k) != d), lambda k: [o.at(k)]), z3.Implies(f < o.n, o.item(f) == d)]


def search_loop(d):
    def f(V):
        c = V.c
        o, t, x = c.o.this, LL.view(V.eng, V.h, c.args.this), getattr(c.o, d)
        out = [t.mOwner == o.mOwner, t.listStart == o.listStart, t.listEnd == o.listEnd, t.n == o.n, z3.Or(t.current == 0, o.inl(t.current))]
        out.append(c.all(lambda k: z3.Implies(z3.And(k >= 0, k < t.idx), o.item(k) != x), lambda k: [o.at(k)]))
        return out
    return f


def newnode(c):
    if c.applying: return c.ghost(('newnode', c.o.this.h('at'), c.o.this.h('alive'), c.o.before), lambda: z3.Const(fresh_name('new'), INT))
    return Sel(c.n.this.h('prev'), c.o.this.at(first_of(c, c.o.before)))


def addb_heap(c):
    f, o, new = first_of(c, c.o.before), c.o.this, newnode(c)
    found = f < o.n
    hp = ins_heap(c, found, f, new, c.o.data, True)
    k = (N, 'at')
    hp[k] = (hp[k][0], hp[k][1] + first_ax(c, c.o.before))
    return hp


def addb_post(c):
    f, o, t, new = first_of(c, c.o.before), c.o.this, c.n.this, newnode(c)
    found = f < o.n
    return [('number of elements', t.n == z3.If(found, o.n + 1, o.n)),
            ('elements', c.all(lambda k: z3.Implies(z3.And(k >= 0, k < t.n), t.item(k) == z3.If(z3.Or(z3.Not(found), k < f), o.item(k), z3.If(k == f, c.o.data, o.item(k - 1)))), lambda k: [t.at(k)])),
            ('a new element', z3.Implies(found, z3.And(new > 0, z3.Not(Sel(h(c, 'alive'), new)))))] + same_place(c) + refs(c, new, found)


con(L + 'addBefore(jm::Object*, jm::Object*, jm::UndoManager*)', TM + [P('before', OB), P('data', OB), P('um', UM)], pre=lambda c: [c.o.this.n < (1 << 31) - 1],
    loops=search_loop('before'), attrs=dict(heap=addb_heap), post=addb_post)


def rem_heap(c, found, x):
    """x is taken out of the list; it is freed when nobody else refers to it"""
    o = c.o.this
    pv, nx, rc = o.h('prev'), o.h('next'), o.h('mRefCount')
    a, b, Z = Sel(pv, x), Sel(nx, x), z3.IntVal(0)
    w = without(c, o, z3.If(found, o.pos(x), o.n), x)
    k = (N, 'pos')
    if not z3.is_true(found):
        pos = w[k][0]
        w[k] = (pos, [c.all(lambda q: Sel(pos, q) == z3.If(z3.And(found, q == x), z3.IntVal(-1), z3.If(z3.And(found, o.pos(q) > o.pos(x)), o.pos(q) - 1, o.pos(q))), lambda q: [Sel(pos, q)])])
    hp = {(N, 'next'): put(put(nx, z3.And(found, a != 0), a, b), found, x, Z), (N, 'prev'): put(put(pv, z3.And(found, b != 0), b, a), found, x, Z), (N, 'mRefCount'): None,
          (N, 'alive'): put(o.h('alive'), z3.And(found, Sel(c.hn(N, 'mRefCount'), x) == 0), x, z3.BoolVal(False))}
    hp.update(w)
    return hp


def rem_refs(c, found, x):
    n, o = c.hn(N, 'mRefCount'), h(c, 'mRefCount')

    def body(q):
        b = z3.If(z3.And(found, q == x), Sel(o, q) - 1, Sel(o, q))
        return z3.Implies(q > 0, z3.If(c.o.um == 0, Sel(n, q) == b, Sel(n, q) >= b))
    return [('references', c.all(body, lambda q: [Sel(n, q)]))]


TRUE = z3.BoolVal(True)
OK, NOTFOUND = 1, 7      # enum class Status
con(L + 'remove(jm::LListElement*, jm::UndoManager*)', [P('this', LO, 'mut')] + [P('element', LE), P('um', UM)], pre=lambda c: [c.o.this.inl(c.o.element)],
    attrs=dict(heap=lambda c: rem_heap(c, TRUE, c.o.element)), retfn=lambda c: z3.IntVal(OK),
    post=lambda c: seq(c, c.o.this.n - 1, lambda k: z3.If(k < c.o.this.pos(c.o.element), c.o.this.item(k), c.o.this.item(k + 1))) + same_place(c) + rem_refs(c, TRUE, c.o.element) + [('cursor', c.n.this.current == c.o.this.current)])


def remd_post(c):
    f, o, t = first_of(c, c.o.data), c.o.this, c.n.this
    found = f < o.n
    return [('result', c.ret == z3.If(found, z3.IntVal(OK), z3.IntVal(NOTFOUND))), ('number of elements', t.n == z3.If(found, o.n - 1, o.n)),
            ('elements', c.all(lambda k: z3.Implies(z3.And(k >= 0, k < t.n), t.item(k) == z3.If(z3.And(found, k >= f), o.item(k + 1), o.item(k))), lambda k: [t.at(k)]))] + same_place(c) + rem_refs(c, found, o.at(f))


def remd_heap(c):
    f, o = first_of(c, c.o.data), c.o.this
    hp = rem_heap(c, f < o.n, o.at(f))
    k = (N, 'at')
    hp[k] = (hp[k][0], hp[k][1] + first_ax(c, c.o.data))
    return hp


con(L + 'remove(jm::Object const*, jm::UndoManager*)', TM + [P('data', OB), P('um', UM)], loops=search_loop('data'), attrs=dict(heap=remd_heap), ret=I32, post=remd_post)


# clear: every element loses the list's reference
def gone(c, upto, n, al):
    """without undo manager: the elements at positions before upto have lost one reference and are freed when it was the last; all others are untouched"""
    o = c.o.this
    old, al0 = h(c, 'mRefCount'), h(c, 'alive')

    def body(q):
        mine = z3.And(o.inl(q), o.pos(q) < upto)
        r = z3.If(mine, Sel(old, q) - 1, Sel(old, q))
        return z3.Implies(q > 0, z3.Implies(c.o.um == 0, z3.And(Sel(n, q) == r, Sel(al, q) == z3.And(Sel(al0, q), z3.Not(z3.And(mine, r == 0))))))
    return c.all(body, lambda q: [Sel(n, q)])


def outside(c, v):
    """elements of other lists stay as they are"""
    o = c.o.this

    def body(q):
        return z3.Implies(z3.And(q > 0, z3.Not(o.inl(q))), z3.And(*[Sel(v(m), q) == Sel(h(c, m), q) for m in ('next', 'prev', 'alive')]))
    return [c.all(body, (lambda m: lambda q: [Sel(v(m), q)])(m)) for m in ('next', 'prev', 'alive')]


def clear_loop(V):
    c = V.c
    t = LW.view(V.eng, V.h, c.args.this)
    o = c.o.this
    weak = list(LW.wf(V.eng, t)) + [z3.And(t.n == o.n, t.mOwner == o.mOwner), gone(c, t.idx, t.h('mRefCount'), t.h('alive'))]
    strong = list(LO.wf(V.eng, t)) + [t.mOwner == o.mOwner, c.all(lambda q: z3.Implies(z3.And(q > 0, z3.Not(o.inl(q))), z3.Not(t.inl(q))), lambda q: [t.pos(q)])] + outside(c, t.h)
    return weak + strong


clear_keys = dict([((N, m), None) for m in ('next', 'prev', 'at', 'pos', 'mRefCount', 'alive')])
clear_post = lambda c: [('references and lifetime', gone(c, c.o.this.n, c.hn(N, 'mRefCount'), c.hn(N, 'alive')))] + [('other lists', f) for f in outside(c, lambda m: c.hn(N, m))]
con(L + 'clear(jm::UndoManager*)', TM + [P('um', UM)], loops=clear_loop, attrs=dict(heap=lambda c: clear_keys), post=lambda c: [('empty', c.n.this.n == 0)] + same_place(c) + clear_post(c))

# ---------------------------------------------------------------- iterators
IT, ITM, ITO = [P('this', LI)], [P('this', LI, 'mut')], [P('this', LI, 'out')]
walk = lambda c, o: [('same elements', c.n.this.n == o.n)]
con(I + 'LinkedListIterator(jm::LinkedList const*)', ITO + [P('list', LL)], post=lambda c: walk(c, c.o.list) + [('at the start', c.n.this.idx == 0)])
con(I + 'LinkedListIterator(jm::LinkedListIterator const&)', ITO + [P('other', LI)], post=lambda c: walk(c, c.o.other) + [('same place', c.n.this.current == c.o.other.current)])
con(I + 'operator=(jm::LinkedListIterator const&)', ITM + [P('other', LI)], alias=[('this', 'other')], ret='arg:this', post=lambda c: walk(c, c.o.other) + [('same place', c.n.this.current == c.o.other.current)])
con(I + 'hasNext()', IT, retfn=lambda c: c.o.this.idx < c.o.this.n)
con(I + 'next()', ITM, ret=OB, post=lambda c: walk(c, c.o.this) + [('the element', c.ret == z3.If(c.o.this.idx < c.o.this.n, c.o.this.item(c.o.this.idx), z3.IntVal(0))), ('one further', c.n.this.idx == z3.If(c.o.this.idx < c.o.this.n, c.o.this.idx + 1, c.o.this.idx))])
con(I + 'seek() const', IT, ret=OB, post=lambda c: [('the element', c.ret == z3.If(c.o.this.idx < c.o.this.n, c.o.this.item(c.o.this.idx), z3.IntVal(0)))])
con(L + 'iterator() const', T, sret=LI, post=lambda c: [('same elements', c.n.ret.n == c.o.this.n), ('at the start', c.n.ret.idx == 0)])
con(L + '~LinkedList()', [P('this', LL, 'dead')], attrs=dict(heap=lambda c: clear_keys), variants=None,
    post=lambda c: [('references and lifetime', gone_d(c))])


def gone_d(c):
    o = c.o.this
    n, al, old, al0 = c.hn(N, 'mRefCount'), c.hn(N, 'alive'), h(c, 'mRefCount'), h(c, 'alive')
    return c.all(lambda q: z3.Implies(q > 0, z3.And(Sel(n, q) == z3.If(o.inl(q), Sel(old, q) - 1, Sel(old, q)), Sel(al, q) == z3.And(Sel(al0, q), z3.Not(z3.And(o.inl(q), Sel(old, q) == 1))))), lambda q: [Sel(n, q)])


# ---------------------------------------------------------------- exchange of two elements
def once(c, d):
    """d is the data of at most one element"""
    o, f = c.o.this, first_of(c, d)
    return [c.all(lambda k: z3.Implies(z3.And(k >= 0, k < o.n, o.item(k) == d), k == f), lambda k: [o.at(k)])] + first_ax(c, d)


def swap_loop(V):
    c = V.c
    o, t = c.o.this, LL.view(V.eng, V.h, c.args.this)
    out = [t.mOwner == o.mOwner, t.listStart == o.listStart, t.listEnd == o.listEnd, t.n == o.n, z3.Or(t.current == 0, o.inl(t.current))]
    for x, i, l in V.scal():
        for d in (c.o.data1, c.o.data2):
            f = first_of(c, d)
            out.append(x == z3.If(z3.And(f < o.n, f < t.idx), o.at(f), z3.IntVal(0)))
    return out


def swap_post(c):
    o, t = c.o.this, c.n.this
    f, g = first_of(c, c.o.data1), first_of(c, c.o.data2)
    both = z3.And(f < o.n, g < o.n)
    return seq(c, o.n, lambda k: z3.If(z3.And(both, k == f), c.o.data2, z3.If(z3.And(both, k == g), c.o.data1, o.item(k)))) + same_place(c) + refs(c)


def swap_heap(c):
    o = c.o.this
    f, g = first_of(c, c.o.data1), first_of(c, c.o.data2)
    both = z3.And(f < o.n, g < o.n)
    return {(N, 'data'): put(put(o.h('data'), both, o.at(f), c.o.data2), both, o.at(g), c.o.data1), (N, 'mRefCount'): None}


con(L + 'swapData(jm::Object*, jm::Object*, jm::UndoManager*)', TM + [P('data1', OB), P('data2', OB), P('um', UM)], pre=lambda c: [c.o.data1 != c.o.data2] + once(c, c.o.data1) + once(c, c.o.data2),
    loops=swap_loop, attrs=dict(heap=swap_heap), post=swap_post)
