"""Arrays and stacks (C15)."""
import os, sys, z3
from contract import *
from nodes import NodeCls, NodeContK, RefK
from smt import ForAll, fresh_name

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SOURCES = [VERIF + '/drv/containers.cpp', 'src/core/Object.cpp']
CLASSES = {'AI': ('jm::Array<int64>', ['mSize', 'mData']), 'SI': ('jm::Stack<int64>', ['mTop', 'mCount']), 'SE': ('jm::Stack<int64>::StackElement', ['prev', 'data'])}
C = []
INT = z3.IntSort()
HOOKS = {'nodes': [NodeCls('SE', ptrs={'prev': 'SE'}, ints={'data': 64}, ghosts={'at': INT, 'pos': INT})]}


def con(sig, params, **k):
    x = Contract(sig, params, prop=['C15'], **k)
    C.append(x)
    return x


# ---------------------------------------------------------------- arrays
class ArrK(ObjK):
    cls = 'AI'
    scal = (('mSize', 64),)
    buf = 'mData'
    esz = 8

    def view_extra(self, eng, st, p, v): v.len = v.mSize

    def wf(self, eng, v): return [v.mSize >= 0, v.mSize == v.bufn, v.mSize <= (1 << 42)]

    def length(self, eng, v): return v.mSize


AI = ArrK()
A = 'jm::Array<long>::'
T, TM, TO = [P('this', AI)], [P('this', AI, 'mut')], [P('this', AI, 'out')]


def seq(c, v, n, f):
    return [('length', v.len == n), ('content', c.all(lambda k: z3.Implies(z3.And(k >= 0, k < n), v[k] == f(k)), lambda k: [v[k]]))]


oob = lambda c: z3.Or(c.o.i < 0, c.o.i >= c.o.this.len)
con(A + 'Array()', TO, post=lambda c: [('empty', c.n.this.len == 0)])
con(A + 'Array(long)', TO + [P('n', I64)], pre=lambda c: [c.o.n >= 0, c.o.n <= (1 << 42)], post=lambda c: [('length', c.n.this.len == c.o.n)])
con(A + 'Array(jm::Array<long> const&)', TO + [P('s', AI)], post=lambda c: seq(c, c.n.this, c.o.s.len, lambda k: c.o.s[k]))
con(A + '~Array()', [P('this', AI, 'dead')])
con(A + 'size() const', T, retfn=lambda c: c.o.this.len)
con(A + 'get(long) const', T + [P('i', I64)], throws=oob, retfn=lambda c: c.o.this[c.o.i])
con(A + 'set(long, long)', TM + [P('i', I64), P('x', I64)], throws=oob, post=lambda c: seq(c, c.n.this, c.o.this.len, lambda k: z3.If(k == c.o.i, c.o.x, c.o.this[k])))
con(A + 'operator[](long) const', T + [P('i', I64)], throws=oob, ret=ElemRet('this'), post=lambda c: [('the element at that index', c.ret == c.o.i)])
con(A + 'operator=(jm::Array<long> const&)', TM + [P('s', AI)], alias=[('this', 's')], ret='arg:this', post=lambda c: seq(c, c.n.this, c.o.s.len, lambda k: c.o.s[k]))


# ---------------------------------------------------------------- stacks
class StackK(NodeContK):
    cls = 'SI'
    scal = (('mCount', 32),)
    refs = (('mTop', 'SE'),)
    pool = 'SE'
    hdr = False

    def view_extra(self, eng, st, p, v):
        NodeContK.view_extra(self, eng, st, p, v)
        v.n = z3.If(v.mCount < 0, v.mCount + (1 << 32), v.mCount)
        v.at = lambda k: z3.Select(v.h('at'), k)
        v.item = lambda k: z3.Select(v.h('data'), v.at(k))

    def wf(self, eng, v):
        at, pos, prev, al = v.h('at'), v.h('pos'), v.h('prev'), v.h('alive')
        n = v.mCount
        k = z3.Const(fresh_name('k'), INT)
        x = z3.Select(at, k)
        return [n >= 0, (v.mTop == 0) == (n == 0), z3.Implies(n > 0, v.mTop == z3.Select(at, n - 1)), v.mTop >= 0,
                ForAll(k, z3.Implies(z3.And(k >= 0, k < n), z3.And(x > 0, z3.Select(al, x), z3.Select(pos, x) == k, z3.Select(prev, x) == z3.If(k == 0, z3.IntVal(0), z3.Select(at, k - 1)))), [x])]


ST = StackK()
S = 'jm::Stack<long>::'
T, TM, TO = [P('this', ST)], [P('this', ST, 'mut')], [P('this', ST, 'out')]
D = 'SE'


def elems(c, n, f):
    """the stack holds f(0) .. f(n-1), bottom first"""
    t = c.n.this
    return [('number of elements', t.mCount == n), ('elements', c.all(lambda k: z3.Implies(z3.And(k >= 0, k < n), t.item(k) == f(k)), lambda k: [t.at(k)]))]


def push_heap(c):
    t, o = c.n.this, c.o.this
    x = t.mTop
    return {(D, 'prev'): z3.Store(o.h('prev'), x, o.mTop), (D, 'data'): z3.Store(o.h('data'), x, c.o.x), (D, 'alive'): z3.Store(o.h('alive'), x, z3.BoolVal(True)),
            (D, 'at'): z3.Store(o.h('at'), o.mCount, x), (D, 'pos'): z3.Store(o.h('pos'), x, o.mCount)}


con(S + 'Stack()', TO, post=lambda c: [('empty', c.n.this.mCount == 0)])
con(S + 'hasElements() const', T, retfn=lambda c: c.o.this.mCount > 0)
con(S + 'size() const', T, retfn=lambda c: c.o.this.mCount)
con(S + 'push(long)', TM + [P('x', I64)], pre=lambda c: [c.o.this.mCount < (1 << 31) - 1], attrs=dict(heap=push_heap),
    post=lambda c: [('a new element', z3.And(c.n.this.mTop > 0, z3.Not(z3.Select(c.o.this.h('alive'), c.n.this.mTop))))] + elems(c, c.o.this.mCount + 1, lambda k: z3.If(k == c.o.this.mCount, c.o.x, c.o.this.item(k))))
con(S + 'pop()', TM, ret=I64, pre=lambda c: [c.o.this.mCount > 0], attrs=dict(heap=lambda c: {(D, 'alive'): z3.Store(c.o.this.h('alive'), c.o.this.mTop, z3.BoolVal(False))}),
    post=lambda c: [('returns the top element', c.ret == c.o.this.item(c.o.this.mCount - 1))] + elems(c, c.o.this.mCount - 1, lambda k: c.o.this.item(k)))
con(S + 'top() const', T, ret=RefK(D, 'data'), pre=lambda c: [c.o.this.mCount > 0], post=lambda c: [('the top element', c.ret == c.o.this.at(c.o.this.mCount - 1))])
con(S + 'topRef()', T, ret=RefK(D, 'data'), pre=lambda c: [c.o.this.mCount > 0], post=lambda c: [('the top element', c.ret == c.o.this.at(c.o.this.mCount - 1))])
con(S + 'top2()', T, throws=lambda c: c.o.this.mCount < 2, retfn=lambda c: c.o.this.item(c.o.this.mCount - 2))
con(S + 'top3()', T, throws=lambda c: c.o.this.mCount < 3, retfn=lambda c: c.o.this.item(c.o.this.mCount - 3))
def gone(c, t):
    return gone_part(c, t, z3.IntVal(0))


def clear_loop(V):
    t = ST.view(V.eng, V.h, V.c.args.this)
    c = V.c
    return list(ST.wf(V.eng, t)) + [gone_part(c, t.h('alive'), t.mCount)]


def gone_part(c, t, n):
    p, a = c.o.this.h('pos'), c.o.this.h('at')
    return c.all(lambda q: z3.Implies(q > 0, z3.Select(t, q) == z3.And(z3.Select(c.o.this.h('alive'), q), z3.Not(z3.And(z3.Select(p, q) >= n, z3.Select(p, q) < c.o.this.mCount, z3.Select(a, z3.Select(p, q)) == q)))), lambda q: [z3.Select(t, q)])


con(S + 'clear()', TM, loops=clear_loop, attrs=dict(heap=lambda c: {(D, 'alive'): None}), post=lambda c: [('empty', c.n.this.mCount == 0), ('its elements and only these are released', gone(c, c.hn(D, 'alive')))])
con(S + '~Stack()', [P('this', ST, 'dead')], attrs=dict(heap=lambda c: {(D, 'alive'): None}), post=lambda c: [('its elements and only these are released', gone(c, c.hn(D, 'alive')))])


def rev_loop(V):
    """the elements above m are already turned around"""
    c, o = V.c, V.c.o.this
    t = ST.view(V.eng, V.h, c.args.this)
    prev, at, pos, n = t.h('prev'), o.h('at'), o.h('pos'), o.mCount
    m = z3.If(t.mTop == 0, z3.IntVal(-1), z3.Select(pos, t.mTop))
    refs = [x for x, i, l in V.scal() if l[0] != 'heap']
    out = [z3.And(m >= -1, m < n), (m < 0) == (t.mTop == 0), z3.Implies(m >= 0, t.mTop == z3.Select(at, m)), t.mTop >= 0,
           c.all(lambda k: z3.Implies(z3.And(k >= 0, k < n), z3.Select(prev, z3.Select(at, k)) == z3.If(k <= m, z3.If(k == 0, z3.IntVal(0), z3.Select(at, k - 1)), z3.If(k == n - 1, z3.IntVal(0), z3.Select(at, k + 1)))), lambda k: [z3.Select(at, k)]),
           c.all(lambda q: z3.Implies(z3.And(q > 0, z3.Not(z3.And(z3.Select(pos, q) >= 0, z3.Select(pos, q) < n, z3.Select(at, z3.Select(pos, q)) == q))), z3.Select(prev, q) == z3.Select(o.h('prev'), q)), lambda q: [z3.Select(prev, q)])]
    for x in refs: out.append(x == z3.If(m + 1 < n, z3.Select(at, m + 1), z3.IntVal(0)))
    return out


def rev_heap(c):
    o = c.o.this
    at, pos = z3.Const(fresh_name('at'), z3.ArraySort(INT, INT)), z3.Const(fresh_name('pos'), z3.ArraySort(INT, INT))
    n = o.mCount
    return {(D, 'prev'): None, (D, 'at'): (at, [c.all(lambda k: z3.Select(at, k) == z3.Select(o.h('at'), n - 1 - k), lambda k: [z3.Select(at, k)])]),
            (D, 'pos'): (pos, [c.all(lambda q: z3.Select(pos, q) == n - 1 - z3.Select(o.h('pos'), q), lambda q: [z3.Select(pos, q)])])}


con(S + 'reverse()', TM, loops=rev_loop, attrs=dict(heap=rev_heap), post=lambda c: elems(c, c.o.this.mCount, lambda k: c.o.this.item(c.o.this.mCount - 1 - k)))
