"""Hash table (C13).
An entry is a node; its embedded key is an abstract text identity (the String functions used on keys are modelled by equality of
texts, which C02 and C03 justify). Ghost 'ent': text -> entry that holds it, 0 for none. 'rank' orders the entries of a chain."""
import z3
from contract import *
from nodes import NodeCls, NodeContK, RefK
from smt import ForAll, Nested, contains, fresh_name
from symex import Ref, Ptr, GlobP, OREM

SOURCES = ['src/core/Hashtable.cpp', 'src/core/Object.cpp']
CLASSES = {'HE': ('jm::Hashtable::HashtableEntry', ['hash', 'key', 'value', 'next']),
           'HT': ('jm::Hashtable', ['mData', 'mArrLength', 'mDataLength', 'mLoadfactor', 'mThreshold']),
           'HI': ('jm::Hashtable::HashtableIterator', ['retKey', 'table', 'entry', 'last', 'index'])}
INT, BOOL = z3.IntSort(), z3.BoolSort()
N = 'HE'
Z = z3.IntVal(0)
HOOKS = {'nodes': [NodeCls(N, ptrs={'value': 'V', 'next': N}, ints={'hash': 64}, tracked={'key': INT, 'rank': INT}, ghosts={'ent': INT}),
                   NodeCls('V', foreign=True), NodeCls('K', foreign=True, ghosts={'text': INT})], 'refarr': N}
HF = z3.Function('hash_of_text', INT, INT)
Sel, Sto = z3.Select, z3.Store
C = []
MAXN = 1 << 62


# ---------------------------------------------------------------- strings as keys
def text(eng, st, p):
    """identity of the text of the String at p"""
    p = eng.resolve_ptr(st, p)
    if isinstance(p, Ref) and p.cls == 'K' and p.o == 0: return Sel(st.heap[('K', 'g:text')], p.t)
    if isinstance(p, Ref) and p.cls == N and p.o == eng.offsets[N]['key']:
        eng.oblige(st, 'key of an allocated entry', z3.And(p.t > 0, Sel(st.heap[(N, 'alive')], p.t)), 'safety')
        return Sel(st.heap[(N, 't:key')], p.t)
    if isinstance(p, GlobP): return z3.Const('text_' + p.name, INT)
    return None


EQ = ('_ZNK2jm6String6equalsERKS0_', '_ZN2jmeqERKNS_6StringES2_')
NE = ('_ZN2jmneERKNS_6StringES2_',)
HASH = ('_ZN2jm6String8hashCodeEv', '_ZNK2jm6String13constHashCodeEv')
SET = ('_ZN2jm6StringaSERKS0_', '_ZN2jm6StringaSEOS0_', '_ZN2jm6StringC1ERKS0_', '_ZN2jm6StringC2ERKS0_', '_ZN2jm6StringC1EOS0_', '_ZN2jm6StringC2EOS0_')
DROP = ('_ZN2jm6StringD1Ev', '_ZN2jm6StringD2Ev')


def strings(eng, st, name, args, ins):
    if name not in EQ + NE + HASH + SET + DROP: return NotImplemented
    a = [v for _, v in args]
    x = text(eng, st, a[0])
    if x is None: return NotImplemented
    eng.trusted.add('String keys: equals, hashCode and copying are equality, a function of, and transfer of the text (contracts of C02, C03)')
    if name in HASH:
        r = HF(x)
        st.assume(eng.A.range(r, 64))
        return r
    if name in DROP: return None
    y = text(eng, st, a[1])
    if y is None: return NotImplemented
    if name in EQ: return x == y
    if name in NE: return x != y
    p = eng.resolve_ptr(st, a[0])
    if not isinstance(p, Ref) or p.cls != N: return NotImplemented
    k = (N, 't:key')
    st.heap[k] = Sto(st.heap[k], p.t, y)
    return a[0]


def bucket_store(eng, st, r, i, t):
    """ghost step: an entry that becomes the head of a chain is ordered before the entry it points to"""
    if z3.is_int_value(t) and t.as_long() == 0: return
    kr, nx = (N, 't:rank'), Sel(st.heap[(N, eng.offsets[N]['next'])], t)
    a = st.heap[kr]
    st.heap[kr] = Sto(a, t, z3.If(t == 0, Sel(a, t), z3.If(nx == 0, Z, Sel(a, nx) + 1)))


PLAIN = ('class inv', 'history', 'unch', 'stored', 'kept', 'outside', 'g<=+', 'g>=')      # built-in loop candidates that do not help here
BASE = dict(call_hook=strings, elem_store=bucket_store, opaque_rem=True)


def bidx(hsh, m): return OREM(hsh % (1 << 31), m)


class T:
    """the table with bucket array arr of length m over the entry arrays h"""

    def __init__(self, h, arr, m):
        self.h, self.arr, self.m = h, arr, m
        self.ent, self.key, self.rank, self.next, self.hash, self.value, self.alive = (h(x) for x in ('ent', 'key', 'rank', 'next', 'hash', 'value', 'alive'))

    def isin(self, e): return z3.And(e > 0, Sel(self.ent, Sel(self.key, e)) == e)

    def b(self, e): return bidx(Sel(self.hash, e), self.m)

    def head(self, i): return Sel(self.arr, i)

    def chains(self, c, member=None):
        """the members are exactly the entries of the chains, each chain ordered by rank"""
        mem = member or self.isin
        R, nx = self.rank, self.next

        def one(e):
            n, b = Sel(nx, e), self.b(e)
            return z3.Implies(mem(e), z3.And(b >= 0, b < self.m, self.head(b) > 0, mem(self.head(b)), self.b(self.head(b)) == b, Sel(R, e) <= Sel(R, self.head(b)), n >= 0, z3.Implies(n != 0, z3.And(mem(n), self.b(n) == b, Sel(R, n) < Sel(R, e)))))
        x, y = z3.Const(fresh_name('x'), INT), z3.Const(fresh_name('y'), INT)
        two = z3.Implies(z3.And(mem(x), mem(y), x != y, self.b(x) == self.b(y)), z3.And(Sel(R, x) != Sel(R, y), z3.Implies(Sel(R, x) > Sel(R, y), z3.And(Sel(nx, x) != 0, Sel(R, Sel(nx, x)) >= Sel(R, y)))))
        return [c.all(one, lambda e: [Sel(nx, e), Sel(R, e), Sel(self.hash, e)]),
                c.all(lambda i: z3.Implies(z3.And(i >= 0, i < self.m), z3.And(self.head(i) >= 0, z3.Implies(self.head(i) != 0, z3.And(mem(self.head(i)), self.b(self.head(i)) == i)))), lambda i: [self.head(i)]),
                Nested(x, [Sel(nx, x), Sel(R, x)], ForAll(y, two, [Sel(nx, y), Sel(R, y)]))]

    def entries(self, c):
        """every member is allocated and holds its hash"""
        def one(e):
            return z3.Implies(self.isin(e), z3.And(Sel(self.alive, e), Sel(self.hash, e) == HF(Sel(self.key, e)), Sel(self.hash, e) >= -(1 << 63), Sel(self.hash, e) < 1 << 63, Sel(self.value, e) >= 0))
        return [c.all(one, lambda e: [Sel(self.hash, e), Sel(self.key, e), Sel(self.next, e)]),
                c.all(lambda k: z3.Implies(Sel(self.ent, k) != 0, z3.And(Sel(self.ent, k) > 0, Sel(self.key, Sel(self.ent, k)) == k)), lambda k: [Sel(self.ent, k)])]


class All:
    """c.all outside of a contract context"""
    @staticmethod
    def all(f, trigs):
        k = z3.Const(fresh_name('q'), INT)
        return ForAll(k, f(k), trigs(k))


class TableK(NodeContK):
    cls = 'HT'
    pool = N
    scal = (('mArrLength', 64), ('mDataLength', 64), ('mThreshold', 64))
    fps = (('mLoadfactor', 'double'),)
    buf, esz = 'mData', 8

    def elsort(self, eng): return INT

    def init(self, eng, st, p, name, keep_header=False):
        NodeContK.init(self, eng, st, p, name, keep_header)
        b = st.reg(p.r).fields[p.o + self.off(eng, 'mData')][1]
        st.wreg(b.r).info = {('cls', 0): N}

    def view_extra(self, eng, st, p, v):
        NodeContK.view_extra(self, eng, st, p, v)
        v.t = T(v.h, v.arr, v.mArrLength)

    def wf(self, eng, v):
        return [v.mArrLength >= 1, v.mArrLength == v.bufn, v.mDataLength > -MAXN, v.mDataLength < MAXN, v.mLoadfactor == z3.RealVal('3/4')] + v.t.chains(All) + v.t.entries(All)


HT, V, K = TableK(), RefK('V'), RefK('K')
TH, TM = [P('this', HT)], [P('this', HT, 'mut')]
H = 'jm::Hashtable::'


def con(sig, params, attrs=None, **k):
    d = dict(BASE)
    d.update(attrs or {})
    x = Contract(sig, params, prop=['C13'], fp='real', attrs=d, **k)
    C.append(x)
    return x


def h(c, m): return c.ho(N, m)
def kid(c): return Sel(c.ho('K', 'text'), c.o.key)
def found(c): return Sel(h(c, 'ent'), kid(c))
def put(a, cond, i, x): return Sto(a, i, z3.If(cond, x, Sel(a, i)))


def outside(c, ms=('next', 'hash', 'value', 'key', 'alive'), new=None):
    """entries of other tables stay as they are"""
    t = c.o.this.t

    def f(m):
        def body(q): return z3.Implies(z3.And(q > 0, z3.Not(t.isin(q)), Sel(h(c, 'alive'), q), q != (new if new is not None else Z)), Sel(c.hn(N, m), q) == Sel(h(c, m), q))
        return c.all(body, lambda q: [Sel(c.hn(N, m), q)])
    return [('entries of other tables: ' + m, f(m)) for m in ms]


# ---------------------------------------------------------------- looking up
def chain_loop(V):
    """a cursor in the chain of the key: the entry of the key is not before it"""
    c = V.c
    t = c.o.this.t
    f = found(c)
    i = bidx(HF(kid(c)), t.m)
    out = []
    sc = [x for x, _, l in V.scal()]
    for x in sc: out.append(z3.And(x >= 0, z3.Implies(x != 0, z3.And(t.isin(x), t.b(x) == i)), z3.Implies(f != 0, z3.And(x != 0, Sel(t.rank, f) <= Sel(t.rank, x)))))
    for x in sc:
        out.append(z3.And(x >= 0, z3.Implies(x != 0, z3.And(t.isin(x), t.b(x) == i))))
        for y in sc:
            if y is not x: out.append(z3.If(x == 0, y == t.head(i), Sel(t.next, x) == y))
    return out


key = lambda c: [c.o.key > 0]
con(H + 'get(jm::String const&) const', TH + [P('key', K)], pre=key, loops=chain_loop, ret=V, post=lambda c: [('value of the key', c.ret == z3.If(found(c) == 0, Z, Sel(h(c, 'value'), found(c))))])
con(H + 'containsKey(jm::String const&) const', TH + [P('key', K)], pre=key, retfn=lambda c: z3.And(found(c) != 0, Sel(h(c, 'value'), found(c)) != 0))
con(H + 'size() const', TH, retfn=lambda c: c.o.this.mDataLength)


# ---------------------------------------------------------------- growing
def rehash_keys(c): return {(N, 'next'): None, (N, 'rank'): None}


def consts(V, init):
    """loop counters of the surrounding loops; those the chain was selected with, if there are any"""
    out = {}
    for v in V.h.top.regs.values():
        if z3.is_expr(v) and z3.is_int(v) and z3.is_const(v) and not z3.is_int_value(v): out[v.get_id()] = v
    sel = [v for v in out.values() if init is not None and contains(init, v)]
    return sel or list(out.values())


def rehash_loop(V):
    c = V.c
    eng = V.eng
    o = c.o.this.t
    hp = dict(V.h.heap)
    import nodes
    cur = lambda m: hp[nodes.key(eng, N, m)]
    out = []
    new = [(rid, r.arrs[0], eng.A.idx(r.n)) for rid, r in V.h.regions.items() if r.kind == 'array' and r.alive and r.esz == 8 and rid not in c.o.this.bufs and 0 in r.arrs]
    refs = [(x, eng.read_const(V.entry, loc, part)) for x, loc, part in V.H.consts if part == 'ref']
    vals = [x for x, loc, part in V.H.consts if part in (None, 'idx') and z3.is_int(x)]
    for rid, arr, n in new:
        for x in vals: out.append(c.all(lambda i: z3.Implies(z3.And(i >= 0, i < x), Sel(arr, i) == 0), lambda i: [Sel(arr, i)]))
        t = T(cur, arr, n)
        pairs = [(a, e) for e, init in refs for a in consts(V, init)] if refs else [(a, None) for a in vals]
        for a, e in pairs:
            done = lambda q, a=a, e=e: z3.And(o.isin(q), z3.Or(o.b(q) < a, z3.And(o.b(q) == a, z3.BoolVal(False) if e is None else z3.Or(e == 0, Sel(o.rank, q) > Sel(o.rank, e)))))
            out += t.chains(c, done) + [c.all(lambda q: z3.Implies(z3.And(q > 0, z3.Not(done(q))), Sel(t.next, q) == Sel(o.next, q)), lambda q: [Sel(t.next, q)])]
            if e is not None: out.append(z3.And(e >= 0, z3.Implies(e != 0, z3.And(o.isin(e), o.b(e) == a))))
    return out


con(H + 'rehash()', TM, pre=lambda c: [c.o.this.mArrLength <= 1 << 43], loops=rehash_loop, budget=300, attrs=dict(heap=rehash_keys, lazy_inner=True, skip=PLAIN),
    post=lambda c: [('size', c.n.this.mDataLength == c.o.this.mDataLength), ('grown', c.n.this.mArrLength == 2 * c.o.this.mArrLength + 1)] + outside(c, ('next',)))


# ---------------------------------------------------------------- put
def newe(c): return Sel(c.n.this.arr, bidx(HF(kid(c)), c.n.this.mArrLength))


def put_heap(c):
    f, n = found(c), newe(c)
    miss = f == 0
    x = z3.If(miss, n, f)
    return {(N, 'next'): None, (N, 'rank'): None, (N, 'ent'): put(h(c, 'ent'), miss, kid(c), n), (N, 'value'): Sto(h(c, 'value'), x, c.o.value), (N, 'key'): put(h(c, 'key'), miss, n, kid(c)),
            (N, 'hash'): put(h(c, 'hash'), miss, n, HF(kid(c))), (N, 'alive'): put(h(c, 'alive'), miss, n, z3.BoolVal(True))}


def put_post(c):
    f = found(c)
    return [('returns the old value', c.ret == z3.If(f == 0, Z, Sel(h(c, 'value'), f))), ('number of keys', c.n.this.mDataLength == c.o.this.mDataLength + z3.If(f == 0, 1, 0)),
            ('a new entry', z3.Implies(f == 0, z3.And(newe(c) > 0, z3.Not(Sel(h(c, 'alive'), newe(c))))))] + outside(c, ('next',))


con(H + 'put(jm::String, void*)', TM + [P('key', K), P('value', V)], pre=lambda c: key(c) + [c.o.this.mArrLength <= 1 << 43, c.o.this.mDataLength < MAXN - 1, c.o.value >= 0], loops=chain_loop, ret=V, attrs=dict(heap=put_heap), post=put_post)


# ---------------------------------------------------------------- remove, clear
def remove_heap(c):
    f = found(c)
    return {(N, 'next'): None, (N, 'rank'): None, (N, 'ent'): Sto(h(c, 'ent'), kid(c), Z), (N, 'alive'): put(h(c, 'alive'), f != 0, f, z3.BoolVal(False))}


con(H + 'remove(jm::String const&)', TM + [P('key', K)], pre=lambda c: key(c) + [c.o.this.mDataLength > 1 - MAXN], loops=chain_loop, ret=V, attrs=dict(heap=remove_heap),
    post=lambda c: [('returns the value', c.ret == z3.If(found(c) == 0, Z, Sel(h(c, 'value'), found(c)))), ('number of keys', c.n.this.mDataLength == c.o.this.mDataLength - z3.If(found(c) == 0, 0, 1))] + outside(c, ('next',)))


def gone(c, upto=None, cur=None):
    """entries of the table that a walk over the buckets has passed; all of them without arguments"""
    t = c.o.this.t

    def f(q):
        if upto is None: return t.isin(q)
        own = z3.BoolVal(False) if cur is None else z3.Or(cur == 0, Sel(t.rank, q) > Sel(t.rank, cur))
        return z3.And(t.isin(q), z3.Or(t.b(q) < upto, z3.And(t.b(q) == upto, own)))
    return f


def freed(c, al, g): return c.all(lambda q: z3.Implies(q > 0, Sel(al, q) == z3.And(Sel(h(c, 'alive'), q), z3.Not(g(q)))), lambda q: [Sel(al, q)])


def clear_loop(V):
    import nodes
    c, eng = V.c, V.eng
    o = c.o.this.t
    hp = dict(V.h.heap)
    cur = lambda m: hp[nodes.key(eng, N, m)]
    refs = [(x, eng.read_const(V.entry, loc, part)) for x, loc, part in V.H.consts if part == 'ref']
    vals = [x for x, loc, part in V.H.consts if part in (None, 'idx') and z3.is_int(x)]
    arr = HT.view(eng, V.h, c.args.this).arr
    out = []
    for x in vals: out.append(c.all(lambda i: z3.Implies(z3.And(i >= 0, i < o.m), Sel(arr, i) == z3.If(i < x, Z, o.head(i))), lambda i: [Sel(arr, i)]))
    for a, e in [(a, e) for e, init in refs for a in consts(V, init)] if refs else [(a, None) for a in vals]:
        g = gone(c, a, e)
        out.append(freed(c, cur('alive'), g))
        for m in ('next', 'hash', 'value'): out.append(c.all(lambda q: z3.Implies(z3.And(q > 0, z3.Not(g(q))), Sel(cur(m), q) == Sel(h(c, m), q)), lambda q: [Sel(cur(m), q)]))
        if e is not None: out.append(z3.And(e >= 0, z3.Implies(e != 0, z3.And(o.isin(e), o.b(e) == a))))
    return out


NONE = z3.K(INT, Z)
clear_heap = lambda c: dict([((N, m), None) for m in ('next', 'hash', 'value', 'alive', 'rank')] + [((N, 'ent'), NONE)])
clear_post = lambda c: [('its entries are released, no others', freed(c, c.hn(N, 'alive'), gone(c)))] + outside(c, ('next', 'hash', 'value'))
con(H + 'clear()', TM, loops=clear_loop, budget=300, attrs=dict(heap=clear_heap, lazy_inner=True, skip=PLAIN), post=lambda c: [('empty', c.n.this.mDataLength == 0)] + clear_post(c))
con(H + '~Hashtable()', [P('this', HT, 'dead')], attrs=dict(heap=clear_heap), post=clear_post)


def ctor_loop(V):
    out = []
    for rid, k, arr in V.allarrays(8):
        for x in [x for x, loc, part in V.H.consts if part in (None, 'idx') and z3.is_int(x)]: out.append(All.all(lambda i: z3.Implies(z3.And(i >= 0, i < x), Sel(arr, i) == 0), lambda i: [Sel(arr, i)]))
    return out


con(H + 'Hashtable()', [P('this', HT, 'out')], loops=ctor_loop, attrs=dict(heap=lambda c: {(N, 'ent'): NONE}), post=lambda c: [('empty', c.n.this.mDataLength == 0)])


# ---------------------------------------------------------------- iterators
class IterK(NodeContK):
    """walk over the table; what is left is the set rem"""
    cls = 'HI'
    pool = N
    hdr = False
    refs = (('entry', N), ('last', N))
    scal = (('retKey', 8), ('index', 64))

    def init_extra(self, eng, st, p, name):
        NodeContK.init_extra(self, eng, st, p, name)
        st.wreg(p.r).fields[p.o + self.off(eng, 'table')] = (8, HT.make(eng, st, name + '_table'))

    def view_extra(self, eng, st, p, v):
        NodeContK.view_extra(self, eng, st, p, v)
        v.tab = HT.view(eng, st, self.getf(eng, st, p, 'table', 8))
        t = v.t = v.tab.t
        v.left = lambda q: z3.And(t.isin(q), z3.Or(t.b(q) >= v.index, z3.And(v.entry != 0, t.b(q) == v.index - 1, Sel(t.rank, q) <= Sel(t.rank, v.entry))))

    def wf(self, eng, v):
        return HT.wf(eng, v.tab) + [v.index >= 0, v.index <= v.t.m, z3.Or(v.retKey == 0, v.retKey == 1), v.entry >= 0, z3.Implies(v.entry != 0, z3.And(v.index >= 1, v.t.isin(v.entry), v.t.b(v.entry) == v.index - 1))]


class NewIterK:
    ref = False

    def view_ret(self, eng, s, rv, cc): return HI.view(eng, s, rv)

    def wf(self, eng, v): return HI.wf(eng, v)

    def make_ret(self, eng, st, c): raise CannotApply('new iterator')


class PartK:
    """what next returns: the key inside of an entry (odd), a value (even) or null (0)"""
    ref = False

    def view_ret(self, eng, s, rv, cc):
        from symex import PIte, NullP
        rv = eng.resolve_ptr(s, rv)
        if isinstance(rv, PIte): return z3.If(rv.c, self.view_ret(eng, s, rv.a, cc), self.view_ret(eng, s, rv.b, cc))
        if isinstance(rv, NullP): return Z
        if isinstance(rv, Ref) and rv.cls == N and rv.o == eng.offsets[N]['key']: return 2 * rv.t + 1
        if isinstance(rv, Ref) and rv.cls == 'V' and rv.o == 0: return 2 * rv.t
        raise CannotApply('neither key nor value')

    def wf(self, eng, v): return []


HI = IterK()
I = H + 'HashtableIterator::'
same_left = lambda c, o, n: c.all(lambda q: o.left(q) == n.left(q), lambda q: [Sel(c.ho(N, 'next'), q)])


def walk_loop(V):
    c = V.c
    v = HI.view(V.eng, V.h, c.args.this)
    return [same_left(c, c.o.this, v)] + HI.wf(V.eng, v)[-5:]


same_table = lambda c, tab: [('the table is as before', f) for f in HT.same(c.eng, tab, c.n.this.tab)] + [('same kind of results', c.n.this.retKey == c.o.this.retKey)]
con(I + 'HashtableIterator(jm::Hashtable*, bool)', [P('this', HI, 'out'), P('table', HT), P('keys', I1)],
    post=lambda c: [('everything is left', c.all(lambda q: c.n.this.left(q) == c.o.table.t.isin(q), lambda q: [Sel(h(c, 'next'), q)])), ('of that table', z3.BoolVal(c.n.this.tab.rid == c.o.table.rid)), ('kind of results', (c.n.this.retKey != 0) == (c.o.keys if z3.is_bool(c.o.keys) else c.o.keys != 0))])


def left_empty(c, v): return c.all(lambda q: z3.Not(v.left(q)), lambda q: [Sel(c.ho(N, 'next'), q)])


con(I + 'hasNext()', [P('this', HI, 'mut')], loops=walk_loop, ret=I1,
    post=lambda c: [('nothing consumed', same_left(c, c.o.this, c.n.this)), ('true only if something is left', z3.Implies(bit(c.ret), z3.And(c.n.this.entry != 0, c.o.this.left(c.n.this.entry)))),
                    ('false only if nothing is left', c.all(lambda q: z3.Implies(z3.Not(bit(c.ret)), z3.Not(c.o.this.left(q))), lambda q: [Sel(h(c, 'next'), q)]))] + same_table(c, c.o.this.tab))
bit = lambda x: x if z3.is_bool(x) else x != 0


def next_post(c):
    o, n = c.o.this, c.n.this
    x = n.last
    return [('one is taken, no other', c.all(lambda q: z3.If(z3.And(c.ret == 0, z3.Not(taken(c))), z3.Not(o.left(q)), n.left(q) == z3.And(o.left(q), q != x)), lambda q: [Sel(h(c, 'next'), q)])),
            ('nothing is left afterwards when none was taken', c.all(lambda q: z3.Implies(z3.Not(taken(c)), z3.Not(n.left(q))), lambda q: [Sel(h(c, 'next'), q)])),
            ('result', z3.If(taken(c), z3.And(o.left(x), c.ret == z3.If(o.retKey != 0, 2 * x + 1, 2 * Sel(h(c, 'value'), x))), c.ret == 0))] + same_table(c, o.tab)


def taken(c):
    """something was left: the entry now called last was among it"""
    return z3.And(c.n.this.last > 0, c.o.this.left(c.n.this.last), z3.Not(c.n.this.left(c.n.this.last)))


con(I + 'next()', [P('this', HI, 'mut')], loops=walk_loop, ret=PartK(), post=next_post)
for nm, k in (('keys()', 1), ('values()', 0)):
    con(H + nm, TH, ret=NewIterK(), post=(lambda k: lambda c: [('everything is left', c.all(lambda q: c.ret.left(q) == c.o.this.t.isin(q), lambda q: [Sel(h(c, 'next'), q)])), ('of this table', z3.BoolVal(c.ret.tab.rid == c.o.this.rid)), ('kind of results', c.ret.retKey == k)])(k))
