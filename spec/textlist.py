"""String lists (C16): the list is a sequence of texts. An element of the array is a String with an abstract text; two texts are
equal exactly when their characters are (C02), their lexicographic order is an order of rationals (any countable order is)."""
import z3
from contract import *
from smt import ForAll, Nested, fresh_name
from nodes import NodeCls
from symex import Ref, Ptr, GlobP, PIte, COOKIE
import strings
from strings import Str, StrK

REQUIRES = ['strings']
SOURCES = ['src/core/StringList.cpp', 'src/core/Object.cpp']
CLASSES = {'SL': ('jm::StringList', ['mData', 'mLength', 'mSize'])}
HOOKS = {'nodes': [NodeCls('K', foreign=True, ghosts={'text': z3.IntSort()})], 'cookies': [64]}
INT = z3.IntSort()
LEN = z3.Function('length_of_text', INT, INT)
CHAR = z3.Function('char_of_text', INT, INT, INT)
ORD = z3.Function('order_of_text', INT, z3.RealSort())
EMPTY = z3.Const('empty_text', INT)
Sel, Sto = z3.Select, z3.Store
C = []


def virtual(eng, st, r, p, ty):
    """elements are exactly of class String"""
    if p.o == 0 and ty.k == 'ptr': return GlobP('_ZTVN2jm6StringE', 16)
    raise Unsupported('member of an element of %s' % r.name)


def con(sig, params, **k):
    a = dict(call_hook=texts, elem_load=virtual)
    a.update(k.pop('attrs', {}))
    x = Contract(sig, params, attrs=a, **k)
    C.append(x)
    return x


# ---------------------------------------------------------------- String objects as texts
def marr(st, r, k):
    """texts (k = 0) or origin tags (k = 1) of the elements of a class array"""
    a = st.reg(r).arrs.get(k)
    if a is None:
        a = z3.Const(fresh_name('unconstructed'), z3.ArraySort(INT, INT))
        st.wreg(r).arrs[k] = a
    return a


def element(eng, st, p, what='use'):
    r = st.reg(p.r)
    eng.check_alive(st, r, what)
    eng.inbounds(st, p, r, '%s of a String' % what)
    if p.o: raise Unsupported('member of an element')


def is_elem(st, p): return isinstance(p, Ptr) and p.r in st.regions and st.reg(p.r).info == COOKIE


def abstract(eng, st, p):
    """(text, origin) of the String at p when it is known as a text only, else None"""
    if isinstance(p, PIte) and p.c.get_id() not in st.decided and isinstance(p.b, Ref) and is_elem(st, p.a):      # the String of a TextK parameter
        eng.check_alive(st, st.reg(p.a.r), 'use')
        i = eng.A.idx(p.a.i)
        eng.oblige(st, 'use of a String in bounds of its array', z3.Implies(p.c, z3.And(i >= 0, i < st.reg(p.a.r).n)), 'safety')
        a, b = (Sel(marr(st, p.a.r, 0), i), Sel(marr(st, p.a.r, 1), i)), abstract(eng, st, p.b)
        return z3.If(p.c, a[0], b[0]), z3.If(p.c, a[1], b[1])
    p = eng.resolve_ptr(st, p)
    if isinstance(p, Ref) and p.cls == 'K' and p.o == 0: return Sel(st.heap[('K', 'g:text')], p.t), z3.IntVal(-1)
    if is_elem(st, p):
        element(eng, st, p)
        return Sel(marr(st, p.r, 0), eng.A.idx(p.i)), Sel(marr(st, p.r, 1), eng.A.idx(p.i))
    if isinstance(p, Ptr) and ('text', p.r, p.o) in st.ghost:
        eng.check_alive(st, st.reg(p.r), 'use')
        return st.ghost[('text', p.r, p.o)], st.ghost[('origin', p.r, p.o)]
    return None


def text_of(eng, st, v):
    """the text of a String with characters"""
    d = eng.__dict__.setdefault('textids', {})
    k = (v.arr.get_id(), eng.A.idx(v.len).get_id())
    if k not in d:
        t, q = z3.Const(fresh_name('text'), INT), z3.Const(fresh_name('k'), INT)
        f = z3.Implies(z3.And(q >= 0, q < v.len), CHAR(t, q) == Sel(v.arr, q))
        d[k] = (t, [LEN(t) == v.len, ForAll(q, f, [CHAR(t, q)]), ForAll(q, f, [Sel(v.arr, q)])], v.arr)
    for a in d[k][1]: st.assume(a)
    return d[k][0]


def text(eng, st, p):
    a = abstract(eng, st, p)
    if a is not None: return a
    p = eng.resolve_ptr(st, p)
    if isinstance(p, GlobP) and eng.globobj(st, p) is not None: p = eng.globobj(st, p)
    if not isinstance(p, Ptr): raise CannotApply('String expected')
    v = Str.view(eng, st, p)
    return text_of(eng, st, v), z3.IntVal(-1)


def set_text(eng, st, p, t, o):
    p = eng.resolve_ptr(st, p)
    if is_elem(st, p):
        element(eng, st, p, 'assignment')
        i = eng.A.idx(p.i)
        x, y = marr(st, p.r, 0), marr(st, p.r, 1)
        w = st.wreg(p.r)
        w.arrs[0], w.arrs[1] = Sto(x, i, t), Sto(y, i, o)
        return
    st.ghost[('text', p.r, p.o)], st.ghost[('origin', p.r, p.o)] = t, o


def concrete(eng, st, t):
    """a String with the characters of the text"""
    p = Str.make(eng, st, 'text')
    v = Str.view(eng, st, p)
    for f in Str.wf(eng, v): st.assume(f)
    q = z3.Const(fresh_name('k'), INT)
    f = z3.Implies(z3.And(q >= 0, q < v.len), Sel(v.arr, q) == CHAR(t, q))
    st.assume([v.len == LEN(t), ForAll(q, f, [CHAR(t, q)]), ForAll(q, f, [Sel(v.arr, q)])])
    for b in v.bufs: st.ghost.pop(('heap', b), None)
    eng.__dict__.setdefault('textids', {})[(v.arr.get_id(), eng.A.idx(v.len).get_id())] = (t, [], v.arr)
    return p


EQ = ('_ZNK2jm6String6equalsERKS0_', '_ZN2jmeqERKNS_6StringES2_')
NE = ('_ZN2jmneERKNS_6StringES2_',)
CMP = ('_ZNK2jm6String9compareToERKS0_',)
LESS = {'_ZN2jmltERKNS_6StringES2_': lambda a, b: a < b}
NEW = ('_ZN2jm6StringC1Ev', '_ZN2jm6StringC2Ev')
COPY = ('_ZN2jm6StringC1ERKS0_', '_ZN2jm6StringC2ERKS0_')
SET = ('_ZN2jm6StringaSERKS0_',)
DROP = ('_ZN2jm6StringD1Ev', '_ZN2jm6StringD2Ev')
SIZE = ('_ZNK2jm6String4sizeEv',)


def texts(eng, st, name, args, ins):
    a = [v for _, v in args]
    if name in EQ + NE + CMP or name in LESS:
        if abstract(eng, st, a[0]) is None and abstract(eng, st, a[1]) is None: return NotImplemented
        x, y = text(eng, st, a[0])[0], text(eng, st, a[1])[0]
        eng.trusted.add('elements of string lists: equality, order, copy and length of a String are those of its text (contracts of C01, C02)')
        if name in EQ: return x == y
        if name in NE: return x != y
        if name in LESS: return LESS[name](ORD(x), ORD(y))
        return z3.If(ORD(x) < ORD(y), z3.IntVal(-1), z3.If(ORD(x) > ORD(y), z3.IntVal(1), z3.IntVal(0)))
    if name in SIZE:
        x = abstract(eng, st, a[0])
        if x is None: return NotImplemented
        st.assume([LEN(x[0]) >= 0, LEN(x[0]) <= 1 << 45])
        return LEN(x[0])
    if name in NEW + DROP:
        p = eng.resolve_ptr(st, a[0])
        if not is_elem(st, p):
            if not isinstance(p, Ptr) or ('text', p.r, p.o) not in st.ghost: return NotImplemented
            for k in ('text', 'origin'): st.ghost.pop((k, p.r, p.o), None)
            return None if name in DROP else NotImplemented
        if name in NEW: set_text(eng, st, p, EMPTY, z3.IntVal(-1))
        else: element(eng, st, p, 'destruction')
        return None
    if name in COPY + SET:
        p = eng.resolve_ptr(st, a[0])
        b = abstract(eng, st, a[1])
        if b is None and not is_elem(st, p): return NotImplemented
        if b is None: b = text(eng, st, a[1])
        if not isinstance(p, Ptr): raise Unsupported('assignment to a String that is not owned')
        if not is_elem(st, p) and name in SET and ('text', p.r, p.o) not in st.ghost: return NotImplemented
        set_text(eng, st, p, *b)
        return a[0] if name in SET else None
    c = eng.contracts.get(name) or eng.contract_for(name)
    if c is not None:       # a function with a contract over the characters gets a String with these characters
        for i, p in enumerate(c.allparams()):
            if isinstance(p.kind, StrK) and p.mode == 'in' and i < len(args):
                b = abstract(eng, st, args[i][1])
                if b is not None: args[i] = (args[i][0], concrete(eng, st, b[0]))
    return NotImplemented


class TextK:
    """const String&: some String, possibly an element of the list the function is called for"""
    ref = False

    def make(self, eng, st, name):
        t = z3.Const(fresh_name(name), INT)
        st.assume(t > 0)
        r = Ref('K', t, 0)
        own = getattr(eng.contract.cur.args, 'this', None) if 'this' in eng.contract.cur.args._d else None
        if own is None or not any(p.name == 'this' and p.mode in ('in', 'mut') and isinstance(p.kind, ListK) for p in eng.contract.params): return r
        v = LK.view(eng, st, own)
        i = z3.Const(fresh_name(name + '_index'), INT)
        st.assume([i >= 0, z3.Implies(v.size > 0, i < v.size)])
        b = z3.Const(fresh_name(name + '_is_own'), z3.BoolSort())
        st.assume(z3.Implies(b, v.size > 0))
        return PIte(b, Ptr(v.bufs[0], i, 0), r)

    def view(self, eng, st, v):
        if isinstance(v, PIte): return z3.If(v.c, self.view(eng, st, v.a), self.view(eng, st, v.b))
        if isinstance(v, Ptr) and is_elem(st, v): return Sel(marr(st, v.r, 0), eng.A.idx(v.i))
        if isinstance(v, (Ref, Ptr, GlobP)): return text(eng, st, v)[0]
        raise CannotApply('String expected')

    def wf(self, eng, v): return []


class ListK(ObjK):
    cls = 'SL'
    scal = (('mLength', 64), ('mSize', 64))
    buf, esz = 'mData', 64

    def elsort(self, eng): return INT

    def init_extra(self, eng, st, p, name):
        b = st.reg(p.r).fields[p.o + self.off(eng, 'mData')][1]
        st.wreg(b.r).info = COOKIE

    def view_extra(self, eng, st, p, v):
        v.size, v.cap, v.ids = v.mSize, v.mLength, v.arr
        if v.bufs and st.reg(v.bufs[0]).info != COOKIE: raise CannotApply('array of Strings expected')
        v.org = marr(st, v.bufs[0], 1) if v.bufs else None

    def wf(self, eng, v): return [v.size >= 0, v.size <= v.cap, v.cap == v.bufn, v.cap <= 1 << 39]

    def length(self, eng, v): return v.size

    def same(self, eng, a, b):
        return [a.size == b.size] + ([] if a.arr.eq(b.arr) else [seq(a.arr, b.arr, a.size)])


def seq(a, b, n, f=None):
    k = z3.Const(fresh_name('k'), INT)
    return ForAll(k, z3.Implies(z3.And(k >= 0, k < n), Sel(b, k) == Sel(a, k)), [Sel(b, k)])


LK, TX = ListK(), TextK()
T, TM, TO = [P('this', LK)], [P('this', LK, 'mut')], [P('this', LK, 'out')]
L = 'jm::StringList::'


def is_seq(c, n, pieces): return c.cat(n.ids, n.size, pieces)


def sub(c, v, i, n): return c.sub(v.ids, i, n)


SMALL = lambda c: [('room', c.o.this.size < (1 << 38))]
con(L + 'StringList()', TO, post=lambda c: [('empty', c.n.this.size == 0)], prop=['C16'])
con(L + 'StringList(long)', TO + [P('n', I64)], pre=lambda c: [c.o.n >= 0, c.o.n < 1 << 38], prop=['C16'],
    post=lambda c: [('size', c.n.this.size == c.o.n), ('empty texts', c.all(lambda k: z3.Implies(z3.And(k >= 0, k < c.o.n), c.n.this[k] == EMPTY), lambda k: [c.n.this[k]]))])
con(L + 'StringList(jm::String const&)', TO + [P('s', TX)], post=lambda c: [('size', c.n.this.size == 1), ('element', c.n.this[0] == c.o.s)], prop=['C16'])
con(L + 'StringList(jm::StringList const&)', TO + [P('other', LK)], post=lambda c: is_seq(c, c.n.this, [sub(c, c.o.other, 0, c.o.other.size)]), prop=['C16'])
con(L + '~StringList()', [P('this', LK, 'dead')], prop=['C16'])
con(L + 'operator=(jm::StringList const&)', TM + [P('other', LK)], alias=[('this', 'other')], ret='arg:this', post=lambda c: is_seq(c, c.n.this, [sub(c, c.o.other, 0, c.o.other.size)]), prop=['C16'])
con(L + 'checkSize(long)', TM + [P('n', I64)], pre=lambda c: SMALL(c) + [c.o.n <= 1 << 37, c.o.n >= -(1 << 37)], prop=['C16'],
    post=lambda c: is_seq(c, c.n.this, [sub(c, c.o.this, 0, c.o.this.size)]) + [('room', c.n.this.cap >= c.o.this.size + c.o.n)])
con(L + 'reserve(long)', TM + [P('n', I64)], pre=lambda c: SMALL(c) + [c.o.n <= 1 << 37, c.o.n >= -(1 << 37)], post=lambda c: is_seq(c, c.n.this, [sub(c, c.o.this, 0, c.o.this.size)]), prop=['C16'])
ADDED = lambda c: is_seq(c, c.n.this, [sub(c, c.o.this, 0, c.o.this.size), c.one(c.o.s)])
con(L + 'append(jm::String const&)', TM + [P('s', TX)], pre=SMALL, post=ADDED, prop=['C16'])
con('jm::operator<<(jm::StringList&, jm::String const&)', TM + [P('s', TX)], pre=SMALL, ret='arg:this', post=ADDED, prop=['C16'])
con(L + 'size() const', T, retfn=lambda c: c.o.this.size, prop=['C16'])
con(L + 'clear()', TM, post=lambda c: [('empty', c.n.this.size == 0)], prop=['C16'])
OUT = lambda c: z3.Or(c.o.i < 0, c.o.i >= c.o.this.size)
AT = ElemRet('this')
con(L + 'get(long) const', T + [P('i', I64)], ret=AT, throws=OUT, post=lambda c: [('that element', c.ret == c.o.i)], prop=['C16'])
con(L + 'operator[](long) const', T + [P('i', I64)], ret=AT, throws=OUT, post=lambda c: [('that element', c.ret == c.o.i)], prop=['C16'])
con(L + 'begin()', TM, ret=AT, post=lambda c: [('first', c.ret == 0)] + LK.same(c.eng, c.o.this, c.n.this), prop=['C16'])
con(L + 'end()', TM, ret=AT, post=lambda c: [('behind the last', c.ret == c.o.this.size)] + LK.same(c.eng, c.o.this, c.n.this), prop=['C16'])
con(L + 'set(long, jm::String const&)', TM + [P('i', I64), P('s', TX)], throws=OUT, prop=['C16'],
    post=lambda c: [('size', c.n.this.size == c.o.this.size), ('only that element', c.all(lambda k: z3.Implies(z3.And(k >= 0, k < c.o.this.size), c.n.this[k] == z3.If(k == c.o.i, c.o.s, c.o.this[k])), lambda k: [c.n.this[k]]))])


def has(c):
    v = c.o.this
    E, w = c.ghost(('contains', v.ids, v.size, c.o.s), lambda: (z3.Const(fresh_name('contained'), z3.BoolSort()), z3.Const(fresh_name('containedAt'), INT)))
    return E, [z3.Implies(E, z3.And(w >= 0, w < v.size, v[w] == c.o.s)), c.all(lambda k: z3.Implies(z3.And(k >= 0, k < v.size, v[k] == c.o.s), E), lambda k: [v[k]])]


con(L + 'contains(jm::String const&) const', T + [P('s', TX)], ret=I1, specs=lambda c: has(c)[1], prop=['C16'],
    post=lambda c: ([('def', x) for x in has(c)[1]] if c.applying else []) + [('is one of the elements', c.ret == has(c)[0])])


# ---------------------------------------------------------------- remove: the elements that are not s, in order
def kept(c):
    v = c.o.this
    F = c.ghost(('kept', v.ids, c.o.s), lambda: z3.Function(fresh_name('keptBefore'), INT, INT))
    return F, [F(0) == 0, c.all(lambda k: z3.Implies(k >= 0, F(k + 1) == F(k) + z3.If(v[k] == c.o.s, 0, 1)), lambda k: [F(k), F(k + 1)]),
               c.all(lambda k: z3.Implies(k >= 0, z3.And(F(k) >= 0, F(k) <= k)), lambda k: [F(k)])]


def removed(c):
    v, n = c.o.this, c.n.this
    F, ax = kept(c)
    return ([('def', x) for x in ax] if c.applying else []) + \
        [('size', n.size == F(v.size)), ('the others in order', c.all(lambda k: z3.Implies(z3.And(k >= 0, k < v.size, v[k] != c.o.s), z3.And(F(k) < n.size, n[F(k)] == v[k])), lambda k: [v[k], F(k)]))]


def remove_loops(V):
    """at a loop head the first i of the m elements left are those kept of the first p = i + removed elements"""
    c = V.c
    v = c.o.this
    F, _ = kept(c)
    out = []
    xs = [(x, loc) for x, loc, part in V.H.consts if z3.is_int(x)]
    for rid, key, a in V.allarrays(64):
        if key != 0: continue
        for m, lm in xs:
            if lm[0] != 'fld': continue
            for i, li in xs:
                if li == lm: continue
                p = i + v.size - m
                out += [('bounds', z3.And(i >= 0, i <= m, m <= v.size)), ('filtered so far', F(p) == i),
                        ('not yet seen', c.all(lambda k: z3.Implies(z3.And(k >= i, k < m), Sel(a, k) == v[k + v.size - m]), lambda k: [Sel(a, k)])),
                        ('filtered in order', c.all(lambda k: z3.Implies(z3.And(k >= 0, k < p, v[k] != c.o.s), z3.And(F(k) < i, Sel(a, F(k)) == v[k])), lambda k: [v[k], F(k)]))]
    return out


con(L + 'remove(jm::String const&)', TM + [P('s', TX)], specs=lambda c: kept(c)[1], recs=lambda c: [kept(c)[0]], loops=remove_loops, post=removed, prop=['C16'], budget=300, attrs=dict(lazy_inner=True))


# ---------------------------------------------------------------- sort: a permutation in ascending order
def labels(c): return [c.all(lambda k: z3.Implies(z3.And(k >= 0, k < c.o.this.size), Sel(c.o.this.org, k) == k), lambda k: [Sel(c.o.this.org, k)])]


def perm(c, ids, org, n):
    """every element is an old element, no old element twice (org: where it comes from)"""
    v = c.o.this
    x, y = z3.Const(fresh_name('x'), INT), z3.Const(fresh_name('y'), INT)
    inr = lambda k: z3.And(k >= 0, k < n)
    return [('every element is an old one', c.all(lambda k: z3.Implies(inr(k), z3.And(inr(Sel(org, k)), Sel(ids, k) == v[Sel(org, k)])), lambda k: [Sel(org, k)])),
            ('every element is an old one', c.all(lambda k: z3.Implies(inr(k), z3.And(inr(Sel(org, k)), Sel(ids, k) == v[Sel(org, k)])), lambda k: [Sel(ids, k)])),
            ('none twice', Nested(x, [Sel(org, x)], ForAll(y, z3.Implies(z3.And(inr(x), inr(y), x != y), Sel(org, x) != Sel(org, y)), [Sel(org, y)])))]


def sorted_(c):
    n = c.n.this
    return [('size', n.size == c.o.this.size)] + perm(c, n.ids, n.org, n.size) + \
        [('ascending', c.all(lambda k: z3.Implies(z3.And(k >= 0, k + 1 < n.size), ORD(n[k]) <= ORD(n[k + 1])), lambda k: [n[k]]))]


def sort_loops(V):
    c = V.c
    n = c.o.this.size
    out = []
    A = {}
    for rid, key, a in V.allarrays(64): A.setdefault(rid, {})[key] = a
    xs = [x for x, loc, part in V.H.consts if z3.is_int(x)]
    for rid, d in A.items():
        if 0 not in d or 1 not in d: continue
        ids, org = d[0], d[1]
        out += perm(c, ids, org, n)
        le = lambda j, k: z3.Implies(z3.And(j >= 0, j < k), ORD(Sel(ids, j)) <= ORD(Sel(ids, k)))

        def tail(lo, hi):      # elements from lo on (before hi) are not less than any before them
            x, y = z3.Const(fresh_name('x'), INT), z3.Const(fresh_name('y'), INT)
            return Nested(x, [Sel(ids, x)], ForAll(y, z3.Implies(z3.And(x >= lo, x < hi, y >= 0, y < x), ORD(Sel(ids, y)) <= ORD(Sel(ids, x))), [Sel(ids, y)]))
        out += [('limit', z3.And(x >= 0, x <= n)) for x in xs] + [('limit', x >= 1) for x in xs]
        for x in xs + [sc for sc in outer(V, xs)]:
            out += [('rest is in place', tail(x, n))]
            for y in xs:
                if y.eq(x): continue
                out += [('rest is in place', tail(x, y + 1)), ('before', x <= y + 1)]
            out += [('largest so far', c.all(lambda k: z3.Implies(z3.And(k >= 0, k < x), ORD(Sel(ids, k)) <= ORD(Sel(ids, x))), lambda k: [Sel(ids, k)]))]
    return out


def outer(V, xs):
    """integer variables of the enclosing loop"""
    r = []
    for nm, v in V.fr.regs.items():
        if z3.is_expr(v) and z3.is_int(v) and v.num_args() == 0 and not z3.is_int_value(v) and not any(v.eq(x) for x in xs) and not any(v.eq(x) for x in r): r.append(v)
    return r[:4]


SKIP = ('class inv', 'history', 'unch', 'stored', 'kept', 'outside', 'g<=+', 'g>=')
con(L + 'sort()', TM, specs=labels, loops=sort_loops, post=sorted_, prop=['C16'], budget=400, attrs=dict(lazy_inner=True, skip=SKIP))


# ---------------------------------------------------------------- join
def mono():
    """the starts increase: induction step towards smaller k"""
    f, l = z3.Function('S_lemma', INT, INT), z3.Function('L_lemma', INT, INT)
    k, n = z3.Ints('k n')
    return [('start of a later element is not before an earlier one (step)', [k >= 0, k + 1 <= n, f(k + 1) == f(k) + l(k) + 1, l(k) >= 0, f(k + 1) <= f(n)], f(k) <= f(n)),
            ('starts are at least their index (step)', [k >= 0, f(k + 1) == f(k) + l(k) + 1, l(k) >= 0, f(k) >= k], f(k + 1) >= k + 1)]


LEMMAS = mono()


def starts(c):
    """S(k): where element k begins in the joined text"""
    v = c.o.this
    S = c.ghost(('start', v.ids), lambda: z3.Function(fresh_name('startOf'), INT, INT))
    return S, [S(0) == 0, c.all(lambda k: z3.Implies(k >= 0, S(k + 1) == S(k) + LEN(v[k]) + 1), lambda k: [S(k), S(k + 1)]),
               c.all(lambda k: z3.Implies(k >= 0, z3.And(LEN(v[k]) >= 0, S(k) >= k, z3.Implies(k <= v.size, S(k) <= S(v.size)))), lambda k: [S(k)])]


def joined(c, arr, n):
    """arr holds the first n elements with the divider between them"""
    v = c.o.this
    S, _ = starts(c)
    x, y = z3.Const(fresh_name('x'), INT), z3.Const(fresh_name('y'), INT)
    t = z3.Const(fresh_name('x'), INT)
    return [('characters of every element in place', Nested(x, [S(x)], ForAll(y, z3.Implies(z3.And(x >= 0, x < n, y >= 0, y < LEN(v[x])), Sel(arr, S(x) + y) == CHAR(v[x], y)), [CHAR(v[x], y)]))),
            ('divider between neighbours', ForAll(t, z3.Implies(z3.And(t >= 1, t < n), Sel(arr, S(t) - 1) == c.o.div), [S(t)]))]


def join_loops(V):
    c = V.c
    v = c.o.this
    S, _ = starts(c)
    out = []
    xs = [x for x, loc, part in V.H.consts if z3.is_int(x)]
    for i in xs:
        out += [('range', z3.And(i >= 0, i <= v.size)), ('ends before', c.all(lambda k: z3.Implies(z3.And(k >= 0, k < i), S(k) + LEN(v[k]) + 1 <= S(i)), lambda k: [S(k)]))]
        for x in xs:
            if x.eq(i): continue
            out += [('sum', x == v.size - 1 + S(i) - i), ('length', x == z3.If(i == 0, 0, S(i) - 1))]
        for rid, key, a in V.allarrays(2):
            if key == 0: out += joined(c, a, i)
    return out


con(L + 'join(jm::Char) const', T + [P('div', I16)], sret=Str, specs=lambda c: starts(c)[1], recs=lambda c: [starts(c)[0]], loops=join_loops, prop=['C16'], budget=300,
    pre=lambda c: [starts(c)[0](c.o.this.size) <= 1 << 44],
    post=lambda c: ([('def', x) for x in starts(c)[1]] if c.applying else []) + [('length', c.n.ret.len == z3.If(c.o.this.size == 0, 0, starts(c)[0](c.o.this.size) - 1))] + joined(c, c.n.ret.arr, c.o.this.size))
