"""Vectors and matrices (C25) over the mathematical reals."""
import itertools, os, z3
from contract import *
from smt import ForAll, Nested, fresh_name
import numeric
from numeric import RES, absr
from geom import Plain

REQUIRES = ['numeric']
SOURCES = ['src/core/Matrix.cpp', 'src/core/Vector.cpp', 'src/core/Vertex2.cpp', 'src/core/Vertex3.cpp']
HEADERS = []
CLASSES = {'Matrix': ('jm::Matrix', ['m', 'n', 'data']), 'Vector': ('jm::Vector', ['m', 'data']), 'Vertex2': ('jm::Vertex2', ['x', 'y']), 'Vertex3': ('jm::Vertex3', ['x', 'y', 'z'])}
C = []
INT, REAL = z3.IntSort(), z3.RealSort()
MAXD = 65535


def con(sig, params, **k):
    k.setdefault('prop', ['C25'])
    k.setdefault('fp', 'real')
    x = Contract(sig, params, **k)
    C.append(x)
    return x


# ---------------------------------------------------------------- vertices
V2, V3 = Plain('Vertex2', ['x', 'y'], 'xy'), Plain('Vertex3', ['x', 'y', 'z'], 'xyz')
W, X = 'jm::Vertex2::', 'jm::Vertex3::'


def is_v(v, *xs): return [(nm, getattr(v, nm) == x) for nm, x in zip('xyz', xs)]
def T(k, m='in'): return [P('this', k, m)]
def D(*n): return [P(x, F64) for x in n]
def near0(e): return absr(e) < RES
def dot(a, b, ns): return sum([getattr(a, n) * getattr(b, n) for n in ns[1:]], getattr(a, ns[0]) * getattr(b, ns[0]))
def each(f, ns): return tuple(f(n) for n in ns)
def length(c, name, r, e): return [(name, z3.And(r >= 0, r * r == e))]


class PairRet:
    """vertex returned in two registers"""
    def make_ret(self, eng, st, c): return tuple(z3.Const(fresh_name('ret_' + n), REAL) for n in 'xy')
    def view(self, eng, st, v): return View(x=v[0], y=v[1], bufs=[])
    def view_ret(self, eng, s, rv, cc): return self.view(eng, s, rv)
    def wf(self, eng, v): return []


con(W + 'Vertex2()', T(V2, 'out'), post=lambda c: is_v(c.n.this, 0, 0))
con(W + 'Vertex2(double, double)', T(V2, 'out') + D('x', 'y'), post=lambda c: is_v(c.n.this, c.o.x, c.o.y))
con(W + 'Vertex2(jm::Vertex3 const&)', T(V2, 'out') + [P('v', V3)], post=lambda c: is_v(c.n.this, c.o.v.x, c.o.v.y))
con(X + 'Vertex3(double, double, double)', T(V3, 'out') + D('x', 'y', 'z'), post=lambda c: is_v(c.n.this, c.o.x, c.o.y, c.o.z))
con(X + 'Vertex3(jm::Vertex3 const&)', T(V3, 'out') + [P('v', V3)], post=lambda c: is_v(c.n.this, c.o.v.x, c.o.v.y, c.o.v.z))
con(X + 'Vertex3(jm::Vertex2 const&, double)', T(V3, 'out') + [P('v', V2)] + D('z'), post=lambda c: is_v(c.n.this, c.o.v.x, c.o.v.y, c.o.z))
for cls, k, ns in ((W, V2, 'xy'), (X, V3, 'xyz')):
    nm = cls[4:11]
    R2 = cls == W       # returned in registers
    O = lambda n: [P(n, k)]

    def val(sig, params, f, ns=ns, R2=R2, **kw):
        if R2: con(sig, params, retfn=lambda c, f=f, ns=ns: each(lambda n: f(c, n), ns), **kw)
        else: con(sig, params, sret=V3, post=lambda c, f=f, ns=ns: [(n, getattr(c.n.ret, n) == f(c, n)) for n in ns], **kw)
    con(cls + 'dotProduct(jm::%s const&) const' % nm, T(k) + O('o'), ret=F64, alias=[('this', 'o')], post=lambda c, ns=ns: [('dot product', c.ret == dot(c.o.this, c.o.o, ns))])
    con(cls + 'abs() const', T(k), ret=F64, post=lambda c, ns=ns: length(c, 'length', c.ret, dot(c.o.this, c.o.this, ns)))
    con(cls + 'isOrthogonal(jm::%s const&) const' % nm, T(k) + O('o'), ret=I1, post=lambda c, ns=ns: [('no common direction', c.ret == near0(dot(c.o.this, c.o.o, ns)))])
    val(cls + 'scale(jm::%s const&) const' % nm, T(k) + O('o'), lambda c, n: getattr(c.o.this, n) * getattr(c.o.o, n))
    val(cls + 'operator/(double) const', T(k) + D('d'), lambda c, n: getattr(c.o.this, n) / c.o.d, pre=lambda c: [c.o.d != 0])
    for op, f in (('+', lambda a, b: a + b), ('-', lambda a, b: a - b)):
        con(cls + 'operator%s=(jm::%s const&)' % (op, nm), T(k, 'mut') + O('o'), ret='arg:this', alias=[('this', 'o')], post=lambda c, ns=ns, f=f: [(n, getattr(c.n.this, n) == f(getattr(c.o.this, n), getattr(c.o.o, n))) for n in ns])
        if R2: val('jm::operator%s(jm::Vertex2 const&, jm::Vertex2 const&)' % op, [P('a', k), P('b', k)], lambda c, n, f=f: f(getattr(c.o.a, n), getattr(c.o.b, n)))
        else: val(X + 'operator%s(jm::Vertex3 const&) const' % op, T(k) + O('b'), lambda c, n, f=f: f(getattr(c.o.this, n), getattr(c.o.b, n)))
    val('jm::operator*(double, jm::%s const&)' % nm, D('d') + O('v'), lambda c, n: c.o.d * getattr(c.o.v, n))
    val('jm::operator*(jm::%s const&, double)' % nm, O('v') + D('d'), lambda c, n: c.o.d * getattr(c.o.v, n))
    con('jm::operator==(jm::%s const&, jm::%s const&)' % (nm, nm), [P('a', k), P('b', k)], ret=I1, post=lambda c, ns=ns: [('equal members', c.ret == z3.And([near0(getattr(c.o.a, n) - getattr(c.o.b, n)) for n in ns]))])
    con('jm::operator!=(jm::%s const&, jm::%s const&)' % (nm, nm), [P('a', k), P('b', k)], ret=I1, post=lambda c, ns=ns: [('a different member', c.ret == z3.Not(z3.And([near0(getattr(c.o.a, n) - getattr(c.o.b, n)) for n in ns])))])

    def L(c, o, cls=cls, ns=ns):
        """length of a vertex"""
        l = c.ghost(('len', cls) + tuple(getattr(o, m) for m in ns), lambda: z3.Const(fresh_name('length'), REAL))
        return l, [l >= 0, l * l == dot(o, o, ns)]

    def unit(c, n, ns=ns, L=L):
        l, ax = L(c, c.o.this)
        return ([('def', x) for x in ax] if c.applying else []) + [('unit vector ' + m, z3.If(l < RES, getattr(n, m) == getattr(c.o.this, m), getattr(n, m) * l == getattr(c.o.this, m))) for m in ns]
    ln = lambda c, L=L: L(c, c.o.this)[1]
    con(cls + 'normalize()', T(k, 'mut'), ret='arg:this', specs=ln, post=lambda c, unit=unit: unit(c, c.n.this))
    if R2: con(cls + 'normalized() const', T(k), ret=PairRet(), specs=ln, post=lambda c, unit=unit: unit(c, c.ret))
    else: con(cls + 'normalized() const', T(k), sret=V3, specs=ln, post=lambda c, unit=unit: unit(c, c.n.ret))

con(X + 'crossProduct(jm::Vertex3 const&) const', T(V3) + [P('o', V3)], sret=V3, alias=[('this', 'o')], post=lambda c: is_v(c.n.ret, c.o.this.y * c.o.o.z - c.o.this.z * c.o.o.y, c.o.this.z * c.o.o.x - c.o.this.x * c.o.o.z, c.o.this.x * c.o.o.y - c.o.this.y * c.o.o.x))
con(X + 'operator=(jm::Vertex3 const&)', T(V3, 'mut') + [P('o', V3)], alias=[('this', 'o')], ret='arg:this', post=lambda c: is_v(c.n.this, c.o.o.x, c.o.o.y, c.o.o.z))
con(X + 'isNull() const', T(V3), ret=I1, post=lambda c: [('all members vanish', c.ret == z3.And([near0(getattr(c.o.this, n)) for n in 'xyz']))])
con(X + 'biggest() const', T(V3), ret=F64, post=lambda c: [('one of the members', z3.Or([c.ret == getattr(c.o.this, n) for n in 'xyz'])), ('no member is larger', z3.And([c.ret >= getattr(c.o.this, n) for n in 'xyz']))])
con(W + 'crossProduct(jm::Vertex2 const&) const', T(V2) + [P('o', V2)], ret=F64, post=lambda c: [('cross product', c.ret == c.o.this.x * c.o.o.y - c.o.this.y * c.o.o.x)])
con(W + 'isCollinear(jm::Vertex2 const&) const', T(V2) + [P('o', V2)], ret=I1, post=lambda c: [('cross product vanishes', c.ret == near0(c.o.this.x * c.o.o.y - c.o.this.y * c.o.o.x))])
con(W + 'isRightTo(jm::Vertex2 const&) const', T(V2) + [P('o', V2)], ret=I1, post=lambda c: [('clockwise from the other', c.ret == (c.o.this.x * c.o.o.y - c.o.this.y * c.o.o.x > 0))])
con(W + 'isLeftTo(jm::Vertex2 const&) const', T(V2) + [P('o', V2)], ret=I1, post=lambda c: [('counterclockwise from the other', c.ret == (c.o.this.x * c.o.o.y - c.o.this.y * c.o.o.x < 0))])


# ---------------------------------------------------------------- storage of real numbers
class RealsK(ObjK):
    hdr = False
    buf, esz, nullbuf = 'data', 8, True

    def elsort(self, eng): return REAL

    def view_extra(self, eng, st, p, v):
        a = v.arr
        v.at = lambda k: z3.Select(a, k)


class VecK(RealsK):
    cls = 'Vector'
    scal = (('m', 64),)

    def wf(self, eng, v): return [v.m >= 0, v.m <= 1 << 32] + ([v.m == 0] if v.isnull else [v.bufn == v.m])

    def length(self, eng, v): return v.m


class MatK(RealsK):
    cls = 'Matrix'
    scal = (('m', 64), ('n', 64))

    def view_extra(self, eng, st, p, v):
        RealsK.view_extra(self, eng, st, p, v)
        v.g = lambda i, j: v.at(i + j * v.m)

    def wf(self, eng, v): return [v.m >= 0, v.n >= 0, v.m <= MAXD, v.n <= MAXD, v.m * v.n >= 0, v.m * v.n <= MAXD * MAXD] + ([v.m * v.n == 0] if v.isnull else [v.bufn == v.m * v.n])

    def length(self, eng, v): return v.m * v.n


VC, MX = VecK(), MatK()
CELL = CellK(fp='double')


# ---------------------------------------------------------------- vectors
def vec(c, v, n, f): return [('rows', v.m == n), ('elements', c.all(lambda k: z3.Implies(z3.And(k >= 0, k < n), v.at(k) == f(k)), lambda k: [v.at(k)]))]


def upto(c, arr, i, f): return c.all(lambda k: z3.Implies(z3.And(k >= 0, k < i), z3.Select(arr, k) == f(k)), lambda k: [z3.Select(arr, k)])


def uns(i): return z3.If(i < 0, i + (1 << 32), i)      # value of a 32 bit counter


def elem_loops(*fs):
    """elements before the counter have their final value"""
    def loops(V):
        c, out = V.c, []
        for rid, key, a in V.allarrays(8):
            if not z3.is_real(z3.Select(a, 0)): continue
            for i, i0, loc in V.scal():
                if z3.is_int(i):
                    for f in fs:
                        for u in (i, uns(i)): out.append(('elements so far', upto(c, a, u, lambda k: f(c, k))))
        return out
    return loops


def rest_loops(f, g=None):
    """elements before the counter have their final value, the others their first"""
    base = elem_loops(f)
    def loops(V):
        c, out = V.c, base(V)
        for rid, key, a in V.allarrays(8):
            if not z3.is_real(z3.Select(a, 0)): continue
            for i, i0, loc in V.scal():
                if z3.is_int(i): out.append(('others unchanged', c.all(lambda k: z3.Implies(k >= i, z3.Select(a, k) == c.o.this.at(k)), lambda k: [z3.Select(a, k)])))
        return out
    return loops


U = 'jm::Vector::'
con(U + 'Vector()', T(VC, 'out'), post=lambda c: [('empty', c.n.this.m == 0)])
con(U + 'Vector(long)', T(VC, 'out') + [P('n', I64)], pre=lambda c: [c.o.n >= 0, c.o.n <= 1 << 32], loops=elem_loops(lambda c, k: z3.RealVal(0)), post=lambda c: vec(c, c.n.this, c.o.n, lambda k: 0))
con(U + 'Vector(jm::Vector const&)', T(VC, 'out') + [P('o', VC)], loops=elem_loops(lambda c, k: c.o.o.at(k)), post=lambda c: vec(c, c.n.this, c.o.o.m, lambda k: c.o.o.at(k)))
con(U + '~Vector()', T(VC, 'dead'))
con(U + 'zeros()', T(VC, 'mut'), loops=elem_loops(lambda c, k: z3.RealVal(0)), post=lambda c: vec(c, c.n.this, c.o.this.m, lambda k: 0))
con(U + 'ones()', T(VC, 'mut'), loops=elem_loops(lambda c, k: z3.RealVal(1)), post=lambda c: vec(c, c.n.this, c.o.this.m, lambda k: 1))
con(U + 'operator=(jm::Vector const&)', T(VC, 'mut') + [P('o', VC)], alias=[('this', 'o')], ret='arg:this', loops=elem_loops(lambda c, k: c.o.o.at(k)), post=lambda c: vec(c, c.n.this, c.o.o.m, lambda k: c.o.o.at(k)))
for op, f in (('+', lambda a, b: a + b), ('-', lambda a, b: a - b)):
    con('jm::operator%s(jm::Vector const&, jm::Vector const&)' % op, [P('a', VC), P('b', VC)], sret=VC, alias=[('a', 'b')], throws=lambda c: c.o.a.m != c.o.b.m, loops=elem_loops(lambda c, k, f=f: f(c.o.a.at(k), c.o.b.at(k))),
        post=lambda c, f=f: vec(c, c.n.ret, c.o.a.m, lambda k: f(c.o.a.at(k), c.o.b.at(k))))
con('jm::operator*(double const&, jm::Vector const&)', [P('d', CELL), P('v', VC)], sret=VC, loops=elem_loops(lambda c, k: c.o.d.val * c.o.v.at(k)), post=lambda c: vec(c, c.n.ret, c.o.v.m, lambda k: c.o.d.val * c.o.v.at(k)))


def partial(c, key, term, n=None):
    """S(k) = term(0) + ... + term(k - 1)"""
    S = c.ghost(('sum',) + key, lambda: z3.Function(fresh_name('sumTo'), INT, REAL))
    return S, [S(0) == 0, c.all(lambda k: z3.Implies(k >= 0, S(k + 1) == S(k) + term(k)), lambda k: [S(k), S(k + 1)])]


def sum_loops(get):
    def loops(V):
        c, out = V.c, []
        S = get(c)[0]
        vs = [x for x, loc, part in V.H.consts]
        for i in vs:
            if z3.is_int(i): out += [('sum so far', x == S(i)) for x in vs if z3.is_real(x)]
        out += [('not negative', x >= 0) for x in vs if z3.is_real(x)]
        return out
    return loops


def dots(c): return partial(c, ('dot', c.o.this.arr, c.o.o.arr), lambda k: c.o.this.at(k) * c.o.o.at(k))
def squares(c): return partial(c, ('sq', c.o.this.arr), lambda k: c.o.this.at(k) * c.o.this.at(k))
def summed(get): return dict(specs=lambda c: get(c)[1], recs=lambda c: [get(c)[0]], loops=sum_loops(get))


con(U + 'dotProduct(jm::Vector const&) const', T(VC) + [P('o', VC)], ret=F64, alias=[('this', 'o')], pre=lambda c: [c.o.this.m <= c.o.o.m], post=lambda c: [('sum of the products', c.ret == dots(c)[0](c.o.this.m))], **summed(dots))
con(U + 'abs() const', T(VC), ret=F64, post=lambda c: [('def', x) for x in squares(c)[1] if c.applying] + length(c, 'length', c.ret, squares(c)[0](c.o.this.m)), **summed(squares))
POS = [('squares do not sum to less than nothing (step)', [z3.Real('s') >= 0], z3.Real('s') + z3.Real('x') * z3.Real('x') >= 0)]


def unit_vec(c):
    o = c.o.this
    S, ax = squares(c)
    l = c.ghost(('len', o.arr), lambda: z3.Const(fresh_name('length'), REAL))
    return l, ax + [l > 0, l * l == S(o.m)], lambda n: vec(c, n, o.m, lambda k: o.at(k) / l)


# ---------------------------------------------------------------- matrices
M = 'jm::Matrix::'
DIM = lambda *ns: [z3.And(n >= 0, n <= MAXD) for n in ns]
inside = lambda c, m: [('inside', z3.And(c.o.i >= 0, c.o.i < m.m, c.o.j >= 0, c.o.j < m.n))]
IJ = [P('i', I64), P('j', I64)]


def flat(c, v, m, n, f):
    """dimensions and every element by its place in the storage"""
    return [('rows', v.m == m), ('columns', v.n == n), ('elements', c.all(lambda k: z3.Implies(z3.And(k >= 0, k < m * n), v.at(k) == f(k)), lambda k: [v.at(k)]))]


def copied(c, v, o): return flat(c, v, o.m, o.n, o.at)
def stored(c, v, m, n, f):
    """the same for callers"""
    if not c.applying: return entries(v, m, n, f)
    a = z3.Const(fresh_name('base'), v.arr.sort())
    for i in range(m):
        for j in range(n): a = z3.Store(a, i + j * m, f(i, j))
    return [('rows', v.m == m), ('columns', v.n == n), ('def', v.arr == a)]


def entries(v, m, n, f):
    """small matrix, element by element"""
    return [('rows', v.m == m), ('columns', v.n == n)] + [('element %d,%d' % (i, j), v.at(i + j * m) == f(i, j)) for i in range(m) for j in range(n)]


con(M + 'Matrix()', T(MX, 'out'), post=lambda c: [('empty', z3.And(c.n.this.m == 0, c.n.this.n == 0))])
con(M + 'Matrix(double)', T(MX, 'out') + D('x'), post=lambda c: entries(c.n.this, 1, 1, lambda i, j: c.o.x))
con(M + 'Matrix(long, long)', T(MX, 'out') + IJ, pre=lambda c: DIM(c.o.i, c.o.j), loops=elem_loops(lambda c, k: z3.RealVal(0)), post=lambda c: flat(c, c.n.this, c.o.i, c.o.j, lambda k: 0))
con(M + 'Matrix(jm::Matrix const&)', T(MX, 'out') + [P('o', MX)], alias=[('null', 'o')], loops=elem_loops(lambda c, k: c.o.o.at(k)), post=lambda c: copied(c, c.n.this, c.o.o))
con(M + 'Matrix(jm::Matrix const*)', T(MX, 'out') + [P('o', MX)], alias=[('null', 'o')], loops=elem_loops(lambda c, k: c.o.o.at(k)), post=lambda c: copied(c, c.n.this, c.o.o))
con(M + 'Matrix(jm::Vertex3 const&, jm::Vertex3 const&, jm::Vertex3 const&, bool)', T(MX, 'out') + [P(n, V3) for n in 'abc'] + [P('rows', I1)],
    post=lambda c: entries(c.n.this, 3, 3, lambda i, j: z3.If(c.o.rows, getattr(getattr(c.o, 'abc'[i]), 'xyz'[j]), getattr(getattr(c.o, 'abc'[j]), 'xyz'[i]))))
con(M + '~Matrix()', T(MX, 'dead'), alias=[('null', 'this')])
con(M + 'operator=(jm::Matrix const&)', T(MX, 'mut') + [P('o', MX)], alias=[('this', 'o'), ('null', 'this'), ('null', 'o')], ret='arg:this', loops=elem_loops(lambda c, k: c.o.o.at(k)), post=lambda c: copied(c, c.n.this, c.o.o))
con(M + 'zeros()', T(MX, 'mut'), alias=[('null', 'this')], loops=elem_loops(lambda c, k: z3.RealVal(0)), post=lambda c: flat(c, c.n.this, c.o.this.m, c.o.this.n, lambda k: 0) + [('def', z3.Implies(c.o.this.m * c.o.this.n > k, c.n.this.at(k) == 0)) for k in range(16) if c.applying])
con(M + 'get(long, long) const', T(MX) + IJ, pre=lambda c: inside(c, c.o.this), retfn=lambda c: c.o.this.g(c.o.i, c.o.j))
for nm, f in (('set', lambda x, y: y), ('add', lambda x, y: x + y)):
    con(M + nm + '(long, long, double)', T(MX, 'mut') + IJ + D('x'), pre=lambda c: inside(c, c.o.this), post=lambda c, f=f: [('rows', c.n.this.m == c.o.this.m), ('columns', c.n.this.n == c.o.this.n), ('elements', c.n.this.arr == z3.Store(c.o.this.arr, c.o.i + c.o.j * c.o.this.m, f(c.o.this.g(c.o.i, c.o.j), c.o.x)))])
con(U + 'normalize()', T(VC, 'mut'), pre=lambda c: [('some element is not zero', unit_vec(c)[0] > 0)], specs=lambda c: unit_vec(c)[1], recs=lambda c: [squares(c)[0]],
    loops=rest_loops(lambda c, k: c.o.this.at(k) / unit_vec(c)[0]), post=lambda c: unit_vec(c)[2](c.n.this))

# ---- one arbitrary element stands for all of them
def cell(c, m, n):
    i, j = c.ghost(('cell', str(m), str(n)), lambda: (z3.Const(fresh_name('I'), INT), z3.Const(fresh_name('J'), INT)))
    return i, j, [z3.Implies(z3.And(m > 0, n > 0), z3.And(i >= 0, j >= 0, i < m, j < n))]


def if_any(m, n, f): return z3.Implies(z3.And(m > 0, n > 0), f)


def ints(V):
    """counters: of the loop itself, of the enclosing loops"""
    loop = lambda v: z3.is_expr(v) and z3.is_int(v) and v.num_args() == 0 and str(v).startswith('h')
    xs, ys = [x for x, loc, part in V.H.consts if loop(x)], []
    for nm, v in V.fr.regs.items():
        if loop(v) and not any(v.eq(x) for x in xs + ys): ys.append(v)
    return xs[:3], ys[:4]


def passed(V, i, j):
    """ways to say that row i and column j are done"""
    xs, ys = ints(V)
    out = [i < x for x in xs] + [j < x for x in xs]
    for x in xs:
        for y in ys: out += [z3.Or(i < y, z3.And(i == y, j < x)), z3.Or(j < y, z3.And(j == y, i < x))]
    return out


def cell_loops(idx, val, dim, before=None, part=None):
    """the chosen element is final when its row and column have been passed, untouched before"""
    def loops(V):
        c, out = V.c, []
        (k, i, j), v = idx(c), val(c)
        m, n = dim(c)
        xs, ys = ints(V)
        for rid, key, a in V.allarrays(8):
            if not z3.is_real(z3.Select(a, 0)) or any(a.eq(getattr(c.o, x).arr) for x in ('a', 'b') if hasattr(c.o, x)): continue
            e = z3.Select(a, k)
            for d in passed(V, i, j): out.append(('element so far', if_any(m, n, z3.Implies(d, e == v))))
            if before is not None: out += [('untouched', if_any(m, n, z3.Implies(z3.Not(d), e == before(c)))) for d in passed(V, i, j)]
            if part is None: continue
            for z in xs:
                for x in ys:
                    for y in ys:
                        if x.eq(y): continue
                        here = z3.And(i == x, j == y)
                        out.append(('partial sum', if_any(m, n, z3.Implies(here, e == part(c, z)))))
                        for d in (z3.Or(i < x, z3.And(i == x, j < y)), z3.Or(j < y, z3.And(j == y, i < x))): out += [('element so far', if_any(m, n, z3.Implies(d, e == v))), ('untouched', if_any(m, n, z3.Implies(z3.Not(z3.Or(d, here)), e == before(c))))]
        return out
    return loops


def trans_idx(c):
    i, j, ax = cell(c, c.o.this.n, c.o.this.m)
    return i + j * c.o.this.n, i, j


con(M + 'transpose()', T(MX, 'mut'), specs=lambda c: cell(c, c.o.this.n, c.o.this.m)[2], loops=cell_loops(trans_idx, lambda c: c.o.this.g(trans_idx(c)[2], trans_idx(c)[1]), lambda c: (c.o.this.m, c.o.this.n)),
    post=lambda c: [('rows', c.n.this.m == c.o.this.n), ('columns', c.n.this.n == c.o.this.m), ('elements', if_any(c.o.this.m, c.o.this.n, c.n.this.at(trans_idx(c)[0]) == c.o.this.g(trans_idx(c)[2], trans_idx(c)[1])))])

# ---- parts, diagonal, trace
def low(a, b): return z3.If(a < b, a, b)


def insert_post(c, r, q):
    o, a = c.o.this, c.o.A
    i, j, ax = cell(c, o.m, o.n)
    hit = z3.And(i >= r, i - r < a.m, j >= q, j - q < a.n)
    return i, j, z3.If(hit, a.g(i - r, j - q), o.g(i, j))


def insert_loops(get):
    def loops(V):
        c, out = V.c, []
        i, j, fin = get(c)
        m, n = c.o.this.m, c.o.this.n
        r, q = (c.o.r, c.o.q) if hasattr(c.o, 'r') else (0, 0)
        for rid, key, a in V.allarrays(8):
            if not z3.is_real(z3.Select(a, 0)): continue
            for d in passed(V, i - r, j - q): out.append(('element so far', if_any(m, n, z3.Select(a, i + j * m) == z3.If(d, fin, c.o.this.g(i, j)))))
        return out
    return loops


def part(get): return dict(specs=lambda c: cell(c, c.o.this.m, c.o.this.n)[2], loops=insert_loops(get), post=lambda c: [('rows', c.n.this.m == c.o.this.m), ('columns', c.n.this.n == c.o.this.n), ('elements', if_any(c.o.this.m, c.o.this.n, c.n.this.g(*get(c)[:2]) == get(c)[2]))])


con(M + 'insert(jm::Matrix const&)', T(MX, 'mut') + [P('A', MX)], **part(lambda c: insert_post(c, 0, 0)))
con(M + 'insert(jm::Matrix const&, long, long)', T(MX, 'mut') + [P('A', MX), P('r', I64), P('q', I64)], pre=lambda c: [c.o.r >= 0, c.o.q >= 0], **part(lambda c: insert_post(c, c.o.r, c.o.q)))


def diag_elem(c):
    i, j, ax = cell(c, c.o.this.m, c.o.this.n)
    return i, j, z3.If(i == j, c.o.value, c.o.this.g(i, j))


def diag_loops(V):
    c, out = V.c, []
    i, j, fin = diag_elem(c)
    for rid, key, a in V.allarrays(8):
        if not z3.is_real(z3.Select(a, 0)): continue
        for x in ints(V)[0]: out.append(('element so far', if_any(c.o.this.m, c.o.this.n, z3.Select(a, i + j * c.o.this.m) == z3.If(i < x, fin, c.o.this.g(i, j)))))
    return out


def diag_flat(c):
    o = c.o.this
    return [('rows', c.n.this.m == o.m), ('columns', c.n.this.n == o.n)]


def square4(c, f):
    """all elements of a 4x4 matrix"""
    o, n = c.o.this, c.n.this
    return [('element %d,%d of a 4x4 matrix' % (i, j), z3.Implies(z3.And(o.m == 4, o.n == 4), n.at(i + 4 * j) == f(i, j))) for i in range(4) for j in range(4)]


con(M + 'diag(double)', T(MX, 'mut') + D('value'), alias=[('null', 'this')], specs=lambda c: cell(c, c.o.this.m, c.o.this.n)[2], loops=diag_loops,
    post=lambda c: diag_flat(c) + ([] if c.applying else [('elements', if_any(c.o.this.m, c.o.this.n, c.n.this.g(*diag_elem(c)[:2]) == diag_elem(c)[2]))]) + ([('def', z3.Implies(z3.And(c.o.this.m == 4, c.o.this.n == 4), c.n.this.at(i + 4 * j) == (c.o.value if i == j else c.o.this.at(i + 4 * j)))) for i in range(4) for j in range(4)] if c.applying else []))
def traces(c): return partial(c, ('trace', c.o.this.arr), lambda k: c.o.this.at(k * (c.o.this.m + 1)))
con(M + 'trace() const', T(MX), ret=F64, post=lambda c: [('sum of the diagonal', c.ret == traces(c)[0](low(c.o.this.m, c.o.this.n)))], **summed(traces))

# ---- operators
for op, f in (('+', lambda a, b: a + b), ('-', lambda a, b: a - b)):
    def both(c, f=f):
        i, j, ax = cell(c, c.o.a.m, c.o.a.n)
        return (i + j * c.o.a.m, i, j), f(c.o.a.g(i, j), c.o.b.g(i, j))
    con('jm::operator%s(jm::Matrix const&, jm::Matrix const&)' % op, [P('a', MX), P('b', MX)], sret=MX, alias=[('a', 'b')], throws=lambda c: z3.Or(c.o.a.m != c.o.b.m, c.o.a.n != c.o.b.n), specs=lambda c: cell(c, c.o.a.m, c.o.a.n)[2],
        loops=cell_loops(lambda c, both=both: both(c)[0], lambda c, both=both: both(c)[1], lambda c: (c.o.a.m, c.o.a.n)), post=lambda c, both=both: [('rows', c.n.ret.m == c.o.a.m), ('columns', c.n.ret.n == c.o.a.n), ('elements', if_any(c.o.a.m, c.o.a.n, c.n.ret.at(both(c)[0][0]) == both(c)[1]))])
SC = lambda c, k: c.o.d.val * c.o.a.at(k)
con('jm::operator*(double const&, jm::Matrix const&)', [P('d', CELL), P('a', MX)], sret=MX, loops=elem_loops(SC), post=lambda c: flat(c, c.n.ret, c.o.a.m, c.o.a.n, lambda k: SC(c, k)))
con('jm::operator*(jm::Matrix const&, double const&)', [P('a', MX), P('d', CELL)], sret=MX, post=lambda c: flat(c, c.n.ret, c.o.a.m, c.o.a.n, lambda k: SC(c, k)))
DV = lambda c, k: c.o.a.at(k) / c.o.d.val
con('jm::operator/(jm::Matrix const&, double const&)', [P('a', MX), P('d', CELL)], sret=MX, pre=lambda c: [c.o.d.val != 0], loops=elem_loops(DV), post=lambda c: flat(c, c.n.ret, c.o.a.m, c.o.a.n, lambda k: DV(c, k)))


def prod(c):
    """sums of the products of the chosen row and the chosen column"""
    a, b = c.o.a, c.o.b
    i, j, ax = cell(c, a.m, b.n)
    S, sax = partial(c, ('prod', a.arr, b.arr), lambda k: a.g(i, k) * b.g(k, j))
    return i, j, S, ax + sax


con('jm::operator*(jm::Matrix const&, jm::Matrix const&)', [P('a', MX), P('b', MX)], sret=MX, alias=[('a', 'b')], throws=lambda c: c.o.a.n != c.o.b.m, specs=lambda c: prod(c)[3], recs=lambda c: [prod(c)[2]], budget=400, attrs=dict(lazy_inner=True, skip=('class inv', 'history', 'unch', 'stored', 'kept', 'outside', 'g<=+', 'g<=|', 'ge-init m', 'le-init m')),
    loops=cell_loops(lambda c: (prod(c)[0] + prod(c)[1] * c.o.a.m, prod(c)[0], prod(c)[1]), lambda c: prod(c)[2](c.o.a.n), lambda c: (c.o.a.m, c.o.b.n), lambda c: z3.RealVal(0), lambda c, z: prod(c)[2](z)),
    post=lambda c: [('rows', c.n.ret.m == c.o.a.m), ('columns', c.n.ret.n == c.o.b.n), ('elements', if_any(c.o.a.m, c.o.b.n, c.n.ret.g(prod(c)[0], prod(c)[1]) == prod(c)[2](c.o.a.n)))])


# ---- matrix times vector
def rows_sum(c):
    """S(i, k) = sum of the first k products of row i"""
    a, v = c.o.a, c.o.v
    S = c.ghost(('rowsum', a.arr, v.arr), lambda: z3.Function(fresh_name('rowSum'), INT, INT, REAL))
    i = c.ghost(('row', a.arr, v.arr), lambda: z3.Const(fresh_name('I'), INT))
    ax = [c.all(lambda k: S(k, 0) == 0, lambda k: [S(k, 0)])]
    if c.applying:          # only asked for a row of four
        return S, i, ax + [z3.Implies(a.n == 4, z3.And([S(r, 4) == sum([v.at(q) * a.at(r + q * a.m) for q in range(1, 4)], v.at(0) * a.at(r)) for r in range(3)]))]
    P = lambda k: S(i, k)
    return S, i, [z3.Implies(a.m > 0, z3.And(i >= 0, i < a.m)), S(i, 0) == 0, c.all(lambda k: z3.Implies(k >= 0, S(i, k + 1) == S(i, k) + v.at(k) * a.g(i, k)), lambda k: [S(i, k), S(i, k + 1)])]


def row_loops(V):
    c, out = V.c, []
    S, i, ax = rows_sum(c)
    xs, ys = ints(V)
    ok = lambda f: z3.Implies(c.o.a.m > 0, f)
    for rid, key, arr in V.allarrays(8):
        if not z3.is_real(z3.Select(arr, 0)) or arr.eq(c.o.a.arr) or arr.eq(c.o.v.arr): continue
        e = z3.Select(arr, i)
        out += [('row so far', ok(z3.Implies(i < x, e == S(i, c.o.a.n)))) for x in xs + ys] + [('partial sum', ok(z3.Implies(i == y, e == S(i, x)))) for y in ys for x in xs]
    return out


con('jm::operator*(jm::Matrix const&, jm::Vector const&)', [P('a', MX), P('v', VC)], sret=VC, throws=lambda c: c.o.a.n != c.o.v.m, specs=lambda c: rows_sum(c)[2], loops=row_loops, attrs=dict(lazy_inner=True),
    post=lambda c: [('rows', c.n.ret.m == c.o.a.m)] + ([('elements', z3.Implies(c.o.a.m > 0, c.n.ret.at(rows_sum(c)[1]) == rows_sum(c)[0](rows_sum(c)[1], c.o.a.n)))] if not c.applying else
        [('def', x) for x in rows_sum(c)[2]] + [('def', z3.Implies(c.o.a.m > r, c.n.ret.at(r) == rows_sum(c)[0](r, c.o.a.n))) for r in range(3)]))
A3 = lambda c, r: c.o.a.at(r) * c.o.v.x + c.o.a.at(r + 3) * c.o.v.y + c.o.a.at(r + 6) * c.o.v.z
con('jm::operator*(jm::Matrix const&, jm::Vertex3 const&)', [P('a', MX), P('v', V3)], sret=V3, throws=lambda c: z3.Or(c.o.a.m != 3, c.o.a.n != 3), post=lambda c: is_v(c.n.ret, A3(c, 0), A3(c, 1), A3(c, 2)))
con(M + 'trans(jm::Vertex3 const&) const', T(MX) + [P('v', V3)], sret=V3, pre=lambda c: [c.o.this.m >= 3, c.o.this.m * c.o.this.n <= MAXD], throws=lambda c: c.o.this.n != 4,
    post=lambda c: is_v(c.n.ret, *[sum([c.o.this.at(r + c.o.this.m * q) * getattr(c.o.v, 'xyz'[q]) for q in range(3)], c.o.this.at(r + c.o.this.m * 3)) for r in range(3)]))


# ---- determinant, inverse
def sign(p): return -1 if sum(1 for a in range(len(p)) for b in range(a) if p[b] > p[a]) % 2 else 1


def prods(xs):
    r = xs[0]
    for x in xs[1:]: r = r * x
    return r


def leibniz(k, e):
    """determinant by the formula of Leibniz"""
    return sum([sign(p) * prods([e(i, p[i]) for i in range(k)]) for p in itertools.permutations(range(k))][1:], prods([e(i, i) for i in range(k)])) if k else z3.RealVal(1)


def cofactor(k, e, i, j):
    """entry (i, j) of the adjugate: signed minor without row j and column i"""
    rs, cs = [r for r in range(k) if r != j], [q for q in range(k) if q != i]
    return (-1 if (i + j) % 2 else 1) * (leibniz(k - 1, lambda a, b: e(rs[a], cs[b])) if k > 1 else z3.RealVal(1))


OK, ERR = 1, 2
def elem(v, k): return lambda i, j: v.at(i + j * k)
def of_size(v, k): return z3.And(v.m == k, v.n == k)
def regular_size(v): return z3.And(v.m == v.n, v.m >= 1, v.m <= 4)


con(M + 'det(double&) const', T(MX) + [P('det', CELL, 'mut')], ret=I32, post=lambda c: [('status', c.ret == z3.If(regular_size(c.o.this), OK, ERR)), ('unchanged without determinant', z3.Implies(z3.Not(regular_size(c.o.this)), c.n.det.val == c.o.det.val))]
    + [('determinant of a %dx%d matrix' % (k, k), z3.Implies(of_size(c.o.this, k), c.n.det.val == leibniz(k, elem(c.o.this, k)))) for k in range(1, 5)])


def inv_ghost(c):
    d, t = c.ghost(('det', c.o.this.arr), lambda: (z3.Const(fresh_name('DET'), REAL), z3.Const(fresh_name('INV'), REAL)))
    return d, t, [z3.Implies(of_size(c.o.this, k), d == leibniz(k, elem(c.o.this, k))) for k in range(1, 5)] + [z3.Implies(regular_size(c.o.this), t * d == 1)]


con(M + 'inverse()', T(MX, 'mut'), ret=I32, pre=lambda c: [('regular', z3.Implies(of_size(c.o.this, k), leibniz(k, elem(c.o.this, k)) != 0)) for k in range(1, 5)], specs=lambda c: inv_ghost(c)[2],
    post=lambda c: [('status', c.ret == z3.If(regular_size(c.o.this), OK, ERR)), ('rows', c.n.this.m == c.o.this.m), ('columns', c.n.this.n == c.o.this.n)]
    + [('element %d,%d of the inverse of a %dx%d matrix' % (i, j, k, k), z3.Implies(of_size(c.o.this, k), c.n.this.at(i + j * k) == cofactor(k, elem(c.o.this, k), i, j) * inv_ghost(c)[1])) for k in range(1, 5) for i in range(k) for j in range(k)]
    + [('others keep their elements', z3.Implies(z3.Not(regular_size(c.o.this)), c.n.this.arr == c.o.this.arr))])


def adjugate():
    """matrix times adjugate is the determinant times the identity"""
    out = []
    for k in range(1, 5):
        a = [[z3.Real('a%d%d' % (i, j)) for j in range(k)] for i in range(k)]
        e = lambda i, j: a[i][j]
        D = leibniz(k, e)
        for i in range(k):
            for j in range(k):
                out.append(('%dx%d matrix times its adjugate (%d,%d)' % (k, k, i, j), [], sum([e(i, q) * cofactor(k, e, q, j) for q in range(1, k)], e(i, 0) * cofactor(k, e, 0, j)) == (D if i == j else 0)))
    s, d, t = z3.Reals('s d t')
    co, si, x, y = z3.Reals('c s x y')
    return out + [('adjugate divided by the determinant is the inverse (diagonal)', [s == d, t * d == 1], s * t == 1), ('adjugate divided by the determinant is the inverse (others)', [s == 0, t * d == 1], s * t == 0),
                  ('rotation keeps the length', [co * co + si * si == 1], (x * co - y * si) * (x * co - y * si) + (x * si + y * co) * (x * si + y * co) == x * x + y * y)]


LEMMAS = POS + adjugate()

# ---- rotations, transformations
LC, LS = z3.Function('libm_cos', REAL, REAL), z3.Function('libm_sin', REAL, REAL)
def turned(c): return c.o.this.x * LC(c.o.angle) - c.o.this.y * LS(c.o.angle), c.o.this.x * LS(c.o.angle) + c.o.this.y * LC(c.o.angle)
con(W + 'rotate(double)', T(V2, 'mut') + D('angle'), ret='arg:this', post=lambda c: is_v(c.n.this, *turned(c)))
con(W + 'rotated(double) const', T(V2) + D('angle'), retfn=turned)
AX = {'X': (1, 2), 'Y': (2, 0), 'Z': (0, 1)}


def axis_rot(c, ax):
    """rows of the rotation around one axis: the axis itself stays"""
    co, si, (p, q) = LC(c.o.angle), LS(c.o.angle), AX[ax]
    def f(i, j):
        if i == j: return co if i in (p, q) else z3.RealVal(1)
        if (i, j) == (p, q): return -si
        if (i, j) == (q, p): return si
        return z3.RealVal(0)
    return f


for ax in 'XYZ':
    con(M + 'generate3x3Rotation%sMatrix(double)' % ax, D('angle'), sret=MX, post=lambda c, ax=ax: stored(c, c.n.ret, 3, 3, axis_rot(c, ax)))
    con(X + 'rotate%s(double)' % ax, T(V3, 'mut') + D('angle'), post=lambda c, ax=ax: is_v(c.n.this, *[sum([axis_rot(c, ax)(i, j) * getattr(c.o.this, 'xyz'[j]) for j in (1, 2)], axis_rot(c, ax)(i, 0) * c.o.this.x) for i in range(3)]))
con(X + 'rotatedZ(double) const', T(V3) + D('angle'), sret=V3, post=lambda c: is_v(c.n.ret, *(turned(c) + (c.o.this.z,))))


def rodrigues(c, axis):
    """rotation matrix of Rodrigues: c I + (1 - c) a aT + s [a]x"""
    a, co, si = [axis.x, axis.y, axis.z], LC(c.o.angle), LS(c.o.angle)
    skew = {(0, 1): -a[2], (0, 2): a[1], (1, 0): a[2], (1, 2): -a[0], (2, 0): -a[1], (2, 1): a[0]}
    return lambda i, j: a[i] * a[j] * (1 - co) + (co if i == j else si * skew[i, j])


con(M + 'generate3x3RotationMatrix(double, jm::Vertex3 const&)', D('angle') + [P('axis', V3)], sret=MX, post=lambda c: stored(c, c.n.ret, 3, 3, rodrigues(c, c.o.axis)))
con(X + 'rotate(double, jm::Vertex3 const&)', T(V3, 'mut') + D('angle') + [P('axis', V3)], alias=[('this', 'axis')],
    post=lambda c: is_v(c.n.this, *[sum([rodrigues(c, c.o.axis)(i, j) * getattr(c.o.this, 'xyz'[j]) for j in (1, 2)], rodrigues(c, c.o.axis)(i, 0) * c.o.this.x) for i in range(3)]))


def hom(c, lin, mov):
    """4x4 transformation: linear part, displacement"""
    return entries(c.n.this, 4, 4, lambda i, j: z3.RealVal(1 if j == 3 else 0) if i == 3 else mov(i) if j == 3 else lin(i, j))


def only(x): return lambda i, j: x(i) if i == j else z3.RealVal(0)
ZERO, ONE = (lambda i: z3.RealVal(0)), (lambda i: z3.RealVal(1))
TM = T(MX, 'mut')
def co_(v): return lambda i: getattr(v, 'xyz'[i])
con(M + 'initIdentity()', TM, alias=[('null', 'this')], post=lambda c: hom(c, only(ONE), ZERO))
con(M + 'initMoving(jm::Vertex3 const&)', TM + [P('d', V3)], alias=[('null', 'this')], post=lambda c: hom(c, only(ONE), co_(c.o.d)))
con(M + 'initScaling(jm::Vertex3 const&)', TM + [P('f', V3)], alias=[('null', 'this')], post=lambda c: hom(c, only(co_(c.o.f)), ZERO))
con(M + 'initScaling(jm::Vertex3 const&, double)', TM + [P('p', V3)] + D('f'), alias=[('null', 'this')], post=lambda c: hom(c, only(lambda i: c.o.f), lambda i: co_(c.o.p)(i) - c.o.f * co_(c.o.p)(i)))
con(M + 'initRotationZ(double)', TM + D('angle'), alias=[('null', 'this')], post=lambda c: hom(c, axis_rot(c, 'Z'), ZERO))


def around(c):
    r, p = rodrigues(c, c.o.axis), co_(c.o.p)
    return hom(c, r, lambda i: p(i) - sum([p(j) * r(i, j) for j in (1, 2)], p(0) * r(i, 0)))


con(M + 'initRotation(jm::Vertex3 const&, jm::Vertex3 const&, double)', TM + [P('p', V3), P('axis', V3)] + D('angle'), alias=[('null', 'this')], post=around)


def mirror(c):
    n, p = co_(c.o.nrm), co_(c.o.p)
    d = p(0) * n(0) + p(1) * n(1) + p(2) * n(2)
    return hom(c, lambda i, j: (1 if i == j else 0) - 2 * n(i) * n(j), lambda i: 2 * n(i) * d)


con(M + 'initMirroring(jm::Vertex3 const&, jm::Vertex3 const&)', TM + [P('p', V3), P('nrm', V3)], alias=[('null', 'this')], post=mirror)
ROWS3 = lambda c: leibniz(3, lambda i, j: getattr(getattr(c.o, 'abc'[j]), 'xyz'[i]))
con('jm::isLinearIndependent(jm::Vertex3 const&, jm::Vertex3 const&, jm::Vertex3 const&)', [P(n, V3) for n in 'abc'], ret=I1, post=lambda c: [('determinant does not vanish', c.ret == z3.Not(near0(ROWS3(c))))])
con('jm::solveLinearSystem(jm::Vertex2, jm::Vertex2, jm::Vertex2)', D('ax', 'ay', 'bx', 'by', 'rx', 'ry'), ret=PairRet(), pre=lambda c: [c.o.ax * c.o.by - c.o.ay * c.o.bx != 0, z3.Or(z3.Not(near0(c.o.ax)), c.o.ay != 0)],
    post=lambda c: [('first equation', c.ret.x * c.o.ax + c.ret.y * c.o.bx == c.o.rx), ('second equation', c.ret.x * c.o.ay + c.ret.y * c.o.by == c.o.ry)])
con(X + 'isCollinear(jm::Vertex3 const&) const', T(V3) + [P('o', V3)], alias=[('this', 'o')], ret=I1, specs=lambda c: crossed(c)[2], post=lambda c: [('cross product vanishes', c.ret == (crossed(c)[0] < RES))])


def crossed(c):
    """length of the cross product"""
    a, b = c.o.this, c.o.o
    v = (a.y * b.z - a.z * b.y, a.z * b.x - a.x * b.z, a.x * b.y - a.y * b.x)
    l = c.ghost(('crosslen',), lambda: z3.Const(fresh_name('length'), REAL))
    return l, v, [l >= 0, l * l == v[0] * v[0] + v[1] * v[1] + v[2] * v[2]]
