"""Rectangles, points, sizes, extents (C24): proved over the mathematical reals."""
import os, z3
from contract import *
from smt import ForAll, fresh_name
import numeric
from numeric import RES, absr

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REQUIRES = ['numeric']
SOURCES = ['src/core/Rect.cpp', 'src/core/Point.cpp', 'src/core/Size.cpp', 'src/core/Extents.cpp', 'src/core/Vertex3.cpp', 'src/core/Vertex2.cpp', VERIF + '/drv/geom.cpp']
HEADERS = []
CLASSES = {'Rect': ('jm::Rect', ['mOrigin.mX', 'mOrigin.mY', 'mSize.mWidth', 'mSize.mHeight']), 'Point': ('jm::Point', ['mX', 'mY']), 'Size': ('jm::Size', ['mWidth', 'mHeight']),
           'Vertex2': ('jm::Vertex2', ['x', 'y']), 'Vertex3': ('jm::Vertex3', ['x', 'y', 'z']),
           'Extents': ('jm::Extents', ['mPtMin.x', 'mPtMin.y', 'mPtMin.z', 'mPtMax.x', 'mPtMax.y', 'mPtMax.z'])}
C = []


def con(sig, params, **k):
    k.setdefault('prop', ['C24'])
    k.setdefault('fp', 'real')
    x = Contract(sig, params, **k)
    C.append(x)
    return x


class Plain(ObjK):
    hdr = False

    def __init__(self, cls, members, names):
        self.cls, self.fps, self.names = cls, tuple((m, 'double') for m in members), names

    def view_extra(self, eng, st, p, v):
        for (m, _), n in zip(self.fps, self.names): setattr(v, n, getattr(v, m))

    def release(self, eng, st, p): pass


class RectK(Plain):
    def view_extra(self, eng, st, p, v):
        Plain.view_extra(self, eng, st, p, v)
        v.l, v.t, v.r, v.b = v.x, v.y, v.x + v.w, v.y + v.h


RC = RectK('Rect', ['mOrigin.mX', 'mOrigin.mY', 'mSize.mWidth', 'mSize.mHeight'], 'xywh')
PT = Plain('Point', ['mX', 'mY'], 'xy')
SZ = Plain('Size', ['mWidth', 'mHeight'], 'wh')
V2 = Plain('Vertex2', ['x', 'y'], 'xy')
V3 = Plain('Vertex3', ['x', 'y', 'z'], 'xyz')
EX = Plain('Extents', ['mPtMin.x', 'mPtMin.y', 'mPtMin.z', 'mPtMax.x', 'mPtMax.y', 'mPtMax.z'], ['x0', 'y0', 'z0', 'x1', 'y1', 'z1'])


def This(k, m='in'): return [P('this', k, m)]
def D(*n): return [P(x, F64) for x in n]
def mn(a, b): return z3.If(a < b, a, b)
def mx(a, b): return z3.If(a > b, a, b)


R = 'jm::Rect::'
for f, g in (('x', lambda v: v.x), ('y', lambda v: v.y), ('width', lambda v: v.w), ('height', lambda v: v.h), ('left', lambda v: v.l), ('top', lambda v: v.t), ('right', lambda v: v.r), ('bottom', lambda v: v.b)):
    con(R + f + '() const', This(RC), ret=F64, post=lambda c, g=g: [('value', c.ret == g(c.o.this))])


def pair(sig, params, f, **k):
    """functions that return a Point or Size in two registers"""
    con(sig, params, retfn=f, **k)


cx = lambda v: v.x + v.w / 2
cy = lambda v: v.y + v.h / 2
for f, g in (('size', lambda v: (v.w, v.h)), ('origin', lambda v: (v.x, v.y)), ('center', lambda v: (cx(v), cy(v))), ('topLeft', lambda v: (v.l, v.t)), ('topRight', lambda v: (v.r, v.t)), ('bottomLeft', lambda v: (v.l, v.b)), ('bottomRight', lambda v: (v.r, v.b)),
             ('topCenter', lambda v: (cx(v), v.t)), ('bottomCenter', lambda v: (cx(v), v.b)), ('leftCenter', lambda v: (v.l, cy(v))), ('rightCenter', lambda v: (v.r, cy(v)))):
    pair(R + f + '() const', This(RC), lambda c, g=g: g(c.o.this))


def edges(sig, params, l=None, t=None, r=None, b=None, **k):
    """the four edges afterwards; edges not given stay"""
    def post(c):
        o, n = c.o.this if hasattr(c.o, 'this') else None, c.n.this
        out = []
        for nm, f, e in (('left', l, 'l'), ('top', t, 't'), ('right', r, 'r'), ('bottom', b, 'b')):
            out.append((nm + ' edge', getattr(n, e) == (f(c) if f else getattr(o, e))))
        return out
    con(sig, This(RC, k.pop('mode', 'mut')) + params, post=post, **k)


def origsize(sig, params, x=None, y=None, w=None, h=None, mode='mut', **k):
    def post(c):
        o, n = c.o.this if mode != 'out' else None, c.n.this
        return [(nm, getattr(n, nm) == (f(c) if f else getattr(o, nm))) for nm, f in (('x', x), ('y', y), ('w', w), ('h', h))]
    con(sig, This(RC, mode) + params, post=post, **k)


z = lambda c: z3.RealVal(0)
origsize(R + 'Rect()', [], z, z, z, z, mode='out')
origsize(R + 'Rect(double, double, double, double)', D('x', 'y', 'w', 'h'), lambda c: c.o.x, lambda c: c.o.y, lambda c: c.o.w, lambda c: c.o.h, mode='out')
origsize(R + 'Rect(jm::Point, jm::Size)', D('x', 'y', 'w', 'h'), lambda c: c.o.x, lambda c: c.o.y, lambda c: c.o.w, lambda c: c.o.h, mode='out')
origsize(R + 'Rect(double, double, jm::Size const&)', D('x', 'y') + [P('s', SZ)], lambda c: c.o.x, lambda c: c.o.y, lambda c: c.o.s.w, lambda c: c.o.s.h, mode='out')
v = lambda c: c.o.v
origsize(R + 'setX(double)', D('v'), x=v)
origsize(R + 'setY(double)', D('v'), y=v)
origsize(R + 'setWidth(double)', D('v'), w=v)
origsize(R + 'setHeight(double)', D('v'), h=v)
origsize(R + 'setSize(jm::Size const&)', [P('s', SZ)], w=lambda c: c.o.s.w, h=lambda c: c.o.s.h)
origsize(R + 'setSize(double, double)', D('a', 'b'), w=lambda c: c.o.a, h=lambda c: c.o.b)
origsize(R + 'setOrigin(jm::Point const&)', [P('s', PT)], x=lambda c: c.o.s.x, y=lambda c: c.o.s.y)
origsize(R + 'setOrigin(double, double)', D('a', 'b'), x=lambda c: c.o.a, y=lambda c: c.o.b)
origsize(R + 'moveHorizontal(double)', D('v'), x=lambda c: c.o.this.x + c.o.v)
origsize(R + 'moveVertical(double)', D('v'), y=lambda c: c.o.this.y + c.o.v)
origsize(R + 'move(jm::Point const&)', [P('s', PT)], x=lambda c: c.o.this.x + c.o.s.x, y=lambda c: c.o.this.y + c.o.s.y)
SELF = dict(alias=[('this', 's')])
origsize(R + 'alignTopLeft(jm::Rect const&)', [P('s', RC)], x=lambda c: c.o.s.l, y=lambda c: c.o.s.t, **SELF)
origsize(R + 'alignBottomLeft(jm::Rect const&)', [P('s', RC)], x=lambda c: c.o.s.l, y=lambda c: c.o.s.b - c.o.this.h, **SELF)
for e, k in (('Top', 't'), ('Left', 'l'), ('Right', 'r'), ('Bottom', 'b')):
    edges(R + 'shift%s(double)' % e, D('v'), **{k: lambda c, k=k: getattr(c.o.this, k) + c.o.v})
    edges(R + 'set%s(double)' % e, D('v'), **{k: v})
    if e != 'Top': edges(R + 'move%s(double)' % e, D('v'), **{k: lambda c, k=k: getattr(c.o.this, k) + c.o.v})
edges(R + 'normalize()', [], l=lambda c: mn(c.o.this.l, c.o.this.r), r=lambda c: mx(c.o.this.l, c.o.this.r), t=lambda c: mn(c.o.this.t, c.o.this.b), b=lambda c: mx(c.o.this.t, c.o.this.b))
box = lambda f, g: dict(l=lambda c: f(c.o.this.l, c.o.s.l), t=lambda c: f(c.o.this.t, c.o.s.t), r=lambda c: g(c.o.this.r, c.o.s.r), b=lambda c: g(c.o.this.b, c.o.s.b))
edges(R + 'unionWith(jm::Rect const&)', [P('s', RC)], **box(mn, mx), **SELF)
edges(R + 'intersect(jm::Rect const&)', [P('s', RC)], **box(mx, mn), **SELF)
con(R + 'isEmpty() const', This(RC), ret=I1, post=lambda c: [('empty', c.ret == z3.Or(absr(c.o.this.w) < RES, absr(c.o.this.h) < RES))])
inside = lambda t, x, y: z3.And(x >= t.l, x <= t.r, y >= t.t, y <= t.b)
con(R + 'contains(double, double) const', This(RC) + D('x', 'y'), ret=I1, post=lambda c: [('inside', c.ret == inside(c.o.this, c.o.x, c.o.y))])
con(R + 'contains(jm::Point const&) const', This(RC) + [P('p', PT)], ret=I1, post=lambda c: [('inside', c.ret == inside(c.o.this, c.o.p.x, c.o.p.y))])
con(R + 'contains(jm::Vertex2 const&) const', This(RC) + [P('p', V2)], ret=I1, post=lambda c: [('inside', c.ret == inside(c.o.this, c.o.p.x, c.o.p.y))])
meet = lambda a, b: z3.And(a.l <= b.r, a.r >= b.l, a.t <= b.b, a.b >= b.t)
con(R + 'intersects(jm::Rect const&) const', This(RC) + [P('s', RC)], alias=[('this', 's')], ret=I1, post=lambda c: [('common point', c.ret == meet(c.o.this, c.o.s))])


def inter_post(c):
    a, b, n = c.o.this, c.o.s, c.n.ret
    m = meet(a, b)
    return [('set intersection', z3.Implies(m, z3.And(n.l == mx(a.l, b.l), n.t == mx(a.t, b.t), n.r == mn(a.r, b.r), n.b == mn(a.b, b.b)))),
            ('empty', z3.Implies(z3.Not(m), z3.And(n.w == 0, n.h == 0)))]


con(R + 'intersection(jm::Rect const&) const', This(RC) + [P('s', RC)], alias=[('this', 's')], sret=RC, post=inter_post)

# ---------------------------------------------------------------- Point, Size
for K, cls, a, b, na, nb in ((PT, 'Point', 'x', 'y', 'X', 'Y'), (SZ, 'Size', 'w', 'h', 'Width', 'Height')):
    N = 'jm::%s::' % cls
    con(N + cls + '()', This(K, 'out'), post=lambda c, a=a, b=b: [('zero', z3.And(getattr(c.n.this, a) == 0, getattr(c.n.this, b) == 0))])
    con(N + cls + '(double, double)', This(K, 'out') + D('p', 'q'), post=lambda c, a=a, b=b: [('values', z3.And(getattr(c.n.this, a) == c.o.p, getattr(c.n.this, b) == c.o.q))])
    for i, (m, nm) in enumerate(((a, na), (b, nb))):
        con(N + (nm.lower()) + '() const', This(K), ret=F64, post=lambda c, m=m: [('value', c.ret == getattr(c.o.this, m))])
        con(N + 'set%s(double)' % nm, This(K, 'mut') + D('v'), post=lambda c, m=m, a=a, b=b: [('set', getattr(c.n.this, m) == c.o.v), ('other', getattr(c.n.this, b if m == a else a) == getattr(c.o.this, b if m == a else a))])
    for f, op in (('cWiseMin', mn), ('cWiseMax', mx)):
        pair(N + '%s(jm::%s const&) const' % (f, cls), This(K) + [P('s', K)], lambda c, op=op, a=a, b=b: (op(getattr(c.o.this, a), getattr(c.o.s, a)), op(getattr(c.o.this, b), getattr(c.o.s, b))), alias=[('this', 's')])
con('jm::Size::Size(jm::Point const&)', This(SZ, 'out') + [P('p', PT)], post=lambda c: [('values', z3.And(c.n.this.w == c.o.p.x, c.n.this.h == c.o.p.y))])
for o, sg in (('+=', 1), ('-=', -1)):
    con('jm::Point::operator%s(jm::Point const&)' % o, This(PT, 'mut') + [P('s', PT)], ret='arg:this', alias=[('this', 's')], post=lambda c, sg=sg: [('sum', z3.And(c.n.this.x == c.o.this.x + sg * c.o.s.x, c.n.this.y == c.o.this.y + sg * c.o.s.y))])
for o, sg in (('+', 1), ('-', -1)):
    pair('jm::operator%s(jm::Point const&, jm::Point const&)' % o, [P('a', PT), P('b', PT)], lambda c, sg=sg: (c.o.a.x + sg * c.o.b.x, c.o.a.y + sg * c.o.b.y), alias=[('a', 'b')])
pair('jm::operator-(jm::Size const&, jm::Size const&)', [P('a', SZ), P('b', SZ)], lambda c: (c.o.a.w - c.o.b.w, c.o.a.h - c.o.b.h), alias=[('a', 'b')])
DC = CellK(fp='double')
pair('jm::operator*(double const&, jm::Point const&)', [P('d', DC), P('p', PT)], lambda c: (c.o.d.val * c.o.p.x, c.o.d.val * c.o.p.y))
pair('jm::operator*(jm::Point const&, double const&)', [P('p', PT), P('d', DC)], lambda c: (c.o.d.val * c.o.p.x, c.o.d.val * c.o.p.y))
pair('jm::operator*(double const&, jm::Size const&)', [P('d', DC), P('p', SZ)], lambda c: (c.o.d.val * c.o.p.w, c.o.d.val * c.o.p.h))
close = lambda a, b: absr(b - a) < RES
con('jm::Size::operator==(jm::Size const&) const', This(SZ) + [P('s', SZ)], alias=[('this', 's')], ret=I1, post=lambda c: [('equal', c.ret == z3.And(close(c.o.this.w, c.o.s.w), close(c.o.this.h, c.o.s.h)))])
con('jm::Size::operator!=(jm::Size const&) const', This(SZ) + [P('s', SZ)], alias=[('this', 's')], ret=I1, post=lambda c: [('not equal', c.ret == z3.Not(z3.And(close(c.o.this.w, c.o.s.w), close(c.o.this.h, c.o.s.h))))])

# ---------------------------------------------------------------- Extents
E = 'jm::Extents::'
BIG = z3.RealVal('1e90')
LIM = z3.RealVal('1e89')
fin = lambda *x: [z3.And(q < z3.RealVal('1e88'), q > -z3.RealVal('1e88')) for q in x]


def near(a, b): return z3.And(a > b * z3.RealVal('0.999'), a < b * z3.RealVal('1.001'))


con(E + 'Extents()', This(EX, 'out'), post=lambda c: [('empty', z3.And([near(getattr(c.n.this, q + '0'), BIG) for q in 'xyz'] + [near(-getattr(c.n.this, q + '1'), BIG) for q in 'xyz']))])


def grow(c, coords, lo, hi, cond=None):
    out = []
    for q in 'xyz':
        for s, f, src in (('0', mn, lo), ('1', mx, hi)):
            o, n = getattr(c.o.this, q + s), getattr(c.n.this, q + s)
            e = f(o, src[q]) if q in coords else o
            out.append(('%s of %s' % ('minimum' if s == '0' else 'maximum', q), n == (e if cond is None else z3.If(cond, e, o))))
    return out


con(E + 'add(jm::Vertex2 const&)', This(EX, 'mut') + [P('p', V2)], post=lambda c: grow(c, 'xy', dict(x=c.o.p.x, y=c.o.p.y), dict(x=c.o.p.x, y=c.o.p.y)))
con(E + 'add(jm::Vertex3 const&)', This(EX, 'mut') + [P('p', V3)], post=lambda c: grow(c, 'xyz', dict(x=c.o.p.x, y=c.o.p.y, z=c.o.p.z), dict(x=c.o.p.x, y=c.o.p.y, z=c.o.p.z)))
valid = lambda e: e.x0 < LIM
con(E + 'add(jm::Extents const&)', This(EX, 'mut') + [P('e', EX)], alias=[('this', 'e')], pre=lambda c: [z3.Or(c.o.e.x0 < LIM - 1e80, c.o.e.x0 > LIM + 1e80)],
    post=lambda c: grow(c, 'xyz', dict(x=c.o.e.x0, y=c.o.e.y0, z=c.o.e.z0), dict(x=c.o.e.x1, y=c.o.e.y1, z=c.o.e.z1), valid(c.o.e)))
con(E + 'isValid() const', This(EX), ret=I1, pre=lambda c: [z3.Or(c.o.this.x0 < LIM - 1e80, c.o.this.x0 > LIM + 1e80)], post=lambda c: [('a point was added', c.ret == valid(c.o.this))])
con(E + 'delta() const', This(EX), sret=V3, post=lambda c: [('size', z3.And(c.n.ret.x == c.o.this.x1 - c.o.this.x0, c.n.ret.y == c.o.this.y1 - c.o.this.y0, c.n.ret.z == c.o.this.z1 - c.o.this.z0))])

# lemmas: the union is the smallest rectangle that contains both, the intersection is the set of common points
_r = lambda n: z3.Real(n)
_l, _t, _rr, _b, _l2, _t2, _r2, _b2, _x, _y = [z3.Real(n) for n in 'l t r b l2 t2 r2 b2 x y'.split()]
_in = lambda l, t, r, b: z3.And(_x >= l, _x <= r, _y >= t, _y <= b)
LEMMAS = [('union contains both', [z3.Or(_in(_l, _t, _rr, _b), _in(_l2, _t2, _r2, _b2))], _in(mn(_l, _l2), mn(_t, _t2), mx(_rr, _r2), mx(_b, _b2))),
          ('intersection is the set of common points', [], z3.And(_in(_l, _t, _rr, _b), _in(_l2, _t2, _r2, _b2)) == _in(mx(_l, _l2), mx(_t, _t2), mn(_rr, _r2), mn(_b, _b2)))]
