"""Numeric helpers (C22)."""
import z3
from contract import *
from symex import trunc_div
from smt import ForAll, fresh_name

SOURCES = ['src/core/Math.cpp']
HEADERS = []
C = []
EPS = z3.RealVal('1/1000000')
# RESABS is the double next to 1E-6; comparisons are specified with exactly that number
RES = z3.simplify(z3.fpToReal(z3.FPVal(1e-6, z3.Float64())))


def con(sig, params, **k):
    k.setdefault('prop', ['C22'])
    x = Contract(sig, params, **k)
    C.append(x)
    return x


XY = [P('x', I64), P('y', I64)]
Y0 = lambda c: [c.o.y != 0, z3.Not(z3.And(c.o.x == -(1 << 63), c.o.y == -1))]


def posnum(c, y):
    """a call with a positive constant divisor: the contract says the same as the solver's own division"""
    return c.applying and (isinstance(y, int) and y > 0 or z3.is_int_value(y) and y.as_long() > 0)


def divfloor_post(c):
    x, y, q = c.o.x, c.o.y, c.ret
    if posnum(c, y): return [('quotient', q == x / y)]
    r = x - q * y
    return [('quotient rounds towards minus infinity', z3.And(z3.Implies(y > 0, z3.And(r >= 0, r < y)), z3.Implies(y < 0, z3.And(r <= 0, r > y))))]


def modfloor_post(c):
    x, y, r = c.o.x, c.o.y, c.ret
    if posnum(c, y): return [('remainder', r == x % y)]
    q, t, facts = trunc_div(x, y)
    out = [('def', f) for f in facts] if c.applying else []
    return out + [('sign of the divisor', z3.And(z3.Implies(y > 0, z3.And(r >= 0, r < y)), z3.Implies(y < 0, z3.And(r <= 0, r > y)))), ('divisor zero', z3.Implies(y == 0, r == 0)),
                  ('remainder', z3.Implies(y != 0, x - r == y * z3.If(z3.And(t != 0, (t < 0) != (y < 0)), q - 1, q)))]


con('jm::divFloor(long, long)', XY, ret=I64, pre=Y0, post=divfloor_post)
con('jm::modFloor(long, long)', XY, ret=I64, specs=lambda c: trunc_div(c.o.x, c.o.y)[2], post=modfloor_post)

con('jm::powerOf2(int)', [P('x', I32)], mode='bv', ret=I1, post=lambda c: [('power of two', c.ret == z3.Or([c.o.x == (1 << k) for k in range(31)]))])
con('jm::ceilPowerOf2(unsigned int)', [P('x', I32)], mode='bv', ret=I32, pre=lambda c: [z3.UGE(c.o.x, 1), z3.ULE(c.o.x, 1 << 31)],
    post=lambda c: [('a power of two', z3.Or([c.ret == (1 << k) for k in range(32)])), ('not below the argument', z3.UGE(c.ret, c.o.x)), ('the least', z3.Or(c.ret == 1, z3.ULT(z3.LShR(c.ret, 1), c.o.x)))])

for t, k in (('double', dict(fp='double')), ('int', dict(w=32)), ('unsigned int', dict(w=32)), ('unsigned short', dict(w=16)), ('unsigned char', dict(w=8))):
    con('jm::swap(%s&, %s&)' % (t, t), [P('a', CellK(**k), 'mut'), P('b', CellK(**k), 'mut')], alias=[('a', 'b')], mode='bv' if 'w' in k else None,
        post=lambda c: [('first', c.n.a.val == c.o.b.val), ('second', c.n.b.val == c.o.a.val)])

AB = [P('a', F64), P('b', F64)]


def cmp(name, f):
    con('jm::%s(double, double)' % name, AB, fp='real', ret=I1, post=lambda c: [('definition', c.ret == f(c.o.a, c.o.b))])


absr = lambda x: z3.If(x < 0, -x, x)
cmp('isEqual', lambda a, b: absr(b - a) < RES)
cmp('isNotEqual', lambda a, b: z3.Not(absr(b - a) < RES))
cmp('isLess', lambda a, b: a + RES <= b)
cmp('isLessEqual', lambda a, b: a < b + RES)
cmp('isGreater', lambda a, b: a >= b + RES)
cmp('isGreaterEqual', lambda a, b: a > b - RES)
con('jm::isNaN(double)', [P('x', F64)], mode='bv', fp='ieee', ret=I1, post=lambda c: [('not a number', c.ret == z3.fpIsNaN(c.o.x))])
con('jm::sign(double)', [P('x', F64)], fp='real', ret=I16, post=lambda c: [('sign', c.ret == z3.If(c.o.x > 0, 1, z3.If(c.o.x < 0, 65535, 0)))])


def round_pre(c): return [z3.fpLT(z3.fpAbs(c.o.x), z3.FPVal(2.0 ** 62, z3.Float64()))]


def round_post(c):
    return [('nearest integer, ties away from zero', c.ret == z3.fpToSBV(z3.RTZ(), z3.fpRoundToIntegral(z3.RNA(), c.o.x), z3.BitVecSort(64)))]


con('jm::round(double)', [P('x', F64)], mode='bv', fp='ieee', ret=I64, pre=round_pre, post=round_post)
for t, k in (('double', F64), ('float', F32)):
    con('jm::interpolate(%s, %s, %s)' % (t, t, t), [P('a', k), P('b', k), P('p', k)], fp='real', ret=k, post=lambda c: [('linear interpolation', c.ret == c.o.a + c.o.p * (c.o.b - c.o.a))])
con('jm::interpolate(double, double, double, double, double)', [P(x, F64) for x in ('va', 'vb', 'a', 'b', 'p')], fp='real', ret=F64, pre=lambda c: [c.o.a < c.o.b],
    post=lambda c: [('linear interpolation', (c.ret - c.o.va) * (c.o.b - c.o.a) == (c.o.vb - c.o.va) * (c.o.p - c.o.a))])
PI = z3.RealVal('3.14159265358979323846')
TOL = z3.RealVal('1/1000000000000')
con('jm::degToRad(double)', [P('x', F64)], fp='real', ret=F64, post=lambda c: [('pi/180', absr(c.ret * 180 - c.o.x * PI) <= TOL * absr(c.o.x))])
con('jm::radToDeg(double)', [P('x', F64)], fp='real', ret=F64, post=lambda c: [('180/pi', absr(c.ret * PI - c.o.x * 180) <= TOL * absr(c.o.x))])
con('rand', [], ret=I32, post=lambda c: [c.ret >= 0], assumed='rand returns a non-negative number', attrs=dict(symbol='rand'))
con('jm::random(int, int)', [P('lo', I32), P('hi', I32)], ret=I32, pre=lambda c: [c.o.lo <= c.o.hi, c.o.hi < (1 << 31) - 1, c.o.hi - c.o.lo < (1 << 31) - 1], post=lambda c: [('in range', z3.And(c.ret >= c.o.lo, c.ret <= c.o.hi))])
_x, _y, _q, _r = z3.Ints('x y q r')
LEMMAS = [('floor division is the integer division for positive divisors %d' % y, [_x - _q * y >= 0, _x - _q * y < y], _q == _x / z3.IntVal(y)) for y in (4, 7, 12, 60, 100, 1000, 86400000)]
