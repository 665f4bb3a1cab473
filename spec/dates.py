"""Calendar dates (C12): proleptic Gregorian calendar, times in milliseconds since 1970-01-01."""
import z3
from contract import *
from smt import ForAll, fresh_name
import strings
from strings import Str
import numeric

REQUIRES = ['numeric', 'strings', 'charsets']
SOURCES = ['src/core/Date.cpp']
HEADERS = []
CLASSES = {'Date': ('jm::Date', ['mTime'])}
C = []
MSD = 86400000
TMAX = 1 << 61
CUMT = [0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334, 365]


def con(sig, params, **k):
    k.setdefault('prop', ['C12'])
    x = Contract(sig, params, **k)
    C.append(x)
    return x


class DateK(ObjK):
    cls = 'Date'
    scal = (('mTime', 64),)
    hdr = False

    def view_extra(self, eng, st, p, v): v.t = v.mTime
    def release(self, eng, st, p): pass


D = DateK()
T = [P('this', D)]


def DFC(y): return 365 * (y - 1970) + (y - 1969) / z3.IntVal(4) - (y - 1901) / z3.IntVal(100) + (y - 1601) / z3.IntVal(400)
def leap(y): return z3.And(y % 4 == 0, z3.Or(y % 100 != 0, y % 400 == 0))
def diy(y): return z3.If(leap(y), 366, 365)
YEAR = z3.Function('year_of_day', z3.IntSort(), z3.IntSort())
def day(t): return t / z3.IntVal(MSD)
def tod(t): return t % z3.IntVal(MSD)


def yfacts(t):
    """definition of the year a day belongs to: the only y with DFC(y) <= day < DFC(y + 1) (existence and uniqueness: LEMMAS)"""
    y = YEAR(day(t))
    return [DFC(y) <= day(t), day(t) < DFC(y + 1), DFC(y + 1) - DFC(y) == diy(y), y >= -30000000 + 1970, y <= 30000000 + 1970] if not isinstance(t, int) else []


def year(t): return YEAR(day(t))
def doy(t): return day(t) - DFC(year(t))
def cum(m, L): return CUMT[m] + (z3.If(L, 1, 0) if m >= 2 else 0)


def month(t):
    L = leap(year(t))
    r = z3.IntVal(11)
    for m in range(10, -1, -1): r = z3.If(doy(t) < cum(m + 1, L), m, r)
    return r


def cumm(m, L):
    r = z3.IntVal(CUMT[11]) + z3.If(L, 1, 0)
    for k in range(10, -1, -1): r = z3.If(m == k, cum(k, L), r)
    return r


def mday(t): return doy(t) - cumm(month(t), leap(year(t))) + 1
TS = 10 ** 6 * 86400000 * 366      # about a million years


def trange(t): return [t >= -TS, t <= TS]


B = 'jm::Date::'
H = [P('this', AnyPtr())]      # helpers that do not look at the object
t64 = H + [P('t', I64)]
con(B + 'day(long) const', t64, retfn=lambda c: day(c.o.t))
con(B + 'timeWithinDay(long) const', t64, retfn=lambda c: tod(c.o.t))
con(B + 'daysInYear(long) const', H + [P('y', I64)], ret=I64, post=lambda c: [('366 in leap years', c.ret == diy(c.o.y))])
yr = lambda c: [c.o.y >= -(1 << 26), c.o.y <= 1 << 26]
con(B + 'dayFromYear(long) const', H + [P('y', I64)], pre=yr, ret=I64, post=lambda c: [('days since 1970', c.ret == DFC(c.o.y))])
con(B + 'timeFromYear(long) const', H + [P('y', I64)], pre=yr, ret=I64, post=lambda c: [('start of the year', c.ret == DFC(c.o.y) * MSD)])


def yl(V):
    t = V.c.o.t
    out = []
    for i, i0, loc, part in V.ints:
        for e in (i, i - 1, i + 1):
            out += [('before', DFC(e) <= day(t)), ('after', DFC(e) > day(t))]
        out += [('lo', i >= -(1 << 25)), ('hi', i <= (1 << 25))]
    return out


con(B + 'yearFromTime(long) const', t64, ret=I64, pre=lambda c: trange(c.o.t), specs=lambda c: yfacts(c.o.t), loops=yl, post=lambda c: [('the year containing the day', c.ret == year(c.o.t))])
con(B + 'inLeapYear(long) const', t64, ret=I16, pre=lambda c: trange(c.o.t), specs=lambda c: yfacts(c.o.t), post=lambda c: [('leap year', c.ret == z3.If(leap(year(c.o.t)), 1, 0))])
con(B + 'dayWithinYear(long) const', t64, ret=I64, pre=lambda c: trange(c.o.t), specs=lambda c: yfacts(c.o.t), post=lambda c: [('day within the year', c.ret == doy(c.o.t)), ('range', z3.And(c.ret >= 0, c.ret < diy(year(c.o.t))))])
con(B + 'monthFromTime(long) const', t64, ret=I64, pre=lambda c: trange(c.o.t), specs=lambda c: yfacts(c.o.t), post=lambda c: [('month', c.ret == month(c.o.t))])
con(B + 'dateFromTime(long) const', t64, ret=I64, pre=lambda c: trange(c.o.t), specs=lambda c: yfacts(c.o.t), post=lambda c: [('day of the month', c.ret == mday(c.o.t)), ('range', z3.And(c.ret >= 1, c.ret <= 31))])
def wday(t): return (day(t) + 4) % 7
con(B + 'weekDay(long) const', t64, ret=I64, post=lambda c: [('day of the week, 1970-01-01 is a Thursday', c.ret == wday(c.o.t))])
PART = dict(hour=lambda t: t / z3.IntVal(3600000) % 24, minute=lambda t: t / z3.IntVal(60000) % 60, second=lambda t: t / z3.IntVal(1000) % 60, milli=lambda t: t % 1000)      # equal to the parts of the time within the day: LEMMAS
for f, g in PART.items():
    con(B + f + 'FromTime(long) const', t64, ret=I64, post=lambda c, g=g: [('part of the time of day', c.ret == g(c.o.t))])
con(B + 'localTime(long) const', t64, retfn=lambda c: c.o.t)
con(B + 'utc(long) const', t64, retfn=lambda c: c.o.t)


def tparts(c): return [c.o.h >= 0, c.o.h <= 65535, c.o.m >= 0, c.o.m <= 65535, c.o.s >= 0, c.o.s <= 65535, c.o.ms >= 0, c.o.ms <= 65535]
def tval(c): return c.o.h * 3600000 + c.o.m * 60000 + c.o.s * 1000 + c.o.ms


con(B + 'makeTime(long, long, long, long) const', H + [P(x, I64) for x in ('h', 'm', 's', 'ms')], pre=tparts, ret=I64, post=lambda c: [('milliseconds', c.ret == tval(c))])


def mkday(y, m, d):
    Y, M = y + m / z3.IntVal(12), m % 12
    return DFC(Y) + cumm(M, leap(Y)) + d - 1


def mkpre(c): return [c.o.y >= -900000, c.o.y <= 900000, c.o.m >= -100000, c.o.m <= 100000, c.o.d >= -1000000, c.o.d <= 1000000]


def mkspec(c):
    Y = c.o.y + c.o.m / z3.IntVal(12)
    return [YEAR(DFC(Y)) == Y]


con(B + 'makeDay(long, long, long) const', H + [P(x, I64) for x in 'ymd'], pre=mkpre, specs=mkspec, ret=I64, post=lambda c: [('day number', c.ret == mkday(c.o.y, c.o.m, c.o.d))])
con(B + 'makeDate(long, long) const', H + [P('d', I64), P('ms', I64)], pre=lambda c: [c.o.d >= -10 ** 10, c.o.d <= 10 ** 10, c.o.ms >= -10 ** 12, c.o.ms <= 10 ** 12], ret=I64, post=lambda c: [('milliseconds', c.ret == c.o.d * MSD + c.o.ms)])

N = [P('this', D, 'out')]
con(B + 'Date(unsigned short, unsigned short, unsigned short)', N + [P(x, I16) for x in 'ymd'], specs=mkspec, post=lambda c: [('time', c.n.this.t == mkday(c.o.y, c.o.m, c.o.d) * MSD)])
con(B + 'Date(unsigned short, unsigned short, unsigned short, unsigned short, unsigned short, unsigned short, unsigned short)', N + [P(x, I16) for x in ('y', 'm', 'd', 'h', 'mi', 's', 'ms')], specs=mkspec,
    post=lambda c: [('time', c.n.this.t == mkday(c.o.y, c.o.m, c.o.d) * MSD + c.o.h * 3600000 + c.o.mi * 60000 + c.o.s * 1000 + c.o.ms)])
con(B + 'Date(long)', N + [P('t', I64)], post=lambda c: [('time', c.n.this.t == c.o.t)])
con(B + 'Date(jm::Date const&)', N + [P('d', D)], post=lambda c: [('time', c.n.this.t == c.o.d.t)])
con(B + 'setTime(long)', [P('this', D, 'mut'), P('t', I64)], post=lambda c: [('time', c.n.this.t == c.o.t)])
con(B + 'time() const', T, retfn=lambda c: c.o.this.t)
con(B + 'isEmpty() const', T, ret=I1, post=lambda c: [('the least time', c.ret == (c.o.this.t == -(1 << 63)))])
OWN = lambda c: trange(c.o.this.t)
OF = lambda c: yfacts(c.o.this.t)
for f, g in (('year', year), ('month', month), ('date', mday), ('dayOfYear', doy)):
    for p in ('', 'utc'):
        n = p + f if not p else p + f[0].upper() + f[1:]
        if n in ('utcDayOfYear',): continue
        con(B + n + '() const', T, ret=I64, pre=OWN, specs=OF, post=lambda c, g=g: [('value', c.ret == g(c.o.this.t))])
for f, g in (('day', wday), ('hours', PART['hour']), ('minutes', PART['minute']), ('seconds', PART['second']), ('milliseconds', PART['milli'])):
    for n in (f, 'utc' + f[0].upper() + f[1:]):
        con(B + n + '() const', T, ret=I64, post=lambda c, g=g: [('value', c.ret == g(c.o.this.t))])


def str_post(c):
    t = c.o.this.t
    two = lambda x: [x / z3.IntVal(10), x % 10]
    three = lambda x: [x / z3.IntVal(100), x / z3.IntVal(10) % 10, x % 10]
    y = year(t)
    ch = lambda l: [48 + x for x in l]
    s = ch([y / z3.IntVal(1000), y / z3.IntVal(100) % 10, y / z3.IntVal(10) % 10, y % 10]) + [45] + ch(two(month(t) + 1)) + [45] + ch(two(mday(t))) + [84] + ch(two(PART['hour'](t))) + [58] + ch(two(PART['minute'](t))) + [58] + ch(two(PART['second'](t))) + [46] + ch(three(PART['milli'](t))) + [90]
    return [('length', c.n.ret.len == 24)] + [('character %d' % i, c.n.ret[i] == x) for i, x in enumerate(s)]


con(B + 'toString() const', T, sret=Str, pre=lambda c: OWN(c) + [year(c.o.this.t) >= 0, year(c.o.this.t) <= 9999], specs=OF, post=str_post, budget=300)
con(B + 'compareTo(jm::Date const&) const', T + [P('d', D)], ret=I32, alias=[('this', 'd')], post=lambda c: [('order', c.ret == z3.If(c.o.this.t < c.o.d.t, -1, z3.If(c.o.this.t > c.o.d.t, 1, 0)))])
for op, f in (('<', lambda a, b: a < b), ('<=', lambda a, b: a <= b), ('>', lambda a, b: a > b), ('>=', lambda a, b: a >= b), ('==', lambda a, b: a == b), ('!=', lambda a, b: a != b)):
    con('jm::operator%s(jm::Date const&, jm::Date const&)' % op, [P('a', D), P('b', D)], ret=I1, alias=[('a', 'b')], post=lambda c, f=f: [('order of the times', c.ret == f(c.o.a.t, c.o.b.t))])

_y, _z, _n, _m, _d = z3.Ints('y z n m d')
_range = [_y >= -30000000, _y <= 30000000]
_doy = cumm(_m, leap(_y)) + _d - 1


def monthof(x, L):
    r = z3.IntVal(11)
    for m in range(10, -1, -1): r = z3.If(x < cum(m + 1, L), m, r)
    return r


_dim = z3.If(_m == 11, 31, cumm(_m + 1, leap(_y)) - cumm(_m, leap(_y)))
LEMMAS = [('the length of a year', [], DFC(_y + 1) - DFC(_y) == diy(_y)),
          ('years increase', [_y < _z], DFC(_y + 1) <= DFC(_z)),
          ('day 0 is the first of January 1970', [], DFC(z3.IntVal(1970)) == 0),
          ('month and day come back', [_m >= 0, _m <= 11, _d >= 1, _d <= _dim], z3.And(monthof(_doy, leap(_y)) == _m, _doy - cumm(monthof(_doy, leap(_y)), leap(_y)) + 1 == _d, _doy >= 0, _doy < diy(_y))),
          ('months have 28 to 31 days', [_m >= 0, _m <= 11], _dim == z3.If(z3.Or(_m == 3, _m == 5, _m == 8, _m == 10), 30, z3.If(_m == 1, z3.If(leap(_y), 29, 28), 31)))]
_q, _r, _h, _mi, _s, _ms = z3.Ints('q r h mi s ms')
_tp = [_h >= 0, _h < 24, _mi >= 0, _mi < 60, _s >= 0, _s < 60, _ms >= 0, _ms < 1000]
_T = _h * 3600000 + _mi * 60000 + _s * 1000 + _ms
LEMMAS += [('whole days do not change the %s' % n, [], (MSD * _q + _r) / z3.IntVal(u) == (MSD // u) * _q + _r / z3.IntVal(u)) for n, u in (('hours', 3600000), ('minutes', 60000), ('seconds', 1000))]
LEMMAS += [('whole days vanish modulo %d' % m, [], (k * m * _q + _r) % m == _r % m) for m, k in ((24, 1), (60, 24), (60, 1440), (1000, 86400))]
LEMMAS += [('the %s come back' % n, _tp, z3.And(g == v)) for n, g, v in (('hours', _T / z3.IntVal(3600000) % 24, _h), ('minutes', _T / z3.IntVal(60000) % 60, _mi), ('seconds', _T / z3.IntVal(1000) % 60, _s), ('milliseconds', _T % 1000, _ms), ('time within the day', _T % MSD, _T))]

