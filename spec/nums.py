"""Contracts of the number <-> text conversions (C04, C05)."""
import z3
from contract import *
from smt import ForAll, fresh_name
import strings
from strings import Str, T, is_digit

REQUIRES = ['strings']
SOURCES = ['src/core/Integer.cpp']
HEADERS = []
C = []
M63, M64 = 1 << 63, 1 << 64


def con(sig, params, **k):
    x = Contract(sig, params, **k)
    C.append(x)
    return x


def wrap64(x): return z3.If(x >= M63, x - M64, x)
def unsigned64(x): return z3.If(x < 0, x + M64, x)


def quot_fn(c, mag, base):
    """D(j) = floor(mag / base^j)"""
    F = c.ghost(('D', base), lambda: z3.Function('quot%d' % base, z3.IntSort(), z3.IntSort(), z3.IntSort()))
    D = lambda k: F(mag, k if isinstance(k, z3.ExprRef) else z3.IntVal(k))
    ax = [D(0) == mag, c.all(lambda k: z3.Implies(k >= 0, z3.And(D(k + 1) == D(k) / base, D(k) >= 0, D(k) <= mag)), lambda k: [D(k), D(k + 1)])]
    return D, ax


def digit_char(d, base):
    if base == 10: return 48 + d
    return z3.If(d < 10, 48 + d, 55 + d)


def chararrays(V): return [c for c, loc, part in V.H.consts if z3.is_array(c) and c.sort().range() == z3.IntSort()]
def intconsts(V): return [c for c, loc, part in V.H.consts if z3.is_int(c)]


def reversal(V):
    """swap loops: the outer parts are mirrored, the middle still is as it was"""
    out = []
    for c, a0, loc, part in V.arrays:
        if a0 is None or a0.sort() != c.sort() or c.sort().range() != z3.IntSort(): continue
        for a in intconsts(V):
            for L in intconsts(V):
                if L.eq(a): continue
                k = z3.Const(fresh_name('k'), z3.IntSort())
                out.append(('mirrored', ForAll(k, z3.Implies(z3.And(k >= 0, k < L), z3.Select(c, k) == z3.If(z3.Or(k < a, k >= L - a), z3.Select(a0, L - 1 - k), z3.Select(a0, k))), [z3.Select(c, k)])))
    return out


def numeral_loops(mag, base):
    def f(V):
        c = V.c
        D, _ = quot_fn(c, mag(c), base)
        out = reversal(V)
        for x in intconsts(V):
            for y in intconsts(V):
                if not x.eq(y): out.append(('quotient', x == wrap64(D(y))))
        # the digits written so far, least significant first
        for a in chararrays(V):
            for n in intconsts(V):
                k = z3.Const(fresh_name('k'), z3.IntSort())
                out.append(('digits', ForAll(k, z3.Implies(z3.And(k >= 0, k < n), z3.Select(a, k) == digit_char(D(k) % base, base)), [z3.Select(a, k)])))
        for n in intconsts(V):
            out.append(('shortest', z3.Or(n <= 0, D(n - 1) != 0)))
        return out
    return f


def numeral_post(c, D, neg, base):
    r = c.n.ret
    s = z3.If(neg, 1, 0)
    m = r.len - s
    return [('at least one digit', m >= 1), ('sign', z3.Implies(neg, r[0] == 45)),
            ('digits', c.all(lambda k: z3.Implies(z3.And(k >= s, k < r.len), r[k] == digit_char(D(r.len - 1 - k) % base, base)), lambda k: [r[k]])),
            ('all digits are there', D(m) == 0), ('no leading zero', z3.Or(m == 1, D(m - 1) != 0))]


def numeral(sig, w, mag, neg, base=10, prop=('C04',)):
    g = lambda c: quot_fn(c, mag(c), base)

    def post(c):
        D, ax = g(c)
        return ([('def', x) for x in ax] if c.applying else []) + numeral_post(c, D, neg(c), base)
    return con(sig, [P('n', w)], sret=Str, specs=lambda c: g(c)[1], post=post, loops=numeral_loops(mag, base), prop=list(prop))


absmag = lambda c: z3.If(c.o.n < 0, -c.o.n, c.o.n)
numeral('jm::String::valueOf(long)', I64, absmag, lambda c: c.o.n < 0)
numeral('jm::String::valueOf(unsigned long)', I64, lambda c: unsigned64(c.o.n), lambda c: z3.BoolVal(False))
numeral('jm::String::valueOf(int)', I32, absmag, lambda c: c.o.n < 0)
numeral('jm::String::valueOf(unsigned int)', I32, lambda c: z3.If(c.o.n < 0, c.o.n + (1 << 32), c.o.n), lambda c: z3.BoolVal(False))
numeral('jm::Integer::toHexString(long)', I64, lambda c: unsigned64(c.o.n), lambda c: z3.BoolVal(False), 16, ('C05',))


def bad_def(c):
    t = c.o.this
    E, w = c.ghost(('bad', t.arr, t.len), lambda: (z3.Const(fresh_name('notNumeral'), z3.BoolSort()), z3.Const(fresh_name('w'), z3.IntSort())))
    bad = lambda k: z3.And(z3.Not(is_digit(c, t[k])), z3.Not(z3.And(k == 0, t[k] == 45)))
    ax = [z3.Implies(E, z3.And(w >= 0, w < t.len, bad(w))), c.all(lambda k: z3.Implies(z3.And(z3.Not(E), k >= 0, k < t.len), z3.Not(bad(k))), lambda k: [t[k]])]
    return E, ax


def dec_fn(c, base=10, bound=M63):
    """V(k): value of the first k digits, no longer exact above the bound"""
    t = c.o.this
    V = c.ghost(('V', t.arr, base), lambda: z3.Function(fresh_name('V'), z3.IntSort(), z3.IntSort()))
    dig = lambda k: z3.If(is_digit(c, t[k]), t[k] - 48, 0)
    ax = [V(0) == 0, c.all(lambda k: z3.Implies(k >= 0, z3.And(V(k) >= 0, V(k + 1) == z3.If(V(k) > bound, V(k), z3.If(z3.And(k == 0, t[k] == 45), 0, 10 * V(k) + dig(k))))), lambda k: [V(k), V(k + 1)])]
    return V, ax


def toint_loops(V):
    F, _ = dec_fn(V.c)
    out = []
    for x in intconsts(V):
        for y in intconsts(V):
            if not x.eq(y): out.append(('value', z3.Implies(F(y) <= M63, x == wrap64(F(y)))))
    for x in [b for b, loc, part in V.H.consts if z3.is_bool(b)] + intconsts(V):
        for y in intconsts(V):
            if x.eq(y): continue
            cond = z3.And(y > 0, V.c.o.this[0] == 45)
            if z3.is_bool(x): out.append(('sign', x == cond))
            else: out += [('sign', x == z3.If(cond, 1, 0)), ('sign', x == z3.If(cond, -1, 1))]
    return out


def toint_post(c):
    F, _ = dec_fn(c)
    n = c.o.this.len
    neg = z3.And(n > 0, c.o.this[0] == 45)
    v = F(n)
    return [('value of the numeral', z3.And(z3.Implies(z3.And(z3.Not(neg), v < M63), c.ret == v), z3.Implies(z3.And(neg, v <= M63), c.ret == -v)))]


con('jm::String::toInt() const', T, ret=I64, specs=lambda c: bad_def(c)[1] + dec_fn(c)[1], throws=lambda c: bad_def(c)[0], loops=toint_loops, post=toint_post, prop=['C04'])

def numeral_len(c, mag, base=10):
    """number of digits (ghost): the first k >= 1 with D(k) = 0; its facts follow from D by induction (LEMMAS)"""
    D, ax = quot_fn(c, mag, base)
    F = c.ghost(('digitcount', base), lambda: z3.Function('digitcount%d' % base, z3.IntSort(), z3.IntSort()))
    N = F(mag)
    return N, D, ax + [N >= 1, D(N) == 0, z3.Or(N == 1, D(N - 1) != 0), c.all(lambda k: z3.Implies(k >= N, D(k) == 0), lambda k: [D(k)]), c.all(lambda k: z3.Implies(z3.And(k >= 1, k < N), D(k) != 0), lambda k: [D(k)])]


def lemmas():
    """the facts used as axioms about the ghost functions, as induction steps over their definitions: (name, hypotheses, goal)"""
    I = z3.IntSort()
    a, b, m, x, k = z3.Ints('a b m x k')
    out = []
    for base in (10, 16):
        out.append(('D(k) is between 0 and the magnitude, base %d' % base, [m >= 0, a >= 0, a <= m, b == a / base], z3.And(b >= 0, b <= m)))
        out.append(('once D(k) is 0 it stays 0, base %d' % base, [a == 0, b == a / base], b == 0))
        out.append(('D decreases to 0, base %d' % base, [a > 0, b == a / base], z3.And(b < a, b >= 0)))
        # reading back: V(j+1) = base * V(j) + digit, and the prefix of the numeral of length j denotes D(len - j)
        out.append(('the numeral read back denotes the number (step), base %d' % base, [a >= 0, b == a / base, x == b], base * x + a % base == a))
    out.append(('L(k) is between 0 and L(0)', [m >= 0, a >= 0, a <= m, b == z3.If(a > 0, (a - 1) / 26, 0)], z3.And(b >= 0, b <= m)))
    out.append(('the letters read back denote the number (step)', [a > 0, b == (a - 1) / 26, x == b], 26 * x + (a - 1) % 26 + 1 == a))
    return out


LEMMAS = lemmas()

# ---------------------------------------------------------------- hexadecimal
BV = lambda v: z3.BitVecVal(v, 64)


def hexdig(c, x):
    u = z3.ZeroExt(48, x)
    f = lambda a, b: z3.And(z3.UGE(u, a), z3.ULE(u, b))
    return z3.If(f(48, 57), u - 48, z3.If(f(97, 102), u - 87, z3.If(f(65, 70), u - 55, BV(0))))


def hex_fn(c, base):
    """X(k): positional value, modulo 2^64, of k characters from position base on"""
    base = z3.simplify(base)
    s = c.o.s
    X = c.ghost(('X', s.arr, base), lambda: z3.Function(fresh_name('X'), z3.BitVecSort(64), z3.BitVecSort(64)))
    ax = [X(BV(0)) == 0, c.all(lambda k: z3.Implies(k >= 0, X(k + 1) == 16 * X(k) + hexdig(c, s[base + k])), lambda k: [X(k), X(k + 1)])]
    return X, ax


def bvconsts(V): return [c for c, loc, part in V.H.consts if z3.is_bv(c) and c.size() in (32, 64)]
def to64(x): return z3.ZeroExt(32, x) if x.size() == 32 else x


def hex_loops(base):
    def f(V):
        b = base(V.c)
        X, _ = hex_fn(V.c, b)
        out = []
        for y in bvconsts(V):
            Y = to64(y)
            out += [('inside', z3.Or(Y == b, z3.And(Y >= b, Y <= V.c.o.s.len))), ('below', z3.And(Y >= b, Y <= b + to64(V.c.o.n)))]
        for x in bvconsts(V):
            if x.size() != 64: continue
            for y in bvconsts(V):
                if not x.eq(y): out += [('value', x == X(to64(y) - b)), ('value', x == X(to64(y)))]
        return out
    return f


SP = [P('s', Str)]
zero = lambda c: BV(0)
hexbeg = lambda c: to64(c.o.b)


def fromhex_post(base, n):
    def f(c):
        X, ax = hex_fn(c, base(c))
        return ([('def', x) for x in ax] if c.applying else []) + [('positional value', c.ret == X(n(c)))]
    return f


con('jm::Integer::fromHex(jm::String const&, unsigned int, unsigned int)', SP + [P('b', I32), P('n', I32)], ret=I64, mode='bv',
    pre=lambda c: [c.o.b >= 0, c.o.n >= 0, c.o.b + c.o.n >= 0],
    throws=lambda c: z3.And(c.o.n != 0, to64(c.o.b + c.o.n) > c.o.s.len), specs=lambda c: hex_fn(c, hexbeg(c))[1],
    loops=hex_loops(hexbeg), post=fromhex_post(hexbeg, lambda c: to64(c.o.n)), prop=['C05'])
con('jm::Integer::fromHex(jm::String const&)', SP, ret=I64, mode='bv', pre=lambda c: [c.o.s.len < (1 << 31)], specs=lambda c: hex_fn(c, zero(c))[1],
    post=fromhex_post(zero, lambda c: c.o.s.len), prop=['C05'])


def digits_post(c):
    D, ax = quot_fn(c, absmag(c), 10)
    m = c.ret - z3.If(c.o.n < 0, 1, 0)
    return ([('def', x) for x in ax] if c.applying else []) + [('at least one digit', m >= 1), ('all digits counted', D(m) == 0), ('no digit counted twice', z3.Or(m == 1, D(m - 1) != 0))]


P10 = [10 ** k for k in range(20)]


def pow10(m):
    e = z3.IntVal(10 ** 20)
    for k in range(19, -1, -1): e = z3.If(m <= k, 10 ** k, e)
    return e


def digits_loops(V):
    c = V.c
    D, _ = quot_fn(c, absmag(c), 10)
    out = []
    for x in intconsts(V):
        for y in intconsts(V):
            if x.eq(y): continue
            for e in (y, y - 1, y - 2, y - z3.If(c.o.n < 0, 2, 1)):
                out.append(('quotient', x == wrap64(D(e))))
                out.append(('count', z3.And(D(e) >= 0, D(e) <= z3.IntVal(1 << 63) / pow10(e))))
                out.append(('nonzero', z3.Or(e == 0, D(e) != 0)))
    return out


con('jm::Integer::digits(long)', [P('n', I64)], ret=I8, specs=lambda c: quot_fn(c, absmag(c), 10)[1], loops=digits_loops, post=digits_post, prop=['C05'])


# bijective base 26: L(0) = n, L(k+1) = (L(k) - 1) / 26 while L(k) > 0
def latin_fn(c):
    F = c.ghost(('L',), lambda: z3.Function('bijective26', z3.IntSort(), z3.IntSort(), z3.IntSort()))
    n = c.o.n
    L = lambda k: F(n, k if isinstance(k, z3.ExprRef) else z3.IntVal(k))
    return L, [L(0) == z3.If(n > 0, n, 0), c.all(lambda k: z3.Implies(k >= 0, z3.And(L(k) >= 0, L(k) <= L(0), L(k + 1) == z3.If(L(k) > 0, (L(k) - 1) / 26, 0))), lambda k: [L(k), L(k + 1)])]


def latin_loops(V):
    c = V.c
    L, _ = latin_fn(c)
    out = reversal(V)
    for x in intconsts(V):
        for y in intconsts(V):
            if not x.eq(y): out += [('quotient', x == L(y)), ('quotient', z3.Or(x == L(y), z3.And(c.o.n <= 0, x <= 0, y == 0)))]
    for a in chararrays(V):
        for n in intconsts(V):
            k = z3.Const(fresh_name('k'), z3.IntSort())
            out.append(('letters', ForAll(k, z3.Implies(z3.And(k >= 0, k < n), z3.Select(a, k) == 65 + (L(k) - 1) % 26), [z3.Select(a, k)])))
    for n in intconsts(V): out.append(('shortest', z3.Or(n <= 0, L(n - 1) > 0)))
    return out


def latin_post(c):
    L, ax = latin_fn(c)
    r = c.n.ret
    return ([('def', x) for x in ax] if c.applying else []) + [('letters', c.all(lambda k: z3.Implies(z3.And(k >= 0, k < r.len), r[k] == 65 + (L(r.len - 1 - k) - 1) % 26), lambda k: [r[k]])),
            ('all letters are there', L(r.len) == 0), ('no letter too many', z3.Or(r.len == 0, L(r.len - 1) > 0))]


con('jm::Integer::toLatinAlphabetString(long)', [P('n', I64)], sret=Str, specs=lambda c: latin_fn(c)[1], loops=latin_loops, post=latin_post, prop=['C05'])
