"""Placeholder substitution (C29)."""
import z3
from contract import *
from smt import ForAll, fresh_name
import strings, nums
from strings import Str, T, is_digit, copy_of, content_is

REQUIRES = ['strings', 'nums']
SOURCES = []
HEADERS = []
C = []


def con(sig, params, **k):
    x = Contract(sig, params, **k)
    C.append(x)
    return x


def dig(c, k): return z3.And(k < c.o.this.len, is_digit(c, c.o.this[k]))
def holder(c, k): return z3.And(k >= 0, k < c.o.this.len - 1, c.o.this[k] == 37, dig(c, k + 1))
def number(c, k): return z3.If(dig(c, k + 2), 10 * (c.o.this[k + 1] - 48) + c.o.this[k + 2] - 48, c.o.this[k + 1] - 48)
def hend(c, k): return z3.If(dig(c, k + 2), k + 3, k + 2)


def lowest(c):
    """(exists, position): the first of the placeholders with the lowest number; defined by the content alone"""
    t = c.o.this
    E, w = c.ghost(('holder', t.arr, t.len), lambda: (z3.Const(fresh_name('hasPlaceholder'), z3.BoolSort()), z3.Const(fresh_name('placeholder'), z3.IntSort())))
    ax = [z3.Implies(E, holder(c, w)), c.all(lambda k: z3.Implies(holder(c, k), z3.And(E, number(c, w) <= number(c, k), z3.Or(k >= w, number(c, w) < number(c, k)))), lambda k: [t[k]])]
    return E, w, ax


def idx_post(c):
    E, w, ax = lowest(c)
    return ([('def', x) for x in ax] if c.applying else []) + [('found', c.ret == E), ('begin', z3.Implies(E, c.n.first.val == w)), ('end', z3.Implies(E, c.n.second.val == hend(c, w)))]


def intconsts(V): return [c for c, loc, part in V.H.consts if z3.is_int(c)]


def idx_loops(V):
    c = V.c
    xs = intconsts(V)
    out = []
    # the candidate: some variable f holds a position < the running index i and n its number, e its end
    for f in xs:
        out.append(('is a placeholder', z3.Or(f == -1, holder(c, f))))
        for n in xs:
            if n.eq(f): continue
            out.append(('number', z3.Implies(f != -1, n == number(c, f))))
            out.append(('no number', z3.Implies(f == -1, n == 100)))
            out.append(('end', z3.Implies(f != -1, n == hend(c, f))))
            out.append(('before', f < n))
    k = z3.Const(fresh_name('k'), z3.IntSort())
    for i in xs:
        for n in xs:
            if n.eq(i): continue
            out.append(('none lower', ForAll(k, z3.Implies(z3.And(k < i, holder(c, k)), number(c, k) >= n), [c.o.this[k]])))
            for f in xs:
                if f.eq(i) or f.eq(n): continue
                out.append(('none lower before', ForAll(k, z3.Implies(z3.And(k < f, k < i, holder(c, k)), number(c, k) > n), [c.o.this[k]])))
    return out


con('jm::String::argIndicies(long&, long&) const', T + [P('first', CellK(64), 'mut'), P('second', CellK(64), 'mut')], ret=I1, specs=lambda c: lowest(c)[2], loops=idx_loops, budget=400, post=idx_post, prop=['C29'])


def absw(c): return z3.If(c.o.w < 0, -c.o.w, c.o.w)


def arg_post(text, n):
    """text: function of k -> character of the value, n: its length"""
    def f(c):
        E, w, ax = lowest(c)
        t, r = c.o.this, c.n.ret
        ln = n(c)
        pad = z3.If(absw(c) > ln, absw(c) - ln, 0)
        left = z3.If(c.o.w > 0, pad, 0)
        right = z3.If(c.o.w < 0, pad, 0)
        out = [('def', x) for x in ax] if c.applying else []
        for nm, g in copy_of(c, r, t): out.append(('without placeholder: ' + nm, ForAll(g.var, z3.Implies(z3.Not(E), g.body), g.trigs) if isinstance(g, ForAll) else z3.Implies(z3.Not(E), g)))
        e = hend(c, w)
        for nm, g in c.cat(r.arr, r.len, [c.sub(t.arr, 0, w), c.fill(c.o.fill, left), (text(c), ln), c.fill(c.o.fill, right), c.sub(t.arr, e, t.len - e)]):
            out.append((nm, ForAll(g.var, z3.Implies(E, g.body), g.trigs) if isinstance(g, ForAll) else z3.Implies(E, g)))
        return out
    return f


def arg_loops(V):
    c = V.c
    out = []
    for a, a0, loc, part in V.arrays:
        if a0 is None or a.sort().range() != z3.IntSort(): continue
        for i, i0, l2, p2 in V.ints:
            if i0 is None: continue
            k = z3.Const(fresh_name('k'), z3.IntSort())
            out.append(('filled', ForAll(k, z3.Implies(z3.And(k >= i0, k < i), z3.Select(a, k) == c.o.fill), [z3.Select(a, k)])))
            out.append(('kept', ForAll(k, z3.Implies(z3.And(k >= 0, k < i0), z3.Select(a, k) == z3.Select(a0, k)), [z3.Select(a, k)])))
    return out


W = lambda c: [c.o.w > -(1 << 44), c.o.w < (1 << 44)]
con('jm::String::arg(jm::String const&, long, jm::Char) const', T + [P('s', Str), P('w', I64), P('fill', I16)], alias=[('this', 's')], sret=Str, pre=W, loops=arg_loops,
    specs=lambda c: lowest(c)[2], post=arg_post(lambda c: (lambda k: c.o.s[k]), lambda c: c.o.s.len), prop=['C29'])
con('jm::String::arg(jm::Char, long, jm::Char) const', T + [P('ch', I16), P('w', I64), P('fill', I16)], sret=Str, pre=W, loops=arg_loops,
    specs=lambda c: lowest(c)[2], post=arg_post(lambda c: (lambda k: c.o.ch), lambda c: z3.IntVal(1)), prop=['C29'])


def num_arg(sig, w, mag, neg):
    def f(c):
        N, D, ax = nums.numeral_len(c, mag(c))
        s = z3.If(neg(c), 1, 0)
        return N + s, (lambda k: z3.If(z3.And(neg(c), k == 0), 45, 48 + D(N + s - 1 - k) % 10)), ax
    post = arg_post(lambda c: f(c)[1], lambda c: f(c)[0])
    con(sig, T + [P('n', w), P('w', I64), P('fill', I16)], sret=Str, pre=W, loops=arg_loops, specs=lambda c: lowest(c)[2] + f(c)[2],
        post=lambda c: ([('def', x) for x in f(c)[2]] if c.applying else []) + post(c), prop=['C29'], budget=240)


num_arg('jm::String::arg(long, long, jm::Char) const', I64, lambda c: z3.If(c.o.n < 0, -c.o.n, c.o.n), lambda c: c.o.n < 0)
num_arg('jm::String::arg(int, long, jm::Char) const', I32, lambda c: z3.If(c.o.n < 0, -c.o.n, c.o.n), lambda c: c.o.n < 0)
num_arg('jm::String::arg(unsigned int, long, jm::Char) const', I32, lambda c: z3.If(c.o.n < 0, c.o.n + (1 << 32), c.o.n), lambda c: z3.BoolVal(False))
num_arg('jm::String::arg(unsigned long, long, jm::Char) const', I64, lambda c: nums.unsigned64(c.o.n), lambda c: z3.BoolVal(False))
