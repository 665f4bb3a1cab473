"""Tokenizing (C16): StringTokenizer over the contracts of String."""
import z3
from contract import *
from smt import ForAll, fresh_name
import strings
from strings import Str, StrK

REQUIRES = ['strings']
SOURCES = ['src/core/StringTokenizer.cpp']
HEADERS = ['core/StringTokenizer.h']
CLASSES = {'TOK': ('jm::StringTokenizer', ['mStr', 'mDelimiters', 'mPosition', 'mNewStart', 'mRetDelim'])}
C = []


def con(sig, params, **k):
    x = Contract(sig, params, **k)
    C.append(x)
    return x


class TokK(ObjK):
    """tokenizer: two embedded strings, the position and the position of the next token once it was looked for (else negative)"""
    cls = 'TOK'
    scal = (('mPosition', 64), ('mNewStart', 64), ('mRetDelim', 8))
    parts = ('mStr', 'mDelimiters')

    def part(self, eng, p, m): return Ptr(p.r, p.i, p.o + self.off(eng, m))

    def init_extra(self, eng, st, p, name):
        for m in self.parts: Str.init(eng, st, self.part(eng, p, m), '%s_%s' % (name, m))

    def view_extra(self, eng, st, p, v):
        v.s, v.d = (Str.view(eng, st, self.part(eng, p, m)) for m in self.parts)
        v.bufs = v.s.bufs + v.d.bufs
        v.pos, v.new, v.rd = v.mPosition, v.mNewStart, v.mRetDelim

    def wf(self, eng, v):
        return Str.wf(eng, v.s) + Str.wf(eng, v.d) + [v.pos >= 0, v.pos <= v.s.len, v.new >= -1, v.new <= v.s.len, z3.Or(v.rd == 0, v.rd == 1)] + start_at(v, v.new, v.new >= 0)

    def same(self, eng, a, b): return ObjK.same(self, eng, a, b) + Str.same(eng, a.s, b.s) + Str.same(eng, a.d, b.d)

    def havoc(self, eng, st, p, fresh_obj):
        p = obj_ptr(eng, st, p)
        if fresh_obj: return ObjK.havoc(self, eng, st, p, True)
        w = st.wreg(p.r)       # the strings of a tokenizer never change
        for m, bits in self.scal: w.fields[p.o + self.off(eng, m)] = (bits // 8, eng.fresh_int(st, bits, 'tok_' + m))

    def release(self, eng, st, p):
        for m in self.parts: Str.release(eng, st, self.part(eng, p, m))


DEL = {}


def delim(v):
    """D(ch): ch is one of the separators (defined by the separator text alone)"""
    key = (v.d.arr.get_id(), v.d.len.get_id(), v.s.arr.get_id())
    if key not in DEL:
        D = z3.Function('isDelim_%d_%d' % key[:2], z3.IntSort(), z3.BoolSort())
        w, x, k = z3.Function(fresh_name('delimAt'), z3.IntSort(), z3.IntSort()), z3.Int(fresh_name('x')), z3.Int(fresh_name('k'))
        at = z3.Select(v.s.arr, x)
        ax = [z3.Implies(v.d.len > 0, D(z3.Select(v.d.arr, 0))),
              ForAll(x, z3.Implies(D(at), z3.And(w(x) >= 0, w(x) < v.d.len, z3.Select(v.d.arr, w(x)) == at)), [at]),
              ForAll(k, z3.Implies(z3.And(k >= 0, k < v.d.len), D(z3.Select(v.d.arr, k))), [z3.Select(v.d.arr, k)])]
        DEL[key] = (D, ax, v.d.arr, v.d.len, v.s.arr)
    return DEL[key][0], DEL[key][1]


def start_at(v, f, g=True):
    """f is the position of the next token: nothing but separators before it (nothing at all when separators are tokens)"""
    D, _ = delim(v)
    k = z3.Const(fresh_name('k'), z3.IntSort())
    g = z3.BoolVal(True) if g is True else g
    return [z3.Implies(g, z3.And(f >= v.pos, f <= v.s.len)),
            z3.Implies(z3.And(g, v.rd == 1, f < v.s.len, D(z3.Select(v.s.arr, v.pos))), f == v.pos),
            z3.Implies(z3.And(g, v.rd == 1), f == v.pos),
            z3.Implies(z3.And(g, v.rd == 0, f < v.s.len), z3.Not(D(z3.Select(v.s.arr, f)))),
            ForAll(k, z3.Implies(z3.And(g, k >= v.pos, k < f), D(z3.Select(v.s.arr, k))), [z3.Select(v.s.arr, k)])]


def token(c):
    """(first, end, axioms): the next token is text[first, end); first == length when there is none"""
    v = c.o.this
    D, dx = delim(v)
    f, e = c.ghost(('token', v.s.arr, v.s.len, v.d.arr, v.d.len, v.pos, v.rd), lambda: (z3.Const(fresh_name('tokenStart'), z3.IntSort()), z3.Const(fresh_name('tokenEnd'), z3.IntSort())))
    at = lambda k: z3.Select(v.s.arr, k)
    ax = dx + start_at(v, f) + [z3.Implies(f < v.s.len, z3.And(e > f, e <= v.s.len)),
                                z3.Implies(z3.And(f < v.s.len, v.rd == 1, D(at(f))), e == f + 1),
                                z3.Implies(z3.And(f < v.s.len, z3.Not(D(at(f))), e < v.s.len), D(at(e))),
                                c.all(lambda k: z3.Implies(z3.And(f < v.s.len, z3.Not(D(at(f))), k >= f, k < e), z3.Not(D(at(k)))), lambda k: [at(k)])]
    return f, e, ax


Tok = TokK()
T, TM, TO = [P('this', Tok)], [P('this', Tok, 'mut')], [P('this', Tok, 'out')]
ST = 'jm::StringTokenizer::'


def kept(c):
    o, n = c.o.this, c.n.this
    return [('text ' + a, f) for a, f in strings.copy_of(c, n.s, o.s)] + [('separators ' + a, f) for a, f in strings.copy_of(c, n.d, o.d)] + \
        [('mode', n.rd == o.rd), ('the strings are not touched', z3.BoolVal(n.bufs == o.bufs)), ('capacities', z3.And(n.s.cap == o.s.cap, n.d.cap == o.d.cap)), ('hashes', z3.And(n.s.hash == o.s.hash, n.d.hash == o.d.hash))]


def ctor(c):
    n = c.n.this
    return [('text', c.all(lambda k: z3.Implies(z3.And(k >= 0, k < n.s.len), n.s[k] == c.o.str[k]), lambda k: [c.o.str[k]]))] + [('text ' + a, f) for a, f in strings.copy_of(c, n.s, c.o.str)] + [('separators ' + a, f) for a, f in strings.copy_of(c, n.d, c.o.dl)] + \
        [('at the start', n.pos == 0), ('not looked for yet', n.new == -1), ('mode', n.rd == z3.If(c.o.rd, 1, 0))]


con(ST + 'StringTokenizer(jm::String const&, jm::String const&, bool)', TO + [P('str', Str), P('dl', Str), P('rd', I1)], alias=[('str', 'dl')], post=ctor, prop=['C16'])


con(ST + '~StringTokenizer()', [P('this', Tok, 'dead')], prop=['C16'])


def isdel(c):
    v = c.o.this
    D, ax = delim(v)
    return D(z3.Select(v.s.arr, c.o.i)), ax


con(ST + 'isDelimiter(long) const', T + [P('i', I64)], ret=I1, specs=lambda c: isdel(c)[1], throws=lambda c: z3.Or(c.o.i < 0, c.o.i >= c.o.this.s.len),
    post=lambda c: ([('def', x) for x in isdel(c)[1]] if c.applying else []) + [('is one of the separators', c.ret == isdel(c)[0])], prop=['C16'])


def tend(c):
    v, r = c.o.this, c.ret
    D, ax = delim(v)
    return ([('def', x) for x in ax] if c.applying else []) + \
        [('in range', z3.And(r >= c.o.p, r <= v.s.len)), ('stops at a separator', z3.Implies(r < v.s.len, D(z3.Select(v.s.arr, r)))),
         ('no separator inside', c.all(lambda k: z3.Implies(z3.And(k >= c.o.p, k < r), z3.Not(D(z3.Select(v.s.arr, k)))), lambda k: [z3.Select(v.s.arr, k)]))]


def scan_loops(V):
    c = V.c
    v = c.o.this
    D, _ = delim(v)
    at = lambda k: z3.Select(v.s.arr, k)
    out = []
    for i, i0, loc in V.scal():
        if not z3.is_int(i) or i0 is None: continue
        out += [('no separator yet', c.all(lambda k: z3.Implies(z3.And(k >= i0, k < i), z3.Not(D(at(k)))), lambda k: [at(k)])),
                ('separators so far', c.all(lambda k: z3.Implies(z3.And(k >= i0, k < i), D(at(k))), lambda k: [at(k)]))]
    return out


INR = lambda c: [c.o.p >= 0, c.o.p <= c.o.this.s.len]
con(ST + 'findTokenEnd(long) const', T + [P('p', I64)], ret=I64, pre=INR, specs=lambda c: delim(c.o.this)[1], loops=scan_loops, post=tend, prop=['C16'])


def dend(c):
    v, r = c.o.this, c.ret
    D, ax = delim(v)
    return ([('def', x) for x in ax] if c.applying else []) + \
        [('in range', z3.And(r >= c.o.p, r <= v.s.len)), ('separators are not skipped when they are tokens', z3.Implies(v.rd == 1, r == c.o.p)),
         ('stops at no separator', z3.Implies(z3.And(v.rd == 0, r < v.s.len), z3.Not(D(z3.Select(v.s.arr, r))))),
         ('only separators skipped', c.all(lambda k: z3.Implies(z3.And(k >= c.o.p, k < r), D(z3.Select(v.s.arr, k))), lambda k: [z3.Select(v.s.arr, k)]))]


con(ST + 'findDelimiterEnd(long) const', T + [P('p', I64)], ret=I64, pre=INR, specs=lambda c: delim(c.o.this)[1], loops=scan_loops, post=dend, prop=['C16'])


def defs(c): return [('def', x) for x in token(c)[2]] if c.applying else []


con(ST + 'hasNext()', TM, ret=I1, loops=scan_loops, specs=lambda c: token(c)[2], prop=['C16'],
    post=lambda c: defs(c) + kept(c) + [('there is a next token', c.ret == (token(c)[0] < c.o.this.s.len)), ('position unchanged', c.n.this.pos == c.o.this.pos)])
con(ST + 'next()', TM, sret=Str, loops=scan_loops, specs=lambda c: token(c)[2], throws=lambda c: token(c)[0] >= c.o.this.s.len, throw_mod=True, attrs=dict(throw_defs=True), prop=['C16'],
    post=lambda c: defs(c) + kept(c) + [('token length', c.n.ret.len == token(c)[1] - token(c)[0]),
                                        ('token text', c.all(lambda k: z3.Implies(z3.And(k >= 0, k < token(c)[1] - token(c)[0]), c.n.ret[k] == c.o.this.s[k + token(c)[0]]), lambda k: [c.n.ret[k]])),
                                        ('continues after the token', c.n.this.pos == token(c)[1]), ('not looked for yet', c.n.this.new == -1)])
