"""Paths of files (C27): composition and decomposition over the contracts of String."""
import re, z3
from contract import *
import smt
from smt import ForAll, fresh_name
import strings, importlib
from strings import Str, T, TM, SR, H0, content_is, copy_of

REQUIRES = ['strings', 'bytes']
BA = importlib.import_module('bytes').BA
SOURCES = ['src/core/File.cpp', 'src/core/Stream.cpp']
HEADERS = ['core/File.h']
CLASSES = {'FILE': ('jm::File', ['mPathname', 'mCstr', 'mHandle'])}
C = []
INT = z3.IntSort()
SEP, DOT = 0x2F, 0x2E
Sel = z3.Select


def con(sig, params, **k):
    k.setdefault('prop', ['C27'])
    x = Contract(sig, params, **k)
    C.append(x)
    return x


def separator(eng, st, p, ty):
    """DIR_SEP: the character its initializer in the extracted module gives to Char"""
    vals = {int(x) for m in eng.mods for x in re.findall(r'@_ZN2jm4CharC[12]Et\([^)\n]*\(2\) @%s, i16[^)\n]*?(\d+)\)' % re.escape(p.name), open(m.path).read())}
    eng.trusted.add('DIR_SEP keeps the character of its initializer')
    if p.off or len(vals) != 1: return None
    return eng.A.const(vals.pop(), 16)


separator.isval = True
GLOBOBJS = {'_ZN2jmL7DIR_SEPE': separator}


class FileK(ObjK):
    cls = 'FILE'
    scal = ()
    parts = ('mPathname', Str), ('mCstr', BA)

    def part(self, eng, p, m): return Ptr(p.r, p.i, p.o + self.off(eng, m))

    def init_extra(self, eng, st, p, name):
        for m, kind in self.parts: kind.init(eng, st, self.part(eng, p, m), '%s_%s' % (name, m))
        st.wreg(p.r).fields[p.o + self.off(eng, 'mHandle')] = (8, Opaque('handle'))

    def view_extra(self, eng, st, p, v):
        v.s, v.cs = (kind.view(eng, st, self.part(eng, p, m)) for m, kind in self.parts)
        v.bufs = v.s.bufs + v.cs.bufs

    def wf(self, eng, v): return Str.wf(eng, v.s) + BA.wf(eng, v.cs)
    def same(self, eng, a, b): return Str.same(eng, a.s, b.s)

    def release(self, eng, st, p):
        for m, kind in self.parts: kind.release(eng, st, self.part(eng, p, m))


Fl = FileK()
F = 'jm::File::'
TF = [P('this', Fl)]


def last(c, key, s, n, ch, frm):
    """position of the last ch at or after frm, frm - 1 when there is none"""
    p = c.ghost((key, s, n), lambda: z3.Const(fresh_name('last'), INT))
    return p, [p >= frm - 1, p < n, z3.Implies(p >= frm, Sel(s, p) == ch), c.all(lambda k: z3.Implies(z3.And(k > p, k < n, k >= frm), Sel(s, k) != ch), lambda k: [Sel(s, k)])]


def slash(c): return last(c, 'slash', c.o.this.s.arr, c.o.this.s.len, SEP, z3.IntVal(0))
def dot(c):
    p, ax = slash(c)
    q, ax2 = last(c, 'dot', c.o.this.s.arr, c.o.this.s.len, DOT, p + 1)
    return q, p, ax + ax2


def part_of(c, i, n):
    s, r = c.o.this.s.arr, c.n.ret.arr
    both = [('def', c.all(lambda k: z3.Implies(z3.And(k >= i, k < i + n), Sel(r, k - i) == Sel(s, k)), lambda k: [Sel(s, k)]))] if c.applying else []
    return content_is(c, c.n.ret, [c.sub(s, i, n)]) + both
con(F + 'parent() const', TF, specs=lambda c: slash(c)[1], post=lambda c: part_of(c, z3.IntVal(0), z3.If(slash(c)[0] < 0, 0, slash(c)[0])), **SR)
con(F + 'name() const', TF, specs=lambda c: slash(c)[1], post=lambda c: part_of(c, slash(c)[0] + 1, c.o.this.s.len - slash(c)[0] - 1), **SR)
con(F + 'extension() const', TF, specs=lambda c: dot(c)[2], post=lambda c: part_of(c, dot(c)[0] + 1, z3.If(dot(c)[0] > dot(c)[1], c.o.this.s.len - dot(c)[0] - 1, 0)), **SR)
con(F + 'path() const', TF, post=lambda c: part_of(c, z3.IntVal(0), c.o.this.s.len), **SR)


# ---------------------------------------------------------------- composition
def joined(c):
    p, q = c.o.parent, c.o.child
    alone = z3.And(p.len == 1, p[0] == SEP)
    pn = z3.If(alone, 0, p.len)
    lead = z3.If(z3.And(q.len > 0, q[0] == SEP), 1, 0)
    return content_is(c, c.n.ret, [c.sub(p.arr, 0, pn), c.one(SEP), c.sub(q.arr, lead, q.len - lead)])


con(F + 'resolve(jm::String, jm::String)', [P('this', AnyPtr()), P('parent', Str, 'mut'), P('child', Str, 'mut')], throws=lambda c: z3.And(c.o.child.len == 0, c.o.parent.len > 0), post=joined, **SR)


def kept(c, s, n):
    """K(i): number of characters of the first i that stay when a separator after a separator is left out"""
    K = c.ghost(('kept', s, n), lambda: z3.Function(fresh_name('kept'), INT, INT))
    drop = lambda i: z3.And(i > 0, Sel(s, i) == SEP, Sel(s, i - 1) == SEP)
    rng = lambda i: z3.And(K(i) >= 0, K(i) <= i, z3.Implies(i > 0, K(i) >= 1))
    return K, drop, [K(0) == 0, c.all(lambda i: z3.Implies(z3.And(i >= 0, i < n), K(i + 1) == z3.If(drop(i), K(i), K(i) + 1)), lambda i: [K(i), K(i + 1)]), c.all(lambda i: z3.Implies(z3.And(i >= 0, i <= n), rng(i)), lambda i: [K(i)]), rng(n)]


def lemma():
    K, d = z3.Function('K_lemma', INT, INT), z3.Function('drop_lemma', INT, z3.BoolSort())
    i = z3.Int('i')
    rng = lambda i: z3.And(K(i) >= 0, K(i) <= i, z3.Implies(i > 0, K(i) >= 1))
    return [('at least one and at most i of the first i characters stay (step)', [i >= 0, rng(i), z3.Not(d(z3.IntVal(0))), K(0) == 0, K(i + 1) == z3.If(d(i), K(i), K(i) + 1)], rng(i + 1))]


LEMMAS = lemma()


def norm_of(c, src=None):
    src = src if src is not None else c.o.path
    s, n = src.arr, src.len
    return (s, n) + kept(c, s, n)


def norm_len(s, n, K): return K(n) - z3.If(z3.And(n > 0, Sel(s, n - 1) == SEP, K(n) > 1), 1, 0)


def normal_at(c, arr, off, frm, src):
    """characters of arr from off on: the normalized text of src from its position frm on"""
    s, n, K, drop, ax = norm_of(c, src)
    return ('characters', c.all(lambda i: z3.Implies(z3.And(i >= 0, i < n, z3.Not(drop(i)), K(i) >= frm, K(i) < norm_len(s, n, K)), Sel(arr, off + K(i) - frm) == Sel(s, i)), lambda i: [K(i)]))


def normal(c, r=None):
    r = r or c.n.ret
    s, n, K, drop, ax = norm_of(c)
    return ([('def', a) for a in ax] if c.applying else []) + [('length', r.len == norm_len(s, n, K)), normal_at(c, r.arr, 0, 0, None)]


def norm_loops(V):
    c = V.c
    s, n, K, drop, _ = norm_of(c)
    out = []
    ints = [(x, e) for x, e, loc in V.scal() if z3.is_int(x) and (loc[0] != 'fld' or loc[3] == 8)]
    chars = [x for x, e, loc in V.scal() if z3.is_int(x) and loc[0] == 'fld' and loc[3] == 2]
    pos = z3.Const(fresh_name('k'), INT)
    def kept_upto(a, i, m): return [('kept characters', ForAll(pos, z3.Implies(z3.And(pos >= 0, pos < i, z3.Not(drop(pos))), z3.And(K(pos) < m, Sel(a, K(pos)) == Sel(s, pos))), [K(pos)]))]
    prev = lambda i: z3.If(i == 0, 0, Sel(s, i - 1))
    zero = [x for x, e in ints if z3.is_int_value(z3.simplify(e)) and z3.simplify(e).as_long() == 0]
    full = [x for x, e in ints if z3.is_expr(e) and not z3.is_int_value(e) and smt.check(V.entry.pc + [e != n], 500).status == 'unsat']
    for x in zero:
        out += [('in range', z3.And(x >= 0, x <= n)), ('instance', z3.And(K(x) >= 0, K(x) <= x))]
        for z in zero:      # appending: x characters read, z written
            if z.eq(x): continue
            out.append(('count', K(x) == z))
            out += [('previous character', q == prev(x)) for q in chars]
            for rid, key, a in V.allarrays(2):
                if key == 0 and a.get_id() != s.get_id(): out += kept_upto(a, x, z)
        for y in full:      # leaving out in place: x characters kept, the rest follows up to y
            i = x + n - y
            out += [('place', z3.And(x <= y, y <= n, i <= n)), ('count', K(i) == x), ('same length', x == y)]
            for z in full:
                if not z.eq(y): out.append(('same length', z == y))
            out += [('previous character', q == prev(i)) for q in chars]
            for rid, key, a in V.allarrays(2):
                if key == 0 and a.get_id() != s.get_id(): out += kept_upto(a, i, x) + [('rest follows', ForAll(pos, z3.Implies(z3.And(pos >= x, pos < y), Sel(a, pos) == Sel(s, pos + n - y)), [Sel(a, pos)]))]
    return out


con(F + 'normalize(jm::String const&)', [P('this', AnyPtr()), P('path', Str)], specs=lambda c: norm_of(c)[4], recs=lambda c: [norm_of(c)[2]], loops=norm_loops, post=normal, attrs=dict(lazy_inner=True, skip=('history', 'unch', 'stored', 'outside', 'g<=', 'g>=')), **SR)


# ---------------------------------------------------------------- construction
TO = [P('this', Fl, 'out')]


con(F + 'setCString()', [P('this', Fl, 'mut')], assumed='setCString only stores the encoded path', post=lambda c: copy_of(c, c.n.this.s, c.o.this.s))
con(F + 'File()', TO, post=lambda c: [('empty', c.n.this.s.len == 0)])
con(F + 'File(jm::File const&)', TO + [P('other', Fl)], post=lambda c: copy_of(c, c.n.this.s, c.o.other.s))
con(F + 'operator=(jm::File const&)', [P('this', Fl, 'mut'), P('other', Fl)], alias=[('this', 'other')], ret='arg:this', post=lambda c: copy_of(c, c.n.this.s, c.o.other.s))
con(F + 'isNull() const', TF, retfn=lambda c: c.o.this.cs.len == 0)
con(F + 'File(jm::String const&)', TO + [P('path', Str)], specs=lambda c: norm_of(c)[4], recs=lambda c: [norm_of(c)[2]], post=lambda c: normal(c, c.n.this.s))


def joined_norm(c, p):
    """the normalized texts of p and of the child with one separator between them"""
    q, r = c.o.child, c.n.this.s
    s, n, K, drop, ax = norm_of(c, p)
    s2, n2, K2, drop2, ax2 = norm_of(c, q)
    pl, ql = norm_len(s, n, K), norm_len(s2, n2, K2)
    alone = z3.And(n > 0, pl == 1, Sel(s, 0) == SEP)
    pn = z3.If(alone, 0, pl)
    lead = z3.If(Sel(s2, 0) == SEP, 1, 0)
    return [('length', r.len == pn + 1 + ql - lead), ('one separator', Sel(r.arr, pn) == SEP), normal_at(c, r.arr, 0, 0, p), normal_at(c, r.arr, pn + 1, lead, q)]


both = lambda c: norm_of(c, c.o.parent)[4] + norm_of(c, c.o.child)[4]
con(F + 'File(jm::String, jm::String)', TO + [P('parent', Str, 'mut'), P('child', Str, 'mut')], throws=lambda c: c.o.child.len == 0, specs=both, recs=lambda c: [norm_of(c, c.o.parent)[2], norm_of(c, c.o.child)[2]], post=lambda c: joined_norm(c, c.o.parent))


def under(c):
    """a child below a file: its path and the normalized child with one separator between them"""
    p, q, r = c.o.parent.s, c.o.child, c.n.this.s
    s2, n2, K2, drop2, ax2 = norm_of(c, q)
    ql = norm_len(s2, n2, K2)
    pn = z3.If(z3.And(p.len == 1, p[0] == SEP), 0, p.len)
    lead = z3.If(Sel(s2, 0) == SEP, 1, 0)
    return [('length', r.len == pn + 1 + ql - lead), ('parent', c.all(lambda k: z3.Implies(z3.And(k >= 0, k < pn), r[k] == p[k]), lambda k: [r[k]])), ('one separator', Sel(r.arr, pn) == SEP), normal_at(c, r.arr, pn + 1, lead, q)]


con(F + 'File(jm::File const&, jm::String)', TO + [P('parent', Fl), P('child', Str, 'mut')], throws=lambda c: c.o.child.len == 0, specs=lambda c: norm_of(c, c.o.child)[4], recs=lambda c: [norm_of(c, c.o.child)[2]], post=under)
con(F + '~File()', [P('this', Fl, 'dead')])
