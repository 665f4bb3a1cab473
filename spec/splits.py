"""String::split (C16) over the contracts of the tokenizer and the string list."""
import z3
from contract import *
from smt import ForAll, Nested, fresh_name
import strings, tokens, textlist
from strings import Str
from textlist import LK, LEN, CHAR, Sel, INT

REQUIRES = ['strings', 'tokens', 'textlist']
C = []


def pieces(c):
    """(B, PS, PE, N): the text has N pieces without separator, piece j is [PS(j), PE(j)) and is looked for from B(j) on"""
    s = c.o.this
    PS, PE, N, AT = c.ghost(('pieces', s.arr, s.len, c.o.ch), lambda: (z3.Function(fresh_name('pieceStart'), INT, INT), z3.Function(fresh_name('pieceEnd'), INT, INT), z3.Const(fresh_name('pieces'), INT), z3.Function(fresh_name('pieceAt'), INT, INT)))
    B = lambda j: z3.If(j == 0, 0, PE(j - 1))
    j, k = z3.Const(fresh_name('j'), INT), z3.Const(fresh_name('k'), INT)
    sep = lambda k: s[k] == c.o.ch
    ax = [N >= 0, PS(N) == s.len,
          c.all(lambda j: AT(j) == PS(j), lambda j: [AT(j)]),
          c.all(lambda j: z3.Implies(z3.And(j >= 0, j <= N), z3.And(B(j) <= PS(j), B(j) >= 0, PS(j) <= s.len, (PS(j) < s.len) == (j < N))), lambda j: [PS(j)]),
          c.all(lambda j: z3.Implies(z3.And(j >= 0, j < N), z3.And(z3.Not(sep(PS(j))), PS(j) < PE(j), PE(j) <= s.len, z3.Implies(PE(j) < s.len, sep(PE(j))))), lambda j: [PS(j)]),
          Nested(j, [AT(j)], ForAll(k, z3.Implies(z3.And(j >= 0, j <= N, k >= B(j), k < PS(j)), sep(k)), [s[k]])),
          Nested(j, [AT(j)], ForAll(k, z3.Implies(z3.And(j >= 0, j < N, k >= PS(j), k < PE(j)), z3.Not(sep(k))), [s[k]]))]
    return B, PS, PE, N, AT, ax


def texts_are(c, ids, n):
    B, PS, PE, N, AT, _ = pieces(c)
    x, y, z = (z3.Const(fresh_name('x'), INT) for _ in range(3))
    t = Sel(ids, x)
    return [('length of every piece', ForAll(z, z3.Implies(z3.And(z >= 0, z < n), LEN(Sel(ids, z)) == PE(z) - PS(z)), [Sel(ids, z)])),
            ('characters of every piece', Nested(x, [t], ForAll(y, z3.Implies(z3.And(x >= 0, x < n, y >= 0, y < LEN(t)), CHAR(t, y) == c.o.this[PS(x) + y]), [CHAR(t, y)])))]


def split_loops(V):
    c = V.c
    B, PS, PE, N, AT, _ = pieces(c)
    out = []
    def members(cls, m): return [x for x, loc, part in V.H.consts if loc[0] == 'fld' and V.eng.offsets[cls][m] == loc[2] and getattr(V.h.ghost.get(('kind', loc[1], 0)), 'cls', None) == cls]
    for m in members('SL', 'mSize'):
        out += [('number of pieces', z3.And(m >= 0, m <= N, B(m) <= AT(m), AT(m) <= c.o.this.len, z3.Implies(m < N, PS(m) < PE(m))))]
        out += [('behind the last piece', p == B(m)) for p in members('TOK', 'mPosition')]
        out += [('nothing looked for', p == -1) for p in members('TOK', 'mNewStart')]
        for rid, key, a in V.allarrays(64):
            if key == 0: out += texts_are(c, a, m)
    return out


C.append(Contract('jm::String::split(jm::Char)', [P('this', Str), P('ch', I16)], sret=LK, specs=lambda c: pieces(c)[5], loops=split_loops, prop=['C16'], budget=300, attrs=dict(call_hook=textlist.texts, elem_load=textlist.virtual, maxinst=4000),
                  pre=lambda c: [c.o.this.len < 1 << 37],
                  post=lambda c: ([('def', x) for x in pieces(c)[5]] if c.applying else []) + [('number of pieces', c.n.ret.size == pieces(c)[3])] + texts_are(c, c.n.ret.ids, pieces(c)[3])))
