"""Character encodings: UTF-8 (C06), code pages and UTF-16 (C07)."""
import z3
from contract import *
import smt
from smt import ForAll, Nested, fresh_name
import importlib
import strings
from strings import Str, StrK, seq_eq
bytesmod = importlib.import_module('bytes')
BA = bytesmod.BA

REQUIRES = ['bytes', 'strings']
SOURCES = ['src/core/UTF8Decoder.cpp', 'src/core/UTF16Decoder.cpp', 'src/core/Windows1252Decoder.cpp', 'src/core/MacRomanDecoder.cpp', 'src/core/CharsetDecoder.cpp', 'src/core/Charset.cpp']
HEADERS = []
CLASSES = {'CharArray': ('jm::CharArray', ['length', 'buffer']), 'UTF8Decoder': ('jm::UTF8Decoder', ['mRefCount']), 'RawDecoder': ('jm::RawDecoder', ['mRefCount']), 'UTF16Decoder': ('jm::UTF16Decoder', ['be']),
           'Windows1252Decoder': ('jm::Windows1252Decoder', ['codepage']), 'MacRomanDecoder': ('jm::MacRomanDecoder', ['codepage'])}
C = []


def con(sig, params, **k):
    k.setdefault('prop', ['C06'])
    x = Contract(sig, params, **k)
    C.append(x)
    return x


class CharArrayK(ObjK):
    cls = 'CharArray'
    hdr = False
    scal = (('length', 64),)
    buf = 'buffer'
    esz = 2
    nullbuf = True

    def view_extra(self, eng, st, p, v): v.len = v.length
    def wf(self, eng, v): return [v.length >= 0, v.length <= (1 << 45), v.length == v.bufn]
    def same(self, eng, a, b): return StrK.same(self, eng, _L(a), _L(b))
    def length(self, eng, v): return v.length


class _L:
    def __init__(self, v): self.mStrLength, self.arr = v.length, v.arr


CA = CharArrayK()
K = 'jm::CharArray::'
TO = [P('this', CA, 'out')]
con(K + 'CharArray()', TO, post=lambda c: [('empty', c.n.this.len == 0)], prop=['C06', 'C07'], attrs=dict(noapply=True))
con(K + 'CharArray(long)', TO + [P('n', I64)], pre=lambda c: [c.o.n >= 0, c.o.n <= (1 << 45)], post=lambda c: [('length', c.n.this.len == c.o.n)], prop=['C06', 'C07'])
con(K + 'CharArray(jm::CharArray const&)', TO + [P('s', CA)], alias=[('null', 's')], post=lambda c: seq_eq(c, c.n.this.arr, c.n.this.len, c.o.s.arr, c.o.s.len), prop=['C06', 'C07'])
con(K + '~CharArray()', [P('this', CA, 'dead')], alias=[('null', 'this')], prop=['C06', 'C07'])
con(K + 'operator=(jm::CharArray const&)', [P('this', CA, 'mut'), P('s', CA)], alias=[('this', 's'), ('null', 'this')], ret='arg:this', post=lambda c: seq_eq(c, c.n.this.arr, c.n.this.len, c.o.s.arr, c.o.s.len), prop=['C06', 'C07'])


class DecK(ObjK):
    def __init__(self, cls, scal=()): self.cls, self.scal = cls, scal
    def release(self, eng, st, p): pass


U8 = DecK('UTF8Decoder')
CSTR = BufK(1)
I = z3.IntSort()


def zero(c, b):
    """index of the terminating zero byte"""
    def mk():
        if c.applying:
            if getattr(b, 'table', None) is not None and 0 in b.table: return z3.IntVal(b.table.index(0))
            n = b.bufn.as_long() if z3.is_int_value(z3.simplify(b.bufn)) else 0
            if n <= 64:
                j = n
                while j > 0 and smt.prove(c.st.pc, b[j - 1] == 0, 2000, second=False, want_model=False).status == 'unsat': j -= 1
                if j < n: return z3.IntVal(j)
        return z3.Const(fresh_name('zero'), I)
    return c.ghost(('zero', b.arr), mk)


def cstr(c, b, width=1):
    z = zero(c, b)
    return [z >= 0, z < (1 << 31), z < b.bufn, b[z] == 0, c.all(lambda k: z3.Implies(z3.And(k >= 0, k < z), b[k] != 0), lambda k: [b[k]])]


# ---------------------------------------------------------------- UTF-8 decoding
def step(b, p):
    """(bytes taken, characters made, character) at position p; a sequence cut off by the terminating zero is a single byte"""
    x, d, e, f = b[p], b[p + 1] % 64, b[p + 2] % 64, b[p + 3] % 64
    two = z3.And(x >= 0xC0, x < 0xE0, b[p + 1] != 0)
    three = z3.And(x >= 0xE0, x < 0xF0, b[p + 1] != 0, b[p + 2] != 0)
    four = z3.And(x >= 0xF0, x < 0xF8, b[p + 1] != 0, b[p + 2] != 0, b[p + 3] != 0)
    skip = z3.And(x == 0xFF, b[p + 1] == 0xFE)
    n = z3.If(two, 2, z3.If(three, 3, z3.If(four, 4, z3.If(skip, 2, 1))))
    m = z3.If(skip, 0, 1)
    ch = z3.If(two, (x % 32) * 64 + d, z3.If(three, (x % 16) * 4096 + d * 64 + e, z3.If(four, (d % 16) * 4096 + e * 64 + f, x)))
    return n, m, ch


def start(b): return z3.If(z3.And(b[0] == 0xEF, b[1] == 0xBB, b[2] == 0xBF), 3, 0)


def dec(c, b):
    """REM(p): characters from byte p on; CH(p, j): the j-th of them (recursion over the rest of the text).
    RL and CL are REM and CH as they occur on the right of the recursion: instantiating the definition once does not create the next instance."""
    def mk(): return z3.Function(fresh_name('rem'), I, I), z3.Function(fresh_name('ch'), I, I, I), z3.Function(fresh_name('reml'), I, I), z3.Function(fresh_name('chl'), I, I, I)
    P_, J_ = z3.Const(fresh_name('p'), I), z3.Const(fresh_name('j'), I)
    REM, CH, RL, CL = c.ghost(('utf8', b.arr), mk)
    z = zero(c, b)
    A = b.arr

    class V:
        def __getitem__(s, k): return z3.Select(A, k)
    v = V()
    ok = lambda p: z3.And(p >= 0, p < z)
    ax = [REM(z) == 0, RL(z) == 0,
          c.all(lambda p: z3.And(REM(p) == RL(p), z3.Implies(ok(p), z3.And(p + step(v, p)[0] <= z, REM(p) == step(v, p)[1] + RL(p + step(v, p)[0]), REM(p) >= 0, REM(p) <= z - p))), lambda p: [REM(p)]),
          Nested(P_, [CH(P_, z3.IntVal(0))], ForAll(J_, z3.And(CH(P_, J_) == CL(P_, J_), z3.Implies(z3.And(ok(P_), J_ >= 0), CH(P_, J_) == z3.If(z3.And(step(v, P_)[1] == 1, J_ == 0), step(v, P_)[2], CL(P_ + step(v, P_)[0], J_ - step(v, P_)[1])))), [CH(P_, J_)]))]
    return REM, CH, ax


def dec_loops(V):
    c = V.c
    b = getattr(c.o, 'b', None)
    if b is None: return []
    REM, CH, _ = dec(c, b)
    z, s = zero(c, b), start(b)
    out = []
    ints = [i for i, _, _, _ in V.ints]
    for x in ints:
        out.append(('inside', z3.And(x >= 0, x <= z)))
        for y in ints:
            if x.eq(y): continue
            out.append(('count', y + REM(x) == REM(s)))
            m = z3.Const(fresh_name('m'), I)
            out.append(('rest', ForAll(m, z3.Implies(m >= y, CH(s, m) == CH(x, m - y)), [CH(s, m)])))
        for a, a0, loc, part in V.arrays:
            if a.sort().range() != I: continue
            k = z3.Const(fresh_name('k'), I)
            out.append(('decoded', ForAll(k, z3.Implies(z3.And(k >= 0, k < x), z3.Select(a, k) == CH(s, k)), [z3.Select(a, k)])))
    return out


def bom16(b): return z3.Or(z3.And(b[0] == 0xFE, b[1] == 0xFF), z3.And(b[0] == 0xFF, b[1] == 0xFE))


def dec_post(c, v, b):
    REM, CH, _ = dec(c, b)
    s = start(b)
    if c.applying and z3.is_int_value(zero(c, b)) and zero(c, b).as_long() <= 64:       # a text of known length: ASCII characters stand for themselves (LEMMAS)
        n = zero(c, b).as_long()
        return [('ASCII text', z3.Implies(z3.And(*[b[j] < 0x80 for j in range(n)]), z3.And(v.len == n, *[v[j] == b[j] for j in range(n)])))]
    return [('length', v.len == REM(s)), ('characters', c.all(lambda k: z3.Implies(z3.And(k >= 0, k < v.len), v[k] == CH(s, k)), lambda k: [v[k]]))]


con('jm::UTF8Decoder::decode(char const*)', [P('this', U8), P('b', CSTR)], sret=CA, pre=lambda c: cstr(c, c.o.b), specs=lambda c: dec(c, c.o.b)[2], throws=lambda c: bom16(c.o.b), loops=dec_loops, budget=400,
    post=lambda c: dec_post(c, c.n.ret, c.o.b))


# ---------------------------------------------------------------- UTF-8 encoding
def width(x): return z3.If(x < 0x80, 1, z3.If(x < 0x800, 2, 3))


def encoded(b, o, x):
    """the bytes from position o on are the standard encoding of x"""
    return z3.If(x < 0x80, b(o) == x, z3.If(x < 0x800, z3.And(b(o) == 0xC0 + x / 64, b(o + 1) == 0x80 + x % 64),
                 z3.And(b(o) == 0xE0 + x / 4096, b(o + 1) == 0x80 + x / 64 % 64, b(o + 2) == 0x80 + x % 64)))


def enc_fn(c, s):
    """OFF(k): bytes taken by the first k characters; it increases (LEMMAS)"""
    OFF = c.ghost(('utf8off', s.arr), lambda: z3.Function(fresh_name('off'), I, I))
    P_, J_ = z3.Const(fresh_name('p'), I), z3.Const(fresh_name('j'), I)
    n = s.len
    ax = [OFF(0) == 0,
          c.all(lambda k: z3.Implies(z3.And(k >= 0, k < n), z3.And(OFF(k + 1) == OFF(k) + width(s[k]), OFF(k) >= k, OFF(k + 1) <= OFF(n), OFF(n) <= 3 * n)), lambda k: [s[k]]),
          Nested(P_, [OFF(P_)], ForAll(J_, z3.Implies(z3.And(P_ >= 0, P_ < J_, J_ <= n), z3.And(OFF(P_) + width(s[P_]) <= OFF(J_), OFF(P_) >= P_)), [OFF(J_)]))]
    return OFF, ax


def enc_loops(V):
    c = V.c
    s = getattr(c.o, 's', None)
    if s is None: return []
    OFF, _ = enc_fn(c, s)
    out = []
    ints = [i for i, _, _, part in V.ints if part != 'n']
    for x in ints:
        for y in ints:
            if not x.eq(y): out.append(('bytes so far', y == OFF(x)))
        for a, a0, loc, part in V.arrays:
            if a.sort().range() != I: continue
            k = z3.Const(fresh_name('k'), I)
            out.append(('encoded', ForAll(k, z3.Implies(z3.And(k >= 0, k < x), encoded(lambda o: z3.Select(a, o), OFF(k), s[k])), [s[k]])))
    return out


con('jm::UTF8Decoder::encode(jm::CharArray const&)', [P('this', U8), P('s', CA)], sret=BA, pre=lambda c: [c.o.s.len < (1 << 29)], specs=lambda c: enc_fn(c, c.o.s)[1], loops=enc_loops, budget=200,
    post=lambda c: [('length', c.n.ret.len == enc_fn(c, c.o.s)[0](c.o.s.len)), ('standard encoding', c.all(lambda k: z3.Implies(z3.And(k >= 0, k < c.o.s.len), encoded(lambda o: c.n.ret[o], enc_fn(c, c.o.s)[0](k), c.o.s[k])), lambda k: [c.o.s[k]])),
                    ('terminated', z3.And(c.n.ret.mRawSize > c.n.ret.len, c.n.ret[c.n.ret.len] == 0))])


con('jm::UTF8Decoder::UTF8Decoder()', [P('this', U8, 'out')])
con('jm::UTF8Decoder::~UTF8Decoder()', [P('this', U8, 'dead')])
con('jm::String::String(char const*)', [P('this', Str, 'out'), P('b', CSTR)], alias=[('null', 'b')], pre=lambda c: [] if c.o.b.isnull else cstr(c, c.o.b), throws=lambda c: z3.BoolVal(False) if c.o.b.isnull else bom16(c.o.b),
    post=lambda c: [('empty', c.n.this.len == 0)] if c.o.b.isnull else dec_post(c, c.n.this, c.o.b))
con('jm::String::String(jm::ByteArray const&)', [P('this', Str, 'out'), P('b', BA)], alias=[('null', 'b')], pre=lambda c: [] if c.o.b.isnull else cstr(c, c.o.b), throws=lambda c: z3.BoolVal(False) if c.o.b.isnull else z3.And(c.o.b.len > 0, bom16(c.o.b)),
    post=lambda c: [('empty', c.n.this.len == 0)] if c.o.b.isnull else dec_post(c, c.n.this, c.o.b), specs=lambda c: [] if c.o.b.isnull else dec(c, c.o.b)[2])


def lemmas():
    """decode after encode is the identity: the encoding of one character in front of a text that decodes to the rest decodes to that character and the rest"""
    out = []
    a = z3.Const('b', z3.ArraySort(I, I))
    x, p, o, n1, w = z3.Ints('x p o n1 w')
    for i, (lo, hi) in enumerate(((1, 0x80), (0x80, 0x800), (0x800, 0x10000))):
        h = [x >= lo, x < hi, encoded(lambda q: z3.Select(a, q), p, x), p >= 0] + [z3.And(z3.Select(a, p + j) >= 0, z3.Select(a, p + j) < 256) for j in range(4)]
        n, m, ch = step(_At(a), p)
        out.append(('one step of decoding takes the encoding of one character and yields it (%d bytes)' % (i + 1), h, z3.And(n == width(x), m == 1, ch == x)))
        out.append(('the encoding of a character other than U+FEFF is not taken for a byte order mark (%d bytes)' % (i + 1), h + [p == 0, x != 0xFEFF], z3.And(start(_At(a)) == 0, z3.Not(bom16(_At(a))))))
        out.append(('the encoding of a character other than NUL has no zero byte (%d bytes)' % (i + 1), h, z3.And(*[z3.Select(a, p + j) != 0 for j in range(i + 1)])))
    f = [z3.Int('off%d' % i) for i in range(3)]
    out.append(('OFF increases (step)', [x >= 0, f[1] >= f[0] + 1, f[2] == f[1] + width(x)], z3.And(f[2] > f[1], f[2] >= f[0] + 1)))
    REM, OFF = z3.Function('rem', I, I), z3.Function('off', I, I)
    k, n = z3.Ints('k n')
    s = z3.Const('s', z3.ArraySort(I, I))
    nn, mm, ch = step(_At(a), OFF(k))
    CH = z3.Function('ch', I, I, I)
    j = z3.Int('j')
    hy = [k >= 0, k < n, OFF(k + 1) == OFF(k) + width(s[k]), nn == width(s[k]), mm == 1, ch == s[k], REM(OFF(k)) == mm + REM(OFF(k) + nn), REM(OFF(k + 1)) == n - (k + 1)]
    out.append(('decoding the encoding of the characters from k on gives n - k characters (step)', hy, REM(OFF(k)) == n - k))
    out.append(('decoding the encoding gives the characters (step)', hy + [j >= 0, j < n - k, CH(OFF(k), j) == z3.If(j == 0, ch, CH(OFF(k) + nn, j - 1)), z3.Implies(j >= 1, CH(OFF(k + 1), j - 1) == s[k + 1 + (j - 1)])], CH(OFF(k), j) == s[k + j]))
    return out


class _At:
    def __init__(s, a): s.a = a
    def __getitem__(s, k): return z3.Select(s.a, k)


LEMMAS = lemmas()

# ---------------------------------------------------------------- 8 bit code pages
P7 = ['C07']
CP1252 = [ord(bytes([i]).decode('cp1252')) if i not in (0x81, 0x8D, 0x8F, 0x90, 0x9D) else 0 for i in range(256)]
MACROMAN = [ord(bytes([i]).decode('mac_roman')) for i in range(256)]


class PageK(ObjK):
    """decoder with the table of 256 characters its constructor builds"""
    buf = 'codepage'
    esz = 2
    hdr = True

    def __init__(self, cls, table): self.cls, self.table = cls, table

    def wf(self, eng, v): return [v.bufn == 256] + [v[i] == x for i, x in enumerate(self.table)]


def lookup(tab, x):
    """position of character x in the table, 0 if it is not there"""
    r = z3.IntVal(0)
    if tab is MACROMAN: r = z3.If(x == 0xA4, 0xDB, r)      # documented: the currency sign was replaced by the euro sign in Mac OS 8.5
    for i in range(255, 0, -1):
        if tab[i]: r = z3.If(x == tab[i], i, r)
    return r


W52, MAC = PageK('Windows1252Decoder', CP1252), PageK('MacRomanDecoder', MACROMAN)
RAW = DecK('RawDecoder')


def content(c, v, n, f): return [('length', v.len == n), ('content', c.all(lambda k: z3.Implies(z3.And(k >= 0, k < n), v[k] == f(k)), lambda k: [v[k]]))]


def map_loops(src, f):
    """every element before the index has been translated"""
    def g(V):
        c = V.c
        b = getattr(c.o, src, None)
        if b is None: return []
        out = []
        for x in [i for i, _, _, part in V.ints if part != 'n']:
            if src == 'b': out.append(('inside', z3.And(x >= 0, x <= zero(c, b))))
            for a, a0, loc, part in V.arrays:
                if a.sort().range() != I: continue
                k = z3.Const(fresh_name('k'), I)
                out.append(('translated', ForAll(k, z3.Implies(z3.And(k >= 0, k < x), z3.Select(a, k) == f(c, b[k])), [z3.Select(a, k)])))
        return out
    return g


for cls, k in (('Windows1252Decoder', W52), ('MacRomanDecoder', MAC)):
    N = 'jm::%s::' % cls
    con(N + cls + '()', [P('this', k, 'out')], prop=P7)
    con(N + '~%s()' % cls, [P('this', k, 'dead')], prop=P7)
    f = lambda c, x: z3.Select(c.o.this.arr, x)
    con(N + 'decode(char const*)', [P('this', k), P('b', CSTR)], sret=CA, pre=lambda c: cstr(c, c.o.b), loops=map_loops('b', f), prop=P7, budget=200,
        post=lambda c: content(c, c.n.ret, zero(c, c.o.b), lambda j: z3.Select(c.o.this.arr, c.o.b[j])))
    tab = k.table
    f = lambda c, x, tab=tab: lookup(tab, x)
    con(N + 'encode(jm::CharArray const&)', [P('this', k), P('s', CA)], sret=BA, pre=lambda c: [c.o.s.len < (1 << 31)], loops=map_loops('s', f), prop=P7, budget=300,
        post=lambda c, tab=tab: content(c, c.n.ret, c.o.s.len, lambda j: lookup(tab, c.o.s[j])))
con('jm::MacRomanDecoder::decodeCharacter(unsigned char)', [P('this', MAC), P('x', I8)], ret=I16, prop=P7, post=lambda c: [('standard character', c.ret == z3.Select(c.o.this.arr, c.o.x))])
con('jm::MacRomanDecoder::encodeCharacter(unsigned short)', [P('this', MAC), P('x', I16)], ret=I8, prop=P7, budget=200, post=lambda c: [('position in the standard table', c.ret == lookup(MACROMAN, c.o.x))])
con('jm::RawDecoder::decode(char const*)', [P('this', RAW), P('b', CSTR)], sret=CA, pre=lambda c: cstr(c, c.o.b), loops=map_loops('b', lambda c, x: x), prop=P7, post=lambda c: content(c, c.n.ret, zero(c, c.o.b), lambda j: c.o.b[j]))
con('jm::RawDecoder::encode(jm::CharArray const&)', [P('this', RAW), P('s', CA)], sret=BA, pre=lambda c: [c.o.s.len < (1 << 31)], loops=map_loops('s', lambda c, x: x % 256), prop=P7, post=lambda c: content(c, c.n.ret, c.o.s.len, lambda j: c.o.s[j] % 256))

# ---------------------------------------------------------------- UTF-16
class U16K(DecK):
    def wf(self, eng, v): return [v.be >= 0, v.be <= 1]


U16 = U16K('UTF16Decoder', (('be', 8),))


def zero16(c, b):
    """index of the terminating 16 bit zero"""
    z = zero(c, b)
    return [z >= 0, z % 2 == 0, z < (1 << 31), z + 1 < b.bufn, b[z] == 0, b[z + 1] == 0, c.all(lambda k: z3.Implies(z3.And(k >= 0, k < z, k % 2 == 0), z3.Or(b[k] != 0, b[k + 1] != 0)), lambda k: [b[k]])]


def start16(b): return z3.If(bom16(b), 2, 0)
def bigendian(c, b): return z3.If(z3.And(b[0] == 0xFE, b[1] == 0xFF), True, z3.If(z3.And(b[0] == 0xFF, b[1] == 0xFE), False, c.o.this.be != 0))
def unit(be, x, y): return z3.If(be, 256 * x + y, x + 256 * y)


def dec16_loops(V):
    c = V.c
    b = getattr(c.o, 'b', None)
    if b is None: return []
    out = []
    s, be = start16(b), bigendian(c, b)
    ints = [i for i, _, _, part in V.ints if part != 'n']
    for x in ints:
        out += [('inside', z3.And(x >= 0, x <= zero(c, b))), ('even', x % 2 == 0)]
        for y in ints:
            if not x.eq(y): out.append(('two bytes each', y == s + 2 * x))
        for a, a0, loc, part in V.arrays:
            if a.sort().range() != I: continue
            k = z3.Const(fresh_name('k'), I)
            out.append(('decoded', ForAll(k, z3.Implies(z3.And(k >= 0, k < x), z3.Select(a, k) == unit(be, b[s + 2 * k], b[s + 2 * k + 1])), [z3.Select(a, k)])))
    return out


def enc16_loops(V):
    c = V.c
    s = getattr(c.o, 's', None)
    if s is None: return []
    out = []
    be = c.o.this.be != 0
    ints = [i for i, _, _, part in V.ints if part != 'n']
    for x in ints:
        for y in ints:
            if not x.eq(y): out.append(('two bytes each', y == 2 * x))
        for a, a0, loc, part in V.arrays:
            if a.sort().range() != I: continue
            k = z3.Const(fresh_name('k'), I)
            out.append(('encoded', ForAll(k, z3.Implies(z3.And(k >= 0, k < x), z3.And(z3.Select(a, 2 * k) == hi16(be, s[k]), z3.Select(a, 2 * k + 1) == lo16(be, s[k]))), [s[k]])))
    return out


def hi16(be, x): return z3.If(be, x / 256, x % 256)
def lo16(be, x): return z3.If(be, x % 256, x / 256)


con('jm::UTF16Decoder::UTF16Decoder(bool)', [P('this', U16, 'out'), P('b', I1)], prop=P7, post=lambda c: [('byte order', (c.n.this.be != 0) == (c.o.b if z3.is_bool(c.o.b) else c.o.b != 0))])
con('jm::UTF16Decoder::decode(char const*)', [P('this', U16), P('b', CSTR)], sret=CA, pre=lambda c: zero16(c, c.o.b), throws=lambda c: start(c.o.b) == 3, loops=dec16_loops, budget=200, prop=P7,
    post=lambda c: content(c, c.n.ret, (zero(c, c.o.b) - start16(c.o.b)) / 2, lambda k: unit(bigendian(c, c.o.b), c.o.b[start16(c.o.b) + 2 * k], c.o.b[start16(c.o.b) + 2 * k + 1])))
con('jm::UTF16Decoder::encode(jm::CharArray const&)', [P('this', U16), P('s', CA)], sret=BA, pre=lambda c: [c.o.s.len < (1 << 31)], loops=enc16_loops, budget=200, prop=P7,
    post=lambda c: [('length', c.n.ret.len == 2 * c.o.s.len), ('standard encoding', c.all(lambda k: z3.Implies(z3.And(k >= 0, k < c.o.s.len), z3.And(c.n.ret[2 * k] == hi16(c.o.this.be != 0, c.o.s[k]), c.n.ret[2 * k + 1] == lo16(c.o.this.be != 0, c.o.s[k]))), lambda k: [c.o.s[k]]))])


def lemmas7():
    x, i, y = z3.Ints('x i y')
    be = z3.Bool('be')
    out = [('the two bytes of a UTF-16 unit give the unit', [x >= 0, x < 65536], z3.And(unit(be, hi16(be, x), lo16(be, x)) == x, z3.Implies(x != 0, z3.Or(hi16(be, x) != 0, lo16(be, x) != 0))))]
    for nm, tab in (('Windows-1252', CP1252), ('Mac Roman', MACROMAN)):
        out.append(('the characters of the %s table are encoded as their position' % nm, [], z3.And(*[z3.simplify(lookup(tab, z3.IntVal(ch)) == i) for i, ch in enumerate(tab) if ch or i == 0])))
        out.append(('the characters outside of the %s table become zero' % nm, [z3.And(*[x != ch for ch in tab]), x != 0xA4 if tab is MACROMAN else True], lookup(tab, x) == 0))
    return out


LEMMAS = LEMMAS + lemmas7()
