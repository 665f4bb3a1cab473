"""Byte buffers (C10), checksums (C09), Base64 (C08), serializer (C11)."""
import z3
from contract import *
from smt import ForAll, fresh_name

SOURCES = ['src/core/ByteArray.cpp', 'src/core/CRC.cpp', 'src/core/Base64.cpp', 'src/core/Serializer.cpp', 'src/core/Object.cpp']
HEADERS = []
CLASSES = {'ByteArray': ('jm::ByteArray', ['mArrSize', 'mRawSize', 'mData'])}
C = []


def con(sig, params, **k):
    x = Contract(sig, params, **k)
    C.append(x)
    return x


class ByteK(ObjK):
    cls = 'ByteArray'
    scal = (('mArrSize', 64), ('mRawSize', 64))
    buf = 'mData'
    esz = 1
    nullbuf = True

    def view_extra(self, eng, st, p, v): v.len = v.mArrSize

    def wf(self, eng, v):
        return [v.mArrSize >= 0, v.mRawSize == v.bufn, v.mRawSize <= (1 << 45), z3.Or(z3.And(v.mRawSize > v.mArrSize, v[v.mArrSize] == 0), z3.And(v.mRawSize == 0, v.mArrSize == 0))]

    def same(self, eng, a, b):
        out = [a.mArrSize == b.mArrSize]
        if not a.arr.eq(b.arr):
            k = z3.Const(fresh_name('k'), eng.A.isort)
            out.append(ForAll(k, z3.Implies(z3.And(k >= 0, k < a.mArrSize), z3.Select(a.arr, k) == z3.Select(b.arr, k)), [z3.Select(b.arr, k)]))
        return out

    def length(self, eng, v): return v.mArrSize


BA = ByteK()
T, TM, TO = [P('this', BA)], [P('this', BA, 'mut')], [P('this', BA, 'out')]
NU = [('null', 'this')]
B = 'jm::ByteArray::'
I64N = I64


def seq(c, v, n, f):
    return [('length', v.len == n), ('content', c.all(lambda k: z3.Implies(z3.And(k >= 0, k < n), v[k] == f(k)), lambda k: [v[k]]))]


con(B + 'ByteArray()', TO, post=lambda c: [('empty', c.n.this.len == 0), ('nothing allocated', c.n.this.mRawSize == 0)], prop=['C10'], attrs=dict(noapply=True))
con(B + 'ByteArray(long, unsigned char)', TO + [P('n', I64), P('x', I8)], pre=lambda c: [c.o.n >= 0, c.o.n < (1 << 45)], post=lambda c: seq(c, c.n.this, c.o.n, lambda k: c.o.x) + [('a terminating zero is stored', c.n.this.mRawSize > c.o.n)], prop=['C10'])
con(B + 'ByteArray(jm::ByteArray const&)', TO + [P('s', BA)], alias=[('null', 's')], post=lambda c: seq(c, c.n.this, c.o.s.len, lambda k: c.o.s[k]), prop=['C10'])
con(B + '~ByteArray()', [P('this', BA, 'dead')], alias=NU, prop=['C10'])
for s in ('size() const', ):
    con(B + s, T, alias=NU, retfn=lambda c: c.o.this.len, prop=['C10'])
con(B + 'isEmpty() const', T, alias=NU, retfn=lambda c: c.o.this.len == 0, prop=['C10'])
con(B + 'isNull() const', T, alias=NU, retfn=lambda c: z3.BoolVal(bool(c.o.this.isnull)), prop=['C10'])


def first_zero(c):
    b = c.o.b
    return c.ghost(('Z', b.arr), lambda: z3.Const(fresh_name('firstZero'), c.A.isort))


def cstr_pre(c):
    b, z = c.o.b, first_zero(c)
    return [c.o.n < (1 << 45), z3.Implies(c.o.n >= 0, b.bufn >= c.o.n), z3.Implies(c.o.n < 0, z3.And(z >= 0, z < b.bufn, z < (1 << 45), b[z] == 0)),
            c.all(lambda k: z3.Implies(z3.And(c.o.n < 0, k >= 0, k < z), b[k] != 0), lambda k: [b[k]])]


for t in ('signed char', 'unsigned char'):
    con(B + 'ByteArray(%s const*, long)' % t, TO + [P('b', BufK(1)), P('n', I64)], pre=cstr_pre, post=lambda c: seq(c, c.n.this, z3.If(c.o.n < 0, first_zero(c), c.o.n), lambda k: c.o.b[k]), prop=['C10'])
con(B + 'init(signed char const*, long)', TO + [P('b', BufK(1)), P('n', I64)], pre=cstr_pre, post=lambda c: seq(c, c.n.this, z3.If(c.o.n < 0, first_zero(c), c.o.n), lambda k: c.o.b[k]), prop=['C10'], attrs=dict(noapply=True, rawthis=True))
con(B + 'fill(unsigned char)', TM + [P('x', I8)], alias=NU, post=lambda c: seq(c, c.n.this, c.o.this.len, lambda k: c.o.x) + [('storage size unchanged', c.n.this.mRawSize == c.o.this.mRawSize)], prop=['C10'])
INB = lambda c: [c.o.i >= 0, c.o.i < c.o.this.len]
con(B + 'get(long) const', T + [P('i', I64)], pre=INB, retfn=lambda c: c.o.this[c.o.i], prop=['C10'])
con(B + 'operator[](long) const', T + [P('i', I64)], pre=INB, retfn=lambda c: c.o.this[c.o.i], prop=['C10'])
con(B + 'set(long, unsigned char)', TM + [P('i', I64), P('x', I8)], pre=INB, post=lambda c: seq(c, c.n.this, c.o.this.len, lambda k: z3.If(k == c.o.i, c.o.x, c.o.this[k])), prop=['C10'])


def repl(c):
    t, s = c.o.this, c.o.s
    n = c.o.n
    n = z3.If(n > t.len - c.o.to, t.len - c.o.to, n)
    n = z3.If(n > s.len - c.o.so, s.len - c.o.so, n)
    ok = z3.And(c.o.to >= 0, c.o.so >= 0)
    return seq(c, c.n.this, t.len, lambda k: z3.If(z3.And(ok, k >= c.o.to, k < c.o.to + n), s[k - c.o.to + c.o.so], t[k]))


con(B + 'replace(long, long, jm::ByteArray const&, long)', TM + [P('to', I64), P('so', I64), P('s', BA), P('n', I64)], alias=[('null', 's'), ('null', 'this')], post=repl, prop=['C10'])
con(B + 'replace(unsigned char, unsigned char)', TM + [P('a', I8), P('b', I8)], alias=NU, post=lambda c: seq(c, c.n.this, c.o.this.len, lambda k: z3.If(c.o.this[k] == c.o.a, c.o.b, c.o.this[k])), prop=['C10'])
con(B + 'resize(long)', TM + [P('n', I64)], alias=NU, pre=lambda c: [c.o.n >= 0, c.o.n < (1 << 44)], post=lambda c: seq(c, c.n.this, c.o.n, lambda k: z3.If(k < c.o.this.len, c.o.this[k], 0)), prop=['C10'])
con(B + 'operator=(jm::ByteArray const&)', TM + [P('s', BA)], alias=[('this', 's'), ('null', 'this'), ('null', 's')], ret='arg:this', post=lambda c: seq(c, c.n.this, c.o.s.len, lambda k: c.o.s[k]), prop=['C10'])


def eq_def(c):
    a, b = c.o.a, c.o.b
    E, w = c.ghost(('beq', a.arr, a.len, b.arr, b.len), lambda: (z3.Const(fresh_name('E'), z3.BoolSort()), z3.Const(fresh_name('w'), c.A.isort)))
    return E, [z3.Implies(E, a.len == b.len), c.all(lambda k: z3.Implies(z3.And(E, k >= 0, k < a.len), a[k] == b[k]), lambda k: [a[k], b[k]]),
               z3.Implies(z3.Not(E), z3.Or(a.len != b.len, z3.And(w >= 0, w < a.len, a[w] != b[w])))]


con('jm::operator==(jm::ByteArray const&, jm::ByteArray const&)', [P('a', BA), P('b', BA)], alias=[('a', 'b'), ('null', 'a'), ('null', 'b')], ret=I1, specs=lambda c: eq_def(c)[1],
    post=lambda c: ([('def', x) for x in eq_def(c)[1]] if c.applying else []) + [('result', c.ret == eq_def(c)[0])], prop=['C10'])


# ---------------------------------------------------------------- checksum: CRC-16 with the reflected polynomial 0xA001
def step8(x):
    for _ in range(8): x = z3.If(z3.Extract(0, 0, x) == 1, z3.LShR(x, 1) ^ 0xA001, z3.LShR(x, 1))
    return x


def crc_fn(c):
    R = c.ghost(('R', c.o.b.arr, c.o.x), lambda: z3.Function(fresh_name('crc'), c.A.isort, z3.BitVecSort(16)))
    b = c.o.b
    return R, [R(c.idx(0)) == c.o.x, c.all(lambda k: z3.Implies(k >= 0, R(k + 1) == step8(R(k) ^ z3.ZeroExt(8, b[k]))), lambda k: [R(k), R(k + 1)])]


con('jm::CRC::crc8(unsigned short, unsigned char const*, unsigned int)', [P('x', I16), P('b', BufK(1)), P('n', I32)], mode='bv', ret=I16, pre=lambda c: [c.o.b.bufn >= z3.ZeroExt(32, c.o.n)],
    specs=lambda c: crc_fn(c)[1], recs=lambda c: [crc_fn(c)[0]], post=lambda c: ([('def', x) for x in crc_fn(c)[1]] if c.applying else []) + [('published CRC-16', c.ret == crc_fn(c)[0](z3.ZeroExt(32, c.o.n)))], prop=['C09'])
HOOKS = dict(const_globals={'crctable': 'never written outside the verified functions (it is a mutable global)'},
             tables={'crctable': lambda eng, i: step8(z3.Extract(15, 0, i))})
CHR, VAL = z3.Function('b64chr', z3.IntSort(), z3.IntSort()), z3.Function('b64val', z3.IntSort(), z3.IntSort())
enc_table = lambda eng, i: b64chr(i, 64)
dec_table = lambda eng, i: b64val(i)
enc_table.opaque, dec_table.opaque = CHR, VAL
HOOKS['tables'].update({'gBase64cvt': enc_table, 'gBase64rcvt': dec_table})


# ---------------------------------------------------------------- Base64 (RFC 4648 alphabet)
def b64chr(x, n=None):
    r = z3.If(x < 26, x + 65, z3.If(x < 52, x + 71, z3.If(x < 62, x - 4, z3.If(x == 62, 43, 47))))
    return r if n is None else z3.If(x < n, r, 0)


def b64val(c):
    return z3.If(z3.And(c >= 65, c <= 90), c - 65, z3.If(z3.And(c >= 97, c <= 122), c - 71, z3.If(z3.And(c >= 48, c <= 57), c + 4, z3.If(c == 43, 62, z3.If(c == 47, 63, z3.If(c == 61, 65, z3.If(c == 10, 64, 66)))))))


def enc_at(d, n, k):
    """RFC 4648: character k of the text of the n bytes d"""
    g = k / 4; r = k % 4; p = 3 * g
    b1, b2, b3 = d[p], z3.If(p + 1 < n, d[p + 1], 0), z3.If(p + 2 < n, d[p + 2], 0)
    return z3.If(r == 0, CHR(b1 / 4), z3.If(r == 1, CHR((b1 % 4) * 16 + b2 / 16),
           z3.If(r == 2, z3.If(p + 1 < n, CHR((b2 % 16) * 4 + b3 / 64), 61), z3.If(p + 2 < n, CHR(b3 % 64), 61))))


def loop_content(f):
    """candidate invariant: every array element below a loop index already has its final value"""
    def t(V):
        out = []
        for a, a0, loc, part in V.arrays:
            for i in V.idx:
                k = z3.Const(fresh_name('k'), V.eng.A.isort)
                v = f(V.c, k)
                if a.sort().range() == v.sort(): out.append(('content', ForAll(k, z3.Implies(z3.And(k >= 0, k < i), z3.Select(a, k) == v), [z3.Select(a, k)])))
        return out
    return t


def byte_range(c, b): return c.all(lambda k: z3.And(b[k] >= 0, b[k] <= 255), lambda k: [b[k]])


def enc_post(c):
    n = c.o.len.val
    return [('length is 4 characters per started group of 3', c.n.len.val == 4 * ((n + 2) / 3)), ('room for the text', c.ret.bufn >= c.n.len.val),
            ('RFC 4648 text', c.all(lambda k: z3.Implies(z3.And(k >= 0, k < 4 * ((n + 2) / 3)), c.ret[k] == enc_at(c.o.d, n, k)), lambda k: [c.ret[k]]))]


con('jm::Base64::encode(unsigned char const*, long&)', [P('d', BufK(1)), P('len', CellK(64), 'mut')], ret=BufK(1, heap='new[]'), pre=lambda c: [c.o.len.val >= 0, c.o.len.val <= (1 << 44), c.o.d.bufn >= c.o.len.val],
    specs=lambda c: [byte_range(c, c.o.d)], loops=loop_content(lambda c, k: enc_at(c.o.d, c.o.len.val, k)), post=enc_post, prop=['C08'])


def dec_v(c, k): return z3.If(k < c.o.len.val, VAL(c.o.d[k]), 65)


def dec_groups(c):
    """ghost: number of full groups before the first one that has a stop character (padding, or the end) behind its first character"""
    G = c.ghost(('G', c.o.d.arr, c.o.len.val), lambda: z3.Const(fresh_name('groups'), c.A.isort))
    n = c.o.len.val
    v = lambda k: dec_v(c, k)
    return G, [byte_range(c, c.o.d), G >= 0, 4 * G <= n, c.all(lambda k: z3.Implies(z3.And(k >= 0, k < 4 * G, k % 4 != 0), v(k) < 65), lambda k: [c.o.d[k]]),
               z3.Or(4 * G >= n, v(4 * G + 1) >= 65, v(4 * G + 2) >= 65, v(4 * G + 3) >= 65)]


def dec_len(c):
    G, v = dec_groups(c)[0], (lambda k: dec_v(c, k))
    return 3 * G + z3.If(4 * G >= c.o.len.val, 0, z3.If(z3.Or(v(4 * G + 1) >= 65, v(4 * G + 2) >= 65), 1, 2))


def dec_at(c, k, res=None):
    g = k / 3; r = k % 3; v = lambda j: dec_v(c, 4 * g + j)
    z = lambda j: z3.If(v(j) >= 65, 0, v(j))
    e = [(v(0) * 4) % 256 + z(1) / 16, (z(1) % 16) * 16 + z(2) / 4, (z(2) % 4) * 64 + z(3)]
    return z3.If(r == 0, e[0], z3.If(r == 1, e[1], e[2])) if res is None else e[res]


def dec_ok(c, k):
    """the byte is only fixed where its group has characters of the alphabet"""
    g = k / 3
    return z3.And(dec_v(c, 4 * g) < 64, dec_v(c, 4 * g + 1) != 64, dec_v(c, 4 * g + 2) != 64, dec_v(c, 4 * g + 3) != 64)


def dec_post(c):
    return [('length', c.n.len.val == dec_len(c)), ('room for the bytes', c.ret.bufn >= c.n.len.val),
            ] + [('bytes %d of groups' % r, c.all(lambda k: z3.Implies(z3.And(k >= 0, k < dec_len(c), k % 3 == r, dec_ok(c, k)), c.ret[k] == dec_at(c, k, r)), lambda k: [c.ret[k]])) for r in range(3)]


def dec_loops(V):
    out = []
    c = V.c
    G = dec_groups(c)[0]
    for a, a0, loc, part in V.arrays:
        for i in V.idx:
            k = z3.Const(fresh_name('k'), V.eng.A.isort)
            for r in range(3): out.append(('content%d' % r, ForAll(k, z3.Implies(z3.And(k >= 0, k < i, k % 3 == r, dec_ok(c, k)), z3.Select(a, k) == dec_at(c, k, r)), [z3.Select(a, k)])))
    for i in V.idx: out += [('groups', i <= 4 * G), ('groups3', i <= 3 * G)]
    return out


con('jm::Base64::decode(unsigned char const*, unsigned int&)', [P('d', BufK(1)), P('len', CellK(32), 'mut')], ret=BufK(1, heap='new[]'), pre=lambda c: [c.o.len.val >= 0, c.o.d.bufn >= c.o.len.val],
    specs=lambda c: dec_groups(c)[1], loops=dec_loops, post=dec_post, prop=['C08'])


def roundtrip():
    b1, b2, b3 = z3.Ints('b1 b2 b3')
    rng = [z3.And(x >= 0, x < 256) for x in (b1, b2, b3)]
    v = [b64val(b64chr(e)) for e in (b1 / 4, (b1 % 4) * 16 + b2 / 16, (b2 % 16) * 4 + b3 / 64, b3 % 64)]
    dec = [(v[0] * 4) % 256 + v[1] / 16, (v[1] % 16) * 16 + v[2] / 4, (v[2] % 4) * 64 + v[3]]
    c3 = b64val(b64chr((b2 % 16) * 4)); c2 = b64val(b64chr((b1 % 4) * 16))
    return [('Base64: a full group decodes to its 3 bytes', rng, z3.And(dec[0] == b1, dec[1] == b2, dec[2] == b3)),
            ('Base64: characters of a text are of the alphabet', rng, z3.And(*[z3.And(x >= 0, x < 64) for x in v])),
            ('Base64: a group of 2 bytes decodes to them', rng, z3.And(dec[0] == b1, (v[1] % 16) * 16 + c3 / 4 == b2, c3 < 64)),
            ('Base64: a group of 1 byte decodes to it', rng, z3.And((v[0] * 4) % 256 + c2 / 16 == b1, c2 < 64)),
            ('Base64: the padding character stops decoding', [], b64val(z3.IntVal(61)) >= 65)]


LEMMAS = roundtrip()


# ---------------------------------------------------------------- serializer
UB, CUB, CBA = 'unsigned char*', 'unsigned char const*', 'jm::ByteArray const&'
TY = {16: 'short', 32: 'int', 64: 'long'}
UTY = {16: 'unsigned short', 32: 'unsigned int', 64: 'unsigned long'}


def zx(c, o): return z3.ZeroExt(64 - o.size(), o) if o.size() < 64 else o


def room(nb):
    def f(c):
        b = c.o.b
        n = b.mArrSize if hasattr(b, 'mArrSize') else b.bufn
        o = zx(c, c.o.o)
        r = [o + nb <= n]
        if c.o.o.size() == 32: r.append(o + nb <= (1 << 32))
        else: r += [o >= 0, o <= (1 << 46)]
        return r
    return f


def ser_post(nb, be):
    def f(c):
        o, v = zx(c, c.o.o), c.o.v
        byte = [z3.Extract(8 * j + 7, 8 * j, v) for j in range(nb)]
        if be: byte = byte[::-1]
        out = [('byte %d' % j, c.n.b[o + j] == byte[j]) for j in range(nb)]
        return out + [('no other byte changed', c.all(lambda k: z3.Implies(z3.And(k >= 0, k < c.n.b.bufn, z3.Or(k < o, k >= o + nb)), c.n.b[k] == c.o.b[k]), lambda k: [c.n.b[k]])),
                      ('number of bytes', c.ret == nb)]
    return f


def ser(name, ty, nb, be, kind):
    con('jm::serialize%s(%s, unsigned int, %s)' % (name, UB, ty), [P('b', BufK(1), 'mut'), P('o', I32), P('v', kind)], mode='bv', fp='bits', ret=I16, pre=room(nb), post=ser_post(nb, be), prop=['C11'])


def de(name, buf, oty, nb, be, ret):
    def post(c):
        o = zx(c, c.o.o)
        bs = [c.o.b[o + j] for j in range(nb)]
        if not be: bs = bs[::-1]
        return [('value', c.ret == z3.Concat(*bs))]
    con('jm::deserialize%s(%s, %s)' % (name, buf, oty), [P('b', BA if buf == CBA else BufK(1)), P('o', I32 if oty == 'unsigned int' else I64)], mode='bv', fp='bits', ret=ret, pre=room(nb), post=post, prop=['C11'])


K = {16: I16, 32: I32, 64: I64}
ser('BEInt16', 'short', 2, True, I16); ser('BEInt24', 'int', 3, True, I32); ser('BEInt32', 'int', 4, True, I32); ser('BEInt64', 'long', 8, True, I64)
ser('LEInt16', 'short', 2, False, I16); ser('LEUInt16', 'unsigned short', 2, False, I16); ser('LEInt24', 'int', 3, False, I32); ser('LEInt32', 'int', 4, False, I32)
ser('LEInt64', 'long', 8, False, I64); ser('LEDouble', 'double', 8, False, F64); ser('LEFloat', 'float', 4, False, F32)
U, L = 'unsigned int', 'long'
for nm, be, w, variants in (('BEUInt16', True, 16, [(UB, U)]), ('BEInt16', True, 16, [(UB, U), (CBA, L)]), ('BEUInt32', True, 32, [(UB, L), (CBA, L)]), ('BEInt32', True, 32, [(CBA, L)]),
                            ('BEInt64', True, 64, [(UB, U), (CBA, L)]), ('LEUInt16', False, 16, [(CUB, U), (CBA, U)]), ('LEInt16', False, 16, [(UB, U), (CBA, L)]),
                            ('LEUInt32', False, 32, [(UB, U), (CBA, L)]), ('LEInt32', False, 32, [(UB, U), (CBA, L)]), ('LEInt64', False, 64, [(UB, U), (CBA, L)])):
    for b, o in variants: de(nm, b, o, w // 8, be, K[w])
for b, o in ((UB, U), (CBA, L)): de('LEDouble', b, o, 8, False, F64)
de('LEFloat', UB, U, 4, False, F32)
