"""Memory streams (C21)."""
import z3
from contract import *
from smt import ForAll, fresh_name
import bytes as _b
import importlib
bytesmod = importlib.import_module('bytes')
BA, seq = bytesmod.BA, bytesmod.seq

REQUIRES = ['bytes']
SOURCES = ['src/core/MemoryStream.cpp', 'src/core/Stream.cpp']
HEADERS = []
CLASSES = {'MemoryStream': ('jm::MemoryStream', ['mWritelength', 'mStream', 'mStreamOwner', 'mStreamlength', 'mPosition'])}
C = []


def con(sig, params, **k):
    k.setdefault('prop', ['C21'])
    x = Contract(sig, params, **k)
    C.append(x)
    return x


class StreamK(ObjK):
    cls = 'MemoryStream'
    scal = (('mWritelength', 64), ('mStreamOwner', 8), ('mStreamlength', 64), ('mPosition', 64))
    buf = 'mStream'
    vtab = '_ZTVN2jm12MemoryStreamE'
    esz = 1

    def view_extra(self, eng, st, p, v):
        v.pos, v.len, v.wlen = v.mPosition, v.mStreamlength, v.mWritelength

    def wf(self, eng, v):
        return [v.mStreamlength >= 0, v.mStreamlength <= (1 << 45), v.mStreamlength <= v.bufn, v.mPosition >= 0, v.mPosition <= v.mStreamlength, v.mWritelength >= 0, v.mWritelength <= v.mStreamlength, v.mStreamOwner <= 1]


MS = StreamK()
T, TM = [P('this', MS)], [P('this', MS, 'mut')]
M = 'jm::MemoryStream::'


def moved(c, n):
    """the memory is unchanged, the position advanced"""
    o, t = c.o.this, c.n.this
    return [('position', t.pos == n), ('length', t.len == o.len), ('owner', t.mStreamOwner == o.mStreamOwner)]


def keep(c):
    return [('memory', c.all(lambda k: z3.Implies(z3.And(k >= 0, k < c.o.this.len), c.n.this[k] == c.o.this[k]), lambda k: [c.n.this[k]]))]


def amount(c, n): return z3.If(n < 0, 0, z3.If(n < c.o.this.len - c.o.this.pos, n, c.o.this.len - c.o.this.pos))


BUF = BufK(1)


def read_post(c):
    n = amount(c, c.o.n)
    return moved(c, c.o.this.pos + n) + keep(c) + [('number transferred', c.ret == n), ('write length', c.n.this.wlen == c.o.this.wlen),
        ('bytes', c.all(lambda k: z3.Implies(z3.And(k >= 0, k < c.o.b.bufn), c.n.b[k] == z3.If(k < n, c.o.this[c.o.this.pos + k], c.o.b[k])), lambda k: [c.n.b[k]]))]


def write_post(c):
    n = amount(c, c.o.n)
    p, o, t = c.o.this.pos, c.o.this, c.n.this
    return moved(c, p + n) + [('number transferred', c.ret == n), ('write length', t.wlen == z3.If(z3.And(n > 0, p + n > o.wlen), p + n, o.wlen)),
        ('bytes', c.all(lambda k: z3.Implies(z3.And(k >= 0, k < o.len), t[k] == z3.If(z3.And(k >= p, k < p + n), c.o.b[k - p], o[k])), lambda k: [t[k]]))]


con(M + 'read(unsigned char*, long)', TM + [P('b', BUF, 'mut'), P('n', I64)], ret=I64, pre=lambda c: [c.o.b.bufn >= amount(c, c.o.n)], post=read_post)
con(M + 'write(unsigned char const*, long)', TM + [P('b', BUF), P('n', I64)], ret=I64, pre=lambda c: [c.o.b.bufn >= amount(c, c.o.n)], post=write_post)


def fully_post(n):
    def f(c):
        k = z3.If(n(c) < c.o.b.len, n(c), c.o.b.len)
        m = amount(c, k)
        return moved(c, c.o.this.pos + m) + keep(c) + [('number transferred', c.ret == m)] + seq(c, c.n.b, c.o.b.len, lambda i: z3.If(i < m, c.o.this[c.o.this.pos + i], c.o.b[i]))
    return f


con(M + 'readFully(jm::ByteArray&, long)', TM + [P('b', BA, 'mut'), P('n', I64)], ret=I64, alias=[('null', 'b')], post=fully_post(lambda c: c.o.n))
con(M + 'seek(long)', TM + [P('n', I64)], post=lambda c: moved(c, z3.If(z3.And(c.o.n >= 0, c.o.n < c.o.this.len), c.o.n, c.o.this.pos)) + keep(c) + [('write length', c.n.this.wlen == c.o.this.wlen)])


def move_post(c):
    q = c.o.this.pos + c.o.n
    return moved(c, z3.If(z3.And(q >= 0, q < c.o.this.len), q, c.o.this.pos)) + keep(c) + [('write length', c.n.this.wlen == c.o.this.wlen)]


con(M + 'move(long)', TM + [P('n', I64)], post=move_post)
con(M + 'open(jm::FileMode)', TM + [P('m', I32)], post=lambda c: moved(c, z3.IntVal(0)) + keep(c) + [('write length', c.n.this.wlen == 0)])
con(M + 'close()', TM, post=lambda c: moved(c, z3.IntVal(0)) + keep(c) + [('write length', c.n.this.wlen == c.o.this.wlen)])
con(M + 'position()', T, retfn=lambda c: c.o.this.pos)
con(M + 'size() const', T, retfn=lambda c: c.o.this.len)
con('jm::Stream::readFully(jm::ByteArray&)', TM + [P('b', BA, 'mut')], ret=I64, alias=[('null', 'b')], post=fully_post(lambda c: c.o.b.len))
