"""Contracts of jm::String (shared kinds and specification vocabulary)."""
import z3
from contract import *
from smt import ForAll, Nested, fresh_name

SOURCES = ["src/core/String.cpp", "src/core/Character.cpp", "src/core/Object.cpp"]
CLASSES = {'String': ('jm::String', ['mValue', 'mArrLength', 'mStrLength', 'mHash', 'mRefCount', 'mPool'])}


class StrK(ObjK):
    cls = 'String'
    scal = (('mArrLength', 64), ('mStrLength', 64), ('mHash', 32))
    buf = 'mValue'
    esz = 2

    def view_extra(self, eng, st, p, v):
        v.cap, v.len, v.hash = v.mArrLength, v.mStrLength, v.mHash
        v.L = v.mStrLength

    def init_extra(self, eng, st, p, name):
        w = st.wreg(p.r)
        w.fields.setdefault(p.o + 24, (8, Opaque('vptr_cmp')))

    def wf(self, eng, v):
        if getattr(v, 'isconst', False): return []
        return [v.mStrLength >= 0, v.mStrLength <= v.mArrLength, v.mArrLength == v.bufn, v.mArrLength <= (1 << 45)]

    def same(self, eng, a, b):
        out = [a.mStrLength == b.mStrLength]
        if not a.arr.eq(b.arr):
            k = z3.Const(fresh_name('k'), eng.A.isort)
            out.append(ForAll(k, z3.Implies(z3.And(k >= 0, k < a.mStrLength), z3.Select(a.arr, k) == z3.Select(b.arr, k)), [z3.Select(b.arr, k)]))
        return out

    def length(self, eng, v): return v.mStrLength


Str = StrK()


def empty_string(eng, st, name):
    """the global constant kEmptyString: trusted to be an empty string"""
    eng.trusted.add('kEmptyString is an empty string and never modified')
    p = Str.raw(eng, st, 'kEmptyString')
    Str.init(eng, st, p, 'kEmpty')
    w = st.wreg(p.r)
    A = eng.A
    w.fields[Str.off(eng, 'mStrLength')] = (8, A.const(0, 64))
    w.fields[Str.off(eng, 'mHash')] = (4, A.const(0, 32))
    w.fields[Str.off(eng, 'mArrLength')] = (8, A.const(16, 64))
    b = w.fields[Str.off(eng, 'mValue')][1]
    st.assume(A.idx(st.reg(b.r).n) == 16)
    st.ghost.pop(('heap', b.r), None)
    return p


GLOBOBJS = {'_ZN2jm12kEmptyStringE': empty_string, '_ZN2jmL12kEmptyStringE': empty_string}


def hash_ok(c, new, olds):
    """the cached hash is absent or was the cached hash of a string with the same content"""
    alts = [new.hash == 0]
    return alts


def upper_map(c, x):
    A = c.A
    f = lambda a, b: z3.And(x >= a, x <= b)
    return f


def to_lower(c, x):
    """A..Z and the three umlauts the library maps"""
    return _casemap(c, x, [(0x41, 0x5A), (0xC4, 0xC4), (0xD6, 0xD6), (0xDC, 0xDC)], 32)


def to_upper(c, x):
    return _casemap(c, x, [(0x61, 0x7A), (0xE4, 0xE4), (0xF6, 0xF6), (0xFC, 0xFC)], -32)


def _casemap(c, x, rs, d):
    if c.A.name == 'int':
        cond = z3.Or(*[z3.And(x >= a, x <= b) if a != b else x == a for a, b in rs])
        return z3.If(cond, x + d, x)
    cond = z3.Or(*[z3.And(z3.UGE(x, a), z3.ULE(x, b)) if a != b else x == a for a, b in rs])
    return z3.If(cond, x + z3.BitVecVal(d, 16), x)


def is_space(c, x): return z3.Or(*[x == v for v in (0x20, 0x0D, 0x0A, 0x09, 0x08, 0x0C)])


def is_digit(c, x):
    if c.A.name == 'int': return z3.And(x >= 48, x <= 57)
    return z3.And(z3.UGE(x, 48), z3.ULE(x, 57))


def seq_eq(c, a, alen, b, blen):
    return [('length', alen == blen), ('content', c.all(lambda k: z3.Implies(z3.And(k >= 0, k < alen), z3.Select(a, k) == z3.Select(b, k)), lambda k: [z3.Select(a, k)]))]


def content_is(c, v, pieces): return c.cat(v.arr, v.len, pieces)


C = []


def con(sig, params, **k):
    x = Contract(sig, params, **k)
    C.append(x)
    return x


S = 'jm::String'
T = [P('this', Str)]
TM = [P('this', Str, 'mut')]
TO = [P('this', Str, 'out')]


def copy_of(c, new, old): return seq_eq(c, new.arr, new.len, old.arr, old.len)


def keeps_hash(c, new, *olds):
    """cached hash: none, or taken over together with the identical content"""
    alts = [new.hash == 0]
    for o in olds: alts.append(z3.And(new.hash == o.hash))
    return alts


con('jm::String::String()', TO, post=lambda c: [('empty', c.n.this.len == 0), ('no cached hash', c.n.this.hash == 0), ('cap', c.n.this.cap == 16)], prop=['C01', 'C03'])
con('jm::String::String(jm::String const&)', TO + [P('s', Str)], post=lambda c: copy_of(c, c.n.this, c.o.s) + [('hash', z3.Or(c.n.this.hash == 0, c.n.this.hash == c.o.s.hash)), ('cap', c.n.this.cap >= c.n.this.len)], prop=['C01', 'C03'])
con('jm::String::~String()', [P('this', Str, 'dead')], prop=['C01'])
con('jm::String::size() const', T, retfn=lambda c: c.o.this.len, prop=['C01'])
con('jm::String::isEmpty() const', T, retfn=lambda c: c.o.this.len == 0, prop=['C01'])
con('jm::String::checkCapacity(long)', TM + [P('more', I64)], pre=lambda c: [c.o.more >= -(1 << 46), c.o.more <= (1 << 46)],
    post=lambda c: copy_of(c, c.n.this, c.o.this) + [('room', c.n.this.cap >= c.o.this.len + c.o.more), ('hash', z3.Or(c.n.this.hash == c.o.this.hash, c.n.this.hash == 0))], prop=['C01', 'C03'])
con('jm::String::append(jm::String const&)', TM + [P('s', Str)], alias=[('this', 's')],
    post=lambda c: content_is(c, c.n.this, [c.sub(c.o.this.arr, 0, c.o.this.len), c.sub(c.o.s.arr, 0, c.o.s.len)]) +
    [('hash', z3.Or(c.n.this.hash == 0, z3.And(c.o.s.len == 0, c.n.this.hash == c.o.this.hash)))], prop=['C01', 'C03'])
con('jm::String::append(jm::Char)', TM + [P('ch', I16)],
    post=lambda c: content_is(c, c.n.this, [c.sub(c.o.this.arr, 0, c.o.this.len), c.one(c.o.ch)]) + [('hash', c.n.this.hash == 0)], prop=['C01', 'C03'])
con('jm::String::charAt(long) const', T + [P('i', I64)], throws=lambda c: z3.Or(c.o.i < 0, c.o.i >= c.o.this.len), retfn=lambda c: z3.Select(c.o.this.arr, c.o.i), prop=['C01'])
con('jm::String::setCharAt(long, jm::Char)', TM + [P('i', I64), P('ch', I16)], throws=lambda c: z3.Or(c.o.i < 0, c.o.i >= c.o.this.len),
    post=lambda c: [('length', c.n.this.len == c.o.this.len), ('content', c.all(lambda k: z3.Implies(z3.And(k >= 0, k < c.o.this.len), c.n.this[k] == z3.If(k == c.o.i, c.o.ch, c.o.this[k])), lambda k: [c.n.this[k]])),
                    ('hash', c.n.this.hash == 0)], prop=['C01', 'C03'])
con('jm::String::insert(long, jm::Char)', TM + [P('i', I64), P('ch', I16)], throws=lambda c: z3.Or(c.o.i < 0, c.o.i > c.o.this.len),
    post=lambda c: content_is(c, c.n.this, [c.sub(c.o.this.arr, 0, c.o.i), c.one(c.o.ch), c.sub(c.o.this.arr, c.o.i, c.o.this.len - c.o.i)]) + [('hash', c.n.this.hash == 0)], prop=['C01', 'C03'])
con('jm::String::insert(long, jm::String const&)', TM + [P('i', I64), P('s', Str)], throws=lambda c: z3.Or(c.o.i < 0, c.o.i > c.o.this.len),
    post=lambda c: content_is(c, c.n.this, [c.sub(c.o.this.arr, 0, c.o.i), c.sub(c.o.s.arr, 0, c.o.s.len), c.sub(c.o.this.arr, c.o.i, c.o.this.len - c.o.i)]) + [('hash', c.n.this.hash == 0)], prop=['C01', 'C03'])
con('jm::String::deleteCharAt(long)', TM + [P('i', I64)], throws=lambda c: z3.Or(c.o.i < 0, c.o.i >= c.o.this.len),
    post=lambda c: content_is(c, c.n.this, [c.sub(c.o.this.arr, 0, c.o.i), c.sub(c.o.this.arr, c.o.i + 1, c.o.this.len - c.o.i - 1)]) + [('hash', c.n.this.hash == 0)], prop=['C01', 'C03'])


class CharRefK:
    """const Char& / Char* pointing at one readable character (in an object, a buffer or on the stack)"""
    ref = False

    def make(self, eng, st, name):
        r = eng.new_region(st, 'struct', name, nbytes=eng.A.const(2, 64))
        r.fields[0] = (2, eng.fresh_int(st, 16, name))
        return Ptr(r.id, 0, 0)

    def view(self, eng, st, v):
        from llir import IntT
        return eng.load(st, v, IntT(16), eng.mods[0])

    def wf(self, eng, v): return []


ChRef = CharRefK()
X = lambda c: c.o.this
ch = lambda n, f: con('jm::Char::%s() const' % n, [P('this', ChRef)], retfn=f, prop=['C28'])
ranges = lambda x, rs: z3.Or(*[z3.And(x >= a, x <= b) for a, b in rs])
ch('isWhitespace', lambda c: is_space(c, c.o.this))
ch('isDigit', lambda c: is_digit(c, c.o.this))
LOWER = [(0x61, 0x7A), (0xDF, 0xF6), (0xF8, 0xFF)]
UPPER = [(0x41, 0x5A), (0xC0, 0xD6), (0xD8, 0xDE)]


def in_ranges(c, x, rs):
    if c.A.name == 'int': return z3.Or(*[z3.And(x >= a, x <= b) for a, b in rs])
    return z3.Or(*[z3.And(z3.UGE(x, a), z3.ULE(x, b)) for a, b in rs])


ch('isUpperCase', lambda c: in_ranges(c, c.o.this, UPPER))
ch('isLowerCase', lambda c: in_ranges(c, c.o.this, LOWER))
ch('isLetter', lambda c: in_ranges(c, c.o.this, LOWER + UPPER))
ch('digitValue', lambda c: z3.If(is_digit(c, c.o.this), zext32(c, c.o.this) - 48, c.A.const(-1, 32)))
ch('toLowerCase', lambda c: to_lower(c, c.o.this))
ch('toUpperCase', lambda c: to_upper(c, c.o.this))
ch('unicode', lambda c: c.o.this)


def zext32(c, x): return x if c.A.name == 'int' else z3.ZeroExt(16, x)


# ---------------------------------------------------------------- whole-string operations
SR = dict(sret=Str)


def substr(c, v, i, n): return content_is(c, c.n.ret, [c.sub(v.arr, i, n)])


def mapped(c, f, n=None):
    return [('length', c.n.ret.len == c.o.this.len), ('content', c.all(lambda k: z3.Implies(z3.And(k >= 0, k < c.o.this.len), c.n.ret[k] == f(k)), lambda k: [c.n.ret[k]]))]


H0 = lambda c: [('hash', c.n.ret.hash == 0)]
HC = lambda c: [('hash', z3.Or(c.n.ret.hash == 0, z3.And(c.n.ret.hash == c.o.this.hash, c.n.ret.len == c.o.this.len)))]
con('jm::String::toLowerCase() const', T, post=lambda c: mapped(c, lambda k: to_lower(c, c.o.this[k])) + H0(c), prop=['C01', 'C03'], **SR)
con('jm::String::toUpperCase() const', T, post=lambda c: mapped(c, lambda k: to_upper(c, c.o.this[k])) + H0(c), prop=['C01', 'C03'], **SR)
con('jm::String::replace(jm::Char, jm::Char) const', T + [P('a', I16), P('b', I16)], post=lambda c: mapped(c, lambda k: z3.If(c.o.this[k] == c.o.a, c.o.b, c.o.this[k])) + H0(c), prop=['C01', 'C03'], **SR)
con('jm::String::reverse() const', T, post=lambda c: mapped(c, lambda k: c.o.this[c.o.this.len - 1 - k]) + H0(c), prop=['C01', 'C03'], **SR)


def clamp_sub(c, b, e):
    n = c.o.this.len
    b1 = z3.If(b < 0, 0, b)
    e1 = z3.If(e < b1, b1, e)
    e2 = z3.If(e1 > n, n, e1)
    ln = z3.If(e2 - b1 > 0, e2 - b1, 0)
    return [('length', c.n.ret.len == ln), ('content', c.all(lambda k: z3.Implies(z3.And(k >= 0, k < ln), c.n.ret[k] == c.o.this[k + b1]), lambda k: [c.n.ret[k]]))]


con('jm::String::substring(long, long) const', T + [P('b', I64), P('e', I64)], post=lambda c: clamp_sub(c, c.o.b, c.o.e) + H0(c), prop=['C01', 'C03'], **SR)
con('jm::String::substring(long) const', T + [P('b', I64)], post=lambda c: clamp_sub(c, c.o.b, c.o.this.len) + H0(c), prop=['C01', 'C03'], **SR)


def trim_post(c):
    n, s = c.o.this.len, c.o.this
    m = c.n.ret.len
    b = z3.Const(fresh_name('wb'), c.A.isort)
    # witness: the result starts at the first non-blank; stated without existential through the blank prefix / suffix
    blank = lambda k: is_space(c, s[k])
    return b, blank, m


def trim_spec(c):
    """f = number of leading blanks, l = end of the last non blank (ghost functions of the content)"""
    s = c.o.this
    f, l = c.ghost(('trim', s.arr, s.len), lambda: (z3.Const(fresh_name('firstNonBlank'), c.A.isort), z3.Const(fresh_name('endNonBlank'), c.A.isort)))
    ax = [f >= 0, f <= s.len, c.all(lambda k: z3.Implies(z3.And(k >= 0, k < f), is_space(c, s[k])), lambda k: [s[k]]), z3.Implies(f < s.len, z3.Not(is_space(c, s[f]))),
          l >= 0, l <= s.len, c.all(lambda k: z3.Implies(z3.And(k >= l, k < s.len), is_space(c, s[k])), lambda k: [s[k]]), z3.Implies(l > 0, z3.Not(is_space(c, s[l - 1])))]
    return f, l, ax


def trim_p(c):
    f, l, ax = trim_spec(c)
    ln = z3.If(l > f, l - f, 0)
    out = [('length', c.n.ret.len == ln), ('content', c.all(lambda k: z3.Implies(z3.And(k >= 0, k < ln), c.n.ret[k] == c.o.this[k + f]), lambda k: [c.n.ret[k]]))]
    if c.applying: out = [('def', a) for a in ax] + out
    return out + HC(c)


con('jm::String::trim() const', T, specs=lambda c: trim_spec(c)[2], post=trim_p, prop=['C01', 'C03'], **SR)
con('jm::String::deleteCharRangeAt(long, long)', TM + [P('i', I64), P('l', I64)], throws=lambda c: z3.Or(c.o.i < 0, c.o.i > c.o.this.len, c.o.l < 0),
    post=lambda c: content_is(c, c.n.this, [c.sub(c.o.this.arr, 0, c.o.i), (lambda k: c.o.this[k + c.o.i + c.o.l], z3.If(c.o.l > c.o.this.len - c.o.i, 0, c.o.this.len - c.o.i - c.o.l))]) + [('hash', c.n.this.hash == 0)], prop=['C01', 'C03'])
con('jm::String::zero()', TM, post=lambda c: [('empty', c.n.this.len == 0), ('hash', c.n.this.hash == 0)], prop=['C01', 'C03'])
con('jm::String::clear()', TM, post=lambda c: [('empty', c.n.this.len == 0), ('hash', c.n.this.hash == 0)], prop=['C01', 'C03'])
con('jm::String::operator=(jm::String const&)', TM + [P('s', Str)], alias=[('this', 's')], ret='arg:this', post=lambda c: copy_of(c, c.n.this, c.o.s) + [('hash', z3.Or(c.n.this.hash == 0, c.n.this.hash == c.o.s.hash))], prop=['C01', 'C03'])
con('jm::String::operator+=(jm::String const&)', TM + [P('s', Str)], alias=[('this', 's')], ret='arg:this',
    post=lambda c: content_is(c, c.n.this, [c.sub(c.o.this.arr, 0, c.o.this.len), c.sub(c.o.s.arr, 0, c.o.s.len)]) + [('hash', z3.Or(c.n.this.hash == 0, z3.And(c.o.s.len == 0, c.n.this.hash == c.o.this.hash)))], prop=['C01', 'C03'])
con('jm::operator+(jm::String const&, jm::String const&)', [P('l', Str), P('r', Str)], alias=[('l', 'r')],
    post=lambda c: content_is(c, c.n.ret, [c.sub(c.o.l.arr, 0, c.o.l.len), c.sub(c.o.r.arr, 0, c.o.r.len)]) + [('hash', z3.Or(c.n.ret.hash == 0, z3.And(c.o.r.len == 0, c.n.ret.hash == c.o.l.hash)))], prop=['C01', 'C03'], **SR)
con('jm::operator<<(jm::String&, jm::String const&)', TM + [P('s', Str)], alias=[('this', 's')], ret='arg:this',
    post=lambda c: content_is(c, c.n.this, [c.sub(c.o.this.arr, 0, c.o.this.len), c.sub(c.o.s.arr, 0, c.o.s.len)]), prop=['C01'])
con('jm::operator<<(jm::String&, jm::Char const&)', TM + [P('ch', ChRef)], ret='arg:this',
    post=lambda c: content_is(c, c.n.this, [c.sub(c.o.this.arr, 0, c.o.this.len), c.one(c.o.ch)]), prop=['C01'])

# ---------------------------------------------------------------- comparison
AL = [('this', 's')]


def differ_witness(c, name, a, b, n, f=lambda x: x):
    """w: some position below n at which a and b differ, if there is one (ghost)"""
    w = c.memo.get(name)
    if w is None: w = c.memo[name] = z3.Const(fresh_name(name), c.A.isort)
    return w


def equal_def(c, key, a, alen, b, blen, f=lambda x: x, off=0):
    """returns (E, axioms): E <=> alen == blen and a[k+off] ~ b[k] for all k"""
    probe = z3.Const('probe!x', c.A.sort(16))
    E, w = c.ghost((key, a, alen, b, blen, c.A.idx(off) if isinstance(off, int) else off, f(probe)),
                   lambda: (z3.Const(fresh_name('E' + key), z3.BoolSort()), z3.Const(fresh_name('w' + key), c.A.isort)))
    ax = [z3.Implies(E, alen == blen),
          c.all(lambda k: z3.Implies(z3.And(E, k >= 0, k < blen), f(z3.Select(a, k + off)) == f(z3.Select(b, k))), lambda k: [z3.Select(a, k + off)]),
          c.all(lambda k: z3.Implies(z3.And(E, k >= 0, k < blen), f(z3.Select(a, k + off)) == f(z3.Select(b, k))), lambda k: [z3.Select(b, k)]),
          z3.Implies(z3.Not(E), z3.Or(alen != blen, z3.And(w >= 0, w < blen, f(z3.Select(a, w + off)) != f(z3.Select(b, w)))))]
    return E, ax


def eqcon(sig, params, key, fn, **k):
    """bool function whose result is the defined predicate fn(c) -> (E, axioms)"""
    def post(c):
        E, ax = fn(c)
        return ([('def', x) for x in ax] if c.applying else []) + [('result', c.ret == E)]
    return con(sig, params, ret=I1, specs=lambda c: fn(c)[1], post=post, **k)


def EQ(c): return equal_def(c, 'eq', c.o.this.arr, c.o.this.len, c.o.s.arr, c.o.s.len)


def EQI(c): return equal_def(c, 'eqi', c.o.this.arr, c.o.this.len, c.o.s.arr, c.o.s.len, lambda x: to_lower(c, x))


eqcon('jm::String::equals(jm::String const&) const', T + [P('s', Str)], 'eq', EQ, alias=AL, prop=['C02'])
eqcon('jm::String::equalsIgnoreCase(jm::String const&) const', T + [P('s', Str)], 'eqi', EQI, alias=AL, prop=['C02'])
eqcon('jm::operator==(jm::String const&, jm::String const&)', T + [P('s', Str)], 'eq', EQ, alias=AL, prop=['C02'])
eqcon('jm::operator!=(jm::String const&, jm::String const&)', T + [P('s', Str)], 'eq', lambda c: (z3.Not(EQ(c)[0]), EQ(c)[1]), alias=AL, prop=['C02'])


def STARTS(c):
    t, s = c.o.this, c.o.s
    E, ax = equal_def(c, 'st', t.arr, s.len, s.arr, s.len)
    return z3.And(s.len <= t.len, E), ax


def ENDS(c):
    t, s = c.o.this, c.o.s
    E, ax = equal_def(c, 'en', t.arr, s.len, s.arr, s.len, off=t.len - s.len)
    return z3.And(s.len <= t.len, E), ax


def ATIS(f):
    def g(c):
        t, s = c.o.this, c.o.s
        E, ax = equal_def(c, 'at', t.arr, s.len, s.arr, s.len, (lambda x: f(c, x)), off=c.o.p)
        return z3.And(c.o.p >= 0, c.o.p <= t.len - s.len, E), ax
    return g


eqcon('jm::String::startsWith(jm::String const&) const', T + [P('s', Str)], 'st', STARTS, alias=AL, prop=['C02'])
eqcon('jm::String::endsWith(jm::String const&) const', T + [P('s', Str)], 'en', ENDS, alias=AL, prop=['C02'])
eqcon('jm::String::atIs(long, jm::String const&)', T + [P('p', I64), P('s', Str)], 'at', ATIS(lambda c, x: x), alias=AL, prop=['C02'])
eqcon('jm::String::atIsIgnoreCase(long, jm::String const&)', T + [P('p', I64), P('s', Str)], 'at', ATIS(to_lower), alias=AL, prop=['C02'])


def cmp_def(c):
    """d = length of the longest common prefix"""
    t, s = c.o.this, c.o.s
    d = c.ghost(('lcp', t.arr, t.len, s.arr, s.len), lambda: z3.Const(fresh_name('lcp'), c.A.isort))
    ax = [d >= 0, d <= t.len, d <= s.len, c.all(lambda k: z3.Implies(z3.And(k >= 0, k < d), t[k] == s[k]), lambda k: [t[k]]),
          c.all(lambda k: z3.Implies(z3.And(k >= 0, k < d), t[k] == s[k]), lambda k: [s[k]]),
          z3.Implies(z3.And(d < t.len, d < s.len), t[d] != s[d])]
    r = z3.If(z3.And(d < t.len, d < s.len), z3.If(t[d] < s[d], -1, 1), z3.If(t.len < s.len, -1, z3.If(t.len > s.len, 1, 0)))
    return d, ax, r


def sign(x): return z3.If(x < 0, -1, z3.If(x > 0, 1, 0))


con('jm::String::compareTo(jm::String const&) const', T + [P('s', Str)], ret=I32, alias=AL, specs=lambda c: cmp_def(c)[1],
    post=lambda c: ([('def', x) for x in cmp_def(c)[1]] if c.applying else []) + [('sign of the lexicographic order', sign(c.ret) == cmp_def(c)[2])], prop=['C02'])
con('jm::operator<(jm::String const&, jm::String const&)', T + [P('s', Str)], ret=I1, alias=AL, specs=lambda c: cmp_def(c)[1],
    post=lambda c: ([('def', x) for x in cmp_def(c)[1]] if c.applying else []) + [('result', c.ret == (cmp_def(c)[2] < 0))], prop=['C02'])


# ---------------------------------------------------------------- search
def first_pos(c, lo, n, P_, ret):
    """ret is the first k in [lo, n) with P, or -1"""
    return [('found in range', z3.Or(ret == -1, z3.And(ret >= lo, ret < n, P_(ret)))),
            ('nothing earlier', c.all(lambda k: z3.Implies(z3.And(k >= lo, z3.If(ret == -1, k < n, k < ret)), z3.Not(P_(k)))))]


def last_pos(c, hi, P_, ret):
    return [('found in range', z3.Or(ret == -1, z3.And(ret >= 0, ret <= hi, P_(ret)))),
            ('nothing later', c.all(lambda k: z3.Implies(z3.And(k <= hi, k >= 0, k > ret), z3.Not(P_(k)))))]


clamp0 = lambda x: z3.If(x < 0, 0, x)
ISCH = lambda c: (lambda k: c.o.this[k] == c.o.ch)
con('jm::String::indexOf(jm::Char) const', T + [P('ch', I16)], ret=I64, post=lambda c: first_pos(c, 0, c.o.this.len, ISCH(c), c.ret), prop=['C02'])
con('jm::String::indexOf(jm::Char, long) const', T + [P('ch', I16), P('f', I64)], ret=I64, post=lambda c: first_pos(c, clamp0(c.o.f), c.o.this.len, ISCH(c), c.ret), prop=['C02'])
con('jm::String::lastIndexOf(jm::Char) const', T + [P('ch', I16)], ret=I64, post=lambda c: last_pos(c, c.o.this.len - 1, ISCH(c), c.ret), prop=['C02'])
con('jm::String::lastIndexOf(jm::Char, long) const', T + [P('ch', I16), P('f', I64)], ret=I64, throws=lambda c: c.o.f >= c.o.this.len,
    post=lambda c: last_pos(c, clamp0(c.o.f), lambda k: z3.And(k < c.o.this.len, ISCH(c)(k)), c.ret), prop=['C02'])


def match_def(c):
    """M(a): the pattern occurs at position a (ghost predicate with its definition)"""
    t, s = c.o.this, c.o.s
    M, w = c.ghost(('M', t.arr, s.arr, s.len), lambda: (z3.Function(fresh_name('M'), c.A.isort, z3.BoolSort()), z3.Function(fresh_name('mw'), c.A.isort, c.A.isort)))
    a = z3.Const(fresh_name('a'), c.A.isort)

    def use(p):     # M(p) gives equality at every offset
        return c.all(lambda b: z3.Implies(z3.And(M(p), b >= 0, b < s.len), t[p + b] == s[b]), lambda b: [s[b]])
    ax = [ForAll(a, z3.Implies(z3.Not(M(a)), z3.And(w(a) >= 0, w(a) < s.len, t[a + w(a)] != s[w(a)])), [M(a)]),
          Nested(a, [M(a)], use(a))]
    return M, ax


con('jm::String::indexOf(jm::String const&) const', T + [P('s', Str)], ret=I64, alias=AL, specs=lambda c: match_def(c)[1], preds=lambda c: [match_def(c)[0]],
    post=lambda c: ([('def', x) for x in match_def(c)[1]] if c.applying else []) + first_pos(c, 0, c.o.this.len - c.o.s.len + 1, match_def(c)[0], c.ret), prop=['C02'])
con('jm::String::indexOf(jm::String const&, long) const', T + [P('s', Str), P('f', I64)], ret=I64, alias=AL, specs=lambda c: match_def(c)[1], preds=lambda c: [match_def(c)[0]],
    post=lambda c: ([('def', x) for x in match_def(c)[1]] if c.applying else []) + first_pos(c, clamp0(c.o.f), c.o.this.len - c.o.s.len + 1, match_def(c)[0], c.ret), prop=['C02'])
con('jm::String::lastIndexOf(jm::String const&) const', T + [P('s', Str)], ret=I64, alias=AL, specs=lambda c: match_def(c)[1], preds=lambda c: [match_def(c)[0]],
    post=lambda c: ([('def', x) for x in match_def(c)[1]] if c.applying else []) + last_pos(c, zmin(c.o.this.len - 1, c.o.this.len - c.o.s.len), match_def(c)[0], c.ret), prop=['C02'])
con('jm::String::lastIndexOf(jm::String const&, long) const', T + [P('s', Str), P('f', I64)], ret=I64, alias=AL, specs=lambda c: match_def(c)[1], preds=lambda c: [match_def(c)[0]],
    post=lambda c: ([('def', x) for x in match_def(c)[1]] if c.applying else []) + last_pos(c, zmin(c.o.f, c.o.this.len - c.o.s.len), match_def(c)[0], c.ret), prop=['C02'])


def zmin(a, b): return z3.If(a < b, a, b)


def count_fn(c):
    t = c.o.this
    N = c.ghost(('cnt', t.arr, c.o.ch), lambda: z3.Function(fresh_name('cnt'), c.A.isort, c.A.isort))
    ax = [N(0) == 0, c.all(lambda k: z3.Implies(k >= 0, N(k + 1) == N(k) + z3.If(t[k] == c.o.ch, 1, 0)), lambda k: [N(k), N(k + 1)]),
          c.all(lambda k: z3.Implies(k >= 0, z3.And(N(k) >= 0, N(k) <= k)), lambda k: [N(k)])]
    return N, ax


con('jm::String::count(jm::Char) const', T + [P('ch', I16)], ret=I64, specs=lambda c: count_fn(c)[1], recs=lambda c: [count_fn(c)[0]], post=lambda c: [('number of occurrences', c.ret == count_fn(c)[0](c.o.this.len))], prop=['C02'])


# ---------------------------------------------------------------- hash code (32 bit machine arithmetic)
def hash_fn(c):
    """H(k): hash of the first k characters"""
    t = c.o.this
    H = c.ghost(('H', t.arr), lambda: z3.Function(fresh_name('H'), c.A.isort, c.A.sort(32)))
    k0 = c.A.idx(0)
    ax = [H(k0) == c.A.const(0, 32), c.all(lambda k: z3.Implies(k >= 0, H(k + 1) == 31 * H(k) + z3.ZeroExt(16, t[k])), lambda k: [H(k), H(k + 1)])]
    return H, ax


def hash_val(c):
    h = hash_fn(c)[0](c.o.this.len)
    return z3.SignExt(32, h)


HASHV = lambda c: z3.Or(c.o.this.hash == 0, c.o.this.hash == hash_fn(c)[0](c.o.this.len))
con('jm::String::constHashCode() const', T, ret=I64, mode='bv', specs=lambda c: hash_fn(c)[1], recs=lambda c: [hash_fn(c)[0]], pre=lambda c: [('cached hash is valid', HASHV(c))],
    post=lambda c: [('value determined by the characters', c.ret == hash_val(c))], prop=['C03'])
con('jm::String::hashCode()', TM, ret=I64, mode='bv', specs=lambda c: hash_fn(c)[1], recs=lambda c: [hash_fn(c)[0]], pre=lambda c: [('cached hash is valid', HASHV(c))],
    post=lambda c: copy_of(c, c.n.this, c.o.this) + [('value determined by the characters', c.ret == hash_val(c)), ('cached hash is valid', z3.Or(c.n.this.hash == 0, c.n.this.hash == hash_fn(c)[0](c.o.this.len)))], prop=['C03'])
