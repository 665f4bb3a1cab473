"""Colours (C23)."""
import os, z3
from contract import *
from smt import ForAll, fresh_name

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SOURCES = ['src/core/Color.cpp']
HEADERS = []
CLASSES = {'Color': ('jm::Color', ['mMode', 'col.cmyk.cyan', 'col.cmyk.magenta', 'col.cmyk.yellow', 'col.cmyk.key', 'mAlpha'])}
C = []
GREY, RGB, CMYK = 0, 1, 2


def con(sig, params, **k):
    k.setdefault('prop', ['C23'])
    x = Contract(sig, params, **k)
    C.append(x)
    return x


class ColorK(ObjK):
    cls = 'Color'
    hdr = False
    lax = True
    scal = (('mMode', 32), ('col.cmyk.cyan', 8), ('col.cmyk.magenta', 8), ('col.cmyk.yellow', 8), ('col.cmyk.key', 8), ('mAlpha', 8))

    def view_extra(self, eng, st, p, v):
        v.m = v.mMode
        v.b = [getattr(v, 'col.cmyk.' + x) for x in ('cyan', 'magenta', 'yellow', 'key')]
        v.a = v.mAlpha
        v.r, v.g, v.bl = v.b[:3]

    def wf(self, eng, v): return [v.m >= 0, v.m <= 2]
    def same(self, eng, a, b): return [a.m == b.m, a.a == b.a] + [z3.Implies(n(b), a.b[i] == b.b[i]) for i, n in enumerate(ACTIVE)]
    def release(self, eng, st, p): pass


ACTIVE = [lambda v: z3.BoolVal(True), lambda v: v.m != GREY, lambda v: v.m != GREY, lambda v: v.m == CMYK]      # channels in use
CO = ColorK()
T, TM, TO = [P('this', CO)], [P('this', CO, 'mut')], [P('this', CO, 'out')]


def eq(a, b): return z3.And(a.m == b.m, a.a == b.a, *[z3.Implies(n(a), a.b[i] == b.b[i]) for i, n in enumerate(ACTIVE)])
def is_rgb(v, r, g, b, a): return [('mode', v.m == RGB), ('red', v.b[0] == r), ('green', v.b[1] == g), ('blue', v.b[2] == b), ('alpha', v.a == a)]
def keep(c, *skip): return [('channel %d kept' % i, c.n.this.b[i] == c.o.this.b[i]) for i in range(4) if i not in skip] + [('mode kept', c.n.this.m == c.o.this.m)] + ([('alpha kept', c.n.this.a == c.o.this.a)] if 'a' not in skip else [])


K = 'jm::Color::'
con(K + 'Color()', TO, post=lambda c: is_rgb(c.n.this, 0, 0, 0, 255))
con(K + 'Color(jm::Color const&)', TO + [P('o', CO)], post=lambda c: [('same colour', eq(c.n.this, c.o.o))] + [('byte %d' % i, c.n.this.b[i] == c.o.o.b[i]) for i in range(4)])
con(K + 'operator=(jm::Color const&)', TM + [P('o', CO)], alias=[('this', 'o')], ret='arg:this', post=lambda c: [('same colour', eq(c.n.this, c.o.o))] + [('byte %d' % i, c.n.this.b[i] == c.o.o.b[i]) for i in range(4)])
for i, f in enumerate(('red', 'green', 'blue')): con(K + f + '() const', T, retfn=lambda c, i=i: c.o.this.b[i])
for i, f in enumerate(('cyan', 'magenta', 'yellow', 'key')): con(K + f + '() const', T, retfn=lambda c, i=i: c.o.this.b[i])
con(K + 'grey() const', T, retfn=lambda c: c.o.this.b[0])
con(K + 'alpha() const', T, retfn=lambda c: c.o.this.a)
con(K + 'mode() const', T, retfn=lambda c: c.o.this.m)
for n, i in (('Red', 0), ('Green', 1), ('Blue', 2), ('Grey', 0), ('Cyan', 0), ('Magenta', 1), ('Yellow', 2), ('Key', 3)):
    con(K + 'set%s(unsigned char)' % n, TM + [P('x', I8)], post=lambda c, i=i: [('channel', c.n.this.b[i] == c.o.x)] + keep(c, i))
con(K + 'setAlpha(unsigned char)', TM + [P('x', I8)], post=lambda c: [('alpha', c.n.this.a == c.o.x)] + keep(c, 'a'))
con(K + 'setMode(jm::ColorMode)', TM + [P('x', I32)], pre=lambda c: [c.o.x >= 0, c.o.x <= 2], post=lambda c: [('mode', c.n.this.m == c.o.x), ('alpha', c.n.this.a == c.o.this.a)] + [('channel', c.n.this.b[i] == c.o.this.b[i]) for i in range(4)])
con(K + 'fromGrey(unsigned char, unsigned char)', [P('g', I8), P('a', I8)], sret=CO, post=lambda c: [('mode', c.n.ret.m == GREY), ('grey', c.n.ret.b[0] == c.o.g), ('alpha', c.n.ret.a == c.o.a)])
con(K + 'fromRgb(unsigned char, unsigned char, unsigned char, unsigned char)', [P(x, I8) for x in 'rgba'], sret=CO, post=lambda c: is_rgb(c.n.ret, c.o.r, c.o.g, c.o.b, c.o.a))
con(K + 'fromCmyk(unsigned char, unsigned char, unsigned char, unsigned char, unsigned char)', [P(x, I8) for x in 'cmyka'], sret=CO,
    post=lambda c: [('mode', c.n.ret.m == CMYK), ('alpha', c.n.ret.a == c.o.a)] + [(n, c.n.ret.b[i] == getattr(c.o, n)) for i, n in enumerate('cmyk')])
white = lambda v: z3.If(v.m == GREY, v.b[0] == 255, z3.If(v.m == RGB, z3.And(*[x == 255 for x in v.b[:3]]), z3.And(*[x == 0 for x in v.b])))
con(K + 'isWhite() const', T, ret=I1, post=lambda c: [('white', c.ret == white(c.o.this))])


def rgbof(v):
    return [z3.If(v.m == RGB, v.b[i], z3.If(v.m == GREY, v.b[0], 255 - z3.If(v.b[i] + v.b[3] > 255, 255, v.b[i] + v.b[3]))) for i in range(3)]


con(K + 'toRgb()', TM, ret='arg:this', post=lambda c: is_rgb(c.n.this, *rgbof(c.o.this), c.o.this.a))


def near(x, y, tol):
    """|x - y| <= tol as integers over a common denominator"""
    return z3.And(x - y <= tol, y - x <= tol)


def togrey_post(c):
    r, g, b = rgbof(c.o.this)
    o, t = c.o.this, c.n.this
    lum = 2126 * r + 7152 * g + 722 * b
    return [('mode', t.m == GREY), ('alpha', z3.If(o.m == GREY, t.a == o.a, t.a == 255)),
            ('luminance', z3.If(o.m == GREY, t.b[0] == o.b[0], near(10000 * t.b[0], lum, z3.IntVal(5010))))]


con(K + 'toGreyScale()', TM, fp='real', post=togrey_post)


def tocmyk_post(c):
    o, t = c.o.this, c.n.this
    mx = z3.If(z3.And(o.b[0] >= o.b[1], o.b[0] >= o.b[2]), o.b[0], z3.If(o.b[1] >= o.b[2], o.b[1], o.b[2]))
    out = [('mode', t.m == CMYK), ('alpha', z3.If(o.m == CMYK, t.a == o.a, t.a == 255))]
    for i in range(4): out.append(('CMYK stays', z3.Implies(o.m == CMYK, t.b[i] == o.b[i])))
    for i in range(3): out.append(('grey has no colour', z3.Implies(o.m == GREY, t.b[i] == 0)))
    out.append(('grey', z3.Implies(o.m == GREY, t.b[3] == 255 - o.b[0])))
    out.append(('black portion', z3.Implies(o.m == RGB, near(t.b[3], 255 - mx, z3.IntVal(1)))))
    for i in range(3): out.append(('colour portion %d' % i, z3.Implies(z3.And(o.m == RGB, mx > 0), near(t.b[i] * mx, 255 * (mx - o.b[i]), mx))))
    for i in range(3): out.append(('black has no colour', z3.Implies(z3.And(o.m == RGB, mx == 0), t.b[i] == 0)))
    return out


con(K + 'toCmyk()', TM, fp='real', post=tocmyk_post)
con('jm::operator==(jm::Color const&, jm::Color const&)', [P('a', CO), P('b', CO)], alias=[('a', 'b')], ret=I1, post=lambda c: [('same mode, alpha and active channels', c.ret == eq(c.o.a, c.o.b))])
con('jm::operator!=(jm::Color const&, jm::Color const&)', [P('a', CO), P('b', CO)], alias=[('a', 'b')], ret=I1, post=lambda c: [('not equal', c.ret == z3.Not(eq(c.o.a, c.o.b)))])
for op, s in (('-', -1), ('+', 1)):
    con('jm::operator%s(jm::Color const&, jm::Color const&)' % op, [P('x', CO), P('y', CO)], alias=[('x', 'y')], sret=CO,
        post=lambda c, s=s: [('mode', c.n.ret.m == c.o.x.m), ('alpha', c.n.ret.a == (c.o.x.a + s * c.o.y.a) % 256)] + [('channel %d' % i, z3.Implies(n(c.o.x), c.n.ret.b[i] == (c.o.x.b[i] + s * c.o.y.b[i]) % 256)) for i, n in enumerate(ACTIVE)])


def between(x, a, b): return z3.And(z3.Or(x >= a, x >= b), z3.Or(x <= a, x <= b))


def blend_post(c):
    f, b, r = c.o.f, c.o.b, c.n.ret
    op = z3.And(f.a == 255, b.a == 255)
    out = [('mode', r.m == RGB), ('alpha', z3.Implies(op, r.a == 255)), ('alpha of transparent colours', z3.Implies(z3.Not(op), r.a == f.a + (255 - f.a) * b.a / z3.IntVal(255)))]
    for i in range(3):
        out += [('channel %d weighted' % i, z3.Implies(op, r.b[i] == (c.o.w * f.b[i] + (255 - c.o.w) * b.b[i]) / z3.IntVal(255))),
                ('channel %d between' % i, z3.Implies(z3.Or(op, f.a > 0, b.a > 0), between(r.b[i], f.b[i], b.b[i]))), ('channel %d at 0' % i, z3.Implies(z3.And(op, c.o.w == 0), r.b[i] == b.b[i])), ('channel %d at 255' % i, z3.Implies(z3.And(op, c.o.w == 255), r.b[i] == f.b[i]))]
    return out


con('jm::blend(jm::Color, jm::Color, unsigned char)', [P('b', CO), P('f', CO), P('w', I8)], sret=CO, fp='real', post=blend_post)


def pdalpha(b, f): return f + (255 - f) * b / z3.IntVal(255)


con('PorterDuffAlpha(unsigned char, unsigned char)', [P('b', I8), P('f', I8)], ret=I8, post=lambda c: [('alpha', c.ret == pdalpha(c.o.b, c.o.f)), ('zero only for two transparent colours', (c.ret == 0) == z3.And(c.o.b == 0, c.o.f == 0))])
con('PorterDuffColour(unsigned char, unsigned char, unsigned char, unsigned char)', [P('cb', I8), P('ab', I8), P('cf', I8), P('af', I8)], ret=I8, fp='real',
    post=lambda c: [('between', z3.Implies(z3.Or(c.o.ab > 0, c.o.af > 0), between(c.ret, c.o.cb, c.o.cf))), ('opaque foreground', z3.Implies(c.o.af == 255, c.ret == c.o.cf)), ('transparent foreground', z3.Implies(z3.And(c.o.af == 0, c.o.ab > 0), c.ret == c.o.cb))])


def inter_post(c):
    a, b, r, p = c.o.a, c.o.b, c.n.ret, c.o.p
    out = [('mode', r.m == RGB)]
    for n, x, y, z in [('channel %d' % i, r.b[i], a.b[i], b.b[i]) for i in range(3)] + [('alpha', r.a, a.a, b.a)]:
        out += [(n + ' between', between(z3.If(z3.BoolVal(True), x, x), y, z)), (n + ' at 0', z3.Implies(p == 0, x == y)), (n + ' at 1', z3.Implies(p == 1, x == z))]
    return out


con('jm::interpolate(jm::Color, jm::Color, float)', [P('a', CO), P('b', CO), P('p', F32)], sret=CO, fp='real', pre=lambda c: [c.o.p >= 0, c.o.p <= 1], post=inter_post)
