"""IR generation from /repo's current sources, member offsets, symbol lookup."""
import os, subprocess, hashlib, json, re, sys, concurrent.futures
from llir import Module

REPO = os.environ.get('VP_REPO', '/repo')
FLAGS = ['-std=c++20', '-I%s/include' % REPO, '-I%s/3rdparty' % REPO, '-I%s/prec' % REPO, '-I/opt/vp/include', '-Wno-everything']


class GenError(Exception):
    pass


def run(cmd, **k):
    p = subprocess.run(cmd, capture_output=True, text=True, **k)
    if p.returncode: raise GenError('%s\n%s' % (' '.join(cmd), p.stderr[-3000:]))
    return p.stdout


def make_ir(src, out):
    """src relative to /repo or absolute"""
    f = src if src.startswith('/') else os.path.join(REPO, src)
    tmp = out + '.0'
    run(['clang++-18', '-S', '-emit-llvm', '-O0', '-Xclang', '-disable-O0-optnone', '-fno-discard-value-names'] + FLAGS + ['-x', 'c++', f, '-o', tmp])
    run(['opt-18', '-S', '-passes=sroa,simplifycfg,loop-simplify,lcssa', tmp, '-o', out])
    os.unlink(tmp)
    return out


def modules(srcs, wd):
    os.makedirs(wd, exist_ok=True)
    outs = [os.path.join(wd, re.sub(r'[^A-Za-z0-9]', '_', s) + '.ll') for s in srcs]
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        list(ex.map(lambda a: make_ir(*a), zip(srcs, outs)))
    return [Module(o) for o in outs]


def offsets(classes, wd, headers):
    """{class: {member: byte offset, 'sizeof': n}} of the current headers, computed by the compiler.
    Members that no longer exist are left out."""
    os.makedirs(wd, exist_ok=True)
    src = os.path.join(wd, 'offsets.cpp')
    res = {}
    body = []
    for c, (cpp, members) in classes.items():
        body.append('extern "C" const long off__%s__sizeof = sizeof(%s);' % (c, cpp))
        for m in members:
            if '::' in m:        # member of the primary base class (at offset 0)
                b, x = m.rsplit('::', 1)
                body.append('extern "C" const long off__%s__%s = __builtin_offsetof(%s,%s);' % (c, m.replace('::', '__base__'), b, x))
                continue
            body.append('extern "C" const long off__%s__%s = []<class T>() constexpr -> long { if constexpr(requires(T* t){ t->%s; }) return __builtin_offsetof(T,%s); else return -1; }.template operator()<%s>();' % (c, m.replace('.', '__dot__'), m, m, cpp))
    with open(src, 'w') as f:
        f.write('#include "PrecompiledCore.hpp"\n' + ''.join('#include "%s"\n' % h for h in headers) + 'using namespace jm;\n' + '\n'.join(body) + '\n')
    out = os.path.join(wd, 'offsets.ll')
    run(['clang++-18', '-O0', '-fno-access-control', '-S', '-emit-llvm'] + FLAGS + [src, '-o', out])
    for m in re.finditer(r'^@off__(\w+?)__(\w+) = .*constant i64 (-?\d+)', open(out).read(), re.M):
        if int(m.group(3)) >= 0: res.setdefault(m.group(1), {})[m.group(2).replace('__dot__', '.').replace('__base__', '::')] = int(m.group(3))
    return res


_dem = {}


def demangle(names):
    names = [n for n in names if n not in _dem]
    if names:
        o = subprocess.run(['c++filt'], input='\n'.join(names), capture_output=True, text=True).stdout.split('\n')
        for n, d in zip(names, o): _dem[n] = d
    return _dem


def symbols(mods):
    """demangled -> mangled for all defined functions and aliases"""
    names = []
    for m in mods: names += list(m.funcs) + list(m.aliases)
    d = demangle(names)
    out = {}
    for n in names:
        s = d[n]
        # constructors / destructors: complete object variant preferred
        if s in out and ('C1E' in out[s] or 'D1E' in out[s]): continue
        if 'D0E' in n and re.search(r'~', s): continue
        if s in out and ('C2E' in n or 'D2E' in n): continue
        out[s] = n
    return out
