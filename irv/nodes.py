"""Linked structures: every class of heap nodes is one pool; a node is named by a positive integer, each member is an array over
node names (Burstall/Bornat), 'alive' says which names are allocated, ghost arrays carry the abstract position of a node."""
import z3
from smt import ForAll, fresh_name
from symex import Ref, NULL, NullP, PIte, Unsupported, GlobP, Opaque, is_ptr, Ptr
from contract import ObjK, View, obj_ptr, CannotApply, IntK


class NodeCls:
    def __init__(self, name, ptrs=None, ints=None, ghosts=None, vtab=None, foreign=False, new=True, tracked=None, locks=None, guards=None):
        self.name, self.ptrs, self.ints, self.ghosts, self.vtab, self.foreign, self.new = name, ptrs or {}, ints or {}, ghosts or {}, vtab, foreign, new
        self.locks, self.guards = locks or {}, guards or {}       # mutex member -> (effect of acquiring, effect of releasing); member -> condition of its accesses
        self.tracked = dict(tracked or {})                        # verification state set by the models of external functions, compared at return
        for m in self.locks: self.tracked['held_' + m] = z3.BoolSort()

    def keys(self, eng):
        """(member, heap key, element sort) of every array of this class"""
        off = eng.offsets.get(self.name, {})
        out = []
        for m in self.ptrs: out.append((m, (self.name, off[m]), z3.IntSort()))
        for m, b in self.ints.items(): out.append((m, (self.name, off[m]), eng.A.sort(b)))
        if not self.foreign: out.append(('alive', (self.name, 'alive'), z3.BoolSort()))
        for m, s in self.tracked.items(): out.append((m, (self.name, 't:' + m), s))
        for m, s in self.ghosts.items(): out.append((m, (self.name, 'g:' + m), s))
        return out


def setup(eng, st):
    for n in eng.nodes:
        off = eng.offsets.get(n.name, {})
        for m, t in n.ptrs.items():
            if m not in off: raise Unsupported('member %s of node class %s not found' % (m, n.name))
            eng.refcls[(n.name, off[m])] = t
        if not n.foreign and n.new: eng.refnew[off['sizeof']] = n.name
        for m, k, s in n.keys(eng): st.heap[k] = z3.Const('heap_%s_%s' % k, z3.ArraySort(z3.IntSort(), s))


def cls(eng, name):
    for n in eng.nodes:
        if n.name == name: return n
    raise Unsupported('node class %s' % name)


def key(eng, cl, m):
    for x, k, s in cls(eng, cl).keys(eng):
        if x == m: return k
    raise Unsupported('member %s of node class %s' % (m, cl))


def new_node(eng, st, cl):
    t = z3.Const(fresh_name('node_' + cl), z3.IntSort())
    k = (cl, 'alive')
    a = st.heap[k]
    st.assume([t > 0, z3.Not(z3.Select(a, t))])
    st.heap[k] = z3.Store(a, t, z3.BoolVal(True))
    st.ghost[('new', cl)] = t
    return Ref(cl, t, 0)


def free_node(eng, st, p):
    k = (p.cls, 'alive')
    a = st.heap.get(k)
    if a is None: raise Unsupported('release of a foreign node')
    if p.o: eng.oblige(st, 'release of an interior pointer', z3.BoolVal(False), 'safety')
    eng.oblige(st, 'released %s is allocated' % p.cls, z3.And(p.t > 0, z3.Select(a, p.t)), 'safety')
    st.heap[k] = z3.Store(a, p.t, z3.BoolVal(False))
    n = cls(eng, p.cls)
    if 'freed' in n.tracked: st.heap[(p.cls, 't:freed')] = z3.Store(st.heap[(p.cls, 't:freed')], p.t, z3.BoolVal(True))


def access(eng, st, p, what):
    a = st.heap.get((p.cls, 'alive'))
    if a is not None: eng.oblige(st, '%s of an allocated %s' % (what, p.cls), z3.And(p.t > 0, z3.Select(a, p.t)), 'safety')
    else: eng.oblige(st, 'no null %s in %s' % (what, p.cls), p.t != 0, 'safety')
    for m, g in cls(eng, p.cls).guards.items():
        if eng.offsets[p.cls][m] == p.o: eng.oblige(st, '%s of %s of a %s under its lock' % (what, m, p.cls), g(eng, st, p.t), 'safety')


def zero(eng, st, p, n):
    """memset with zeros over a whole node"""
    off = eng.offsets[p.cls]
    if p.o or n != off['sizeof']: raise Unsupported('partial memset of a node')
    k = cls(eng, p.cls)
    access(eng, st, p, 'write')
    for m in k.ptrs: st.heap[(p.cls, off[m])] = z3.Store(st.heap[(p.cls, off[m])], p.t, z3.IntVal(0))
    for m, b in k.ints.items(): st.heap[(p.cls, off[m])] = z3.Store(st.heap[(p.cls, off[m])], p.t, eng.A.const(0, b))


def lock(eng, st, p, acquire):
    """pthread_mutex_lock and _unlock on a mutex member of a node"""
    if not isinstance(p, Ref): return
    n = cls(eng, p.cls)
    for m, (acq, rel) in n.locks.items():
        if eng.offsets[p.cls][m] != p.o: continue
        k = (p.cls, 't:held_' + m)
        h = z3.Select(st.heap[k], p.t)
        if acquire:
            eng.oblige(st, 'mutex %s is not already held by the thread' % m, z3.Not(h), 'safety')
            st.heap[k] = z3.Store(st.heap[k], p.t, z3.BoolVal(True))
            if acq: acq(eng, st, p.t)
        else:
            eng.oblige(st, 'mutex %s is held by the thread that releases it' % m, h, 'safety')
            if rel: rel(eng, st, p.t)
            st.heap[k] = z3.Store(st.heap[k], p.t, z3.BoolVal(False))


def vptr(eng, st, p):
    """virtual table pointer of a node: nodes of a class are exactly of that class"""
    n = cls(eng, p.cls)
    if p.o == 0 and n.vtab: return GlobP(n.vtab, 16)
    return None


class RefK:
    """pointer to a node (null allowed unless the precondition excludes it); the contract sees its name, 0 for null"""
    ref = False

    def __init__(self, cl, member=None): self.cl, self.member = cl, member

    def make(self, eng, st, name):
        t = z3.Const(fresh_name(name), z3.IntSort())
        st.assume(t >= 0)
        return Ref(self.cl, t, 0)

    def term(self, eng, v):
        if isinstance(v, PIte): return z3.If(v.c, self.term(eng, v.a), self.term(eng, v.b))
        if isinstance(v, NullP): return z3.IntVal(0)
        if not isinstance(v, Ref) or v.cls != self.cl: raise CannotApply('node pointer expected, got %r' % (v,))
        o = eng.offsets[self.cl][self.member] if self.member else 0
        if v.o != o: raise CannotApply('node pointer with offset %d' % v.o)
        return v.t

    def view(self, eng, st, v): return self.term(eng, v)

    def wf(self, eng, v): return []

    # as return kind
    def make_ret(self, eng, st, c):
        t = z3.Const(fresh_name('ret'), z3.IntSort())
        st.assume(t >= 0)
        return Ref(self.cl, t, eng.offsets[self.cl][self.member] if self.member else 0)

    def view_ret(self, eng, s, rv, cc): return self.term(eng, rv)


class NodeContK(ObjK):
    """container object with pointers into node pools"""
    refs = ()        # (member, node class)
    pool = None      # node class whose arrays the view shows

    def init_extra(self, eng, st, p, name):
        for m, cl in self.refs:
            t = z3.Const(fresh_name('%s_%s' % (name, m)), z3.IntSort())
            st.assume(t >= 0)
            st.wreg(p.r).fields[p.o + self.off(eng, m)] = (8, Ref(cl, t, 0))

    def view_extra(self, eng, st, p, vw):
        for m, cl in self.refs:
            x = self.getf(eng, st, p, m, 8)
            setattr(vw, m, RefK(cl).term(eng, x))
        hp = dict(st.heap)
        vw.h = lambda m, cl=None: hp[key(eng, cl or self.pool, m)]

    def same(self, eng, a, b):
        out = ObjK.same(self, eng, a, b)
        for m, _ in self.refs: out.append(getattr(a, m) == getattr(b, m))
        return out
