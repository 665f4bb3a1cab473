"""Solver layer: ground formulas + ForAll facts with trigger based instantiation, z3 first, cvc5 as second back end."""
import z3, time, subprocess, os, tempfile

z3.set_param('auto_config', True)
_cnt = [0]


def fresh_name(base):
    _cnt[0] += 1
    return '%s!%d' % (base, _cnt[0])


def reset_names():
    _cnt[0] = 0
    for d in (_nodes, _idx, _inst, _sub, _nest, _roots): d.clear()


class ForAll:
    """forall var. body ; var is a z3 constant (Int or BV)."""
    __slots__ = ('var', 'body', '_trig', 'trigs')

    def __init__(self, var, body, trigs=None):
        self.var, self.body = var, body
        self._trig = None
        self.trigs = trigs

    def subst(self, pairs):
        if not pairs: return self
        t = None
        if self.trigs is not None: t = [z3.substitute(x, *pairs) for x in self.trigs]
        return ForAll(self.var, z3.substitute(self.body, *pairs), t)

    def inst(self, t):
        return z3.substitute(self.body, (self.var, t))

    def triggers(self):
        if self._trig is None:
            out = []
            pats = self.trigs if self.trigs is not None else [self.body]
            for p in pats:
                for k in ground_terms(p, self.var):
                    key, idx = k
                    c = z3.simplify(idx - self.var)
                    if not contains(c, self.var):
                        out.append((key, c))
                    else:
                        c2 = z3.simplify(idx + self.var)      # index of the form c - k
                        if not contains(c2, self.var): out.append((key, ('neg', c2)))
            seen = set()
            o2 = []
            for key, c in out:
                kk = (key, ('n', c[1].get_id()) if isinstance(c, tuple) else c.get_id())
                if kk not in seen:
                    seen.add(kk); o2.append((key, c))
            self._trig = o2
        return self._trig

    def __repr__(self):
        return 'forall %s. %s' % (self.var, self.body)


class Nested:
    """forall var. (forall inner.var. inner.body); instantiated at every index of a trigger term, usable as assumption only."""
    __slots__ = ('var', 'trigs', 'inner')

    def __init__(self, var, trigs, inner): self.var, self.trigs, self.inner = var, trigs, inner

    def subst(self, pairs):
        if not pairs: return self
        return Nested(self.var, [z3.substitute(x, *pairs) for x in self.trigs], self.inner.subst(pairs))

    def outer(self): return ForAll(self.var, z3.BoolVal(True), self.trigs)

    def expand(self, ground):
        fa = self.outer()
        terms = {}
        for f in ground:
            for key, idx in ground_terms(f): terms.setdefault(key, {})[idx.get_id()] = idx
        done, out = set(), []
        for key, c in fa.triggers():
            for idx in terms.get(key, {}).values():
                if idx.sort() != self.var.sort(): continue
                t, tid, _, _ = shifted(idx, c)
                if tid in done: continue
                done.add(tid)
                k = (id(self), tid)
                if k not in _nest: _nest[k] = (self.inner.subst([(self.var, t)]), self)
                out.append(_nest[k][0])
        return out


_nest = {}


def split_nested(fs):
    """expand Nested facts over the ground terms (also those produced by one pass of instantiation)"""
    ne = [f for f in fs if isinstance(f, Nested)]
    if not ne: return fs
    rest = [f for f in fs if not isinstance(f, Nested)]
    g, q = split(rest)
    g2 = g + instantiate(g, q, rounds=2)
    for n in ne: rest = rest + n.expand(g2)
    return rest


_contains = {}


def contains(e, v):
    st = [e]
    seen = set()
    vid = v.get_id()
    while st:
        x = st.pop()
        i = x.get_id()
        if i in seen: continue
        seen.add(i)
        if i == vid: return True
        st.extend(x.children())
    return False


_roots = {}


def roots(a):
    i = a.get_id()
    r = _roots.get(i)
    if r is not None: return r[1]
    k = a.decl().kind()
    if k == z3.Z3_OP_STORE:
        out = roots(a.arg(0))
    elif k == z3.Z3_OP_ITE:
        out = roots(a.arg(1)) | roots(a.arg(2))
    elif k == z3.Z3_OP_SELECT:
        out = frozenset(('sel',) + tuple(x) for x in roots(a.arg(0)))
    else:
        out = frozenset([(a.decl().name(),)])
    _roots[i] = (a, out)
    return out


_nodes = {}     # ast id -> (ast kept alive, ids of the children, own terms ((key, index id), ...))
_idx = {}       # ast id -> index term


def node(e):
    """registers e and everything below it; ids are stable because the terms are kept alive"""
    i = e.get_id()
    if i in _nodes: return i
    st = [(e, i)]
    while st:
        x, xi = st.pop()
        if xi in _nodes: continue
        if not z3.is_app(x):
            _nodes[xi] = (x, (), ()); continue
        ch = x.children()
        cid = [y.get_id() for y in ch]
        d = x.decl()
        k = d.kind()
        own = ()
        if k == z3.Z3_OP_SELECT or k == z3.Z3_OP_STORE:
            idx = ch[1]
            _idx[cid[1]] = idx
            own = tuple((('s', r), cid[1]) for r in roots(ch[0]))
        elif k == z3.Z3_OP_UNINTERPRETED and ch:
            nm = d.name()
            own = tuple((('f', nm, n), cid[n]) for n in range(len(ch)))
            for n, y in enumerate(ch): _idx[cid[n]] = y
        _nodes[xi] = (x, tuple(cid), own)
        for y, yi in zip(ch, cid):
            if yi not in _nodes: st.append((y, yi))
    return i


def walk(e, seen):
    """own terms of the nodes of e not yet in seen"""
    st = [node(e)]
    out = []
    while st:
        i = st.pop()
        if i in seen: continue
        seen.add(i)
        _, cid, own = _nodes[i]
        if own: out += own
        st += cid
    return out


def ground_terms(e, var=None):
    """list of (key, idx): select terms ('s', root) and uninterpreted unary+ applications ('f', name, argpos)."""
    acc = dict.fromkeys(walk(e, set()))
    lst = [(k, _idx[i]) for k, i in acc]
    if var is None: return lst
    return [(k, v) for k, v in lst if contains(v, var)]


class Result:
    __slots__ = ('status', 'model', 'time', 'backend', 'ninst', 'cut')

    def __init__(self, status, model, t, backend, n):
        self.status, self.model, self.time, self.backend, self.ninst = status, model, t, backend, n
        self.cut = n > MAXINST


MAXINST = 800
STATS = {'queries': 0, 'time': 0.0, 'z3': 0, 'cvc5': 0, 'syntactic': 0, 'poly': 0}


_inst = {}
_sub = {}


def shifted(idx, c):
    """trigger argument solved for the quantified variable"""
    neg = isinstance(c, tuple)
    cc = c[1] if neg else c
    k = (idx.get_id(), cc.get_id(), neg)
    r = _sub.get(k)
    if r is None:
        t = z3.simplify(cc - idx) if neg else z3.simplify(idx - cc)
        r = _sub[k] = (t, t.get_id(), idx, cc)
    return r


def instance(fa, t, tid):
    k = (fa.body.get_id(), fa.var.get_id(), tid)
    r = _inst.get(k)
    if r is None: r = _inst[k] = (fa.inst(t), fa.body, fa.var, t)
    return r[0]


ROUNDS = 4
DEEP = 9


def instantiate(ground, foralls, rounds=4, extra=(), info=None):
    """returns additional ground formulas"""
    if info is not None: info['sat'] = True
    if not foralls: return []
    out = []
    done = set()
    terms = {}
    seen = set()

    def addterms(f):
        for key, i in walk(f, seen): terms.setdefault(key, {})[i] = True
    for f in ground: addterms(f)
    n = 0
    for r in range(rounds):
        newf = []
        for fi, fa in enumerate(foralls):
            srt = fa.var.sort()
            for key, c in fa.triggers():
                d = terms.get(key)
                if not d: continue
                for ii in list(d):
                    idx = _idx[ii]
                    if idx.sort() != srt: continue
                    t, tid, _, _ = shifted(idx, c)
                    k = (fi, tid)
                    if k in done: continue
                    done.add(k)
                    newf.append(instance(fa, t, tid))
                    n += 1
                    if n > MAXINST: break
        if not newf: break
        for f in newf:
            addterms(f)
        out += newf
        if n > MAXINST: break
    else:
        if info is not None: info['sat'] = False
    return out


_keep = []


def split(fs):
    g, q = [], []
    for f in fs:
        if isinstance(f, ForAll): q.append(f)
        elif isinstance(f, bool):
            if not f: g.append(z3.BoolVal(False))
        else: g.append(f)
    return g, q


def check(fs, timeout=5000, want_model=False, insts=True, extra=()):
    """satisfiability of the conjunction (ForAll facts instantiated)."""
    g, q = split(split_nested(fs))
    info = {'sat': True}
    inst = instantiate(g, q, ROUNDS, info=info) if (q and insts) else []
    s = z3.Solver()
    s.set('timeout', timeout)
    t = time.time()
    s.add(*g)
    s.add(*inst)
    r = s.check()
    if r == z3.sat and not info['sat'] and want_model:      # not saturated: more instances may refute the model
        inst = instantiate(g, q, DEEP)
        s.add(*inst)
        r = s.check()
    dt = time.time() - t
    STATS['queries'] += 1
    STATS['time'] += dt
    if r == z3.unsat: return Result('unsat', None, dt, 'z3', len(inst))
    if r == z3.sat: return Result('sat', s.model() if want_model else None, dt, 'z3', len(inst))
    return Result('unknown', None, dt, 'z3', len(inst))


def cvc5_check(fs, timeout=20000):
    g, q = split(split_nested(fs))
    inst = instantiate(g, q) if q else []
    s = z3.Solver()
    s.add(*g); s.add(*inst)
    txt = '(set-logic ALL)\n' + s.to_smt2()
    t = time.time()
    try:
        p = subprocess.run(['cvc5', '--lang', 'smt2', '--tlimit=%d' % timeout], input=txt, capture_output=True, text=True, timeout=timeout / 1000 + 5)
        o = p.stdout.strip().split('\n')[0] if p.stdout else 'unknown'
    except Exception:
        o = 'unknown'
    return Result(o if o in ('sat', 'unsat') else 'unknown', None, time.time() - t, 'cvc5', len(inst))


def neg(goal):
    """negation of a goal (formula | ForAll | list = conjunction), skolemised; returns z3 formula"""
    if isinstance(goal, ForAll):
        sk = z3.Const(fresh_name('sk'), goal.var.sort())
        return z3.Not(goal.inst(sk))
    if isinstance(goal, Nested):
        return neg(goal.inner.subst([(goal.var, z3.Const(fresh_name('sk'), goal.var.sort()))]))
    if isinstance(goal, (list, tuple)):
        ns = [neg(g) for g in goal]
        return z3.Or(*ns) if ns else z3.BoolVal(False)
    if isinstance(goal, bool): return z3.BoolVal(not goal)
    return z3.Not(goal)


def prove(facts, goal, timeout=10000, second=True, want_model=True):
    if isinstance(goal, bool) and goal: return Result('unsat', None, 0.0, 'syntactic', 0)
    ng = neg(goal)
    s = z3.simplify(ng)
    if z3.is_false(s):
        STATS['syntactic'] += 1
        return Result('unsat', None, 0.0, 'syntactic', 0)
    r = check(list(facts) + [ng], timeout, want_model)
    if r.status == 'unknown' and second:
        r2 = cvc5_check(list(facts) + [ng], timeout * 2)
        r2.time += r.time
        if r2.status == 'unsat':
            STATS['cvc5'] += 1
            return r2
        if r2.status == 'sat':
            r2.status = 'sat'
            return r2
        return r
    if r.status == 'unsat': STATS['z3'] += 1
    return r
