"""Check driver: regenerate IR from /repo, discharge the obligations of every contract of one property, run the
property's replay harness on the real code, decide, write evidence."""
import sys, os, time, json, re, subprocess, tempfile, shutil, resource, signal, pickle, select, traceback, importlib, hashlib
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path[:0] = [HERE, os.path.join(VERIF, 'spec')]
import z3
import gen, smt
from gen import REPO
from symex import Engine, Unsupported, Undecided
from contract import CannotApply, IntK
import registry

JOBS = int(os.environ.get('VP_JOBS', '8'))


class Spec:
    """merged specification modules of a property"""

    def __init__(self, names):
        self.mods = []
        self.load(names)
        self.C, self.classes, self.sources, self.headers, self.globs = [], {}, [], [], {}
        self.hooks = {}
        for m in self.mods:
            self.C += m.C
            self.classes.update(getattr(m, 'CLASSES', {}))
            for s in getattr(m, 'SOURCES', []):
                if s not in self.sources: self.sources.append(s)
            for h in getattr(m, 'HEADERS', []):
                if h not in self.headers: self.headers.append(h)
            self.globs.update(getattr(m, 'GLOBOBJS', {}))
            for k, v in getattr(m, 'HOOKS', {}).items(): self.hooks[k] = self.hooks.get(k, []) + v if isinstance(v, list) else v

    def load(self, names):
        for n in names:
            m = importlib.import_module(n)
            if m in self.mods: continue
            self.load(getattr(m, 'REQUIRES', []))
            if m not in self.mods: self.mods.append(m)


class Tree:
    """the current /repo, extracted"""

    def __init__(self, spec, wd):
        self.spec = spec
        srcs = []
        for s in spec.sources:
            f = s if s.startswith('/') else os.path.join(REPO, s)
            if os.path.exists(f): srcs.append(s)
        t = time.time()
        self.ms = gen.modules(srcs, wd)
        self.sy = gen.symbols(self.ms)
        self.off = gen.offsets(spec.classes, wd, spec.headers)
        self.cons, self.missing = {}, []
        for c in spec.C:
            n = self.sy.get(c.sig)
            if n is None and '#' in c.sig: n = self.sy.get(c.sig.split('#')[0])
            if n is None: n = getattr(c, 'symbol', None)      # external function, contract assumed
            if n is None: self.missing.append(c.sig); continue
            c.name = n
            if getattr(c, 'assumed', None) and n in self.cons: continue
            self.cons[n] = c
        self.time = time.time() - t

    def engine(self, c):
        cons = self.cons
        if getattr(c, 'inline', None): cons = {n: x for n, x in cons.items() if x.sig not in c.inline}
        eng = Engine(self.ms, cons, mode=c.mode or 'int', fp=c.fp or 'real', offsets=self.off)
        eng.globobjs = self.spec.globs
        for k, v in self.spec.hooks.items(): setattr(eng, k, v)
        if c.timeout: eng.timeout = c.timeout
        eng.merging = getattr(c, 'merge', os.environ.get('VP_MERGE') != '0')
        return eng


def zval(m, x):
    try: v = m.eval(x, model_completion=True)
    except Exception: return None
    if z3.is_int_value(v): return v.as_long()
    if z3.is_bv_value(v): return v.as_signed_long()
    if z3.is_bool(v): return 1 if z3.is_true(v) else 0
    if z3.is_rational_value(v): return float(v.numerator_as_long()) / float(v.denominator_as_long())
    return None


def hints(eng, c, model):
    """values of the arguments in the verifier's counterexample, for the replay on the real code"""
    out = []
    cur = c.cur
    for p in c.allparams():
        if p.mode == 'out' or p.name not in cur.o._d: continue
        v = getattr(cur.o, p.name)
        if isinstance(v, z3.ExprRef):
            x = zval(model, v)
            if x is not None: out.append(('f' if isinstance(x, float) else 'i', p.name, [x]))
            continue
        arr = getattr(v, 'arr', None)
        if arr is not None:
            try: n = zval(model, p.kind.length(eng, v))
            except Exception: n = None
            if n is not None and 0 <= n <= 300:
                vals = [zval(model, z3.Select(arr, eng.A.idx(k) if eng.A.name == 'int' else z3.BitVecVal(k, 64))) for k in range(n)]
                if all(isinstance(x, int) for x in vals): out.append(('s', p.name, vals))
        for m, b in getattr(p.kind, 'scal', ()):
            x = zval(model, getattr(v, m)) if hasattr(v, m) else None
            if isinstance(x, int): out.append(('i', '%s.%s' % (p.name, m), [x]))
        for m, t in getattr(p.kind, 'fps', ()):
            x = zval(model, getattr(v, m)) if hasattr(v, m) else None
            if isinstance(x, (int, float)): out.append(('f', '%s.%s' % (p.name, m), [x]))
    return out


def prove_one(tree, c, alias, scale=1.0):
    eng = tree.engine(c)
    eng.deadline = time.time() + c.budget * scale
    t = time.time()
    r = dict(sig=c.sig, alias=alias, status='ok', detail='', obls=[], hints=[])
    smt.STATS.update({k: 0 for k in smt.STATS})
    try:
        c.verify(eng, alias)
    except (Unsupported, Undecided, CannotApply) as e:
        r['status'], r['detail'] = 'undecided', '%s: %s' % (type(e).__name__, e)
    except RecursionError: r['status'], r['detail'] = 'undecided', 'recursion'
    except z3.Z3Exception as e: r['status'], r['detail'] = 'undecided', 'z3: %s' % e
    except Exception as e:
        r['status'], r['detail'] = 'undecided', 'internal %r\n%s' % (e, traceback.format_exc()[-1500:])
    for o in eng.obls:
        r['obls'].append((o.kind, o.name, o.status, o.backend, o.time))
        if o.status == 'sat' and len(r['hints']) < 6:
            h = []
            if o.model is not None:
                try: h = hints(eng, c, o.model)
                except Exception: h = []
            r['hints'].append((o.kind + ': ' + o.name, h))
    r['time'] = time.time() - t
    r['solver'] = smt.STATS['time']
    r['queries'] = smt.STATS['queries']
    r['trusted'] = sorted(eng.trusted)
    r['notes'] = eng.notes[:5]
    r['loops'] = len(getattr(eng, 'loopinfo', []))
    r['inlined'] = sorted(getattr(eng, 'inlined_fns', []))
    return r


def run_jobs(tree, jobs, deadline):
    """fork one process per (contract, alias)"""
    jobs = sorted(jobs, key=lambda j: -getattr(j[0], 'cost', 1))
    res, live, todo = [], {}, list(jobs)
    while todo or live:
        while todo and len(live) < JOBS:
            c, al = todo.pop(0)
            rfd, wfd = os.pipe()
            pid = os.fork()
            if pid == 0:
                code = 0
                try:
                    os.close(rfd)
                    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
                    signal.signal(signal.SIGINT, signal.SIG_DFL)
                    try: r = prove_one(tree, c, al)
                    except BaseException as e: r = dict(sig=c.sig, alias=al, status='undecided', detail='%r' % e, obls=[], hints=[], time=0, solver=0, queries=0, trusted=[], notes=[], loops=0, inlined=[])
                    with os.fdopen(wfd, 'wb') as f: pickle.dump(r, f)
                except BaseException: code = 1
                os._exit(code)
            os.close(wfd)
            live[rfd] = (pid, c, al, time.time(), [])
        rs, _, _ = select.select(list(live), [], [], 0.5)
        now = time.time()
        for fd in list(live):
            pid, c, al, t0, buf = live[fd]
            end = False
            if fd in rs:
                d = os.read(fd, 1 << 20)
                if d: buf.append(d); continue
                end = True
            elif now - t0 > c.budget * 1.5 + 20 or now > deadline:
                os.kill(pid, signal.SIGKILL); end = True
            if end:
                os.close(fd); os.waitpid(pid, 0); del live[fd]
                try: res.append(pickle.loads(b''.join(buf)))
                except Exception: res.append(dict(sig=c.sig, alias=al, status='undecided', detail='time limit', obls=[], hints=[], time=now - t0, solver=0, queries=0, trusted=[], notes=[], loops=0, inlined=[]))
    return res


# ------------------------------------------------------------------ harness on the real code
SAN = ['-fsanitize=address,undefined', '-fno-sanitize=vptr,alignment,shift,signed-integer-overflow,float-cast-overflow,float-divide-by-zero', '-fno-sanitize-recover=all']


def build_harness(name, wd):
    import concurrent.futures
    flags = gen.FLAGS + ['-O1', '-g1', '-fno-omit-frame-pointer', '-pthread', '-include', 'PrecompiledCore.hpp', '-I' + os.path.join(VERIF, 'harness')] + SAN
    srcs = sorted(f for f in os.listdir(os.path.join(REPO, 'src/core')) if f.endswith('.cpp'))
    os.makedirs(wd, exist_ok=True)
    if not os.path.exists(os.path.join(wd, 'inc', 'zlib', 'zlib.h')):
        os.makedirs(os.path.join(wd, 'inc', 'zlib'), exist_ok=True)
        try: os.symlink('/usr/include/zlib.h', os.path.join(wd, 'inc', 'zlib', 'zlib.h'))
        except OSError: pass
    flags += ['-I' + os.path.join(wd, 'inc')]

    def cc(j):
        src, out = j
        p = subprocess.run(['clang++-18', '-c', src, '-o', out] + flags, capture_output=True, text=True)
        return p.returncode, p.stderr
    jobs = [(os.path.join(VERIF, 'harness', name), os.path.join(wd, 'h.o'))]
    jobs += [(os.path.join(REPO, 'src/core', f), os.path.join(wd, f + '.o')) for f in srcs]
    with concurrent.futures.ThreadPoolExecutor(JOBS) as ex: rs = list(ex.map(cc, jobs))
    if rs[0][0]: return None, 'harness does not compile against the current tree: ' + rs[0][1][-3000:]
    objs = [o for (s, o), r in zip(jobs, rs) if r[0] == 0]
    exe = os.path.join(wd, 'harness')
    p = subprocess.run(['clang++-18', '-o', exe] + objs + SAN + ['-pthread', '-ldl', '-lz'], capture_output=True, text=True)
    if p.returncode: return None, 'harness does not link: ' + p.stderr[-3000:]
    return exe, ''


def run_harness(exe, wd, seed, tier, hintfile, limit):
    env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=97:allocator_may_return_null=1:detect_stack_use_after_return=0:alloc_dealloc_mismatch=1', UBSAN_OPTIONS='print_stacktrace=1:exitcode=97',
               TZ='UTC', LC_ALL='C.UTF-8', VH_SEED=str(seed), VH_TIER=tier, VH_HINTS=hintfile or '', VH_LIMIT=str(limit), VH_DIR=wd, HOME=wd)
    sc = os.path.join(wd, 'scratch')
    os.makedirs(sc, exist_ok=True)
    t = time.time()
    try:
        p = subprocess.run([exe], capture_output=True, text=True, errors='replace', timeout=limit * 3 + 60, env=env, cwd=sc)
        rc, out, err = p.returncode, p.stdout, p.stderr
    except subprocess.TimeoutExpired as e:
        rc, out, err = 'timeout', (e.stdout or b'').decode('utf8', 'replace'), (e.stderr or b'').decode('utf8', 'replace')
    return dict(rc=rc, out=out[-200000:], err=err[-6000:], time=time.time() - t)


def known_findings(prop):
    out = []
    f = os.path.join(VERIF, 'known-findings.txt')
    if os.path.exists(f):
        for l in open(f):
            m = re.match(r'known: property=(\S+) key=(\S+) (.*)', l.strip())
            if m and m.group(1) == prop: out.append((m.group(2), m.group(3)))
    return out


def main(argv):
    prop = argv[0]
    tier = os.environ.get('VERIF_TIER') or 'quick'
    if '--thorough' in argv: tier = 'thorough'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    T0 = time.time()
    reg = registry.PROPS[prop]
    os.makedirs(os.path.join(VERIF, 'build'), exist_ok=True)
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    wd = tempfile.mkdtemp(prefix=prop + '-', dir=os.path.join(VERIF, 'build'))
    try: return check(prop, tier, seed, reg, wd, T0, argv)
    finally: shutil.rmtree(wd, ignore_errors=True)


def check(prop, tier, seed, reg, wd, T0, argv):
    import threading
    spec = Spec(reg['spec'])
    hb = {}

    def bh(): hb['r'] = build_harness(reg['harness'], os.path.join(wd, 'h'))
    pid = None
    results, extract_err, tree = [], '', None
    try:
        tree = Tree(spec, os.path.join(wd, 'ir'))
    except gen.GenError as e:
        extract_err = str(e)
    jobs = []
    if tree:
        for c in spec.C:
            if prop in (c.prop or []) and c.name and not c.assumed and c.sig not in tree.missing:
                jobs += [(c, None)] + [(c, a) for a in c.alias]
        limit = (700 if tier == 'quick' else 3000)
        results = run_jobs(tree, jobs, T0 + limit * 0.75)
    lem = []
    for m in spec.mods:
        for nm, hyp, goal in getattr(m, 'LEMMAS', []):
            t = time.time()
            st = smt.check(list(hyp) + [z3.Not(goal)], 20000).status
            lem.append((m.__name__ + ': ' + nm, st))
            r = dict(sig='lemma ' + nm, alias=None, status='ok', detail='', obls=[('lemma', nm, st, 'z3', time.time() - t)], hints=[], time=time.time() - t, solver=time.time() - t, queries=1, trusted=[], notes=[], loops=0, inlined=[])
            results.append(r)
    missing = [c.sig for c in spec.C if tree and c.sig in tree.missing and prop in (c.prop or [])]
    failed, undecided, nob, ndis, bk, stime, trusted, fnok = [], [], 0, 0, {}, 0.0, set(), []
    fnstat = {}
    for r in results:
        if '-v' in argv: print('  %-70s %s %s %d obl %.1fs %s' % (r['sig'], r['alias'] or '', r['status'], len(r['obls']), r['time'], r['detail'][:200]))
        nob += len(r['obls'])
        bad = []
        for k, n, s, b, t in r['obls']:
            if s == 'unsat': ndis += 1; bk[b] = bk.get(b, 0) + 1
            else: bad.append((k, n, s))
        stime += r['solver']
        trusted |= set(r['trusted'])
        sat = [b for b in bad if b[2] == 'sat']
        if sat and r['status'] == 'ok': failed.append((r, sat))
        elif sat:     # exploration stopped early: the failed obligations still stand
            failed.append((r, sat))
        elif bad or r['status'] != 'ok': undecided.append((r['sig'], r['alias'], r['detail'] or str(bad[:3]) or 'no obligations'))
        else: fnok.append(r)
        if '-v' in argv:
            for b in bad: print('       ', b)
    # hints
    hf = os.path.join(wd, 'hints.txt')
    with open(hf, 'w') as f:
        for r, sat in failed:
            for nm, h in r['hints']:
                for k, pn, vals in h: f.write('%s %s\n' % (k, ' '.join(str(v) for v in vals)))
    # bounded replay on the real code
    bh()
    exe, err = hb['r']
    lim = reg.get('limit', 20) * (1 if tier == 'quick' else 6)
    if (failed or undecided or missing) and tier == 'quick': lim *= 2
    hres = None
    hfail = None
    kf = known_findings(prop)
    kfseen = {}
    if exe:
        hres = run_harness(exe, wd, seed, tier, hf, lim)
        for m in re.finditer(r'^KNOWN (\S+) (.*)$', hres['out'], re.M): kfseen[m.group(1)] = m.group(2)
        fl = [m.group(0) for m in re.finditer(r'^FAIL .*$', hres['out'], re.M)]
        if fl: hfail = '\n'.join(fl[:20])
        elif hres['rc'] != 0:
            cs = re.findall(r'^LASTCASE .*$', hres['out'] + hres['err'], re.M)
            hfail = 'harness ended with %s\n%s\n%s' % (hres['rc'], '\n'.join(cs[-1:]), hres['err'][-4000:])
    stat = dict((m.group(1), int(m.group(2))) for m in re.finditer(r'^STAT (\S+) (\d+)$', hres['out'] if hres else '', re.M))
    samples = re.findall(r'^SAMPLE (.*)$', hres['out'] if hres else '', re.M)[:8]
    viol = []
    if hfail or failed:
        os.makedirs(os.path.join(VERIF, 'evidence', 'replay'), exist_ok=True)
        rp = os.path.join('evidence', 'replay', '%s.txt' % prop)
        with open(os.path.join(VERIF, rp), 'w') as f:
            f.write('property %s\n' % prop)
            for r, sat in failed:
                f.write('\nfailed obligation(s) of %s%s\n' % (r['sig'], ' with %s = %s' % r['alias'] if r['alias'] else ''))
                for b in sat: f.write('   [%s] %s : refuted\n' % (b[0], b[1]))
                for nm, h in r['hints']: f.write('   counterexample to "%s": %s\n' % (nm, '; '.join('%s=%s' % (pn, vals if k == 's' else vals[0]) for k, pn, vals in h)))
                if r['notes']: f.write('   notes: %s\n' % r['notes'])
            for u in undecided: f.write('undecided: %s\n' % (u,))
            f.write('\nreplay on the real code (harness/%s, seed %d, tier %s):\n%s\n' % (reg['harness'], seed, tier, hfail or 'no failing input found'))
        viol.append(rp)
    known = [(k, t) for k, t in kf]
    for k, t in known: print('KNOWN-FINDING: property=%s %s' % (prop, t))
    assumptions = sorted(trusted) + list(reg.get('assume', []))
    cov = dict(obligations=nob, discharged=ndis, checker_cmd='/verif/check %s (irv: LLVM-IR contract verifier, back ends z3 %s, cvc5)' % (prop, z3.get_version_string()),
               trusted_base=['clang-18 -O0 + opt sroa,simplifycfg,loop-simplify,lcssa (extraction of the verified text from /repo)', '/verif/irv (VC generator)', 'z3', 'cvc5 on unknown'] + sorted(trusted),
               functions_under_contract=sorted(set(r['sig'] for r in results if not r['sig'].startswith('lemma '))), functions_proved=sorted(set(r['sig'] for r in fnok if not r['sig'].startswith('lemma '))), lemmas=['%s: %s' % (a, 'proved' if b == 'unsat' else b) for a, b in lem], by_backend=bk, solver_time_s=round(stime, 2),
               undecided=[list(map(str, u)) for u in undecided], missing_functions=missing, extraction_error=extract_err[-500:],
               loops_with_inferred_invariants=sum(r['loops'] for r in results),
               assumed_contracts=[c.sig + ': ' + str(c.assumed) for c in spec.C if c.assumed],
               bounded_stand_in=dict(harness=reg['harness'], level='bounded (never counted as proved)', scope=reg.get('bounded', ''), evaluations=sum(v for k, v in stat.items() if k.startswith('cases')), counters=stat, seconds=round(hres['time'], 1) if hres else 0, build_error=err[-800:], samples=samples))
    ev = dict(property=prop, tier=tier, seed=seed, level=reg.get('level', 'proof'), coverage=cov, assumptions=assumptions, wall_s=round(time.time() - T0, 2), violations=len(viol))
    if ev['level'] == 'other': cov['explanation'] = reg.get('explanation', '')
    with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f: json.dump(ev, f, indent=1)
    print('%s: %d functions under contract, %d/%d obligations discharged (%s), %d undecided, harness %s, %.1fs' % (prop, len(set(r['sig'] for r in results if not r['sig'].startswith('lemma '))), ndis, nob, bk, len(undecided), ('rc=%s cases=%d' % (hres['rc'], cov['bounded_stand_in']['evaluations'])) if hres else 'not built', time.time() - T0))
    for u in undecided: print('  undecided: %s %s %s' % (u[0], u[1] or '', u[2][:300]))
    for m in missing: print('  not present in this tree: %s' % m)
    if err: print('  ' + err[:1500])
    if not viol and not exe and (undecided or missing or extract_err):
        print('no verdict: proof incomplete and the bounded stand-in could not be built')
        return 2
    if viol:
        for r, sat in failed:
            for b in sat[:4]: print('  failed obligation: %s%s [%s] %s' % (r['sig'], ' alias %s' % (r['alias'],) if r['alias'] else '', b[0], b[1]))
        if hfail: print('  failing input: ' + hfail[:1500])
        print('VIOLATION property=%s replay=%s%s' % (prop, viol[0], '' if hfail else ' no-failing-input-found'))
        return 1
    return 0


if __name__ == '__main__': sys.exit(main(sys.argv[1:]))
