import sys,time; sys.path.insert(0,'/verif/irv'); sys.path.insert(0,'/verif/spec')
import os; os.environ.setdefault('VP_JOBS','8')
import driver, tempfile, shutil
mods=sys.argv[1].split(','); pat=sys.argv[2] if len(sys.argv)>2 else ''
spec=driver.Spec(mods); wd=tempfile.mkdtemp(prefix='drv')
tree=driver.Tree(spec,wd)
print('missing',tree.missing)
mine=[c for m in spec.mods if m.__name__ in mods for c in m.C]
jobs=[(c,a) for c in mine if pat in c.sig and c.name and not c.assumed and c.sig not in tree.missing for a in [None]+list(c.alias)]
t=time.time()
for r in driver.run_jobs(tree,jobs,time.time()+3000):
    print('%-60s %s %s obl %d ok %d %.1fs %s'%(r['sig'],r['alias'] or '',r['status'],len(r['obls']),sum(o[2]=='unsat' for o in r['obls']),r['time'],r['detail'] if '-v' in sys.argv else r['detail'][:150]), r['notes'][:2])
    for o in r['obls']:
        if o[2]!='unsat': print('    ',o)
    if '-m' in sys.argv:
        for h in r['hints']: print('   cex',str(h)[:400])
print('%.1f'%(time.time()-t)); shutil.rmtree(wd)
