#!/usr/bin/env python3
"""trybugs.py [-p] [BUG[:CHECK,CHECK...]]...   run checks against planted bugs (applied to /repo, undone afterwards)
Default: every bug with the check of its property. Prints one line per pair. Nothing is registered in MANIFEST."""
import json, os, subprocess, sys, time
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def sh(*a,**k): return subprocess.run(a,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,errors='replace',**k)
todo=sys.argv[1:] or sorted(os.listdir(V+'/seeded'))
env=dict(os.environ,VERIF_SEED=os.environ.get('VERIF_SEED','1'))
assert not sh('git','-C','/repo','status','--porcelain').stdout.strip(), '/repo is not clean'
for t in todo:
    bug,_,ids=t.partition(':')
    d=V+'/seeded/'+bug
    ids=ids.split(',') if ids else [json.load(open(d+'/meta.json'))['property']]
    r=sh('git','-C','/repo','apply',d+'/patch.diff')
    if r.returncode: print(bug,'does not apply',r.stdout); continue
    try:
        for i in ids:
            t0=time.time()
            r=sh(V+'/run.sh',i,'quick',env=env)
            v=[l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
            s='CAUGHT' if r.returncode==1 and v else 'missed' if r.returncode==0 else 'ERROR %d'%r.returncode
            print('%-24s %-4s %-7s %4.0fs %s'%(bug,i,s,time.time()-t0,(v or r.stdout.splitlines()[-1:] or [''])[0][:110]),flush=True)
    finally:
        sh('git','-C','/repo','checkout','--','.')
