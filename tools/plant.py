#!/usr/bin/env python3
"""plant.py spec.py [ids...]: make patch/demo/meta under /verif/seeded, validate in copies, run the checks."""
import importlib.util, json, os, re, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
SEED='/verif/seeded'
PRE='''import os, sys, tempfile, shutil, atexit, io, contextlib, json
repo = os.getcwd()
sys.path.insert(0, repo)
os.environ["MPLBACKEND"] = "Agg"
tmp = tempfile.mkdtemp()
atexit.register(shutil.rmtree, tmp, True)
os.chdir(tmp)
import logic.sim as sim


def make(**kw):

    d = dict(n=20, k=4, a0=0.3, seed=1, max_iterations=40, cost_min=1e-4, cost_max=1e-3, iterations_after_convergence=5,
             agent_activation_order="random", execution_id="x", generate_graphs=False, metrics=[1])
    d.update(kw)
    with contextlib.redirect_stdout(io.StringIO()):
        return sim.Simulation(**d)


def go(m, after=None):
    with contextlib.redirect_stdout(io.StringIO()):
        while m.running:
            m.step()
            if after:
                after(m)
    return m


def fail(*what):
    print("FAIL", *what, file=sys.stderr)
    sys.exit(1)


def check(ok, *what):
    if not ok:
        fail(*what)


'''
def sh(cmd, cwd=None, timeout=900, env=None):
    e=dict(os.environ); e.pop('VERIF_REPO',None); e.update(env or {})
    try:
        p=subprocess.run(cmd,shell=True,cwd=cwd,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,timeout=timeout,env=e)
        return p.returncode,p.stdout
    except subprocess.TimeoutExpired as x:
        return 124,'timeout'
def one(b, checks):
    bid=b['id']; d=os.path.join(SEED,bid); c='/tmp/plant/c-'+bid
    shutil.rmtree(c,ignore_errors=True); sh('cp -a /repo '+c)
    out={'id':bid}
    for f,old,new in b['edits']:
        p=os.path.join(c,f); s=open(p,newline='').read()
        crlf='\r\n' in s
        if crlf: old=old.replace('\n','\r\n'); new=new.replace('\n','\r\n')
        if s.count(old)!=1: return dict(out,error='old text occurs %d times in %s: %r'%(s.count(old),f,old[:60]))
        open(p,'w',newline='').write(s.replace(old,new))
    rc,diff=sh('git diff --binary',cwd=c)
    # lines removed must be original ones
    bad=[]
    for f in {e[0] for e in b['edits']}:
        rc,bl=sh('git blame -s HEAD -- '+f,cwd=c); rc,dd=sh('git diff -U0 -- '+f,cwd=c)
        blame=[l.split()[0].lstrip('^') for l in bl.splitlines()]
        for m in re.finditer(r'^@@ -(\d+)(?:,(\d+))?',dd,re.M):
            a,n=int(m[1]),int(m[2] or 1)
            ls=range(a,a+n) if n else [a]
            if not any('25186ea'.startswith(blame[i-1][:7]) or blame[i-1].startswith('25186ea') for i in ls): bad.append((f,a))
    out['nonorig']=bad
    os.makedirs(d,exist_ok=True)
    open(d+'/patch.diff','wb').write(subprocess.run(['git','diff','--binary'],cwd=c,stdout=subprocess.PIPE).stdout)
    if 'demo' in b:
        open(d+'/demo.py','w').write(PRE+b['demo'])
        open(d+'/demo.sh','w').write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        os.chmod(d+'/demo.sh',0o755)
    json.dump({'property':b['property'],'needs':b['needs'],'what_it_breaks':b['breaks']},open(d+'/meta.json','w'),indent=1)
    rc,o=sh('bash %s/demo.sh'%d,cwd='/tmp/plant/clean',timeout=300); out['demo_clean']=rc
    if rc: out['demo_clean_out']=o[-600:]
    rc,o=sh('bash %s/demo.sh'%d,cwd=c,timeout=300); out['demo_patched']=rc; out['demo_patched_out']=o[-200:]
    if 'test' in checks:
        t=open('/opt/vp/test.sh').read().replace('/repo',c); open(c+'.test.sh','w').write(t)
        bs=open('/opt/vp/build.sh').read().replace('/repo',c); open(c+'.build.sh','w').write(bs)
        rc,o=sh('bash %s.build.sh'%c); out['build']=rc
        if rc: out['build_out']=o[-500:]
        rc,o=sh('bash %s.test.sh %s.json'%(c,c)); 
        stable=set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
        res=json.load(open(c+'.json'))
        passed=set(res.get('passed',[])) if isinstance(res.get('passed'),list) else {k for k,v in res.get('tests',res).items() if v in('passed','pass',True)}
        out['tests_lost']=sorted(stable-passed)
        for x in ('.test.sh','.build.sh','.json'): os.remove(c+x)
    return out
def main():
    spec=importlib.util.spec_from_file_location('spec',sys.argv[1]); m=importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
    args=sys.argv[2:]; flags={a for a in args if a in('test','check','keep')}; ids=[a for a in args if a not in flags]
    bugs=[b for b in m.BUGS if not ids or b['id'] in ids]
    shutil.rmtree('/tmp/plant/clean',ignore_errors=True); sh('cp -a /repo /tmp/plant/clean')
    with ThreadPoolExecutor(6) as ex: outs=list(ex.map(lambda b: one(b,flags),bugs))
    for b,o in zip(bugs,outs):
        if 'check' in flags and 'error' not in o:
            rc,t=sh('/opt/venv/bin/python lib/check.py '+b['property'],cwd='/verif',env={'VERIF_REPO':'/tmp/plant/c-'+b['id'],'VERIF_SEED':'1'})
            o['check']=rc; o['check_out']=[l[:250] for l in t.splitlines() if 'VIOLATION' in l or 'INCONCL' in l or l.startswith('  ')][:2]
            o['time']=t.strip().splitlines()[-1][-8:] if t.strip() else ''
        ok=o.get('demo_clean')==0 and o.get('demo_patched') not in (0,None) and not o.get('tests_lost') and not o.get('nonorig')
        print(o['id'], 'OK' if ok else 'BAD', 'caught' if o.get('check')==1 else o.get('check'), o.get('time',''), (o.get('check_out') or ['',''])[-1][:110], '| demo:', o.get('demo_patched_out','').strip()[-100:].replace(chr(10),' '), flush=True)
        if not ok or o.get('check') not in (1,None): print('    ', json.dumps({k:v for k,v in o.items() if k not in('check_out','demo_patched_out')}), flush=True)
        if 'keep' not in flags: shutil.rmtree('/tmp/plant/c-'+b['id'],ignore_errors=True)
main()
