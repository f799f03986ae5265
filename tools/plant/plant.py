#!/usr/bin/env python3
"""Writes /verif/seeded/<id>/ from the definitions in bugs*.py, and evaluates them.

plant.py make [ID...]    confirm in a scratch copy and write /verif/seeded/ID
plant.py check [ID...]   run the property's check against a scratch copy with the bug
"""
import sys, os, subprocess, json, shutil, tempfile, glob, importlib.util, concurrent.futures as cf
HERE=os.path.dirname(os.path.abspath(__file__))
VERIF=os.path.dirname(os.path.dirname(HERE))
SEEDED=VERIF+'/seeded'
def load():
    bugs={}
    for f in sorted(glob.glob(HERE+'/bugs*.py')):
        spec=importlib.util.spec_from_file_location('b',f); m=importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
        for b in m.BUGS:
            assert b['id'] not in bugs, b['id']
            bugs[b['id']]=b
    return bugs
def sh(cmd,cwd,timeout=900,env=None):
    p=subprocess.run(cmd,shell=isinstance(cmd,str),cwd=cwd,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,timeout=timeout,env=env,text=True,errors='replace')
    return p.returncode,p.stdout
def scratch():
    d=tempfile.mkdtemp(prefix='plant-'); r=d+'/repo'
    subprocess.check_call(['cp','-a',os.environ.get('PLANT_REPO','/repo'),r]); return d,r
ENV=dict(os.environ,GOPROXY='off',GOFLAGS='-mod=mod',GOTOOLCHAIN='local')
def make(b):
    d,r=scratch(); log=[]
    try:
        out=SEEDED+'/'+b['id']; stage=d+'/demo'; os.makedirs(stage)
        shutil.copy(HERE+'/lib.sh',stage+'/lib.sh')
        open(stage+'/demo.sh','w').write('#!/bin/bash\n. "$(dirname "$0")/lib.sh"\n'+b['demo'].strip()+'\necho PASS\n')
        os.chmod(stage+'/demo.sh',0o755)
        c,o=sh('go build -o git-who .',r,env=ENV); assert c==0,o
        c,o=sh(['bash',stage+'/demo.sh'],r,300)
        if c!=0: return b['id'],'demo fails on the unchanged tree:\n'+o
        blame={}
        for f,old,new in b['edits']:
            p=r+'/'+f; s=open(p).read()
            if s.count(old)!=1: return b['id'],f'{f}: {s.count(old)} matches of {old!r}'
            open(p,'w').write(s.replace(old,new))
        c,o=sh('gofmt -l .',r); 
        if o.strip(): log.append('gofmt: '+o.strip())
        c,o=sh('go build ./... && go vet ./... ; go build -o git-who .',r,env=ENV)
        if c!=0: return b['id'],'does not build:\n'+o
        c,diff=sh('git diff',r)
        # which original lines does it change?
        c,plain=sh('git diff -U0',r); orig=0; mine=0; cur=None
        import re
        for l in plain.split('\n'):
            if l.startswith('--- a/'): cur=l[6:]
            m=re.match(r'@@ -(\d+)(?:,(\d+))? ',l)
            if m:
                n=int(m.group(2) or 1); a=int(m.group(1))
                if n:
                    _,bl=sh(f'git blame -s -L {a},{a+n-1} HEAD -- {cur}',r)
                    for x in bl.strip().split('\n'):
                        if x.startswith('^'): orig+=1
                        else: mine+=1
        c,o=sh('go test -vet=off -count=1 ./internal/...',r,env=ENV)
        if c!=0: return b['id'],'tests fail:\n'+'\n'.join(x for x in o.split('\n') if 'FAIL' in x or '_test.go' in x)[:1500]
        c,o=sh(['bash',stage+'/demo.sh'],r,300)
        if c==0: return b['id'],'demo passes with the bug:\n'+o
        shutil.rmtree(out,ignore_errors=True); os.makedirs(out)
        shutil.copy(stage+'/demo.sh',out); shutil.copy(stage+'/lib.sh',out)
        open(out+'/patch.diff','w').write(diff)
        json.dump({'property':b['property'],'needs':b['needs'],'what_it_breaks':b['breaks']},open(out+'/meta.json','w'),indent=1)
        w=f' !! changes {mine} of my lines, {orig} original' if mine else (' !! no original line removed' if not orig else '')
        return b['id'],'ok'+w+(' '+' '.join(log) if log else '')+'   ['+o.strip().split('\n')[-1][:100]+']'
    except Exception as e:
        return b['id'],'exception '+repr(e)
    finally:
        subprocess.call(['rm','-rf',d])
def record(i,res,v):
    f=HERE+'/results.json'
    d=json.load(open(f)) if os.path.exists(f) else {}
    m=__import__('re').search(r'-(H_\w+?)-\d+\.json',v)
    d[i]={'result':res}
    if m: d[i]['harness']=m[1]
    json.dump(dict(sorted(d.items())),open(f,'w'),indent=0)
def check(b,extra=()):
    d,r=scratch()
    try:
        c,o=sh(['git','apply',SEEDED+'/'+b['id']+'/patch.diff'],r); assert c==0,o
        props=[b['property']]
        import time; t=time.time()
        c,o=sh([VERIF+'/check.sh',b['property'],'-repo',r,'-verif',VERIF,*extra],VERIF,1000)
        v=[l for l in o.split('\n') if l.startswith('VIOLATION')]
        res='CAUGHT' if c==1 and v else ('missed' if c==0 else f'EXIT {c}')
        if not extra: record(b['id'],res,v[0] if v else '')
        return b['id'],b['property'],res,f'{time.time()-t:.0f}s',(v[0] if v else o.strip()[-300:])
    finally:
        subprocess.call(['rm','-rf',d])
if __name__=='__main__':
    bugs=load(); ids=sys.argv[2:]
    sel=[bugs[i] for i in ids] if ids else list(bugs.values())
    if sys.argv[1]=='make':
        if not ids: sel=[b for b in sel if not os.path.exists(SEEDED+'/'+b['id'])]
        with cf.ThreadPoolExecutor(4) as ex:
            for r in ex.map(make,sel): print(*r,flush=True)
    else:
        with cf.ThreadPoolExecutor(1) as ex:
            for r in ex.map(check,[b for b in sel if os.path.exists(SEEDED+'/'+b['id'])]): print(*r,flush=True)
