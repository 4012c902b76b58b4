"""plant tool: python tool.py make ID... | verify ID... | catch ID..."""
import json, os, re, shutil, subprocess, sys, textwrap
SEEDED='/verif/seeded'
sys.path.insert(0,'/tmp/plant')
def defs():
    d={}
    import glob
    for f in sorted(glob.glob('/tmp/plant/defs*.py')):
        ns={}
        exec(open(f).read(),ns)
        for x in ns['DEFS']:
            assert x['id'] not in d, x['id']
            d[x['id']]=x
    return d
def sh(cmd,**kw):
    return subprocess.run(cmd,shell=isinstance(cmd,str),stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,**kw)
def copy(tag):
    d='/tmp/plant/w/'+tag
    shutil.rmtree(d,ignore_errors=True)
    os.makedirs('/tmp/plant/w',exist_ok=True)
    sh(['cp','-a','/repo',d])
    return d
def make(x):
    d=copy('make-'+x['id'])
    for f,old,new in x['edits']:
        p=os.path.join(d,f); s=open(p).read()
        assert s.count(old)==1,(x['id'],f,s.count(old),old)
        open(p,'w').write(s.replace(old,new))
    diff=sh(['git','-C',d,'diff']).stdout
    assert diff
    # removed lines must be original
    base='6264189'
    nminus=0
    cur=None
    for line in diff.split('\n'):
        if line.startswith('--- a/'):
            cur=line[6:]
            bl=sh(['git','-C','/repo','blame','-l','-s','HEAD','--',cur]).stdout.split('\n')
        m=re.match(r'@@ -(\d+)',line)
        if m: n=int(m.group(1)); continue
        if cur and line.startswith('-') and not line.startswith('---'):
            b=bl[n-1].lstrip('^')
            if line[1:].strip():
              nminus+=1
              if not b.startswith(base[:7]): print('NOT ORIGINAL',x['id'],line)
            n+=1
        elif cur and line.startswith(' '): n+=1
    if not nminus: print('NO REMOVED LINE',x['id'])
    o=os.path.join(SEEDED,x['id']); os.makedirs(o,exist_ok=True)
    open(o+'/patch.diff','w').write(diff)
    open(o+'/demo.sh','w').write('#!/bin/bash\n# cwd: the repository\nexport PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1\nexec timeout 250 /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    os.chmod(o+'/demo.sh',0o755)
    open(o+'/demo.py','w').write(textwrap.dedent(x['demo']).lstrip('\n'))
    json.dump({'property':x['prop'],'needs':x['needs'],'what_it_breaks':x['what']},open(o+'/meta.json','w'),indent=1)
    shutil.rmtree(d)
def verify(i):
    d=copy('v-'+i); o=os.path.join(SEEDED,i)
    t='/tmp/plant/w/demo-'+i; shutil.rmtree(t,ignore_errors=True); shutil.copytree(o,t); 
    for f in ('patch.diff','meta.json'): os.unlink(t+'/'+f)
    clean=sh(['bash',t+'/demo.sh'],cwd=d)
    ap=sh(['git','-C',d,'apply',o+'/patch.diff'])
    build=sh("sed 's#/repo#%s#g' /opt/vp/build.sh | bash"%d)
    pat=sh(['bash',t+'/demo.sh'],cwd=d)
    out='/tmp/plant/w/out-%s.json'%i
    tst=sh("sed 's#/repo#%s#g' /opt/vp/test.sh > /tmp/plant/w/test-%s.sh; bash /tmp/plant/w/test-%s.sh %s"%(d,i,i,out))
    base=json.load(open('/opt/vp/BASELINE.json')); res=json.load(open(out))
    def passed(r):
        for k in ('passed','stable','pass'):
            if k in r: return set(r[k])
        raise SystemExit(str(r.keys()))
    miss=passed(base)-passed(res)
    ok=clean.returncode==0 and ap.returncode==0 and build.returncode==0 and pat.returncode!=0 and not miss
    print(i,'OK' if ok else 'BAD','clean',clean.returncode,'patched',pat.returncode,'build',build.returncode,ap.stdout,'missing',sorted(miss)[:4],flush=True)
    if clean.returncode: print(clean.stdout[-1500:])
    if ok: print('   ',pat.stdout.strip().split('\n')[-1][:150])
    for p in (d,t): shutil.rmtree(p)
    return ok
def catch(i,props=None,tier='quick',seed='1'):
    o=os.path.join(SEEDED,i); prop=json.load(open(o+'/meta.json'))['property']
    d=copy('c-'+i)
    sh(['git','-C',d,'apply',o+'/patch.diff'])
    got={}
    for p in props or [prop]:
        r=sh(['/opt/venv/bin/python','/verif/run.py',p,'--tier',tier,'--seed',seed],env=dict(os.environ,BPV_REPO=d))
        got[p]=r.returncode
        if p==prop or r.returncode not in (0,1):
            print(i,p,'CAUGHT' if r.returncode==1 else 'MISSED' if r.returncode==0 else 'ERROR', '|', ' / '.join(r.stdout.strip().split('\n'))[:260],flush=True)
    shutil.rmtree(d)
    if props and len(props)>1: print(i,'caught by',[p for p in got if got[p]==1],'errors',[p for p in got if got[p] not in (0,1)],flush=True)
if __name__=='__main__':
    cmd,args=sys.argv[1],sys.argv[2:]
    D=defs()
    if cmd=='make':
        for i in args or [k for k in D if not os.path.exists(SEEDED+'/'+k) and k not in open('/verif/tools/plants/rejected.txt').read().split()]: make(D[i]); print('made',i)
    elif cmd=='verify':
        from concurrent.futures import ThreadPoolExecutor
        with ThreadPoolExecutor(8) as ex: list(ex.map(verify,args))
    elif cmd=='catch':
        for i in args: catch(i)
    elif cmd=='catchall':
        for i in args: catch(i,['C%02d'%k for k in range(1,26)])
