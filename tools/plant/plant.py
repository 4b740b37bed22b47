#!/usr/bin/env python3
"""plant.py BATCH.py [ID..]: turn the bug descriptions of a batch into /verif/seeded/<id>/ after confirming
each of them in a scratch copy of /repo: it builds, passes the stable tests, its demo passes without and fails with it."""
import json,os,shutil,subprocess,sys
HERE=os.path.dirname(os.path.abspath(__file__)); SEED=os.path.join(os.path.dirname(os.path.dirname(HERE)),'seeded')
W='/tmp/plant'; R=W+'/repo'
ENV=dict(os.environ,PATH='/root/.cargo/bin:/usr/local/cargo/bin:'+os.environ['PATH'],RUSTUP_TOOLCHAIN='nightly-x86_64-unknown-linux-gnu',CARGO_NET_OFFLINE='true',CARGO_INCREMENTAL='1',CARGO_PROFILE_DEV_DEBUG='line-tables-only',CARGO_TERM_COLOR='never',RUSTC_WRAPPER='')
def sh(c,cwd=R,**k): return subprocess.run(c,shell=True,cwd=cwd,env=ENV,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,**k)
def tests():
    b=sh('cargo test --workspace --all-targets --no-run --offline')
    if b.returncode: return 'BUILD '+b.stdout[-1500:]
    t=sh('timeout 600 cargo test --workspace --no-fail-fast --offline -- --test-threads 8')
    open(W+'/log','w').write(t.stdout)
    sh('python3 /opt/vp/results.py %s/o.json cargo:%s/log'%(W,W))
    st=json.load(open('/opt/vp/BASELINE.json'))['stable']; o=json.load(open(W+'/o.json'))
    ps=set(o[[k for k in o if 'pass' in k][0]]); miss=[t for t in st if t not in ps]
    return 'TESTS '+str(miss) if miss else ''
def main():
    ns={}; exec(open(sys.argv[1]).read(),ns); only=sys.argv[2:]
    os.makedirs(W,exist_ok=True)
    if not os.path.exists(R): subprocess.run(['git','clone','-q','/repo',R],check=True); shutil.copytree('/repo/target',R+'/target',dirs_exist_ok=True)
    sh('git fetch -q && git reset -q --hard origin/HEAD')
    for b in ns['BUGS']:
        if 'session' in b:
            b['files']={n:open(HERE+'/'+n).read() for n in ('demopty.sh','demopty.py')}; b['files']['demo.sh']=b['files'].pop('demopty.sh'); b['files']['session.json']=json.dumps(b['session'],indent=1,ensure_ascii=False)+'\n'
        if only and b['id'] not in only: continue
        sh('git checkout -q -- .')
        d=os.path.join(SEED,b['id']); tmp=W+'/d'; shutil.rmtree(tmp,ignore_errors=True); os.makedirs(tmp)
        for f,x in b.get('files',{}).items(): open(tmp+'/'+f,'wb').write(x if isinstance(x,bytes) else x.encode())
        if 'cases' in b:
            shutil.copy(HERE+'/demo.rs',tmp); 'demo.sh' in b.get('files',{}) or shutil.copy(HERE+'/demo.sh',tmp); open(tmp+'/cases.txt','w').write(b['cases'].strip('\n')+'\n')
            r=sh('bash %s/demo.sh record'%tmp); open(tmp+'/cases.txt','w').write(r.stdout)
            print(r.stdout)
        r=sh('bash %s/demo.sh'%tmp)
        if r.returncode: print('!!',b['id'],'demo fails on the clean tree',r.stdout); continue
        ok=True
        for f,o,n in b['edits']:
            s=open(R+'/'+f).read()
            if s.count(o)!=1: print('!!',b['id'],'text found',s.count(o),'times in',f,repr(o)); ok=False; break
            open(R+'/'+f,'w').write(s.replace(o,n))
        if not ok: continue
        t=tests()
        if t: print('!!',b['id'],t); continue
        r=sh('bash %s/demo.sh'%tmp)
        if r.returncode in (0,2): print('!!',b['id'],'demo does not notice',r.stdout); continue
        for f in {e[0] for e in b['edits']}:
            for h in __import__('re').findall(r'^@@ -(\d+)(?:,(\d+))?',sh('git diff -U0 '+f).stdout,8):
                n=int(h[1] or 1)
                if n and 'OWN' in ''.join('' if l.lstrip('^').startswith('1c26d77') else 'OWN' for l in sh('git blame -s -L%s,+%d HEAD -- %s'%(h[0],n,f)).stdout.splitlines()): print('?? changes own lines',f,h)
        open(tmp+'/patch.diff','w').write(sh('git diff').stdout)
        json.dump({'property':b['property'],'needs':b['needs'],'what_it_breaks':b['breaks']},open(tmp+'/meta.json','w'),indent=1)
        shutil.rmtree(d,ignore_errors=True); shutil.copytree(tmp,d)
        print('ok',b['id'],r.stdout[:300])
    sh('git checkout -q -- .')
main()
