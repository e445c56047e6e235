"""plant.py ID: make the seed from /tmp/plant/seeds.py, confirm it, store under /verif/seeded/ID"""
import sys, os, subprocess, shutil, json
sys.path.insert(0,'/tmp/plant')
import importlib; S=importlib.import_module(os.environ.get('SEEDS','seeds'))
PRE='''import os, shutil, subprocess, sys, tempfile
TOOL = os.path.join(os.getcwd(), 'target/debug/ti-tools')
ROOT = tempfile.mkdtemp(prefix='demo')
def le(n): return bytes([n % 256, n // 256 % 256])
def xp(body=b'A', name=b'AB', comment=b'hi', ft=5, dest=0, pid=10, sig=b'**TI83F*', ver=0, blen=None):
    n = len(body) if blen is None else blen
    head = sig + b'\\x1a\\x0a' + bytes([pid]) + comment.ljust(42, b'\\0') + le(n + 19)
    meta = b'\\x0d\\0' + le(n + 2) + bytes([ft]) + name.ljust(8, b'\\0') + bytes([ver, dest]) + le(n + 2) + le(n)
    return head + meta + body + le(sum(meta + body))
def old(body=b'A', name=b'AB', comment=b'hi', ft=5, pid=0, sig=b'**TI83**'):
    n = len(body)
    head = sig + b'\\x1a\\x0a' + bytes([pid]) + comment.ljust(42, b'\\0') + le(n + 17)
    meta = b'\\x0b\\0' + le(n + 2) + bytes([ft]) + name.ljust(8, b'\\0') + le(n + 2) + le(n)
    return head + meta + body + le(sum(meta + body))
def text(body, name='AB', ft='Program', dest='RAM', mode='accessible', model='TI-84+'):
    return '\\n'.join([name, 'c', ft, dest, mode, model]) + '\\n' + body
def put(name, data):
    p = os.path.join(ROOT, name)
    os.makedirs(os.path.dirname(p), exist_ok=True)
    with open(p, 'wb') as f: f.write(data if isinstance(data, bytes) else data.encode())
def get(name):
    p = os.path.join(ROOT, name)
    return open(p, 'rb').read() if os.path.exists(p) else None
def run(*argv, answer='', **kw):
    r = subprocess.run([TOOL] + list(argv), cwd=ROOT, input=answer.encode(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=60, **kw)
    r.text = r.stdout.decode('utf-8', 'replace')
    return r
def check(ok, what):
    if not ok:
        print('FAILED:', what); sys.exit(1)
def body(name): return get(name)[74:-2]
try:
'''
POST='''finally:
    shutil.rmtree(ROOT)
print('fine')
'''
def sh(c,**k): return subprocess.run(c,shell=True,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,**k)
def main(i, verify=True):
    s=S.SEEDS[i]; d='/verif/seeded/'+i; W='/tmp/plant/repo'
    if not os.path.isdir(W):
        sh('cp -a /repo '+W)
    sh('git checkout -q -- .', cwd=W)
    for f,o,n in s['edits']:
        p=W+'/'+f; t=open(p).read(); k=t.count(o)
        assert k==1, (i,f,k,o)
        open(p,'w').write(t.replace(o,n))
    diff=sh('git diff',cwd=W).stdout
    os.makedirs('/tmp/plant/out/'+i,exist_ok=True)
    o='/tmp/plant/out/'+i
    open(o+'/patch.diff','w').write(diff)
    json.dump({'property':s['property'],'needs':s['needs'],'what_it_breaks':s['breaks']},open(o+'/meta.json','w'),indent=1)
    open(o+'/demo.py','w').write(PRE+''.join('    '+l+'\n' for l in s['demo'].strip('\n').split('\n'))+POST)
    open(o+'/demo.sh','w').write('#!/bin/bash\nexec python3 "$(dirname "$0")/demo.py"\n'); os.chmod(o+'/demo.sh',0o755)
    for f,_,_ in s['edits']:
        base=sh('git show edbf943:'+f,cwd=W).stdout.split('\n')
        mine=[l for l in sh('git diff -- '+f,cwd=W).stdout.split('\n') if l.startswith('-') and not l.startswith('---') and l[1:] not in base]
        if mine: print(i,'LINES NOT IN BASE',mine)
    env=dict(os.environ,CARGO_NET_OFFLINE='true',CARGO_INCREMENTAL='1',CARGO_PROFILE_DEV_DEBUG='line-tables-only',RUSTC_WRAPPER='',RUSTUP_TOOLCHAIN='stable',CARGO_TARGET_DIR=W+'/target')
    r=subprocess.run('cargo test --workspace --no-fail-fast --offline',shell=True,cwd=W,env=env,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True)
    if r.returncode: print(i,'TESTS FAIL',r.stdout[-3000:]); return False
    a=sh('bash %s/demo.sh'%o,cwd=W)
    sh('bash /opt/vp/build.sh') if not os.path.exists('/repo/target/debug/ti-tools') else None
    b=sh('bash %s/demo.sh'%o,cwd='/repo')
    print(i,'demo patched:',a.returncode,a.stdout.strip()[-200:],'| clean:',b.returncode,b.stdout.strip()[-300:])
    if a.returncode==0 or b.returncode!=0: return False
    return True
def check(i):
    s=S.SEEDS[i]; d='/verif/seeded/'+i; o='/tmp/plant/out/'+i
    shutil.rmtree(d,ignore_errors=True); shutil.copytree(o,d)
    assert not sh('git -C /repo status --porcelain').stdout
    r=sh('git -C /repo apply %s/patch.diff'%d); assert r.returncode==0, r.stdout
    try:
        out=[]
        for p in [s['property']]+s.get('also',[]):
            r=sh('python3 /verif/bin/check.py %s quick'%p)
            v=[l for l in r.stdout.split('\n') if l.startswith('VIOLATION')]
            out.append('%s rc=%d %d violation lines'%(p,r.returncode,len(v)))
            if r.returncode not in (0,1): out.append(r.stdout[-800:])
        print(i,'|'.join(out),flush=True)
    finally:
        sh('git -C /repo checkout -- .')
if __name__=='__main__':
    ids=sys.argv[2:] or list(S.SEEDS)
    for i in ids:
        if sys.argv[1] in ('make','both'):
            ok=main(i)
            if not ok: continue
        if sys.argv[1] in ('check','both'): check(i)
