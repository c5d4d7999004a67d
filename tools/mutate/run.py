"""Worker W of N over the mutants in argv[4]: those that compile and pass the stable tests are given to the checks.
usage: run.py W N HOURS MUTANTS.json RESULTS.jsonl [file,...]   (scratch copies under /tmp/mut)"""
import json,subprocess,os,sys,time,shutil,fcntl,pathlib,signal
w=int(sys.argv[1]); N=int(sys.argv[2]); deadline=time.time()+float(sys.argv[3])*3600
W=f'/tmp/mut/w{w}'; R=W+'/repo'; H=W+'/h'; V=W+'/root'; rp=sys.argv[5]
filt=sys.argv[6].split(',') if len(sys.argv)>6 else None
os.makedirs(W,exist_ok=True)
if not os.path.exists(R): subprocess.run(['cp','-a','/repo',R])
subprocess.run(['git','-C',R,'checkout','-q','--','.']); subprocess.run(['git','-C',R,'pull','-q','/repo'])
shutil.rmtree(H+'/src',ignore_errors=True); shutil.rmtree(H+'/py',ignore_errors=True)
os.makedirs(H,exist_ok=True); os.makedirs(V,exist_ok=True)
shutil.copytree('/verif/harness/src',H+'/src'); shutil.copytree('/verif/harness/py',H+'/py'); shutil.copy('/verif/harness/Cargo.lock',H)
open(H+'/Cargo.toml','w').write(open('/verif/harness/Cargo.toml').read().replace('"/repo/',f'"{R}/'))
shutil.copy('/verif/known-findings.json',V)
env0=dict(os.environ)
for k in ('RUSTUP_TOOLCHAIN','RUSTC_WRAPPER'): env0.pop(k,None)
out=subprocess.run(['bash','-c','. /opt/vp/env.sh; env -0'],capture_output=True,env=env0).stdout.decode()
envt=dict(x.split('=',1) for x in out.split('\0') if '=' in x)
envh=dict(env0); envh.update(HMMCL_GRACE='0',HMMCL_REPO=R,VERIF_ROOT=V,CARGO_TARGET_DIR=H+'/target',CARGO_NET_OFFLINE='true')
stable=set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
# quick looks; ZX and ZF are all pool monitors at once, shallow
CH={'decimal.rs':'C04 C03 C05 C06 C01 C02 C07 C09','cl_pool/':'C07 C09 C10 ZX C19','cl_pool_float':'C07 C09 C10 ZF','state/tick_bitmap':'C08 C25 C22','manage_fee':'C26','instructions':'C25 C22 C23 C24 C26','state/':'C25 C22','py':'C21'}
muts=json.load(open(sys.argv[4]))
def sh(cmd,cwd,env,to):
    try:
        p=subprocess.Popen(cmd,cwd=cwd,env=env,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,start_new_session=True)
        o,_=p.communicate(timeout=to); return p.returncode,o.decode(errors='replace')
    except subprocess.TimeoutExpired:
        os.killpg(p.pid,signal.SIGKILL); p.wait(); return 'to',''
def key(m): return f"{m['f']}:{m['i']}:{m['n'].strip()}"
done=set()
if os.path.exists(rp):
    for l in open(rp): done.add(json.loads(l)['key'])
for idx,m in enumerate(muts):
    if idx%N!=w or time.time()>deadline: continue
    if filt and not any(f in m['f'] for f in filt): continue
    if key(m) in done: continue
    f=pathlib.Path(R+'/programs/hmmcl-sandbox/src')/m['f']
    src=f.read_text(); L=src.split('\n')
    if L[m['i']]!=m['o']: continue
    L[m['i']]=m['n']
    if 'del' in m: L[m['del']]=''
    f.write_text('\n'.join(L))
    t=time.time(); res=''; by=''
    try:
        if m['f'].endswith('.py'):
            if subprocess.run(['python3','-B','-c','import ast,sys;ast.parse(open(sys.argv[1]).read())',str(f)],capture_output=True).returncode: res='nobuild'
        else:
            rc,o=sh(['cargo','test','--workspace','--no-run','--offline'],R,envt,300)
            if rc!=0: res='nobuild'
            else:
                rc,o=sh(['cargo','test','--workspace','--no-fail-fast','--offline','--','--test-threads','4'],R,envt,60)
                if rc=='to': res='tests'
                else:
                    open(W+'/t.log','w').write(o)
                    subprocess.run(['python3','/opt/vp/results.py',W+'/o.json','cargo:'+W+'/t.log'],capture_output=True)
                    p=set(json.load(open(W+'/o.json'))['passed'])
                    if stable-p: res='tests'
        if not res:
            rc,o=sh(['cargo','build','--release','--offline'],H,envh,600)
            if rc!=0: res='nobuild-h'
            else:
                res='SURVIVED'
                cs=next(v for k,v in CH.items() if k in m['f']).split()
                for c in cs:
                    rc,o=sh([H+'/target/release/hmmcl-mc','check',c,'quick'],W,envh,900)
                    if rc!=0:
                        res='caught' if rc==1 else f'rc{rc}'; by=c; break
    finally:
        f.write_text(src)
    with open(rp,'a') as g:
        fcntl.flock(g,fcntl.LOCK_EX)
        g.write(json.dumps({'key':key(m),'f':m['f'],'l':m['i']+1,'res':res,'by':by,'t':round(time.time()-t),'o':m['o'].strip(),'n':m['n'].strip()})+'\n')
