#!/usr/bin/env python3
"""plant.py ID...: confirms planted bugs in scratch copies of /repo, and runs the property's check against each.
plant.py -c ID...: only runs the checks. Never touches /repo."""
import sys, os, json, subprocess, tempfile, shutil, re
from concurrent.futures import ThreadPoolExecutor
V=os.environ.get('PLANT_DIR','/verif')
BASE=subprocess.run(['git','-C','/repo','rev-list','--max-parents=0','HEAD'],capture_output=True,text=True).stdout.strip()
def sh(cmd,cwd=None,timeout=1200,env=None):
    e=dict(os.environ); e.update(env or {})
    return subprocess.run(['bash','-c',cmd],cwd=cwd,capture_output=True,text=True,timeout=timeout,env=e)
def orig_lines(W,patch):
    """lines changed that are not in the original repository"""
    base={}
    bad=[];n=0
    cur=None
    for l in open(patch):
        if l.startswith('--- a/'):
            cur=l[6:].strip()
            base[cur]=set(x.strip() for x in sh(f'git show {BASE}:{cur}',cwd='/repo').stdout.split('\n'))
        elif l.startswith('-') and not l.startswith('---'):
            n+=1
            if l[1:].strip() and l[1:].strip() not in base[cur]: bad.append(l.rstrip())
    return n,bad
def one(i,only):
    d=f'{V}/seeded/{i}'
    out=[i]
    meta=json.load(open(d+'/meta.json'))
    W=tempfile.mkdtemp(prefix='plant.',dir='/tmp')
    try:
        shutil.rmtree(W); sh(f'git clone -q /repo {W}')
        D=W+'.demo'; shutil.copytree(d,D)
        for f in os.listdir(D):
            if f.endswith(('.diff','.patch')) or f=='meta.json': os.remove(D+'/'+f)
        if not only:
            r=sh(f'bash {D}/demo.sh',cwd=W)
            if r.returncode!=0: out.append('DEMO FAILS UNPATCHED '+r.stdout[-800:]+r.stderr[-800:])
        r=sh(f'git apply {d}/patch.diff',cwd=W)
        if r.returncode!=0: out.append('PATCH DOES NOT APPLY '+r.stderr); return out
        n,bad=orig_lines(W,d+'/patch.diff')
        if bad or n==0: out.append(f'lines not original (of {n}): {bad}')
        if not only:
            r=sh('. /opt/vp/env.sh; go build ./...',cwd=W)
            if r.returncode!=0: out.append('BUILD FAILS '+r.stderr[-800:]); return out
            r=sh(f"sed 's#/repo#{W}#g' /opt/vp/test.sh > {D}/t.sh; bash {D}/t.sh {D}/out.json")
            b=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open(D+'/out.json'))
            bs=b.get('stable_pass') or b.get('passed') or b.get('stable') or b.get('tests')
            ps=set(t.get('passed') or [])
            miss=[x for x in bs if x not in ps]
            if miss: out.append(f'TESTS FAIL {miss}')
            r=sh(f'bash {D}/demo.sh',cwd=W)
            if r.returncode==0: out.append('DEMO PASSES PATCHED')
            else: out.append('demo ok: '+(r.stdout+r.stderr)[-200:].replace('\n',' | '))
        p=meta['property']
        race='-race' if p in ('C15','C22') else ''
        os.makedirs(D+'/mod'); sh(f"sed 's#=> /repo#=> {W}#' {V}/harness/go.mod > {D}/mod/go.mod; cp {V}/harness/go.sum {D}/mod/go.sum")
        r=sh(f'. /opt/vp/env.sh; cd {V}/harness && go build {race} -modfile {D}/mod/go.mod -tags verif -o {D}/vh . && cd {W} && go build -o {D}/kanils ./cmd/kanils && go build -o {D}/readup ./cmd/readup')
        if r.returncode!=0: out.append('HARNESS BUILD '+r.stderr[-800:]); return out
        for p in [p]+meta.get('also',[]):
            r=sh(f'{D}/vh check -prop {p} -noevidence',env={'VERIF_BIN':D,'VERIF_DIR':V,'VERIF_SEED':os.environ.get('VERIF_SEED','1')})
            v=[l for l in r.stdout.split('\n') if l.startswith('VIOLATION')]
            out.append(f'{p}: '+('CAUGHT ' if r.returncode==1 and v else f'MISSED rc={r.returncode} ')+(r.stdout+r.stderr)[-250:].replace('\n',' | '))
    finally:
        shutil.rmtree(W,ignore_errors=True); shutil.rmtree(W+'.demo',ignore_errors=True)
    return out
args=sys.argv[1:]; only=False
if args and args[0]=='-c': only=True; args=args[1:]
if not args: args=sorted(os.listdir(V+'/seeded'))
jobs=int(os.environ.get('JOBS','1'))
with ThreadPoolExecutor(jobs) as ex:
    for o in ex.map(lambda i: one(i,only),args):
        print('== '+'\n   '.join(o),flush=True)
