#!/usr/bin/env python3
"""savecorpus.py VH [ID...]: copies shrunk failing cases from /verif/replays (made against defective trees) into
/verif/corpus, where every check runs them first. Only small cases that pass on the current tree (VH is a harness
built against it) are kept, at most 3 per class of failure."""
import sys,os,json,glob,subprocess,collections
vh=sys.argv[1]; only=sys.argv[2:]
root=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for d in sorted(glob.glob(root+'/replays/*')):
    id=os.path.basename(d)
    if only and id not in only: continue
    out=f'{root}/corpus/{id}'
    have=collections.Counter()
    for f in glob.glob(out+'/*.json'): have[json.load(open(f)).get('class')]+=1
    for f in sorted(glob.glob(d+'/*.json'),key=os.path.getsize):
        r=json.load(open(f)); c=r.get('class')
        if have[c]>=3 or c in('race','nontermination','deadlock') or os.path.exists(out+'/'+os.path.basename(f)): continue
        if len(json.dumps(r['case']))>4000: continue
        p=subprocess.run([vh,'replay','-q',f],capture_output=True,timeout=300)
        if p.returncode!=0: print('still fails',f); continue
        os.makedirs(out,exist_ok=True)
        json.dump({'property':id,'class':c,'message':r['message'][:300],'case':r['case']},open(out+'/'+os.path.basename(f),'w'),indent=1)
        have[c]+=1
    print(id,sum(have.values()))
