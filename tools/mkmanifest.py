#!/usr/bin/env python3
"""Regenerates MANIFEST.json from properties.jsonl and the list of implemented checks."""
import json, subprocess
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
NOTES=json.load(open('/verif/tools/notes.json'))
hooks=subprocess.run(['git','-C','/repo','log','--format=%H %s'],capture_output=True,text=True).stdout.splitlines()
hooks=[l.split()[0] for l in hooks if ' hooks:' in l]
checks=[];na=[]
for p in props:
    n=NOTES.get(p['id'])
    if not n:
        na.append({'property':p['id'],'reason':'the check is not built yet'}); continue
    checks.append({'property':p['id'],'quick_cmd':f"bin/check {p['id']}",'thorough_cmd':f"bin/check {p['id']} thorough",
      'evidence_file':f"evidence/{p['id']}.json",'technique':n['technique'],'level':n.get('level','exploration'),'level_note':n['note']})
m={'version':1,'setup_cmd':'bin/setup','hooks':{'guard':'verif (Go build tag)','enable':'go build -tags verif','source_commits':hooks},
 'checks':checks,'not_applicable':na,
 'notes':'Every command runs in /verif, builds /verif/harness against the working tree of /repo and takes its randomness from VERIF_SEED. Replays: bin/check sh vh replay FILE.'}
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1)
print(len(checks),'claimed',len(na),'not')
