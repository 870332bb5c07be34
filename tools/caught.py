#!/usr/bin/env python3
# developer helper: runs every check against every planted bug in scratch copies, writes tools/caught.json
import os, subprocess, json, glob, re, shutil, sys
root='/verif'; res={}
os.makedirs('/tmp/cv',exist_ok=True); shutil.copy(root+'/known-findings.jsonl','/tmp/cv')
for d in sorted(glob.glob(root+'/seeded/*/patch.diff')):
    i=os.path.basename(os.path.dirname(d)); W='/tmp/cw'
    shutil.rmtree(W,ignore_errors=True); os.makedirs(W)
    subprocess.check_call('git -C /repo archive HEAD | tar x -C %s'%W,shell=True)
    subprocess.check_call(['git','apply',d],cwd=W)
    o=subprocess.run('. /opt/vp/env.sh; /tmp/an -repo %s -verif /tmp/cv -property all'%W,shell=True,capture_output=True,text=True); o=o.stdout+o.stderr
    cur=[]; rules=[]; props=re.findall(r'^VIOLATION property=(P\d+)',o,re.M); rules=sorted(set(re.findall(r'^  \S+: \[([\w-]+)\]',o,re.M)))
    res[i]=', '.join(props)+' ('+', '.join(rules)+')' if props else 'none'
    print(i,res[i]); sys.stdout.flush()
shutil.rmtree('/tmp/cw',ignore_errors=True)
json.dump(res,open(root+'/tools/caught.json','w'),indent=1,sort_keys=True)
