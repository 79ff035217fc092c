#!/usr/bin/env python3
"""Lists planted bugs whose patch removes no line of the original repository."""
import subprocess,re,os,glob
base='396211e'
for d in sorted(glob.glob('/verif/seeded/*')):
    ok=False; f=None
    orig={}
    for l in open(d+'/patch.diff',errors='replace'):
        if l.startswith('--- a/'):
            f=l[6:].strip()
            o=subprocess.run(['git','-C','/repo','blame','-s',f],capture_output=True,text=True).stdout.splitlines()
            orig={i+1:x.startswith('^') for i,x in enumerate(o)}
        m=re.match(r'@@ -(\d+)',l)
        if m: n=int(m[1]); continue
        if l.startswith(('---','+++','diff','index')): continue
        if l.startswith('-'):
            if orig.get(n) and l[1:].strip() not in('','}','{'): ok=True
            n+=1
        elif l.startswith(' '): n+=1
    if not ok: print('only own lines:',os.path.basename(d))
