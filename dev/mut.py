#!/usr/bin/env python3
"""mut.py CHECKS FILE <<< 'old\n====\nnew'  : run checks on a mutated scratch copy (multiple edits separated by '@@@@' with optional 'FILE:' first line)"""
import sys,os,subprocess,shutil,tempfile
checks=sys.argv[1].split(','); fn=sys.argv[2]
d=tempfile.mkdtemp(prefix='mut'); r=d+'/repo'
shutil.copytree(os.environ.get('PCHECK_REPO','/repo'),r,ignore=shutil.ignore_patterns('.git'))
txt=sys.stdin.read()
for part in txt.split('@@@@\n'):
    f=fn
    if part.startswith('FILE:'):
        h,part=part.split('\n',1); f=h[5:]
    old,new=part.split('====\n')
    s=open(r+'/'+f).read()
    old=old.rstrip('\n'); new=new.rstrip('\n')
    if s.count(old)!=1: print('MATCHES',s.count(old), repr(old[:80])); sys.exit(1)
    open(r+'/'+f,'w').write(s.replace(old,new))
env=dict(os.environ,PCHECK_REPO=r)
for c in checks:
    o=subprocess.run(['python3','/verif/check.py',c],cwd='/verif',env=env,capture_output=True,text=True)
    lines=(o.stdout+o.stderr).splitlines()
    show=[l for l in lines if 'broken by' in l or 'VIOLATION' in l or 'BROKEN' in l]
    print(c,'exit',o.returncode); 
    for l in (show or lines[-1:])[:int(os.environ.get("MUTN","1"))]: print('   ',l[:260])
shutil.rmtree(d)
