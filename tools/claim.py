#!/usr/bin/env python3
"""dev: claim.py ID 'technique|level note'  -- marks a property as claimed in props.py and regenerates"""
import sys,os,subprocess
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
f=V+'/tools/props.py'; parts=open(f).read().split('\nP("')
for i,p in enumerate(parts):
    if p.startswith(sys.argv[1]+'"'):
        assert '**TODO)' in p and '|' in sys.argv[2]
        parts[i]=p.replace('**TODO)','note='+repr(sys.argv[2])+')')
open(f,'w').write('\nP("'.join(parts)); subprocess.check_call(['python3',V+'/tools/gen.py'])
