#!/usr/bin/env python3
# mut.py harness prop runs file  'old' 'new'
import sys,shutil,subprocess,os
h,prop,runs,f,old,new=sys.argv[1:7]
shutil.rmtree('/tmp/minc',ignore_errors=True); shutil.copytree('/repo/include','/tmp/minc')
p='/tmp/minc/dice/template-library/'+f
s=open(p).read()
n=s.count(old)
if n==0: print("NO MATCH"); sys.exit(3)
s=s.replace(old,new, 1 if len(sys.argv)<8 else int(sys.argv[7])); open(p,'w').write(s)
mk=os.environ.get('MK','/tmp/mk.sh')
r=subprocess.run(['bash',mk,h],env=dict(os.environ,INC='/tmp/minc'),capture_output=True,text=True)
if r.returncode: print("BUILD FAIL", [l[:200] for l in (r.stdout+r.stderr).splitlines() if "error" in l][:2]); sys.exit(2)
r=subprocess.run(['bash','/tmp/rn.sh',h,runs,prop],capture_output=True,text=True)
print(f, repr(old[:50]),'=>',repr(new[:50]))
print('   ',[l for l in r.stdout.splitlines() if l.startswith('violation:') or 'ERROR' in l] or 'SURVIVED')
