#!/usr/bin/env python3
"""mkseed.py NAME PROPERTY: makes seeded/NAME from /repo's uncommitted changes, and undoes them.
needs/what on stdin: two lines."""
import sys, os, json, subprocess, shutil
name, prop = sys.argv[1:3]
needs, what = sys.stdin.read().strip().split('\n')
d = f'/verif/seeded/{name}'; t = '/verif/tools/seedtpl'
os.makedirs(d, exist_ok=True)
diff = subprocess.run(['git','-C',os.environ.get('REPO','/repo'),'diff'],capture_output=True,text=True).stdout
if diff:
    open(f'{d}/patch.diff','w').write(diff)
    subprocess.run(['git','-C',os.environ.get('REPO','/repo'),'checkout','-q','--','.'],check=True)
for f in os.listdir(t):
    if not os.path.exists(f'{d}/{f}'): shutil.copy(f'{t}/{f}', d)
json.dump({'property':prop,'needs':needs,'what_it_breaks':what},open(f'{d}/meta.json','w'),indent=1)
