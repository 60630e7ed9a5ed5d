#!/bin/bash
# which planted bugs change only lines that our own commits added to /repo (they would not count)
BASE=$(git -C /repo rev-list --max-parents=0 HEAD)
for p in /verif/seeded/*/patch.diff; do
python3 - "$p" "$BASE" <<'P'
import sys,re,subprocess
p,base=sys.argv[1:]
f=None; n=0; out=[]
for l in open(p):
    if l.startswith('+++ '): f=l[6:].strip()
    elif l.startswith('@@'): n=int(re.match(r'@@ -(\d+)',l).group(1))
    elif l.startswith('--- ') or l.startswith('diff') or l.startswith('index'): pass
    elif l.startswith('-'):
        b=subprocess.check_output(['git','-C','/repo','blame','-L','%d,%d'%(n,n),'-s','-l',f]).decode()
        out.append(b.lstrip('^')[:8]==base[:8] or b.startswith('^')); n+=1
    elif l.startswith('+'): pass
    else: n+=1
print(p.split('/')[-2], 'orig lines removed: %d of %d'%(sum(out),len(out)))
P
done
