#!/usr/bin/env python3
# mkbug.py ID PROP FILE NEEDS WHAT  with stdin: OLD\n====\nNEW (repeat separated by \n####\n; a "FILE: path" first line switches file); makes seeded/ID/{patch.diff,meta.json}
import sys,subprocess,json,os
i,prop,f,needs,what=sys.argv[1:6]
d='/verif/seeded/'+i; os.makedirs(d,exist_ok=True)
for part in sys.stdin.read().split('\n####\n'):
    if part.startswith('FILE: '): f,part=part[6:].split('\n',1)
    old,new=part.split('\n====\n'); old=old.strip('\n'); new=new.rstrip('\n').lstrip('\n') if new.strip() else ''
    p='/repo/modules/'+f; s=open(p).read()
    if s.count(old)!=1: subprocess.run(['git','-C','/repo','checkout','-q','--','.']); sys.exit('%d matches of %r in %s'%(s.count(old),old,f))
    open(p,'w').write(s.replace(old,new))
o=subprocess.run(['git','-C','/repo','diff'],capture_output=True,text=True).stdout
open(d+'/patch.diff','w').write(o); subprocess.run(['git','-C','/repo','checkout','-q','--','.'])
json.dump({'property':prop,'needs':needs,'what_it_breaks':what},open(d+'/meta.json','w'),indent=1)
print(o)
