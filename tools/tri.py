#!/usr/bin/env python3
# triage helper: tri.py PROP FROM TO [workers]
import subprocess,sys,json,collections,os
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
prop,a,b=sys.argv[1],int(sys.argv[2]),int(sys.argv[3]); n=int(sys.argv[4]) if len(sys.argv)>4 else 8
extra=sys.argv[5:]
import tempfile
fs=[tempfile.TemporaryFile('w+') for i in range(n)]
ps=[subprocess.Popen([V+'/build/simdrv','search','--prop',prop,'--from',str(a+i),'--to',str(b),'--step',str(n),'--cpu',str(i)]+extra,stdout=fs[i],text=True) for i in range(n)]
c=collections.Counter();d={};st=collections.Counter();fl=collections.Counter();wall=0;h=set();ns=0
for p,f in zip(ps,fs):
    p.wait(); f.seek(0)
    for l in f:
        r=json.loads(l)
        if 'error' in r: c[r['error']]+=1; d.setdefault(r['error'],[]).append((r['seed'],'')); continue
        st.update(r['stat']); fl.update(r['faults']); wall+=r['wall']; h.add(r['hash']); ns+=r['nstates']
        if not r['viol']: c['ok']+=1
        for w in dict.fromkeys(v['what'] for v in r['viol']): c[w]+=1
        for v in r['viol']: d.setdefault(v['what'],[]).append((r['seed'],v['detail'][:220]))
for k in c: print(c[k],k,*(d.get(k,[])[:4]),sep='\n      ' if k!='ok' else ' ')
print(dict(st)); print(dict(fl)); print('wall',wall,'hashes',len(h),'states',ns)
