#!/usr/bin/env python3
# cls.py PROP FROM TO KNOBREGEX : violations by configuration
import subprocess,sys,json,collections,re
prop,a,b,rx=sys.argv[1],sys.argv[2],sys.argv[3],re.compile(sys.argv[4])
import tempfile
fs=[tempfile.TemporaryFile('w+') for i in range(8)]
ps=[subprocess.Popen(['/verif/build/simdrv','search','--prop',prop,'--from',str(int(a)+i),'--to',b,'--step','8','--cpu',str(i)],stdout=fs[i],text=True) for i in range(8)]
c=collections.defaultdict(list)
for p,f in zip(ps,fs):
    p.wait(); f.seek(0)
    for l in f:
        r=json.loads(l)
        if 'error' in r or not r['viol']: continue
        pl=subprocess.run(['/verif/build/simdrv','gen','--prop',prop,'--seed',str(r['seed'])],stdout=subprocess.PIPE,text=True).stdout
        k=' '.join(x[5:] for x in pl.split('\n') if x.startswith('knob ') and rx.search(x))
        for w in dict.fromkeys(v['what'] for v in r['viol']): c[(w,k)].append(r['seed'])
for k in sorted(c): print(len(c[k]),k[0],'|',k[1],c[k][:5])
