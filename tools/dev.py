import sys,json,subprocess,os,shutil,time
from collections import Counter
# dev.py flavour driver suites scale seed
fl,dr,suites=sys.argv[1:4]; scale=sys.argv[4] if len(sys.argv)>4 else "0.1"; seed=sys.argv[5] if len(sys.argv)>5 else "1"
sys.path.insert(0,'/verif/tools')
import build
try: exe=build.build(fl,[dr])[dr]
except RuntimeError as e: print(str(e)[:5000]); sys.exit(1)
out='/tmp/dev.%d'%os.getpid()
env=dict(os.environ); env['ASAN_OPTIONS']='detect_leaks=0:allocator_may_return_null=1'; env['TSAN_OPTIONS']='halt_on_error=0:exitcode=0'; env['UBSAN_OPTIONS']='print_stacktrace=1'
for s in suites.split(','):
    t=time.time()
    os.makedirs(out,exist_ok=True)
    p=subprocess.run([exe,'--out',out,'--suite',s,'--scale',scale,'--seed',seed],env=env,stdout=subprocess.DEVNULL)
    c=Counter();v=Counter();ex={};dist=set()
    for f in os.listdir(out):
        if f.startswith('res.'):
            for l in open(out+'/'+f):
                d=json.loads(l); c.update(d['counters']); dist.update(d['distinct'])
                for i in d['inconclusive']: c['INC:'+i]+=1
                for x in d['violations']: v[x['key']]+=1; ex.setdefault(x['key'],(x['case'],x['detail'][:int(os.environ.get('DL','900'))]))
    print('==',s,'%.1fs'%(time.time()-t),'distinct',len(dist)); print(dict(c)); print('VIOLATIONS',dict(v))
    for k,e in ex.items(): print('**',k,e[0]); print(e[1])
    seen=Counter()
    for l in open(out+'/crashes.jsonl'):
        d=json.loads(l); import re
        fr=re.findall(r'#\d+ .* in (.*)',d['log']); own=[x for x in fr if 'repo' in x][:4]; head=re.findall(r'(runtime error:.*|ERROR: Add.*|Assertion.*|terminate.*|what.*)',d['log'])[:2]
        k=(d['kind'],str(own[:1])[:150],re.sub('0x[0-9a-f]+','',str(head))[:120])
        seen[k]+=1
        if seen[k]==1 and len(seen)<6: print('CRASH',d['kind'],d['suite'],d['case'],[h[:120] for h in head],[o[:160] for o in own]); 
    for k,n in seen.items(): print(n,k)
    shutil.rmtree(out)
