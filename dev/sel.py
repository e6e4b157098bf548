# sel.py BIN PROP secs N regex_must... !regex_not...   shrink failing cases whose description matches
import json,re,sys,subprocess,os
b,prop,secs,n=sys.argv[1:5]; pats=sys.argv[5:]
k=0
rows=[json.loads(l) for l in open('/verif/.work/r/all.jsonl')]
rows=[d for d in rows if d['st'] in('fail','crash')]
rows.sort(key=lambda d:len(d['ch']))
for d in rows:
    t=d['st']+' '+d.get('cls','')+'\n'+d.get('desc','')
    ok=all((not re.search(p[1:],t)) if p[0]=='!' else re.search(p,t) for p in pats)
    if not ok: continue
    json.dump({"property":prop,"scenario":d['sc'],"choices":d['ch']},open('/verif/.work/r/x.json','w'))
    env=dict(os.environ,ASAN_OPTIONS='detect_leaks=0:handle_abort=1')
    subprocess.run(['/verif/.work/'+b,'shrink','/verif/.work/r/x.json','/verif/.work/sw',secs,'/verif/.work/r/y%d.json'%k],env=env)
    try: r=json.load(open('/verif/.work/r/y%d.json'%k))
    except Exception as e: print('not reproduced'); continue
    print('-----',r['class']); print('\n'.join(x[:260] for x in r['message'].split('\n') if not re.search('std::function|_M_invoke|__invoke|libc|pthread',x))[:1500]); print(r['input'])
    k+=1
    if k>=int(n): break
