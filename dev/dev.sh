#!/bin/bash
# dev.sh BIN PROP CASES SEED [SCENARIO] : run built binary & summarise
cd /verif; rm -rf .work/r; mkdir -p .work/r
export ASAN_OPTIONS=detect_leaks=0:handle_abort=1:allocator_may_return_null=1
.work/$1 run $2 $3 ${4:-1} 8 ${SECS:-200} .work/r .work/r/res.jsonl $5
cat .work/r/res.jsonl.* > .work/r/all.jsonl
python3 - <<'P'
import json,collections
c=collections.Counter();cl=collections.Counter();t=collections.Counter();ex={};mx=0
for l in open('/verif/.work/r/all.jsonl'):
    d=json.loads(l);c[d['sc']+':'+d['st']]+=1
    if 'cls' in d:
        k=d['sc']+' | '+d['cls'];cl[k]+=1
        if k not in ex or len(d.get('ch',[]))<len(ex[k].get('ch',[])): ex[k]=d
    for k,v in d.get('tags',{}).items(): t[k]+=v
    t['time']+=d.get('t',0); mx=max(mx,d.get('t',0))
print(dict(c)); print(dict(t),'max',mx)
for i,(k,n) in enumerate(cl.most_common()):
    d=ex[k]; print(i,n,k, 'len',len(d['ch']))
    import os
    json.dump({"property":"@","scenario":d['sc'],"choices":d['ch']},open('/verif/.work/r/f%d.json'%i,'w'))
P
sed -i "s/\"@\"/\"$2\"/" .work/r/f*.json 2>/dev/null
