mk () 
{ 
    python3 - "$@" <<'E'
import sys,subprocess,os,shutil,json
id,prop,f,old,new,needs,breaks=sys.argv[1:8]
p='/repo/'+f; s=open(p).read()
assert s.count(old)>=1,(id,s.count(old))
if s.count(old)>1: print('WARNING multiple',s.count(old))
open(p,'w').write(s.replace(old,new,1))
d='/verif/seeded/'+id; os.makedirs(d,exist_ok=True)
open(d+'/patch.diff','w').write(subprocess.run(['git','-C','/repo','diff'],capture_output=True,text=True).stdout)
subprocess.run(['git','-C','/repo','checkout','--','.'])
json.dump({"property":prop,"needs":needs,"what_it_breaks":breaks},open(d+'/meta.json','w'),indent=1)
E

}
