"""mk.py: creates /verif/seeded/<id> from a spec file (python: ID, PROP, FILE edits, DEMO, NEEDS, WHAT)."""
import sys,os,subprocess,json,shutil
REPO=os.environ.get('REPO','/repo')
ns={}
exec(open(sys.argv[1]).read(),ns)
for b in ns['BUGS']:
    if len(sys.argv)>2 and b['id'] not in sys.argv[2:]: continue
    d='/verif/seeded/'+b['id']; os.makedirs(d,exist_ok=True)
    for f,old,new in b['edits']:
        p=REPO+'/'+f; s=open(p).read()
        assert s.count(old)==b.get('count',1),(b['id'],f,s.count(old))
        open(p,'w').write(s.replace(old,new))
    diff=subprocess.check_output(['git','-C',REPO,'diff'],text=True)
    subprocess.check_call(['git','-C',REPO,'checkout','-q','--','.'])
    open(d+'/patch.diff','w').write(diff)
    shutil.copy('/verif/tools/bugs/gt.py',d+'/gt.py')
    open(d+'/demo.py','w').write("from gt import *   # noqa\n\n"+b['demo'].strip()+"\n\n\ndemo(check)\n")
    open(d+'/demo.sh','w').write('#!/bin/bash\nexec python3 "$(cd "$(dirname "$0")" && pwd)/demo.py"\n')
    os.chmod(d+'/demo.sh',0o755)
    json.dump({"property":b['prop'],"needs":b['needs'],"what_it_breaks":b['what']},open(d+'/meta.json','w'),indent=1)
    print("made",b['id'])
