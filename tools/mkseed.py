#!/usr/bin/env python3
# mkseed.py SPEC.py : creates /verif/seeded/<id>/ for every entry of SEEDS in the spec.
# entry: (id, property, [(file, old, new)...], needs, what_it_breaks, demo main body [, extra top-level code])
import sys,os,json,shutil,subprocess
V=os.environ.get('V','/verif'); R=os.environ.get('R','/repo')
T=V+'/tools/demo'
spec={}; exec(open(sys.argv[1]).read(),spec)
only=sys.argv[2:]
wt=os.environ.get('WT','/tmp/seedwt')
if not os.path.exists(wt): subprocess.run(['git','clone','-q',R,wt],check=True)
subprocess.run(['git','-C',wt,'fetch','-q'],check=True)
subprocess.run(['git','-C',wt,'checkout','-q','--detach',subprocess.run(['git','-C',R,'rev-parse','HEAD'],capture_output=True,text=True).stdout.strip()],check=True)
for e in spec['SEEDS']:
    sid,prop,reps,needs,breaks,body=e[:6]; extra=e[6] if len(e)>6 else ''
    if only and sid not in only: continue
    subprocess.run(['git','-C',wt,'checkout','-q','--','.'],check=True)
    for f,o,n in reps:
        s=open(f'{wt}/{f}').read()
        assert s.count(o)==1,(sid,f,s.count(o),o)
        open(f'{wt}/{f}','w').write(s.replace(o,n))
    d=f'{V}/seeded/{sid}'; os.makedirs(d,exist_ok=True)
    open(d+'/patch.diff','w').write(subprocess.run(['git','-C',wt,'diff'],capture_output=True,text=True).stdout)
    shutil.copy(T+'/demo.sh',d); os.chmod(d+'/demo.sh',0o755); shutil.copy(T+'/demo.lock',d)
    pre='' if spec.get('NOPRELUDE') else open(T+'/prelude.rs').read()
    open(d+'/demo.rs','w').write(pre+extra+'\nfn main() {\n'+body.strip('\n')+'\n}\n')
    json.dump({"property":prop,"needs":needs,"what_it_breaks":breaks},open(d+'/meta.json','w'),indent=1)
    print(sid)
subprocess.run(['git','-C',wt,'checkout','-q','--','.'],check=True)
