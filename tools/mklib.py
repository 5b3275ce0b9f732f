import json,os,subprocess,shutil
V='/verif/seeded'
R=os.environ.get('SEED_REPO','/tmp/wr')  # a clean copy of /repo
def seed(id, prop, edits, needs, breaks, demo, timeout=60, fmi=False):
    """edits: list of (file, old, new)"""
    d=f'{V}/{id}'; os.makedirs(d,exist_ok=True)
    by={}
    for f,o,n in edits:
        p=R+'/'+f
        s=by.get(p) or open(p).read()
        assert s.count(o)==1,(id,f,s.count(o),o)
        by[p]=s.replace(o,n)
    for p,s in by.items(): open(p,'w').write(s)
    diff=subprocess.run(f'git -C {R} diff',shell=True,capture_output=True,text=True).stdout
    subprocess.run(f'git -C {R} checkout -q -- .',shell=True)
    open(d+'/patch.diff','w').write(diff)
    open(d+'/demo.cpp','w').write('#include "demo.hpp"\n'+demo.strip()+'\n')
    shutil.copy('/verif/tools/demo.hpp',d+'/demo.hpp')
    s=open('/verif/tools/demo.sh').read()
    if timeout!=60: s=s.replace('${DEMO_TIMEOUT:-60}',str(timeout))
    if fmi:
        shutil.copytree('/verif/harness/mock',d+'/mock',dirs_exist_ok=True)
        s=s.replace('-I"$here" ','-I"$here" -I"$here/mock" -DHAS_PROXYFMU ')
        s=s.replace('"$here/demo.cpp" ','"$here/demo.cpp" /repo/src/cosim/fmi/importer.cpp /repo/src/cosim/fmi/glue.cpp /repo/src/cosim/fmi/v1/fmu.cpp /repo/src/cosim/fmi/v2/fmu.cpp ')
    open(d+'/demo.sh','w').write(s); os.chmod(d+'/demo.sh',0o755)
    json.dump({"property":prop,"needs":needs,"what_it_breaks":breaks},open(d+'/meta.json','w'),indent=1)
