"""seed(id, prop, edits, needs, breaks, demo, libs='', srcs='', env=''): writes seeded/<id>."""
import difflib, json, os, subprocess, shutil
V='/verif'
def seed(id, prop, edits, needs, breaks, demo, libs='', srcs='', drv=True):
    d=f'{V}/seeded/{id}'; os.makedirs(d,exist_ok=True)
    out=''
    byf={}
    for f,old,new in edits: byf.setdefault(f,[]).append((old,new))
    for f,l in byf.items():
        a=subprocess.run(['git','-C','/repo','show','HEAD:'+f],capture_output=True,text=True,check=True).stdout; b=a
        for old,new in l:
            assert b.count(old)==1,(id,f,b.count(old),old)
            b=b.replace(old,new)
        out+=f'diff --git a/{f} b/{f}\n'+''.join(difflib.unified_diff(a.splitlines(1),b.splitlines(1),'a/'+f,'b/'+f))
    open(d+'/patch.diff','w').write(out)
    json.dump(dict(property=prop,needs=needs,what_it_breaks=breaks),open(d+'/meta.json','w'),indent=1)
    sh=open(V+'/tools/demo.sh').read()
    sh=sh.replace('#!/bin/bash\n','#!/bin/bash\n'+(f'LIBS="{libs}"\n' if libs else '')+(f'SRCS="{srcs}"\n' if srcs else ''),1)
    open(d+'/demo.sh','w').write(sh); os.chmod(d+'/demo.sh',0o755)
    open(d+'/demo.cc','w').write(demo)
    if drv: shutil.copy(V+'/tools/drv.hh',d+'/drv.hh')
    print('wrote',id)
