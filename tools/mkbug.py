"""mkbug.py ID PROP FILE 'old' 'new' — helper creating seeded/<id> from a replacement"""
import sys,os,subprocess,json,shutil
def mk(id,prop,edits,needs,breaks,demo_cc=None,demo_sh=None,extra=None):
    V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    d=V+'/seeded/'+id
    os.makedirs(d,exist_ok=True)
    w='/tmp/mk/wt'
    if not os.path.isdir(w):
        subprocess.check_call(['git','-C','/repo','worktree','add','-q','--detach',w])
    subprocess.check_call(['git','-C',w,'checkout','-q','--','.'])
    h=subprocess.check_output(['git','-C','/repo','rev-parse','HEAD'],text=True).strip()
    subprocess.check_call(['git','-C',w,'checkout','-q',h])
    for f,o,n in edits:
        p=os.path.join(w,f); s=open(p).read()
        assert s.count(o)==1,(f,o,s.count(o))
        open(p,'w').write(s.replace(o,n))
    diff=subprocess.check_output(['git','-C',w,'diff'],text=True)
    open(d+'/patch.diff','w').write(diff)
    subprocess.check_call(['git','-C',w,'checkout','-q','--','.'])
    json.dump(dict(property=prop,needs=needs,what_it_breaks=breaks),open(d+'/meta.json','w'),indent=1)
    if demo_cc:
        open(d+'/demo.cc','w').write(demo_cc)
        shutil.copy(V+'/tools/demo_template.sh',d+'/demo.sh')
    if demo_sh:
        open(d+'/demo.sh','w').write(demo_sh)
    for k,v in (extra or {}).items(): open(d+'/'+k,'w').write(v)
