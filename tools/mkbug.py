import os,sys,subprocess,json,shutil,tempfile
BUGS={}
def bug(id,prop,edits,needs,breaks,main,race=False):
    BUGS[id]=(prop,edits,needs,breaks,main,race)
exec(open(sys.argv[1]).read())
base='e45e371'
for id in (sys.argv[2:] or BUGS):
    prop,edits,needs,breaks,main,race=BUGS[id]
    w='/tmp/mk_w_'+id
    shutil.rmtree(w,ignore_errors=True)
    subprocess.check_call(['cp','-a','/repo',w])
    for f,old,new,*rest in edits:
        p=w+'/vtdxml/'+f
        s=open(p).read()
        n=s.count(old)
        want=rest[0] if rest else 1
        assert n==want or want=='first', (id,f,old,n)
        s=s.replace(old,new,1) if want=='first' else s.replace(old,new)
        open(p,'w').write(s)
    subprocess.call('. /opt/vp/env.sh; gofmt -l vtdxml',shell=True,cwd=w)
    diff=subprocess.check_output(['git','diff'],cwd=w).decode()
    # at least one removed line must be in the base version
    cur=None; hit=False; adds=[]
    for l in diff.splitlines():
        if l.startswith('--- a/'): cur=subprocess.run(['git','show',base+':'+l[6:]],cwd=w,capture_output=True).stdout.decode().splitlines()
        elif l.startswith('-') and not l.startswith('---'):
            if l[1:] in cur: hit=True
            else: print(id,'NOT IN BASE:',l)
    if not hit: print(id,'*** only insertions / no original line changed')
    s='/verif/seeded/'+id
    os.makedirs(s,exist_ok=True)
    open(s+'/patch.diff','w').write(diff)
    open(s+'/meta.json','w').write(json.dumps({"property":prop,"needs":needs,"what_it_breaks":breaks},indent=1)+'\n')
    open(s+'/demo.sh','w').write(open('/verif/tools/plantkit/demo.sh').read().replace('FLAGS','-race ' if race else ''))
    os.chmod(s+'/demo.sh',0o755)
    shutil.copy('/verif/tools/plantkit/h.go.txt',s+'/h.go.txt')
    open(s+'/main.go.txt','w').write(main)
    shutil.rmtree(w)
    print('made',id)
