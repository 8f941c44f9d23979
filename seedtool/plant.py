#!/usr/bin/env python3
"""plant.py FILE...: makes /verif/seeded/<id>/ from the bug descriptions in
FILE and confirms each in a scratch copy of /repo. A description is Python:
bug(id, prop, edits=[(file, old, new)...], demo=Go source, needs=, breaks=,
pkg='.')."""
import json, os, re, shutil, subprocess, sys, tempfile
HERE=os.path.dirname(os.path.abspath(__file__))
SEED=os.path.join(os.path.dirname(HERE),'seeded')
only=os.environ.get('ONLY')
def sh(cmd,cwd):
    return subprocess.run(['bash','-c','. /opt/vp/env.sh; export GOFLAGS=-mod=readonly; '+cmd],cwd=cwd,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True)
seen=set()
def bug(id,prop,edits,demo,needs,breaks,pkg='.',rec=None):
    if only and id not in only.split(','): return
    if os.path.exists(os.path.join(SEED,id,'patch.diff')) and not os.environ.get('REDO') and not only: return
    w=tempfile.mkdtemp(prefix='plant.')
    try:
        r=os.path.join(w,'repo'); subprocess.check_call(['cp','-a','/repo',r])
        for f,o,n in edits:
            p=os.path.join(r,f); s=open(p).read()
            if s.count(o)!=1: print(id,'EDIT MATCHES',s.count(o),f,repr(o)[:80]); return
            open(p,'w').write(s.replace(o,n))
        diff=subprocess.run(['git','diff'],cwd=r,capture_output=True,text=True).stdout
        # at least one line of the base commit changed
        base=subprocess.run(['git','rev-list','--max-parents=0','HEAD'],cwd=r,capture_output=True,text=True).stdout.strip()
        ok=False; f=None; ln=0
        for l in diff.splitlines():
            if l.startswith('--- a/'): f=l[6:]
            elif l.startswith('@@'): ln=int(re.match(r'@@ -(\d+)',l).group(1))
            elif l.startswith('-') and not l.startswith('---'):
                b=subprocess.run(['git','blame','-l','-s','-L','%d,%d'%(ln,ln),'HEAD','--',f],cwd=r,capture_output=True,text=True).stdout
                if base in b or b.startswith('^'): ok=True
                ln+=1
            elif l.startswith(' '): ln+=1
        if not ok: print(id,'CHANGES NO ORIGINAL LINE'); return
        d=os.path.join(SEED,id); shutil.rmtree(d,ignore_errors=True); os.makedirs(d)
        shutil.copy(os.path.join(HERE,'demo.sh'),d)
        head='//pkg: %s\n'%pkg
        open(os.path.join(d,'demo_test.go'),'w').write(head+demo.lstrip())
        if rec is None: rec= pkg=='.'
        if rec: shutil.copy(os.path.join(HERE,'rec_test.go.txt'),os.path.join(d,'rec_test.go'))
        open(os.path.join(d,'patch.diff'),'w').write(diff)
        json.dump({'property':prop,'needs':needs,'what_it_breaks':breaks},open(os.path.join(d,'meta.json'),'w'),indent=1)
        bad=[]
        x=sh('go build ./... && go vet ./... >/dev/null 2>&1; go test -vet=off -count=1 ./...',r)
        if x.returncode: bad.append('build/tests: '+x.stdout[-600:])
        x=sh('bash %s/demo.sh'%d,r)
        if x.returncode==0: bad.append('demo passes with the patch')
        elif '--- FAIL' not in x.stdout and 'panic' not in x.stdout: bad.append('demo breaks otherwise: '+x.stdout[-600:])
        fail=x.stdout
        subprocess.check_call(['git','checkout','-q','--','.'],cwd=r)
        x=sh('bash %s/demo.sh'%d,r)
        if x.returncode: bad.append('demo fails on the unchanged tree: '+x.stdout[-900:])
        if subprocess.run(['git','apply','--check',os.path.join(d,'patch.diff')],cwd=r).returncode: bad.append('patch does not apply')
        if bad:
            shutil.rmtree(d); print(id,'REJECTED','\n  '.join(bad))
        else: print(id,'ok',fail.strip().splitlines()[1][:150] if os.environ.get('V') else '')
    finally: subprocess.call(['rm','-rf',w])
for f in sys.argv[1:]: exec(compile(open(f).read(),f,'exec'))
