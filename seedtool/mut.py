#!/usr/bin/env python3
# mut.py FILE...: each FILE defines muts=[(checks, expect, what, [(file, old, new)...])...];
# expect: "V" the checks must report, "Q" they must stay quiet. Works on scratch copies of /repo with /tmp/x.
import sys,os,json,subprocess,shutil,tempfile,concurrent.futures as cf
env=dict(os.environ)
muts=[]
for f in sys.argv[1:]:
    g={}
    exec(open(f).read(),g); muts+=g['muts']
only=os.environ.get('ONLY','')
def run(m):
    ids,exp,what,edits=m
    d=tempfile.mkdtemp(prefix='mut.'); r=d+'/r'; v=d+'/v'
    try:
        shutil.copytree('/repo',r,symlinks=True,ignore=shutil.ignore_patterns('.git')); os.mkdir(v)
        shutil.copy('/verif/known-findings.jsonl',v)
        for f,o,n in edits:
            s=open(r+'/'+f).read() if os.path.exists(r+'/'+f) else ''
            if o=='' : s=s+n
            elif o not in s: return (what,'NOTFOUND '+f+': '+o[:60])
            else: s=s.replace(o,n) if n.startswith('\0all') else s.replace(o,n,1)
            open(r+'/'+f,'w').write(s)
        b=subprocess.run('. /opt/vp/env.sh; go build ./... && go vet . ./xdoc ./style >/dev/null 2>&1; go build ./...',shell=True,cwd=r,capture_output=True,text=True,errors="replace")
        if b.returncode: return (what,'BUILD '+b.stderr[-300:])
        out=[]
        for i in ids.split():
            c=subprocess.run('. /opt/vp/env.sh; '+os.environ.get('X','/tmp/x')+' check %s %s %s quick'%(r,v,i),shell=True,capture_output=True,text=True,errors="replace")
            viol=[l for l in c.stdout.splitlines() if l.startswith('VIOLATION')]
            st='V' if c.returncode==1 and viol else 'Q' if c.returncode==0 else 'E%d'%c.returncode
            det=''
            if st=='V':
                ls=[l for l in c.stdout.splitlines() if l.strip().startswith(i+'.')]
                det=(ls[0].strip()[:230] if ls else '')
            elif st=='Q' and exp=='V' and os.environ.get('V'):
                ev=json.load(open(v+'/evidence/'+i+'.json'))
                det=' | '.join(unds(ev)[:4])
            elif st[0]=='E': det=(c.stdout+c.stderr)[-300:]
            out.append((i,st,det))
        return (what,exp,out)
    finally: shutil.rmtree(d)
def unds(x,p=''):
    if isinstance(x,dict): return [u for k,y in x.items() for u in unds(y,p+k)]
    return [str(y)[:300] for y in x] if isinstance(x,list) and 'undec' in p.lower() else []
bad=0
sel=[m for m in muts if only in m[2]]
if os.environ.get('ALL'): # every check on the harmless edits
    ids=' '.join(sorted(c['property'] for c in json.load(open('/verif/MANIFEST.json'))['checks']))
    sel=[(ids,'Q',m[2],m[3]) for m in sel if m[1]=='Q']
with cf.ThreadPoolExecutor(int(os.environ.get('J','6'))) as ex:
    for r in ex.map(run,sel):
        if len(r)==2: print('??',r[0],r[1]); bad+=1; continue
        what,exp,out=r
        ok=(any(s=='V' for _,s,_ in out) if exp=='V' else all(s=='Q' for _,s,_ in out))
        if not ok: bad+=1
        if not ok and exp=='Q': out=[o for o in out if o[1]!='Q']
        if not ok or os.environ.get('V'): print('ok ' if ok else 'BAD',exp,what,out,flush=True)
print('%d mutants, %d not as expected'%(len(sel),bad))
