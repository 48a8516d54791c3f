# worker.py MUTANTS.json RESULT-PREFIX N OF FILES...: tries every OFth mutant in /repo
# (a private copy, see run.sh): existing tests first, then the checks.
import resource,json,subprocess,sys,os,time,random
ALL,PRE=sys.argv[1:3]; N=int(sys.argv[3]); W=int(sys.argv[4]); only=sys.argv[5:]
ms=json.load(open(ALL))
for i,m in enumerate(ms): m['i']=i
random.Random(7).shuffle(ms)
if only: ms=[m for m in ms if any(m['File'].startswith(o) for o in only)]
lib=['C08','C07','C03','C09','C04']
order={
 'scan.go':'C20 C17 C18 C19 C04 C08 C22 C16 C26 C03 C35'.split(),
 'license.go':'C24 C25 C22 C26'.split(),
 'internal/match/dict.go':'C08 C12 C10 C11 C18 C13 C20 C07 C22'.split(),
 'internal/match/regexp.go':'C09 C08 C16 C38 C26 C22'.split(),
 'internal/match/rematch.go':'C08 C14 C13 C09 C07 C34 C16 C22'.split(),
 'internal/match/resyntax.go':'C15 C38 C16 C08 C14 C22'.split(),
 'old/license.go':'C29 C31 C32 C33'.split(),
 'old/normalize.go':'C32 C29 C31'.split(),
 'licenses/getspdx.go':'C28 C36'.split(),
 'licenses/getcc.go':'C30 C36'.split(),
 'gen_data.go':'C27 C38'.split(),
}
done=set()
rf=PRE+'%d.jsonl'%N
for k in range(16):
    f=PRE+'%d.jsonl'%k
    if os.path.exists(f):
        for l in open(f): done.add(json.loads(l)['i'])
env=dict(os.environ,GOFLAGS='-mod=mod',GOPROXY='off',GOTOOLCHAIN='local',GOWORK='off',VERIF_SEED='1',VERIF_TIER='quick')
def run(cmd,t):
    p=subprocess.Popen(cmd,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,env=env,start_new_session=True,preexec_fn=lambda: resource.setrlimit(resource.RLIMIT_DATA,(7<<30,7<<30)))
    try:
        o,_=p.communicate(timeout=t); return p.returncode,o.decode(errors='replace')
    except subprocess.TimeoutExpired:
        os.killpg(p.pid,9); subprocess.run(['pkill','-9','-f','mut-never']); p.communicate(); return -9,'timeout'
def rec(m,res,how=''):
    open(rf,'a').write(json.dumps({'i':m['i'],'desc':m['Desc'],'res':res,'how':how[:300]})+'\n')
for k,m in enumerate(ms):
    if k%W!=N or m['i'] in done: continue
    f='/repo/'+m['File']
    src=open(f,'rb').read()
    try:
        new=src[:m['Off']]+m['New'].encode()+src[m['Off']+m['Len']:]
        if b'os_Args' in new: new+=b'\nfunc os_Args() []string { return nil }\n'
        open(f,'wb').write(new)
        os.chdir('/repo')
        if m['File'].startswith('licenses/') or m['File']=='gen_data.go':
            r,o=run(['go','vet',m['File']],60)
            if r and ('undefined' in o or 'declared and not used' in o or 'imported and not used' in o or 'mismatched' in o or 'invalid op' in o or 'cannot' in o or 'syntax' in o or 'typecheck' in o or 'missing return' in o or 'expected' in o): rec(m,'nobuild'); continue
        else:
            r,o=run(['go','build','./...'],60)
            if r: rec(m,'nobuild'); continue
            if not m['File'].startswith('old/'):
                r,o=run(['go','test','-vet=off','-count=1','-timeout','40s','.','./internal/...'],90)
                if r: rec(m,'tests'); continue
        os.chdir('/verif')
        res='SURVIVED';how=''
        for c in order[m['File']]:
            t0=time.time()
            r,o=run(['./check.sh',c,'quick'],600)
            if r==1 and 'VIOLATION property='+c in o:
                res='caught';how=c+' '+([l for l in o.splitlines() if l.startswith('  ')]+[''])[0][:150];break
            if r==2 or r<0 or r==1:
                how+=' %s rc=%d %s'%(c,r,o[-200:]); res='BROKEN'
                if 'can not' in o or 'undefined' in o or 'declared and not used' in o: res='nobuild';break
        rec(m,res,how)
    finally:
        open(f,'wb').write(src)
