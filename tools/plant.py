#!/usr/bin/env python3
# usage: plant.py ID...   verifies planted bugs (seeded/ID) in a scratch copy of /repo, and runs the checks against them.
# For each: the patch applies, changes original lines only, builds, passes the stable tests, the demo tells the two trees
# apart, and the check of its property (or those given with -c) reports the violation.
import json,os,subprocess,sys,shutil,tempfile
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE='576a77e'
env=dict(os.environ,HOME='/root',PATH='/opt/veriftools/go1.27.3/bin:'+os.environ['PATH'],GOROOT='/opt/veriftools/go1.27.3',GOTOOLCHAIN='local',GOPROXY='off')
def run(c,cwd,env=env,t=900):
    try: p=subprocess.run(c,shell=True,cwd=cwd,env=env,capture_output=True,text=True,timeout=t,errors='replace')
    except subprocess.TimeoutExpired: return 124,'timeout'
    return p.returncode,p.stdout+p.stderr
args=sys.argv[1:]; checks=None; nocheck=False
if args and args[0]=='-c': checks=args[1].split(','); args=args[2:]
if args and args[0]=='-n': nocheck=True; args=args[1:]
for id in args or sorted(os.listdir(V+'/seeded')):
    d=V+'/seeded/'+id
    meta=json.load(open(d+'/meta.json'))
    t=tempfile.mkdtemp(prefix='plant.'); r=t+'/r'; out=[]
    try:
        subprocess.run(['git','clone','-q','/repo',r],check=True)
        # original lines: every removed line is one of the base commit
        files=[l[6:].strip() for l in open(d+'/patch.diff') if l.startswith('--- a/')]
        c,o=run(f'git apply --check {d}/patch.diff',r)
        if c: print(id,'DOES NOT APPLY',o); continue
        c,o=run(f'git blame -s --line-porcelain {BASE}..HEAD -- /dev/null',r)
        bad=0; orig=0
        for f in files:
            c,bl=run(f'git blame -s {BASE}..HEAD -- {f}',r)
            bl=bl.splitlines(); cur=0
            infile=None
            for l in open(d+'/patch.diff'):
                if l.startswith('--- a/'): infile=l[6:].strip(); continue
                if infile!=f: continue
                if l.startswith('+++'): continue
                if l.startswith('@@'): cur=int(l.split()[1].split(',')[0][1:])-1; continue
                if l.startswith('-'):
                    if bl[cur].startswith('^'): orig+=1
                    else: bad+=1
                    cur+=1
                elif l.startswith(' ') or l=='\n': cur+=1
        if orig==0: out.append('NO ORIGINAL LINE')
        if bad: out.append(f'({bad} lines of fixes)')
        demo=t+'/demo'; shutil.copytree(d,demo)
        for x in ('patch.diff','meta.json'): os.remove(demo+'/'+x)
        c,o=run(f'bash {demo}/demo.sh',r)
        if c!=0: out.append('DEMO FAILS UNCHANGED: '+o[-600:])
        run(f'git apply {d}/patch.diff',r)
        c,o=run('go build ./... && go vet ./... ',r,dict(env,GOFLAGS='-mod=vendor'))
        if c!=0: out.append('DOES NOT BUILD/VET: '+o[-600:])
        c,o=run('go test ./... 2>&1 | grep -v "no test files"',r,dict(env,GOFLAGS='-mod=vendor'))
        if 'FAIL' in o: out.append('TESTS FAIL: '+o[-600:])
        c,o=run(f'bash {demo}/demo.sh',r,t=300)
        if c==0: out.append('DEMO PASSES PATCHED')
        elif os.environ.get('SHOW'): out.append('demo: '+o[-400:])
        if not nocheck:
            for p in checks or [meta['property']]:
                c,o=run(f'./check {p}',V,dict(env,RODKINA_REPO=r,VERIF_BUILD=t+'/b',VERIF_SEED=os.environ.get('VERIF_SEED','1')))
                v=[l for l in o.splitlines() if l.startswith('VIOLATION')]
                out.append(f'{p}: '+('CAUGHT '+v[0] if c==1 and v else f'** MISSED ** rc={c} '+o[-300:] if c!=0 else '** MISSED **'))
                if os.environ.get('SHOW'): out.append(o[-1500:])
    finally: shutil.rmtree(t)
    print(id,' | '.join(out),flush=True)
