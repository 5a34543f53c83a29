#!/usr/bin/env python3
# Applies the mutants listed by ./main.go one by one in copies of /repo, and reports those that neither a check nor an existing test notices.
# usage: run.py MUTANTS.json OUT.log [PATH-PREFIX] [JOBS] [EVERY]
import json,os,subprocess,sys,shutil,threading,queue,re,random
ms=[json.loads(l) for l in open(sys.argv[1])]
out=open(sys.argv[2],'a'); done={l.strip().split('\t')[1] for l in open(sys.argv[2])}
prefix=sys.argv[3].split(',') if len(sys.argv)>3 and sys.argv[3] else ['']; jobs=int(sys.argv[4]) if len(sys.argv)>4 else 7
every=int(sys.argv[5]) if len(sys.argv)>5 else 1
BIN='/opt/veriftools/go1.27.3/bin'
base=dict(os.environ,HOME='/root',PATH=BIN+':'+os.environ['PATH'],GOROOT='/opt/veriftools/go1.27.3',GOTOOLCHAIN='local',GOPROXY='off',GOCACHE='/tmp/mut/cache',VERIF_SHRINKTIME='1ms',GOMAXPROCS='2')
W='/tmp/mut'; V=os.environ.get('VERIF_COPY','/verif')
MAP=[('libs/databases/infrastructure','D01 D02 D05 D07 D03 D09 D04 D08 D06'),('libs/databases/domain/references','C01 C05 C06 C04 B01 B02 D03 D01'),
 ('libs/databases','C02 C04 B01 B02 D01'),('libs/cryptography/domain/hashtrees','H02 H03 C03 C04 B01 B02'),('libs/cryptography','H01 B01'),
 ('libs/asts/applications','A02 A03 A04 A05 A06 A07 A08 A10 A11 A01'),('libs/asts/domain/trees','A02 A01 A09 A08 B01 B02 Q01'),('libs/asts','B01 B02 A02 A03 A04 A05 A06 A07 A08'),
 ('libs/queries','Q01 Q02 B01 B02'),('libs/interpreters','I01 I02 B01 B02 I03'),('instances/grammars/tokens','G01 G02 G03'),('instances','G03 G02 G01')]
CASES={}
names={}
t=''
import glob
for f in glob.glob(V+'/harness/prop_*.go'): t+=open(f).read()
for m in re.finditer(r'ID:\s*"([A-Z]\d\d)".*?Quick:\s*(\d+)',t,re.S): CASES[m.group(1)]=int(m.group(2))
lock=threading.Lock(); q=queue.Queue()
keyof=lambda m:f"{m['File']}:{m['Line']}:{m['Off']}:{m['Kind']}:{m['New'][:60]!r}"
sel=[m for m in ms if any(m['File'].startswith(p) for p in prefix)]
random.Random(1).shuffle(sel); sel=sel[::every]
for m in sel:
    if keyof(m) not in done: q.put(m)
print(q.qsize(),flush=True)
def run(cmd,cwd,env,timeout):
    import signal
    p=subprocess.Popen(cmd,shell=True,cwd=cwd,env=env,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,errors='replace',start_new_session=True)
    try: o,_=p.communicate(timeout=timeout); return p.returncode,o
    except subprocess.TimeoutExpired:
        os.killpg(p.pid,signal.SIGKILL); p.wait(); return 124,''
def work(i):
    R=f'{W}/{i}/r'; B=f'{W}/{i}/b'; S=f'/dev/shm/mut/{i}'
    shutil.rmtree(f'{W}/{i}',ignore_errors=True); shutil.rmtree(S,ignore_errors=True); os.makedirs(S); os.makedirs(f'{W}/{i}',exist_ok=True); run(f'git clone -q /repo {R}','/tmp',base,60); os.makedirs(B)
    env=dict(base,RODKINA_REPO=R,VERIF_BUILD=B,VERIF_SCRATCH=S,TMPDIR=S)
    while True:
        try: m=q.get_nowait()
        except queue.Empty: return
        p=os.path.join(R,m['File']); src=open(p,'rb').read(); verdict=''
        open(p,'wb').write(src[:m['Off']]+m['New'].encode()+src[m['Off']+m['Len']:])
        try:
            props=next(b for a,b in MAP if m['File'].startswith(a)).split()
            fault='fault' if 'D04' in props else ''
            c,o=run(f'{V}/build.sh {fault}',V,env,300)
            if c: verdict='nobuild'
            else:
                b=B+('/harness-fault' if fault else '/harness')
                for pr in props:
                    n=max(CASES[pr]//(24 if fault else 12),10)
                    o_=f'{W}/{i}/o'; shutil.rmtree(o_,ignore_errors=True); os.makedirs(o_)
                    c,o=run(f'{b} worker -verif {V} -prop {pr} -cases {n} -wseed 1 -out {o_}',S,env,120)
                    for x in os.listdir(S): shutil.rmtree(os.path.join(S,x),ignore_errors=True)
                    if c==124: verdict='hang '+pr; break
                    if c==20: verdict='harness '+pr+' '+o[:200].replace('\n',' '); break
                    if c: verdict='caught '+pr; break
                if not verdict:
                    c,o=run('go vet ./libs/... >/dev/null; go test ./... 2>&1 | grep -E "^(FAIL|---)" ',R,dict(env,GOFLAGS='-mod=vendor'),200)
                    verdict='tests' if o.strip() else 'SURVIVED'
        finally:
            open(p,'wb').write(src)
        with lock:
            out.write(f"{verdict}\t{keyof(m)}\n"); out.flush()
ts=[threading.Thread(target=work,args=(i,)) for i in range(jobs)]
[t.start() for t in ts]; [t.join() for t in ts]
