"""refactorings: every check of the files touched must stay quiet"""
import sys,os,shutil,subprocess,tempfile,json,concurrent.futures as cf
sys.path.insert(0,'/verif/tools')
import importlib.util
spec=importlib.util.spec_from_file_location('seed','/verif/tools/seed.py'); seed=importlib.util.module_from_spec(spec); spec.loader.exec_module(seed)
P=[json.loads(l) for l in open('/verif/properties.jsonl')]
NA={x for x in json.load(open('/verif/tools/na.json'))}
def props(files):
    return [p['id'] for p in P if p['id'] not in NA and p['id']!='C44' and set(p['anchors']['files'])&files]+['C44']
def prep(b):
    name,edits=b[0],b[-1]
    tmp=tempfile.mkdtemp(prefix='ref-'); d=tmp+'/repo'
    subprocess.run(['git','clone','-q','/repo',d],check=True)
    shutil.copy('/repo/epsilon/_version.py',d+'/epsilon/_version.py')
    for f,a,c in edits:
        p=d+'/epsilon/'+f; s=open(p).read()
        if a is None: s=c+s
        elif s.count(a)!=1: return tmp,'NOAPPLY %d %r'%(s.count(a),a[:60])
        else: s=s.replace(a,c)
        open(p,'w').write(s)
        try: compile(s,p,'exec')
        except SyntaxError as e: return tmp,'SYNTAX %s'%e
    t=seed.tests(d)
    if BASE-t: return tmp,'TESTS FAIL %s'%sorted(BASE-t)[:3]
    return tmp,None
def run1(x):
    tmp,pr=x
    v=tmp+'/v'+pr
    shutil.copytree('/verif',v,ignore=shutil.ignore_patterns('.git','evidence','seeded'))
    try: r=subprocess.run(['/usr/bin/python3','check.py',pr],cwd=v,env=dict(os.environ,VERIF_REPO=tmp+'/repo'),capture_output=True,text=True,timeout=900)
    except subprocess.TimeoutExpired: return pr,124,'timeout'
    l=[y for y in r.stdout.splitlines() if y.strip()]
    shutil.rmtree(v)
    return pr,r.returncode,(l[-2] if r.returncode==1 and len(l)>1 else (l[-1] if l else r.stderr[-200:]))
g={}
exec(open(sys.argv[1]).read(),g)
B=g['R']
if len(sys.argv)>2: B=[b for b in B if b[0] in sys.argv[2:]]
tmp=tempfile.mkdtemp(prefix='ref-'); subprocess.run(['git','clone','-q','/repo',tmp+'/r'],check=True); shutil.copy('/repo/epsilon/_version.py',tmp+'/r/epsilon/_version.py')
BASE=seed.tests(tmp+'/r'); shutil.rmtree(tmp)
with cf.ThreadPoolExecutor(6) as ex:
    for b in B:
        t,err=prep(b)
        if err: print(b[0],err,flush=True); shutil.rmtree(t); continue
        ps=props({'epsilon/'+e[0] for e in b[-1]})
        bad=[r for r in ex.map(run1,[(t,p) for p in ps]) if r[1]!=0]
        print(b[0],'quiet %d'%len(ps) if not bad else 'NOISY',flush=True)
        for r in bad: print('   ',r[0],r[1],r[2][:200],flush=True)
        shutil.rmtree(t)
