#!/usr/bin/env python3
"""mutate.py [-n MAX] [-s SEED] [-j JOBS] [-t LIMIT] HEADER PID...  -- small textual changes of lines of /repo/src/HEADER which the quick jobs of the
properties execute, each checked by these jobs (in copies, /repo is not touched). Prints the changes nothing noticed, for a look by hand."""
import sys,os,re,json,glob,subprocess,shutil,tempfile,random,time,argparse,shlex
from concurrent.futures import ThreadPoolExecutor
V='/verif'; SRC=os.environ.get('MUT_SRC','/repo/src')
src=open(V+'/run.py').read().replace('sys.exit(main())','')
R={'__file__':V+'/run.py','__name__':'run'}; exec(compile(src,'run.py','exec'),R)
ap=argparse.ArgumentParser(); ap.add_argument('-u',action='store_true'); ap.add_argument('-n',type=int,default=60); ap.add_argument('-s',type=int,default=1); ap.add_argument('-j',type=int,default=8); ap.add_argument('-t',type=float,default=40); ap.add_argument('-l',default=''); ap.add_argument('--tier',default='quick'); ap.add_argument('header'); ap.add_argument('pids',nargs='+')
A=ap.parse_args()
root=tempfile.mkdtemp(prefix='mut-')
def tree(name,text=None):
    d='%s/%s'%(root,name); os.makedirs(d+'/sharemind')
    for x in os.listdir(SRC): os.symlink(SRC+'/'+x,d+'/sharemind/'+x)
    if text is not None:
        h=d+'/sharemind/'+A.header
        if '/' in A.header:
            s=A.header.split('/')[0]; os.unlink(d+'/sharemind/'+s); shutil.copytree(SRC+'/'+s,d+'/sharemind/'+s)
        os.unlink(h); open(h,'w').write(text)
        # headers find their neighbours relative to themselves: copy, do not link
        for x in os.listdir(SRC):
            if x.endswith('.h') and x!=A.header: os.unlink(d+'/sharemind/'+x); shutil.copy(SRC+'/'+x,d+'/sharemind/'+x)
    return d
def job(j,d,limit):
    o='%s/%s.bc'%(d,j['id']); fl=shlex.split(j.get('flags',''))
    ub=R['UBSAN']+(','+j['ubsan'] if j.get('ubsan') else '')
    inc=['-I'+V+'/include','-I'+V+'/harness','-I'+d]+(['-I'+V+'/shim'] if j.get('shim') else [])
    r=R['sh'](['clang++']+R['BASEFL']+fl+inc+['-fsanitize='+ub,'-fsanitize-trap=all',j['file'],'-o',o])
    if r.returncode: return 'stillborn',None,r.stdout
    out=d+'/out-'+j['id']; os.makedirs(out)
    cmd=[R['B']+'/vpsym','--model',R['B']+'/rt.bc','--out',out]+shlex.split(j.get('opts',''))
    for k in R['load_known']():
        if k['property'] in A.pids and k['status']=='known': cmd+=['--known',k['match']]
    try: p=subprocess.run(cmd+[o],stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,timeout=limit)
    except subprocess.TimeoutExpired: return 'timeout',None,''
    ps=[json.load(open(x)) for x in glob.glob(out+'/part-*.json')]
    shutil.rmtree(out); os.unlink(o)
    kn=[k['match'] for k in R['load_known']() if k['property'] in A.pids and k['status']=='known']
    for q in ps:
        for v in q['violations']:
            if not any(k in v['msg'] for k in kn): return 'killed',ps,v['msg']
    if p.returncode or any(q['errors'] for q in ps): return 'error',ps,p.stdout[-200:]+str([q['errors'][:2] for q in ps])[:300]
    exp=set(); hit=set()
    for q in ps: exp|=set(q['expected']); hit|=set(q['witness'])
    if exp-hit: return 'killed',ps,'unreachable '+str(exp-hit)
    return 'held',ps,''
jobs=[j for pid in A.pids for j in R['parse_jobs'](pid) if j['tier'] in ('both',A.tier)]
for j in jobs: j['id']=j['file'].split('/')[-2]+'.'+j['id']
d0=tree('base'); hp=os.path.realpath(SRC+'/'+A.header); cov={}; times={}
def base(j):
    t=time.time(); s,ps,m=job(j,d0,A.t*3); times[j['id']]=time.time()-t
    ln=set()
    for q in ps or []:
        for f,x in q['lines'].items():
            if f==A.header: ln|=set(x)
    cov[j['id']]=ln; return s,m
with ThreadPoolExecutor(A.j) as ex: b=list(ex.map(base,jobs))
for j,(s,m) in zip(jobs,b):
    if s!='held': print('baseline',j['id'],s,m[:200])
jobs=[j for j,(s,_) in zip(jobs,b) if s=='held' and cov[j['id']]]
jobs.sort(key=lambda j:times[j['id']])
lines=set().union(*[cov[j['id']] for j in jobs]) if jobs else set()
text=open(SRC+'/'+A.header).read().split('\n')
print(A.header,A.pids,'jobs',len(jobs),'time',round(sum(times[j['id']] for j in jobs),1),'covered lines',len(lines),'of',len(text))
if A.u:
    code=False
    for i,t in enumerate(text,1):
        c=t.strip()
        if i in lines or c.startswith(('*','/*','#','using','static_assert','template','typedef','friend class')) : continue
        if re.match(r'^(return|if|for|while|throw|delete|switch|case)\b|^\{ .*\}$|^[\w:\.\->\*\[\]]+(\(.*\)|\s*[-+|&*/%^]?=[^=].*);$',c) and 'default;' not in c and 'delete;' not in c: print('   not executed %s:%d  %s'%(A.header,i,c[:120]))
SW=[(r' == ',' != '),(r' != ',' == '),(r' < ',' <= '),(r' <= ',' < '),(r' > ',' >= '),(r' >= ',' > '),(r' && ',' || '),(r' \|\| ',' && '),(r' \+ ',' - '),(r' - ',' + '),(r'\+\+','--'),(r'--','++'),(r' \+= ',' -= '),(r' -= ',' += '),(r'\b1u?\b(?!\.)','0u'),(r'\b0u?\b','1u'),(r'\btrue\b','false'),(r'\bfalse\b','true'),(r'!(?=[a-zA-Z_(])',''),(r' \| ',' & '),(r' & ',' | '),(r' << ',' >> '),(r' >> ',' << '),(r'\|=','&='),(r'&=','|='),(r'memory_order_(acquire|release|acq_rel|seq_cst)','memory_order_relaxed'),(r'std::move\((\w+)\)',r'\1'),(r' \* ',' + '),(r' / ',' * '),(r' % ',' / '),(r'notify_all','notify_one'),(r'if \((.*)\)( \{)?$',r'if (!(\1))\2'),(r'std::min','std::max'),(r'std::max','std::min'),(r' \? (.*) : (.*)([;)])',r' ? \2 : \1\3'),(r'nullptr','nullptr ')]
mut=[]
near=set(l+d for l in lines for d in range(-3,4))
for l in sorted(near):
    if not 0<l<=len(text): continue
    t=text[l-1]
    code=t.split('//')[0]
    if 'static_assert' in t or 'template' in t or t.strip().startswith(('*','/*','#')) or 'noexcept(noexcept' in t: continue
    for a,bb in SW:
        for m in re.finditer(a,code):
            n=t[:m.start()]+m.expand(bb)+t[m.end():]
            if n!=t: mut.append((l,n))
    s=code.strip()
    if s.endswith(';') and re.match(r'^[\w:\.\->\*\[\]\(\)~&]+(\(.*\)|\s*[-+|&*/%^]?=[^=].*);$',s) and not s.startswith(('return','using','delete this')) and not re.match(r'^[\w:<>]+ (const )?\w+',s):
        mut.append((l,re.sub(r'\S.*$',';',t)))
    if s in ('break;','continue;','return;'): mut.append((l,t.replace(s,';')))
random.Random(A.s).shuffle(mut)
seen=set(); mm=[]
for x in mut:
    if x not in seen: seen.add(x); mm.append(x)
tot=len(mm); mm=mm[:A.n]
if A.l: lo,hi=map(int,A.l.split('-')); mm=[x for x in mm if lo<=x[0]<=hi]
def one(k):
    l,n=mm[k]; tx=list(text); tx[l-1]=n; d=tree('m%d'%k,'\n'.join(tx)); st=set(); 
    try:
        for j in sorted(jobs,key=lambda j:l not in cov[j['id']]): # a call that was inlined leaves no trace: jobs that do not list the line may execute it all the same
            s,_,m=job(j,d,times[j['id']]*4+10); st.add(s)
            if s=='killed': return k,'killed',j['id'],m
            if s=='stillborn': return k,'stillborn',j['id'],m
        return k,('held' if st=={'held'} else '+'.join(sorted(st))),'',m
    finally: shutil.rmtree(d,ignore_errors=True)
cnt={}
with ThreadPoolExecutor(A.j) as ex:
    for k,s,j,m in ex.map(one,range(len(mm))):
        cnt[s]=cnt.get(s,0)+1
        if s not in('killed','stillborn'): print('%-8s %s:%d  %s   =>   %s   %s'%(s,A.header,mm[k][0],text[mm[k][0]-1].strip()[:110],mm[k][1].strip()[:110],m[-120:].replace('\n',' ') if s!='held' else ''),flush=True)
print('  ',A.header,cnt,'of',tot,flush=True)
shutil.rmtree(root,ignore_errors=True)
