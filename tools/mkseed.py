#!/usr/bin/env python3
"""Turns a directory of seed specifications (one .py per planted bug) into /verif/seeded/<id>/ and
validates each: mkseed.py SPECDIR [id...].   A spec defines: prop, file, edits=[(old,new)...],
demo (C++ source), needs, breaks, and optionally flags (extra g++ flags), shim=True."""
import sys,os,subprocess,json,shutil,tempfile,glob
V='/verif'; R='/repo'
DEMO='''#!/bin/bash
# Run with cwd = the repository, after its build. Exit 0: the behaviour is right; non-zero: it is broken.
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 9
trap 'rm -rf "$t"' EXIT
mkdir -p "$t/include" && ln -s "$PWD/src" "$t/include/sharemind"
g++ -std=c++14 %s -pthread %s-I"$t/include" "$d/demo.cpp" -o "$t/demo" || exit 8
timeout %d "$t/demo"
'''
def run(cmd,**k): return subprocess.run(cmd,shell=True,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,**k)
def main():
    sd=sys.argv[1]; want=sys.argv[2:]
    for sp in sorted(glob.glob(sd+'/*.py')):
        sid=os.path.basename(sp)[:-3]
        if want and sid not in want: continue
        ns={}; exec(open(sp).read(),ns)
        w=tempfile.mkdtemp(prefix='seed'); r=w+'/repo'
        try:
            run('cp -a %s %s'%(R,r))
            bad=None
            files=ns.get('files') or {ns['file']:ns['edits']}
            for f,ed in files.items():
                p=r+'/src/'+f; s=open(p).read()
                for o,n in ed:
                    if s.count(o)!=1: bad='%s: %d matches for %r'%(f,s.count(o),o[:60]); break
                    s=s.replace(o,n)
                open(p,'w').write(s)
            if bad: print(sid,'BAD',bad); continue
            patch=run('git -C %s diff'%r).stdout
            run('git -C %s checkout -- .'%r)
            o=V+'/seeded/'+sid; shutil.rmtree(o,ignore_errors=True); os.makedirs(o,exist_ok=True)
            open(o+'/patch.diff','w').write(patch)
            open(o+'/demo.cpp','w').write(ns['demo'].lstrip('\n'))
            inc=''
            if ns.get('shim'):
                inc='-I"$d/shim" '
            open(o+'/demo.sh','w').write(DEMO%(ns.get('flags','-O1 -g'),inc,ns.get('timeout',60))); os.chmod(o+'/demo.sh',0o755)
            for h in ns.get('shim') or []:
                q=o+'/shim/sharemind/'+h; os.makedirs(os.path.dirname(q),exist_ok=True); (shutil.copytree if os.path.isdir(V+'/shim/sharemind/'+h) else shutil.copy)(V+'/shim/sharemind/'+h,q)
            json.dump({'property':ns['prop'],'needs':ns['needs'],'what_it_breaks':ns['breaks']},open(o+'/meta.json','w'),indent=1)
            # validate
            shutil.copytree(o,w+'/d')
            a=run('bash %s/d/demo.sh'%w,cwd=r)
            if a.returncode: print(sid,'DEMO FAILS UNPATCHED',a.returncode,a.stdout[-600:]); continue
            g=run('git -C %s apply %s/patch.diff'%(r,o))
            if g.returncode: print(sid,'PATCH',g.stdout); continue
            b=run('bash %s/d/demo.sh'%w,cwd=r)
            if b.returncode==8: print(sid,'DEMO DOES NOT COMPILE PATCHED',b.stdout[-600:]); continue
            if b.returncode==0: print(sid,'DEMO PASSES PATCHED'); continue
            if os.environ.get('NOTEST'): print(sid,'ok (no tests)',b.returncode); continue
            # build and tests need /repo paths: apply in /repo, test, undo
            run('git -C %s apply %s/patch.diff'%(R,o))
            try:
                c=run('bash /opt/vp/build.sh'); 
                if c.returncode: print(sid,'BUILD FAILS',c.stdout[-500:]); continue
                run('bash /opt/vp/test.sh %s/t.json'%w)
                ref=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open(w+'/t.json'))
                want_=set(ref['stable'])
                got=set(t.get('passed',[]))
                miss=want_-got
                print(sid,'OK' if not miss else 'TESTS FAIL %s'%sorted(miss)[:4],'demo rc',b.returncode)
            finally: run('git -C %s checkout -- .'%R)
        finally: shutil.rmtree(w,ignore_errors=True)
main()
