#!/usr/bin/env python3
"""Plant one bug: apply edits in a scratch copy of /repo, build, run the stable tests, run the demo on
both trees, check that the changed lines are the original repository's; on success store it in
/verif/seeded/<id>/.  Input: a python file defining ID, PROP, EDITS=[(file,old,new)], DEMO (C++), NEEDS, BREAKS."""
import sys,os,subprocess,json,shutil,runpy,tempfile
d=runpy.run_path(sys.argv[1]); ID=d['ID']
base=tempfile.mkdtemp(prefix='plant_',dir='/tmp'); 
def sh(c,**k): return subprocess.run(c,shell=True,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,**k)
DEMO_SH='''#!/bin/bash
# builds the demonstration next to the library sources of the current directory and runs it in a scratch directory
here="$(cd "$(dirname "$0")" && pwd)"; repo="$PWD"
T="$(mktemp -d)"; trap 'rm -rf "$T"' EXIT
inc="-I$repo/include -I$repo/src $(xml2-config --cflags 2>/dev/null || echo -I/usr/include/libxml2)"
pids=()
for f in "$repo"/src/*.cpp "$repo"/src/jsmn/*.c* "$here"/demo.cpp; do
  g++ -g -O0 -w -fpermissive -DBIN_WRITE_PLUGIN %s $inc -c "$f" -o "$T/$(basename "$f").o" & pids+=($!)
done
for p in "${pids[@]}"; do wait "$p" || { echo "build failed"; exit 3; }; done
g++ %s "$T"/*.o -lxml2 -o "$T/demo" || exit 3
mkdir "$T/work"; cd "$T/work" && timeout 120 "$T/demo" >"$T/out" 2>&1; rc=$?
tail -5 "$T/out"; echo "demo rc=$rc"
exit $rc
'''
try:
    S=base+'/repo'; subprocess.check_call(['cp','-a','/repo',S]); sh('git checkout -q -- . ; git clean -fdq',cwd=S)
    dd=base+'/demo'; os.makedirs(dd)
    fl=d.get('FLAGS','')
    open(dd+'/demo.sh','w').write(d.get('DEMO_SH') or DEMO_SH%(fl,fl)); os.chmod(dd+'/demo.sh',0o755)
    open(dd+'/demo.cpp','w').write(d['DEMO'])
    r=sh(dd+'/demo.sh',cwd=S); print('clean:',r.stdout[-600:]); assert r.returncode==0,'demo fails on clean tree'
    for f,o,n in d['EDITS']:
        p=S+'/'+f; s=open(p).read(); assert s.count(o)==1,(f,o,s.count(o)); open(p,'w').write(s.replace(o,n))
    patch=sh('git diff',cwd=S).stdout
    # removed/changed lines must belong to the base commit
    orig=sh('git rev-list --max-parents=0 HEAD',cwd=S).stdout.strip()
    for f in {e[0] for e in d['EDITS']}:
        bl=sh(f'git blame -s -l HEAD -- {f}',cwd=S).stdout.split('\n')
        hunks=sh(f'git diff -U0 -- {f}',cwd=S).stdout.split('\n')
        import re
        for h in hunks:
            m=re.match(r'@@ -(\d+)(?:,(\d+))? ',h)
            if m:
                a=int(m[1]); c=int(m[2] or 1)
                for i in range(a,a+c):
                    assert bl[i-1].lstrip('^').startswith(orig[:39]),('not an original line',f,i,bl[i-1])
                if c==0: print('note: pure insertion at',f,a)
    # build with cmake in the copy
    r=sh(f'''sed 's#/repo#{S}#g' /opt/vp/build.sh > {base}/build.sh; rm -rf {S}/_build; bash {base}/build.sh''');  assert r.returncode==0,r.stdout[-2000:]
    r=sh(f'''sed 's#/repo#{S}#g' /opt/vp/run_tests.py > {base}/run_tests.py; sed 's#/repo#{S}#g; s#/opt/vp/run_tests.py#{base}/run_tests.py#; s#/opt/vp/build.sh#{base}/build.sh#' /opt/vp/test.sh > {base}/test.sh; bash {base}/test.sh {base}/o.json'''); print(r.stdout[-300:])
    res=json.load(open(base+'/o.json')); stable=json.load(open('/opt/vp/BASELINE.json'))['stable']
    def passed(t):
        return t in res.get('passed',[]) if 'passed' in res else res.get(t) in ('PASS','pass',True)
    bad=[t for t in stable if not passed(t)]; assert not bad,('stable tests fail',bad)
    r=sh(dd+'/demo.sh',cwd=S); print('patched:',r.stdout[-600:]); assert r.returncode not in (0,3),('demo does not fail',r.returncode)
    out='/verif/seeded/'+ID; os.makedirs(out,exist_ok=True)
    for f in ('demo.sh','demo.cpp'): shutil.copy(dd+'/'+f,out+'/'+f)
    open(out+'/patch.diff','w').write(patch)
    json.dump({'property':d['PROP'],'needs':d['NEEDS'],'what_it_breaks':d['BREAKS']},open(out+'/meta.json','w'),indent=1)
    print('PLANTED',ID)
finally: shutil.rmtree(base)
