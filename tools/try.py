#!/usr/bin/env python3
"""try.py FILE.json|-: plants candidate bugs [{id, file, old, new, nth?}] in /tmp/seed/<id> and reports which pass the packages' tests."""
import json, sys, subprocess, os, shutil
for c in json.loads(sys.stdin.read(), strict=False):
    w='/tmp/seed/'+c['id']
    if os.path.exists(w): shutil.rmtree(w)
    subprocess.run(['cp','-a','/tmp/rw',w],check=True)
    edits=c.get('edits') or [c]
    for e in edits:
        f=os.path.join(w,e['file']); s=open(f).read()
        n=s.count(e['old'])
        if n==0: print(c['id'],'NOT FOUND',e['file']); break
        nth=e.get('nth',0)
        if n>1 and 'nth' not in e: print(c['id'],'AMBIGUOUS',n); break
        i=-1
        for _ in range(nth+1): i=s.index(e['old'],i+1)
        open(f,'w').write(s[:i]+e['new']+s[i+len(e['old']):])
    else:
        r=subprocess.run('. /opt/vp/env.sh; gofmt -l $(git diff --name-only); go vet ./... 2>&1 | grep -v "^#" | head -5; go test -timeout 120s %s 2>&1 | grep -E -A6 -e "--- FAIL|^panic|^FAIL|build failed" | head -12'%c.get('pkgs','./internal/datastructures/... ./pkg/... ./internal/limiter/... ./internal/willow/...'),shell=True,cwd=w,capture_output=True,text=True,executable='/bin/bash')
        print('==',c['id'],'tests:', r.stdout.strip() or 'PASS', r.stderr[:300]); sys.stdout.flush()
