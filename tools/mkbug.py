#!/usr/bin/env python3
"""mkbug.py ID PROP FILE <<< json {edits:[[old,new],...] or {file:[[old,new]]}, needs, breaks, demo}: writes seeded/ID."""
import json,sys,subprocess,os
REPO=os.environ.get('ETHOS_REPO','/repo')
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def mk(id, prop, edits, needs, breaks, demo, extra=None):
    assert not subprocess.check_output(['git','-C',REPO,'status','--porcelain'])
    d=here+'/seeded/'+id; os.makedirs(d,exist_ok=True)
    try:
        for f,o,n in edits:
            p=REPO+'/'+f; s=open(p).read(); assert s.count(o)==1,(f,o,s.count(o)); open(p,'w').write(s.replace(o,n))
        diff=subprocess.check_output(['git','-C',REPO,'diff'])
    finally:
        subprocess.check_call(['git','-C',REPO,'checkout','-q','--','.'])
    open(d+'/patch.diff','wb').write(diff)
    json.dump(dict(property=prop,needs=needs,what_it_breaks=breaks),open(d+'/meta.json','w'),indent=1)
    open(d+'/demo.sh','w').write('''#!/bin/bash
# run with cwd /repo after the build; works in a scratch directory only
ethos=$PWD/_build/release/src/ethos
here=$(cd "$(dirname "$0")" && pwd)
scratch=$(mktemp -d) || exit 99
trap 'cd /; rm -r "$scratch"' EXIT
cd "$scratch" || exit 99
export LC_ALL=C
ulimit -c 0
'''+demo.lstrip('\n'))
    os.chmod(d+'/demo.sh',0o755)
    for n,t in (extra or {}).items(): open(d+'/'+n,'w').write(t)
