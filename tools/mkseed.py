"""mk(id, property, needs, breaks, edits, demo): writes a seed."""
import os, subprocess, json, shutil, tempfile
DEMO='''#!/bin/bash
# Exit 0 if the property holds on the tree in the current directory.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local
work=$(mktemp -d) || exit 2
trap 'rm -rf -- "$work"' EXIT
cp "$here/main.go" "$work/" || exit 2
cat > "$work/go.mod" <<EOF
module demo

go 1.23

require github.com/bluekeyes/go-gitdiff v0.0.0

replace github.com/bluekeyes/go-gitdiff => $repo
EOF
cd "$work" && RACE && ./demo
'''
PRE='''package main

import (
	%s
	"fmt"
	"os"

	"github.com/bluekeyes/go-gitdiff/gitdiff"
)

func check(ok bool, format string, args ...any) {
	if !ok {
		fmt.Printf(format+"\\n", args...)
		os.Exit(1)
	}
}

'''
def mk(sid, prop, needs, breaks, edits, body, imports=('bytes','strings'), race=False):
    d='/verif/seeded/'+sid
    os.makedirs(d, exist_ok=True)
    w=tempfile.mkdtemp()
    subprocess.run(['cp','-a','/repo',w+'/repo'],check=True)
    for f,old,new in edits:
        p=w+'/repo/gitdiff/'+f
        s=open(p).read()
        assert s.count(old)>=1,(sid,f,old)
        assert s.count(old)==1,(sid,'ambiguous',f,old)
        open(p,'w').write(s.replace(old,new))
    env=dict(os.environ)
    subprocess.run('. /opt/vp/env.sh; gofmt -l gitdiff/*.go',shell=True,cwd=w+'/repo')
    diff=subprocess.run(['git','diff'],cwd=w+'/repo',stdout=subprocess.PIPE).stdout
    open(d+'/patch.diff','wb').write(diff)
    shutil.rmtree(w)
    body=body.strip('\n')+'\n'
    full=PRE%'\n\t'.join('"%s"'%i for i in imports)+body
    open(d+'/main.go','w').write(full)
    subprocess.run('. /opt/vp/env.sh; gofmt -w '+d+'/main.go',shell=True)
    open(d+'/demo.sh','w').write(DEMO.replace('RACE','go build -race -o demo .' if race else 'go build -o demo .'))
    os.chmod(d+'/demo.sh',0o755)
    json.dump({"property":prop,"needs":needs,"what_it_breaks":breaks},open(d+'/meta.json','w'),indent=1)
