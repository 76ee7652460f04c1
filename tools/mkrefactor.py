"""mk(id, [(file, old, new)...]): writes /verif/refactors/<id>.diff, an edit of
/repo that keeps its behaviour."""
import os, shutil, subprocess, tempfile


def mk(rid, edits, new_files={}):
    os.makedirs('/verif/refactors', exist_ok=True)
    w = tempfile.mkdtemp()
    subprocess.run(['cp', '-a', '/repo', w + '/repo'], check=True)
    try:
        for f, old, new in edits:
            p = w + '/repo/gitdiff/' + f
            s = open(p).read()
            assert s.count(old) == 1, (rid, f, s.count(old), old)
            open(p, 'w').write(s.replace(old, new))
        for f, text in new_files.items():
            open(w + '/repo/gitdiff/' + f, 'w').write(text)
        env = '. /opt/vp/env.sh; export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local; '
        for cmd in ['gofmt -w gitdiff', 'go vet ./gitdiff', 'go test -count=1 ./gitdiff | tail -15', 'git add -A -N']:
            p = subprocess.run(env + cmd, shell=True, cwd=w + '/repo', executable='/bin/bash', stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            out = p.stdout.decode()
            if p.returncode or 'FAIL' in out:
                print(rid, cmd, out)
        diff = subprocess.run(['git', 'diff'], cwd=w + '/repo', stdout=subprocess.PIPE).stdout
        open('/verif/refactors/' + rid + '.diff', 'wb').write(diff)
        print(rid, len(diff))
    finally:
        shutil.rmtree(w)
