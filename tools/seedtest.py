#!/usr/bin/env python3
"""seedtest.py [-c] [ID...]: tries the planted bugs of /verif/seeded on scratch copies.

For each: the patch applies, the stable tests pass with it, the demonstration
passes without and fails with it, and (with -c) the property's quick check
reports it. The scratch copy of /repo and the checker built against it live in
a temporary directory; /repo is not touched."""
import json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENV = dict(os.environ)
for line in subprocess.run(["bash", "-c", ". /opt/vp/env.sh; env -0"], stdout=subprocess.PIPE).stdout.split(b"\0"):
    k, _, v = line.decode().partition("=")
    ENV[k] = v
ENV.update(GOFLAGS="-mod=mod", GOPROXY="off", GOTOOLCHAIN="local")


def sh(cmd, cwd, timeout=900, env=ENV):
    p = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, shell=isinstance(cmd, str))
    return p.returncode, p.stdout.decode(errors="replace")


def check(prop, repo, work, tier="quick"):
    """Builds the checker against repo and runs one check."""
    mod = open(ROOT + "/mc/go.mod").read().replace("=> /repo", "=> " + repo)
    open(work + "/go.mod", "w").write(mod)
    args = ["go", "build", "-modfile", work + "/go.mod", "-o", work + "/mc"]
    if prop == "C36":
        rc, out = sh(["go", "run", "./cmd/instrument", "-steps", repo + "/gitdiff", work + "/overlay"], ROOT + "/mc")
        if rc:
            return 2, out
        args += ["-tags", "steps", "-overlay", work + "/overlay/overlay.json"]
    if prop == "C27":
        rc, out = sh(["go", "run", "./cmd/instrument", repo + "/gitdiff", work + "/overlay"], ROOT + "/mc")
        if rc:
            return 2, out
        args += ["-race", "-tags", "sched", "-overlay", work + "/overlay/overlay.json"]
    rc, out = sh(args + ["./cmd/mc"], ROOT + "/mc")
    if rc:
        return 2, out
    if os.path.exists(ROOT + "/known_findings.jsonl"):
        shutil.copy(ROOT + "/known_findings.jsonl", work)
    return sh([work + "/mc", "-property", prop, "-tier", tier, "-root", work], work, env=dict(ENV, VERIF_WORK=work, VERIF_TIER=tier))


def original(patch):
    """Tells if a patch changes lines of the original repository: it removes
    some, or adds some next to unchanged ones."""
    base = subprocess.run(["git", "rev-list", "--max-parents=0", "HEAD"], cwd="/repo", stdout=subprocess.PIPE).stdout.decode().strip()
    name, n = None, 0
    for line in open(patch):
        if line.startswith("--- a/"):
            name = line[6:].strip()
            blame = subprocess.run(["git", "blame", "-s", "-l", "--root", name], cwd="/repo", stdout=subprocess.PIPE).stdout.decode().split("\n")
            mine = [not b.startswith(base[:30]) for b in blame]
        elif line.startswith("@@"):
            n = int(line.split()[1][1:].split(",")[0]) - 1
            prev = True
        elif line.startswith("-"):
            if not mine[n]:
                return True
            n += 1
        elif line.startswith(" "):
            n += 1
        elif line.startswith("+") and not line.startswith("+++"):
            if not mine[n - 1] and not mine[n]:
                return True
    return False


def one(sid, do_check, props):
    d = ROOT + "/seeded/" + sid
    meta = json.load(open(d + "/meta.json"))
    work = tempfile.mkdtemp(prefix="seed.")
    try:
        repo = work + "/repo"
        shutil.copytree("/repo", repo, symlinks=True)
        seed = work + "/seed"
        shutil.copytree(d, seed)
        rc, out = sh("bash " + seed + "/demo.sh", repo, 300)
        if rc:
            return sid, "BAD demo fails on the clean tree: " + out[-600:]
        rc, out = sh("git apply " + seed + "/patch.diff", repo)
        if rc:
            return sid, "BAD patch: " + out
        rc, out = sh("go build ./...", repo)
        if rc:
            return sid, "BAD build: " + out
        rc, out = sh("go test -vet=off -count=1 ./...", repo)
        if rc:
            fails = [l.strip() for l in out.split("\n") if "--- FAIL" in l]
            return sid, "BAD tests: " + "; ".join(fails[:6])
        rc, out = sh("bash " + seed + "/demo.sh", repo, 300)
        if rc == 0:
            return sid, "BAD demo passes with the patch"
        res = "ok"
        if not original(d + "/patch.diff"):
            res = "BAD touches only lines of our own commits"
        if do_check:
            for prop in props or [meta["property"]]:
                rc, out = check(prop, repo, work)
                if rc == 1 and "VIOLATION property=" + prop in out:
                    what = [l for l in out.split("\n") if l.startswith(("scenario:", "key:"))]
                    res += " CAUGHT by %s %s" % (prop, " ".join(what))
                elif rc == 0:
                    res += " MISSED by " + prop
                else:
                    res += " ERROR %s rc=%d %s" % (prop, rc, out[-500:])
        return sid, res
    finally:
        shutil.rmtree(work)


def main():
    args = sys.argv[1:]
    do_check = "-c" in args
    props = [a[2:] for a in args if a.startswith("-p")]
    ids = [a for a in args if not a.startswith("-")] or sorted(os.listdir(ROOT + "/seeded"))
    with ThreadPoolExecutor(2 if do_check else 6) as ex:
        for sid, res in ex.map(lambda s: one(s, do_check, props), ids):
            print(sid, res, flush=True)


if __name__ == "__main__":
    main()
