#!/usr/bin/env python3
"""refactest.py [-pC01,C02] [ID...]: runs the quick checks against edits that
keep the behaviour (/verif/refactors/*.diff), each on a scratch copy of /repo.
The checks have to stay quiet."""
import os, shutil, subprocess, sys, tempfile, json
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT + "/tools")
argv = sys.argv[1:]
import seedtest as st


def one(rid, props):
    work = tempfile.mkdtemp(prefix="refac.")
    try:
        repo = work + "/repo"
        shutil.copytree("/repo", repo, symlinks=True)
        rc, out = st.sh("git apply " + ROOT + "/refactors/" + rid + ".diff", repo)
        if rc:
            return rid, "BAD patch " + out
        rc, out = st.sh("go test -vet=off -count=1 ./...", repo)
        if rc:
            return rid, "BAD tests " + out[-600:]
        res = []
        for p in props:
            rc, out = st.check(p, repo, work)
            if rc or "VIOLATION" in out:
                res.append("%s rc=%d\n%s" % (p, rc, out[-1500:]))
        return rid, "quiet" if not res else "ALARM\n" + "\n".join(res)
    finally:
        shutil.rmtree(work)


def main():
    props = [a[2:].split(",") for a in argv if a.startswith("-p")]
    props = props[0] if props else [json.loads(l)["id"] for l in open(ROOT + "/properties.jsonl")]
    ids = [a for a in argv if not a.startswith("-")] or sorted(f[:-5] for f in os.listdir(ROOT + "/refactors") if f.endswith(".diff"))
    snap = tempfile.mkdtemp(prefix="snap.")  # edits to the checks do not matter while this runs
    shutil.copytree(ROOT + "/mc", snap + "/mc")
    shutil.copy(ROOT + "/known_findings.jsonl", snap)
    st.ROOT = snap
    with ThreadPoolExecutor(2) as ex:
        for rid, res in ex.map(lambda r: one(r, props), ids):
            print(rid, res, flush=True)
    shutil.rmtree(snap)


main()
