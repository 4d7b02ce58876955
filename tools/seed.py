"""seed.py SPEC.py...: make planted bugs from spec files (see load) and try them.

Works in scratch copies under /tmp; writes /verif/seeded/<ID>/ when the change passes the tests and its
demonstration tells it from the original.  seed.py --check [ID...] only runs the checks against planted bugs.
"""

import concurrent.futures
import glob
import json
import os
import shutil
import subprocess
import sys
import tempfile
import threading

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
LOCK = threading.Lock()
PY = "/opt/venv/bin/python"
DEMO_SH = '''#!/bin/bash
# exit 0: behaves; nonzero: broken.  Run with cwd = the repository.
export PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD"
exec timeout 120 /opt/venv/bin/python -B "$(dirname "$0")/demo.py"
'''


def sh(cmd, cwd, **env):
    return subprocess.run(cmd, cwd=cwd, capture_output=True, text=True, env=dict(os.environ, **env))


def copy():
    d = tempfile.mkdtemp(prefix="seed-")
    subprocess.run(["git", "-C", "/repo", "worktree", "prune"], check=False)
    subprocess.run(f"git -C /repo archive HEAD | tar x -C {d}", shell=True, check=True)
    sh(["git", "init", "-q"], d)
    sh(["git", "add", "-A"], d)
    sh(["git", "-c", "user.email=a@b", "-c", "user.name=a", "commit", "-qm", "x"], d)
    return d


def tests(d):
    base = json.load(open("/opt/vp/BASELINE.json"))
    r = sh([PY, "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "--hypothesis-profile=ci", "--timeout=300", "tests"], d,
           PYTHONPATH=d, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", HYPOTHESIS_STORAGE_DIRECTORY=d + "/.hyp")
    return r.returncode == 0, r.stdout[-1500:]


def check(prop, d, jobs="4"):
    out = tempfile.mkdtemp(prefix="seedv-")
    for n in ("vp", "run.sh", "known-findings.json"):
        s = os.path.join(ROOT, n)
        (shutil.copytree if os.path.isdir(s) else shutil.copy)(s, os.path.join(out, n))
    r = sh(["bash", "run.sh", prop, "quick"], out, VP_REPO=d, VP_JOBS=jobs)
    shutil.rmtree(out)
    lines = r.stdout.strip().splitlines()
    lab = next((x.strip() for i, x in enumerate(lines) if i + 1 < len(lines) and lines[i + 1].startswith("VIOLATION")), "")
    return r.returncode, lab or "\n".join(lines[-4:]) + r.stderr[-500:]


def note(i, rc, txt):
    """Remember, for DESIGN.md, which harness caught a planted bug."""
    with LOCK:
        p = ROOT + "/tools/seeds.json"
        d = json.load(open(p)) if os.path.exists(p) else {}
        d[i] = txt.split(":")[0].split("[")[0] if rc == 1 else "missed"
        json.dump(dict(sorted(d.items())), open(p, "w"), indent=1)


def load(path):
    """The bugs of a spec file: calls of bug(id, property, needs, breaks, demo, (file, old, new)...)."""
    out = []

    def bug(i, prop, needs, breaks, demo, *edits):
        out.append(dict(ID=i, PROPERTY=prop, NEEDS=needs, BREAKS=breaks, DEMO=demo, EDITS=edits))

    ns = {"bug": bug}
    exec(open(path).read(), ns)
    return out or [ns]


def add(ns):
    i, prop = ns["ID"], ns["PROPERTY"]
    d = copy()
    try:
        for f, old, new in ns["EDITS"]:
            s = open(f"{d}/{f}").read()
            if s.count(old) != 1:
                return f"{i}: edit of {f} matches {s.count(old)} times"
            open(f"{d}/{f}", "w").write(s.replace(old, new))
        diff = sh(["git", "diff"], d).stdout
        x = tempfile.mkdtemp(prefix="seedx-")
        open(x + "/patch.diff", "w").write(diff)
        open(x + "/demo.py", "w").write(ns["DEMO"].lstrip("\n"))
        open(x + "/demo.sh", "w").write(DEMO_SH)
        json.dump(dict(property=prop, needs=ns["NEEDS"], what_it_breaks=ns["BREAKS"]), open(x + "/meta.json", "w"), indent=1)
        g = sh(["bash", x + "/demo.sh"], "/repo")
        b = sh(["bash", x + "/demo.sh"], d)
        if g.returncode != 0:
            return f"{i}: demo fails on the original: {g.stdout[-300:]}{g.stderr[-600:]}"
        if b.returncode == 0:
            return f"{i}: demo does not see the change"
        ok, txt = tests(d)
        if not ok:
            return f"{i}: tests fail: {txt[-700:]}"
        dst = f"{ROOT}/seeded/{i}"
        shutil.rmtree(dst, ignore_errors=True)
        shutil.copytree(x, dst)
        shutil.rmtree(x)
        rc, txt = check(prop, d)
        note(i, rc, txt)
        return f"{i}: kept; {prop} -> {'CAUGHT' if rc == 1 else 'MISSED rc=%d' % rc}: {txt}"
    finally:
        shutil.rmtree(d, ignore_errors=True)


def recheck(i):
    dst = f"{ROOT}/seeded/{i}"
    prop = json.load(open(dst + "/meta.json"))["property"]
    d = copy()
    try:
        r = sh(["git", "apply", dst + "/patch.diff"], d)
        if r.returncode:
            return f"{i}: patch does not apply {r.stderr}"
        if not os.path.exists(f"{ROOT}/vp/h/{prop.lower()}.py"):
            return f"{i}: {prop} has no check"
        rc, txt = check(prop, d)
        note(i, rc, txt)
        return f"{i}: {prop} -> {'CAUGHT' if rc == 1 else 'MISSED rc=%d' % rc}: {txt}"
    finally:
        shutil.rmtree(d, ignore_errors=True)


if __name__ == "__main__":
    a = sys.argv[1:]
    if a and a[0] == "--check":
        ids = a[1:] or sorted(os.path.basename(x) for x in glob.glob(ROOT + "/seeded/*"))
        f, xs = recheck, ids
    else:
        f, xs = add, [b for x in a for b in load(x)]
    with concurrent.futures.ThreadPoolExecutor(3) as p:
        for r in p.map(f, xs):
            print(r, flush=True)
