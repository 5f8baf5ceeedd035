"""Plant a bug: build /verif/seeded/<id>/ from a definition, after confirming it in a scratch copy of /repo.

usage: plant.py DEFS.py [id ...]      (DEFS defines BUGS: list of dicts id, prop, edits, needs, breaks, demo)

For each bug: the edits apply to a copy of /repo, change at least one line of the original repository and no line
that a fix added; the copy builds, passes the stable tests, and the demo fails on it while it passes on /repo.
Then the property's check runs against the copy; whether it catches the bug is printed, and the bug kept either way.
"""
import concurrent.futures as cf
import json
import os
import re
import runpy
import shutil
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
BASE = "148652b"
STABLE = json.load(open("/opt/vp/BASELINE.json"))["stable"]
TESTS = r"""
copy=$1; out=$2; work=$3
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 LC_ALL=C.UTF-8 TZ=UTC; unset CI
cd $copy || exit 1; ip link set lo up
/opt/venv/bin/python /opt/vp/support/run_tests.py "$work/results" tests -q -p no:cacheprovider --timeout=15 --timeout-method=thread --continue-on-collection-errors
/opt/venv/bin/python /opt/vp/results.py "$out" "lines:$work/results"
"""
HEAD = '''import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from lib import wire
from lib.world import *
from lib.wire import CAP, COM, P, Resp, pstr, pint, pfloat, pnull

'''


def blame(repo):
    res = {}
    for f in subprocess.run(["git", "-C", repo, "ls-files", "mysql_mimic"], capture_output=True, text=True).stdout.split():
        if f.endswith(".py"):
            o = subprocess.run(["git", "-C", repo, "blame", "-s", "--abbrev=7", f], capture_output=True, text=True).stdout
            res[f] = [l.split(" ", 1)[0].lstrip("^").startswith(BASE) for l in o.splitlines()]
    return res


def removed_lines(diff):
    f, n, out = None, 0, []
    for l in diff.splitlines():
        if l.startswith("--- "):
            f = l[6:]
        elif m := re.match(r"@@ -(\d+)", l):
            n = int(m.group(1))
        elif l.startswith("-"):
            out.append((f, n, l))
            n += 1
        elif l.startswith(" "):
            n += 1
    return out


def demo(d, cwd):
    try:
        r = subprocess.run(["bash", d + "/demo.sh"], cwd=cwd, capture_output=True, text=True, timeout=250)
        return r.returncode, (r.stdout + r.stderr).strip().splitlines()[-1:]
    except subprocess.TimeoutExpired:
        return "timeout", []


def plant(bug, orig):
    log = []
    work = tempfile.mkdtemp(prefix="plant")
    try:
        copy = work + "/repo"
        shutil.copytree(REPO, copy, symlinks=True, ignore=shutil.ignore_patterns("__pycache__"))
        for f, old, new in bug["edits"]:
            p = f"{copy}/mysql_mimic/{f}"
            s = open(p).read()
            if s.count(old) != 1:
                return bug["id"], "EDIT", f"{f}: {s.count(old)} x {old!r}"
            open(p, "w").write(s.replace(old, new))
        diff = subprocess.run(["git", "-C", copy, "diff"], capture_output=True, text=True).stdout
        rem = removed_lines(diff)
        mine = [x for x in rem if not orig[x[0]][x[1] - 1]]
        if mine or not rem:
            return bug["id"], "BLAME", str(mine or "no original line changed")
        d = f"{VERIF}/seeded/{bug['id']}"
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d + "/lib")
        open(d + "/patch.diff", "w").write(diff)
        for f in ("simloop.py", "wire.py", "world.py"):
            s = open(f"{VERIF}/harness/{f}").read().replace('os.environ.get("MIMIC_REPO", "/repo")', "os.getcwd()")
            open(f"{d}/lib/{f}", "w").write(s)
        open(d + "/lib/__init__.py", "w").close()
        open(d + "/demo.py", "w").write(HEAD + bug["demo"].lstrip("\n"))
        open(d + "/demo.sh", "w").write('#!/bin/bash\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        json.dump({"property": bug["prop"], "needs": bug["needs"], "what_it_breaks": bug["breaks"]},
                  open(d + "/meta.json", "w"), indent=1)
        rc0, m0 = demo(d, REPO)
        rc1, m1 = demo(d, copy)
        if rc0 != 0 or rc1 == 0:
            return bug["id"], "DEMO", f"clean {rc0} {m0} patched {rc1} {m1}"
        subprocess.run(["unshare", "-Urn", "bash", "-c", TESTS, "x", copy, work + "/o.json", work],
                       stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=900)
        passed = set(json.load(open(work + "/o.json"))["passed"])
        missing = [t for t in STABLE if t not in passed]
        if missing:
            shutil.rmtree(d)
            return bug["id"], "TESTS", f"{len(missing)} fail: {missing[:2]}"
        if "--nocheck" in sys.argv:
            return bug["id"], "ok", str(m1)
        r = subprocess.run(["/opt/venv/bin/python", f"{VERIF}/checks/{bug['prop'].lower()}.py"], capture_output=True, text=True,
                           env={**os.environ, "MIMIC_REPO": copy, "VERIF_SEED": "1", "VERIF_TIER": "quick"}, timeout=1500)
        v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
        return bug["id"], "caught" if r.returncode == 1 and v else f"MISSED rc={r.returncode}", str(m1)[:150] + r.stderr[-300:] * (r.returncode > 1)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def main():
    args = [a for a in sys.argv[1:] if not a.startswith("--")]
    bugs = runpy.run_path(args[0])["BUGS"]
    if args[1:]:
        bugs = [b for b in bugs if any(b["id"].startswith(a) for a in args[1:])]
    orig = blame(REPO)
    with cf.ThreadPoolExecutor(4) as ex:
        for fut in cf.as_completed([ex.submit(plant, b, orig) for b in bugs]):
            print(*fut.result(), flush=True)


main()
