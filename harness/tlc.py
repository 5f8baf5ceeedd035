"""Running TLC: exhaustive model checking, and judging recorded cases/traces with a TLA+ module."""
from __future__ import annotations

import concurrent.futures as cf
import json
import os
import re
import shutil
import subprocess
import tempfile

SPEC = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "spec")
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class TLCError(Exception):
    pass


def _java(args, env=None, cwd=None, timeout=800, heap="3g", stack="256m", opts=(), gc="-XX:+UseSerialGC"):
    tmp = tempfile.mkdtemp(prefix="tlcj")
    try:
        e = dict(os.environ)
        e.pop("JAVA_TOOL_OPTIONS", None)
        e.update(env or {})
        p = subprocess.run(
            ["java", gc, "-Xmx" + heap, "-Xss" + stack, "-XX:-UsePerfData",
             "-Djava.io.tmpdir=" + tmp, *opts, "-cp", CP, "tlc2.TLC", "-noGenerateSpecTE", *args],
            stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", env=e, cwd=cwd, timeout=timeout,
        )
        return p.returncode, p.stdout
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def _stats(out):
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
    return (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)


def model_check(module, cfg=None, workers=4, timeout=800, heap="4g", args=(), env=None, expect_violation=False):
    """Exhaustively check spec/<module>.tla with spec/<cfg>.cfg.  Returns dict(states, transitions, out)."""
    work = tempfile.mkdtemp(prefix="tlcm")
    try:
        rc, out = _java(
            ["-workers", str(workers), "-metadir", os.path.join(work, "meta"), "-config",
             os.path.join(SPEC, (cfg or module) + ".cfg"), *args, os.path.join(SPEC, module + ".tla")],
            env=env, cwd=SPEC, timeout=timeout, heap=heap, stack="64m", gc="-XX:+UseParallelGC")
        gen, dist = _stats(out)
        if expect_violation:
            return {"states": dist, "transitions": gen, "out": out, "rc": rc}
        if rc != 0 or "Model checking completed. No error has been found." not in out:
            raise TLCError("TLC failed on %s/%s (rc %s):\n%s" % (module, cfg, rc, out[-6000:]))
        return {"states": dist, "transitions": gen, "out": out, "rc": rc}
    finally:
        shutil.rmtree(work, ignore_errors=True)


def printed(out, tag):
    """Values printed by PrintT(<<"tag", ToJson(x)>>) -> list of parsed JSON."""
    # TLC breaks lines longer than 80 characters between the elements of a tuple
    res = []
    for m in re.finditer(r'^<<\s*"%s",\s*"((?:[^"\\]|\\.)*)"\s*>>$' % re.escape(tag), out, re.M):
        res.append(json.loads(json.loads('"' + m.group(1) + '"')))
    if len(res) != len(re.findall(r'^<<\s*"%s",' % re.escape(tag), out, re.M)):
        raise TLCError("cannot read what TLC printed for %s" % tag)
    return res


WRAP = """---- MODULE JudgeRun ----
EXTENDS %s
VARIABLE ji
JInit == ji = 0
JNext == ji < Len(Cases) /\\ ji' = ji + 1 /\\ Report(ji + 1, Verdict(Cases[ji + 1]))
         /\\ (IF ji + 1 = Len(Cases) THEN PrintT(<<"DONE", ji + 1>>) ELSE TRUE)
====
"""


def _judge_shard(module, cfg, cases, timeout, heap, env):
    work = tempfile.mkdtemp(prefix="tlcc")
    try:
        path = os.path.join(work, "cases.json")
        with open(path, "w") as f:
            json.dump(cases, f, separators=(",", ":"))
        e = {"CASES": path}
        e.update(env or {})
        with open(os.path.join(work, "JudgeRun.tla"), "w") as f:
            f.write(WRAP % module)
        with open(os.path.join(work, "JudgeRun.cfg"), "w") as f:
            f.write("INIT JInit\nNEXT JNext\nCHECK_DEADLOCK FALSE\n")
            if cfg:
                f.write(open(os.path.join(SPEC, cfg + ".cfg")).read())
        rc, out = _java(
            ["-workers", "1", "-metadir", os.path.join(work, "meta"), "-config", "JudgeRun.cfg", "JudgeRun.tla"],
            env=e, cwd=work, timeout=timeout, heap=heap, opts=("-DTLA-Library=" + SPEC,))
        verdicts = [(int(a) - 1, json.loads('"' + b + '"'))
                    for a, b in re.findall(r'^<<\s*"VERDICT",\s*(\d+),\s*"((?:[^"\\]|\\.)*)"\s*>>$', out, re.M)]
        if len(verdicts) != len(re.findall(r'^<<\s*"VERDICT",', out, re.M)):
            raise TLCError("cannot read the verdicts TLC printed:\n" + out[-4000:])
        done = re.findall(r'^<<"DONE", (\d+)>>$', out, re.M)
        ok = rc == 0 and done and int(done[-1]) == len(cases)
        gen, dist = _stats(out)
        return ok, verdicts, dist, gen, out
    finally:
        shutil.rmtree(work, ignore_errors=True)


def judge(module, cases, cfg=None, shards=8, timeout=600, heap="2g", env=None, min_shard=20):
    """Let TLC evaluate the module's monitor on every case.

    Returns (verdicts: {case index: clause}, stats).  The verdict operators are meant to be total; a case on which TLC
    still fails to evaluate is outside the model's domain and is reported as such - after TLC failed on it alone.
    """
    if not cases:
        return {}, {"states": 0, "transitions": 0}
    shards = max(1, min(shards, (len(cases) + min_shard - 1) // min_shard))
    idx = [list(range(s, len(cases), shards)) for s in range(shards)]
    res = {}
    st = {"states": 0, "transitions": 0}

    def run(ix):
        return ix, _judge_shard(module, cfg, [cases[i] for i in ix], timeout, heap, env)

    todo = [ix for ix in idx if ix]
    failures = 0
    good = False
    while todo:
        with cf.ThreadPoolExecutor(8) as ex:
            rs = list(ex.map(run, todo))
        todo = []
        for ix, (ok, verdicts, dist, gen, out) in rs:
            st["states"] += dist
            st["transitions"] += gen
            if ok:
                good = True
                for k, v in verdicts:
                    res[ix[k]] = v
            elif len(ix) == 1:
                if any(s in out for s in ("OutOfMemory", "Parsing or semantic analysis failed", "could not", "Unknown operator")):
                    raise TLCError(out[-5000:])
                failures += 1
                if not good and failures > 3:
                    raise TLCError("TLC evaluates no case of %s:\n%s" % (module, out[-4000:]))
                m = re.search(r"Error: (.*(?:\n.*){0,6})", out)
                res[ix[0]] = "outside the model's domain: " + (m.group(1)[:300].replace("\n", " ") if m else out[-300:])
            else:
                if any(s in out for s in ("OutOfMemory", "Parsing or semantic analysis failed", "Unknown operator")):
                    raise TLCError(out[-5000:])
                n = max(1, len(ix) // 8)
                todo += [ix[j: j + n] for j in range(0, len(ix), n)]
        if failures > 20:
            break
    return res, st
