#!/usr/bin/env python3
"""Development tool: confirm planted bugs in scratch copies and see which checks catch them.

plant.py verify ID...     demo ok / patch applies / demo fails / stable tests pass
plant.py catch  ID [P..]  run the quick check(s) (default: the bug's property) on the patched copy
"""
import json
import os
import re
import shutil
import subprocess
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENV = dict(os.environ, HOME="/root", MPLBACKEND="agg", QT_QPA_PLATFORM="offscreen",
           PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="1",
           LANG="C.UTF-8", LC_ALL="C.UTF-8", TZ="UTC")


def sh(cmd, cwd, env=ENV, timeout=900):
    return subprocess.run(cmd, cwd=cwd, env=env, timeout=timeout, shell=isinstance(cmd, str),
                          capture_output=True, text=True, executable="/bin/bash" if isinstance(cmd, str) else None)


def copy(i):
    d = f"/tmp/bug-{i}"
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    sh(f"cp -a /repo {d}/repo && cd {d}/repo && git checkout -q -- .", "/")
    return d, d + "/repo"


def demo(i, repo):
    # the demo must be independent of where it lies: run from a copy
    d = os.path.dirname(repo) + "/demo"
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree(f"{V}/seeded/{i}", d, ignore=shutil.ignore_patterns("*.diff", "*.patch", "meta.json"))
    return sh(["bash", d + "/demo.sh"], repo)


def verify(i):
    d, repo = copy(i)
    try:
        r0 = demo(i, repo)
        a = sh(["git", "apply", f"{V}/seeded/{i}/patch.diff"], repo)
        if a.returncode:
            return f"{i}: PATCH DOES NOT APPLY {a.stderr}"
        r1 = demo(i, repo)
        msg = f"{i}: demo clean={r0.returncode} patched={r1.returncode}"
        if r0.returncode or not r1.returncode:
            return msg + "\n" + r0.stdout[-800:] + r0.stderr[-1500:] + "\n---\n" + r1.stdout[-500:]
        env = dict(ENV, PYTHONPATH=f"{repo}:/opt/vp/plugin")
        t = sh("/opt/venv/bin/python -m pytest -q -p no:cacheprovider -p vp_worker_cwd -n 6 --mpl --timeout=300 "
               f"--continue-on-collection-errors -o junit_family=xunit2 --junitxml={d}/x.xml; "
               f"/usr/bin/python3 /opt/vp/results.py {d}/o.json junit:{d}/x.xml", repo, env)
        o = json.load(open(d + "/o.json"))
        b = json.load(open("/opt/vp/BASELINE.json"))
        key = lambda x: set(x.get("passed") or x.get("stable") or x.get("pass") or [])
        miss = sorted(key(b) - key(o))
        msg += f" tests missing={len(miss)} {miss[:5]}"
        msg += "  | last line patched: " + (r1.stdout + r1.stderr).strip().splitlines()[-1][:160]
        return msg
    finally:
        shutil.rmtree(d, ignore_errors=True)


def catch(i, props):
    d, repo = copy(i)
    try:
        a = sh(["git", "apply", f"{V}/seeded/{i}/patch.diff"], repo)
        assert not a.returncode, a.stderr
        props = props or [json.load(open(f"{V}/seeded/{i}/meta.json"))["property"]]
        out = []
        for p in props:
            env = dict(ENV, VERIF_REPO=repo, VERIF_SEED=os.environ.get("VERIF_SEED", "1"), VERIF_TIER="quick")
            r = sh(["python3", "check.py", p, "--tier", "quick"], V, env)
            cl = re.findall(r"^VIOLATION.*$", r.stdout, re.M)
            out.append(f"{i} {p}: exit={r.returncode} {cl[:2]}")
            if r.returncode not in (0, 1):
                out.append(r.stdout[-800:] + r.stderr[-800:])
        return "\n".join(out)
    finally:
        shutil.rmtree(d, ignore_errors=True)


if __name__ == "__main__":
    if sys.argv[1] == "verify":
        for i in sys.argv[2:]:
            print(verify(i), flush=True)
    else:
        print(catch(sys.argv[2], sys.argv[3:]), flush=True)
