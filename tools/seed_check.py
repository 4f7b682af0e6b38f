#!/usr/bin/env python3
"""For each seeded change: does it apply, build, pass the stable tests, does its demo tell it apart, and does the check catch it?
   seed_check.py [ID...] [--fast: only demo and check]"""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = os.path.join(V, "seeded")
args = [a for a in sys.argv[1:] if not a.startswith("--")]
fast = "--fast" in sys.argv
stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
def sh(cmd, t=900):
    try:
        r = subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=t)
        return r.returncode, r.stdout
    except subprocess.TimeoutExpired:
        return 124, "timeout"
for i in args or sorted(os.listdir(S)):
    d = os.path.join(S, i); prop = json.load(open(d + "/meta.json"))["property"]
    assert sh("git -C /repo status --porcelain --untracked-files=no")[1] == "", "repo not clean"
    out = [f"clean-demo={sh(f'cd /repo && bash {d}/demo.sh', 300)[0]}"]
    rc, o = sh(f"git -C /repo apply {d}/patch.diff")
    if rc: print(i, "DOES NOT APPLY", o); continue
    try:
        if not fast:
            rc, o = sh("bash /opt/vp/build.sh"); out.append(f"build={rc}")
            rc, o = sh("bash /opt/vp/test.sh /tmp/seed_out.json")
            p = set(json.load(open("/tmp/seed_out.json"))["passed"]); out.append("tests=" + ("ok" if stable <= p else "BROKEN " + str(stable - p)))
        out.append(f"bug-demo={sh(f'cd /repo && bash {d}/demo.sh', 300)[0]}")
        rc, o = sh(f"cd {V} && python3 check.py {prop} --tier quick")
        v = [l for l in o.splitlines() if l.startswith("VIOLATION")]
        out.append(f"check={rc} {'CAUGHT' if rc == 1 and v else 'MISSED'}")
        if rc not in (0, 1): out.append(o[-1500:])
        tail = o.splitlines()[-1] if o else ""
        out.append(tail)
    finally:
        sh("git -C /repo checkout -- .")
    print(i, prop, *out, flush=True)
if not fast: sh("bash /opt/vp/build.sh")
