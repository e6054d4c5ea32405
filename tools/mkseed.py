#!/usr/bin/env python3
"""Build and validate a planted bug.  usage: mkseed.py <dir with demo.sh, meta.json, edit.py, extra files>
Runs edit.py in a scratch copy of /repo (cwd = copy), takes the diff, confirms: applies, builds, tests pass,
demo 0 without / nonzero with the change, and reports whether the property's check catches it."""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def sh(c, **k):
    return subprocess.run(c, shell=True, capture_output=True, text=True, **k)


def main(sid):
    d = V + "/seeded/" + sid
    wt = tempfile.mkdtemp(prefix="seedwt")
    run = tempfile.mkdtemp(prefix="seedrun")
    try:
        sh("git -C /repo archive HEAD | tar x -C %s" % wt)
        sh("git init -q . && git add -A && git -c user.name=a -c user.email=a@b commit -qm x", cwd=wt)
        if os.path.exists(d + "/edit.py"):
            r = sh("python3 %s/edit.py" % d, cwd=wt)
            if r.returncode:
                return "edit failed: " + r.stderr[-300:]
            diff = sh("git diff", cwd=wt).stdout
            if not diff:
                return "edit makes no change"
            open(d + "/patch.diff", "w").write(diff)
            sh("git checkout -q -- .", cwd=wt)
        # copy demo elsewhere
        for f in os.listdir(d):
            if f.endswith((".diff", ".patch")) or f in ("meta.json", "edit.py"):
                continue
            s = os.path.join(d, f)
            (shutil.copytree if os.path.isdir(s) else shutil.copy)(s, os.path.join(run, f))
        r0 = sh("timeout 300 bash %s/demo.sh" % run, cwd=wt)
        r = sh("git apply %s/patch.diff" % d, cwd=wt)
        if r.returncode:
            return "patch does not apply " + r.stderr
        r1 = sh("timeout 300 bash %s/demo.sh" % run, cwd=wt)
        meta = json.load(open(d + "/meta.json"))
        pid = meta["property"]
        env = dict(os.environ, PDC_REPO=wt)
        rc = sh("python3 %s/check.py %s" % (V, pid), env=env)
        sh("git -C %s/.. status" % V)
        res = {"demo_clean": r0.returncode, "demo_patched": r1.returncode, "check_rc": rc.returncode,
               "violation": [l for l in rc.stdout.splitlines() if l.startswith("VIOLATION") or "[" in l][:4]}
        if r0.returncode:
            res["out0"] = (r0.stdout + r0.stderr)[-800:]
        res["out1"] = (r1.stdout + r1.stderr)[-200:]
        if "--build" in sys.argv:
            a = sh("git -C /repo apply %s/patch.diff && bash /opt/vp/test.sh /tmp/seedout.json" % d)
            sh("git -C /repo checkout -- .")
            o = json.load(open("/tmp/seedout.json"))
            res["tests"] = [len(o["passed"]), o["failed"]]
            res["buildrc"] = a.returncode
            sh("bash /opt/vp/build.sh")
        if rc.returncode not in (0, 1):
            res["check_out"] = (rc.stdout + rc.stderr)[-600:]
        return json.dumps(res, indent=1)
    finally:
        shutil.rmtree(wt, ignore_errors=True); shutil.rmtree(run, ignore_errors=True)


for s in [a for a in sys.argv[1:] if not a.startswith("--")]:
    print(s, main(s))
