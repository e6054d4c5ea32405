"""try.py CHECK FILE OLD NEW: run a check on a scratch copy of /repo with one textual replacement"""
import subprocess, sys, tempfile, shutil, os
chk, f, old, new = sys.argv[1:5]
nth = int(sys.argv[5]) if len(sys.argv) > 5 else 0
d = tempfile.mkdtemp(prefix="try", dir="/tmp")
subprocess.run(["cp", "-a", os.environ.get("BASE", "/repo") + "/.", d])
p = d + "/" + f
s = open(p).read()
n = s.count(old)
assert n > nth, "pattern found %d times" % n
i = -1
for _ in range(nth + 1):
    i = s.find(old, i + 1)
s = s[:i] + new + s[i + len(old):]
open(p, "w").write(s)
r = subprocess.run([sys.executable, "/verif/check.py", chk], env=dict(os.environ, PDC_REPO=d), capture_output=True, text=True)
out = [l[:int(os.environ.get("W", 260))] for l in r.stdout.splitlines()]
print("rc", r.returncode, "|", "\n   ".join(out[:4] if len(out) > 4 else out), r.stderr[-300:])
shutil.rmtree(d)
