"""dev helper: mut.py FILE 'old' 'new' CHECK... : run checks on a scratch copy of /repo with one textual change"""
import sys, os, subprocess, shutil, tempfile
f, old, new = sys.argv[1:4]
d = tempfile.mkdtemp(prefix="mut", dir="/tmp")
shutil.copytree("/repo/src", d + "/src"); shutil.copytree("/repo/python", d + "/python"); shutil.copytree("/repo/tests", d + "/tests"); shutil.copytree("/repo/demos", d + "/demos")
p = d + "/src/" + f if not f.startswith("python") else d + "/" + f
s = open(p).read()
if s.count(old) < 1: print("no match"); sys.exit(2)
s = s.replace(old, new, 1); open(p, "w").write(s)
env = dict(os.environ, SLSM_REPO=d)
for c in sys.argv[4:]:
    r = subprocess.run(["/verif/check", c], env=env, capture_output=True, text=True)
    print("\n".join(l[:260] for l in r.stdout.splitlines()[:8]), r.stderr[-300:])
shutil.rmtree(d)
