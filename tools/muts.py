"""dev helper: run checks on many single-change mutants in parallel. stdin: lines FILE<TAB>old<TAB>new<TAB>CHECKS (\\n in old/new decoded)"""
import sys, os, subprocess, shutil, tempfile
from concurrent.futures import ThreadPoolExecutor
def one(l):
    f, old, new, cs = l.rstrip("\n").split("\t")
    old = old.replace("\\n", "\n").replace("\\\\n", "\\n"); new = new.replace("\\n", "\n")
    d = tempfile.mkdtemp(prefix="mut", dir="/tmp")
    try:
        for x in ("src", "python", "tests", "demos"): shutil.copytree("/repo/" + x, d + "/" + x)
        p = d + "/src/" + f if not f.startswith("python") else d + "/" + f
        s = open(p).read()
        if old not in s: return "NOMATCH %s" % l[:150]
        open(p, "w").write(s.replace(old, new) if old.startswith("@@") else s.replace(old, new, 1))
        env = dict(os.environ, SLSM_REPO=d); out = []
        for c in cs.split():
            r = subprocess.run(["/verif/check", c], env=env, capture_output=True, text=True)
            ls = r.stdout.splitlines()
            v = [x for x in ls if x.startswith("  ")][:1]; u = [x for x in ls if x.startswith("UNDEC")][:1]
            out.append("%s %s %s" % (c, "CAUGHT" if r.returncode == 1 else "quiet" if r.returncode == 0 else "RC%d" % r.returncode, ((v or u or [""])[0]).strip()[:170]))
        return "%-60s => %-50s : %s" % (old[:60].replace("\n", "~"), new[:50].replace("\n", "~"), " | ".join(out))
    finally: shutil.rmtree(d)
with ThreadPoolExecutor(6) as ex:
    for r in ex.map(one, [l for l in sys.stdin if l.strip()]): print(r)
