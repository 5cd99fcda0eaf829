"""dev helper: behaviour-preserving edits must leave the checks quiet. refac.py SPEC [NAME...]; spec sections: @name / @file / @old / @new"""
import sys, os, subprocess, shutil, tempfile, re, json
from concurrent.futures import ThreadPoolExecutor
spec = open(sys.argv[1]).read(); only = sys.argv[2:]
R = {}; cur = None
for m in re.finditer(r"^@(name|file|old|new)[ \t]*(.*)\n((?:(?!^@(?:name|file|old|new)\b).*\n?)*)", spec, re.M):
    k, a, b = m.groups()
    if k == "name": cur = R.setdefault(a.strip(), [])
    elif k == "file": f = a.strip()
    elif k == "old": o = b
    else: cur.append((f, o, b))
checks = [c["property"] for c in json.load(open("/verif/MANIFEST.json"))["checks"]]
for nm, eds in R.items():
    if only and nm not in only: continue
    d = tempfile.mkdtemp(prefix="rf", dir="/tmp")
    try:
        for x in ("src", "python", "tests", "demos"): shutil.copytree("/repo/" + x, d + "/" + x)
        bad = None
        for f, o, n in eds:
            p = d + "/" + f; s = open(p).read()
            if s.count(o) == 0: bad = "NOMATCH " + o[:80]; break
            open(p, "w").write(s.replace(o, n, 1))
        if bad: print(nm, bad); continue
        for f in os.listdir(d + "/src"):
            if f.endswith(".cpp"):
                r = subprocess.run(["g++", "-std=c++11", "-fsyntax-only", "-w", "-I" + d + "/src", "-I/verif/stubs", d + "/src/" + f], capture_output=True, text=True)
                if r.returncode: bad = r.stderr[:300]
        if bad: print(nm, "DOES NOT COMPILE", bad); continue
        mods = {os.path.basename(f).split(".")[0] for f, o, n in eds}; rel = []
        for c in checks:
            if c in ("C50", "C51", "C47", "C46") or c in os.environ.get("SKIP", "").split(): continue
            try: e = json.load(open("/verif/evidence/%s.json" % c))
            except (OSError, ValueError): rel.append(c); continue
            if any(q.split("::")[0] in mods for q in e["coverage"]["functions_analysed"]) or c in ("C48", "C49") and os.environ.get("DEEP"): rel.append(c)
        def go(c):
            r = subprocess.run(["/verif/check", c], env=dict(os.environ, SLSM_REPO=d), capture_output=True, text=True)
            return c, r.returncode, r.stdout
        with ThreadPoolExecutor(int(os.environ.get("J", "8"))) as ex: res = list(ex.map(go, rel))
        al = [(c, [l for l in o.splitlines() if l.startswith("  ")][:2]) for c, rc, o in res if rc not in (0,)]
        un = [(c, [l for l in o.splitlines() if l.startswith("UNDEC")][:1]) for c, rc, o in res if rc == 0 and "undecided=0" not in o]
        print("%s (%d checks): %s" % (nm, len(rel), "OK" if not al and not un else ""))
        for c, l in al: print("   ALARM", c, " / ".join(x.strip()[:260] for x in l))
        for c, l in un: print("   und", c, (l or [""])[0][:200])
        sys.stdout.flush()
    finally: shutil.rmtree(d)
