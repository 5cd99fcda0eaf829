"""dev helper: systematic single-token mutants of a source file; prints the mutants no check reports.
usage: sweep.py FILE FIRST LAST OUT CHECK..."""
import sys, os, re, subprocess, shutil, tempfile, random
from concurrent.futures import ThreadPoolExecutor
F, A, B, OUT = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), sys.argv[4]; CS = sys.argv[5:]
src = open("/repo/src/" + F).read().split("\n")
OPS = [(r"<=", ["<"]), (r">=", [">"]), (r"(?<![<>\w])<(?![<=])", ["<="]), (r"(?<![->])>(?![>=])", [">="]), (r"==", ["!="]), (r"!=", ["=="]), (r"&&", ["||"]), (r"\|\|", ["&&"]),
       (r"(?<![+\w(])\+(?![+=])", ["-"]), (r"(?<=\s)-(?=\s)", ["+"]), (r"(?<=[\w\])])\*(?=[\w(])", ["/"]), (r"(?<=\s)\*(?=\s)", ["/"]), (r"(?<=\s)/(?=\s)", ["*"]), (r"\+=", ["-=", "="]), (r"-=", ["+="]), (r"\+\+", ["--"]),
       (r"\b0\b(?!\.)", ["1"]), (r"\b1\b(?!\.)", ["0", "2"]), (r"\b2\b(?!\.)", ["3"]), (r"\b3\b(?!\.)", ["2"]), (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]), (r"\bx\b", ["y"]), (r"\by\b", ["x"]),
       (r"\bwidth\b", ["height"]), (r"\bheight\b", ["width"]), (r"\bstart\b", ["end"]), (r"\bend\b", ["start"]), (r"!(?=[\w(])", [""]), (r"\bINSIDE\b", ["OUTSIDE"]), (r"\bstd::min\b", ["std::max"]), (r"\bstd::max\b", ["std::min"]), (r"\bi\b(?=\])", ["0"]), (r"\bj\b(?=\])", ["0"]), (r"\bfabs|std::abs\b", [""])]
muts = []
incomment = False
for i in range(A - 1, min(B, len(src))):
    l = src[i]; code = l.split("//")[0]
    if "/*" in code: incomment = True
    if incomment:
        if "*/" in code: incomment = False
        continue
    if not code.strip() or code.strip().startswith(("#", "namespace", "using")) or re.match(r"^\s*(unsigned int|double|int|bool|std::\S+|Coord)\s+[\w, ]+;$", code): continue
    seen = set()
    masked = re.sub(r'"(\\.|[^"])*"', lambda m: "\x01" * len(m.group(0)), code)
    for rx, reps in OPS:
        for m in re.finditer(rx, masked):
            for r in reps:
                n = code[:m.start()] + r + code[m.end():]
                if n != code and n not in seen: seen.add(n); muts.append((i, n))
    if re.match(r"^\s+[\w\[\]\.\->:()*]+\s*([+\-*/]?=[^=].*|\+\+|--|\(.*\));$", code) : muts.append((i, re.match(r"^\s*", code).group(0) + ";"))
    if re.match(r"^\s*(if|else if) \(.*\)$", code): muts.append((i, re.sub(r"if \((.*)\)$", r"if (true)", code)))
def run(m):
    i, n = m
    d = tempfile.mkdtemp(prefix="sw", dir="/tmp")
    try:
        for x in ("src", "python", "tests", "demos"): shutil.copytree("/repo/" + x, d + "/" + x)
        s = list(src); s[i] = n; open(d + "/src/" + F, "w").write("\n".join(s))
        c = subprocess.run(["g++", "-std=c++11", "-fsyntax-only", "-w", "-I", d + "/src", "-I", "/verif/stubs", d + "/src/" + F], capture_output=True)
        if c.returncode: return None
        env = dict(os.environ, SLSM_REPO=d); und = []
        for c in CS:
            try: r = subprocess.run(["/verif/check", c], env=env, capture_output=True, text=True, timeout=400)
            except subprocess.TimeoutExpired: und.append(c + ":timeout"); continue
            if r.returncode == 1: return "caught"
            u = [x for x in r.stdout.splitlines() if x.startswith("UNDEC")]
            if u: und.append(c + ":" + u[0][11:150])
        return "%s:%d  %s   ==>   %s   %s" % (F, i + 1, src[i].strip()[:110], n.strip()[:110], ("UND " + "; ".join(und)[:260]) if und else "SURVIVED")
    finally: shutil.rmtree(d, ignore_errors=True)
o = open(OUT, "a"); n = k = 0
print(len(muts), "mutants", flush=True)
with ThreadPoolExecutor(int(os.environ.get("J", "3"))) as ex:
    for r in ex.map(run, muts):
        if r is None: continue
        n += 1
        if r == "caught": k += 1
        else: o.write(r + "\n"); o.flush()
o.write("DONE %s %d-%d: %d mutants, %d caught\n" % (F, A, B, n, k)); o.close()
