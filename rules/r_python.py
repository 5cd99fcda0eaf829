"""C51: the Python bindings against the C++ declarations."""
import os, re, glob, ast, json
from rules.util import *
import terms as T, front
from front import norm_type, strip_ref, params
STUBS = front.STUBS
ALL = ["Boundary", "FastMarchingMethod", "Heap", "Hole", "InputOutput", "LevelSet", "Mesh", "Sensitivity", "Optimise"]
def kids(n): return [c for c in n.get("inner") or [] if isinstance(c, dict) and c.get("kind")]
def walk(n):
    st = [n]
    while st:
        x = st.pop(); yield x; st += reversed(kids(x))
TRANS = ("ImplicitCastExpr", "ParenExpr", "ExprWithCleanups", "MaterializeTemporaryExpr", "CXXBindTemporaryExpr", "ConstantExpr", "CXXFunctionalCastExpr", "CXXDefaultArgExpr", "FullExpr", "SubstNonTypeTemplateParmExpr")
def peel(n):
    while n.get("kind") in TRANS and len(kids(n)) == 1: n = kids(n)[0]
    return n
def literal(n):
    """canonical value of a default argument"""
    n = peel(n); k = n.get("kind")
    if k in ("IntegerLiteral", "FloatingLiteral"): return ("num", float(n["value"]))
    if k == "CXXBoolLiteralExpr": return ("bool", bool(n["value"]) if not isinstance(n["value"], str) else n["value"] == "true")
    if k == "StringLiteral": return ("str", n["value"])
    if k == "UnaryOperator" and n.get("opcode") == "-":
        v = literal(kids(n)[0]); return ("num", -v[1]) if v and v[0] == "num" else None
    if k in ("CXXConstructExpr", "CXXTemporaryObjectExpr"):
        a = [c for c in kids(n) if c.get("kind") != "CXXDefaultArgExpr"]
        if not a: return ("empty", re.sub(r"\s", "", strip_ref(norm_type(n.get("type")))))
        if len(a) == 1:
            v = literal(a[0]); return v
    if k == "InitListExpr" and not kids(n): return ("empty", re.sub(r"\s", "", strip_ref(norm_type(n.get("type")))))
    if k == "DeclRefExpr":
        r = n.get("referencedDecl") or {}
        return ("decl", r.get("name"))
    return None
def same_value(a, b):
    if a is None or b is None: return None
    if a == b: return True
    z = {("str", '""'), }
    if a in z and b[0] == "empty" and "string" in b[1] or b in z and a[0] == "empty" and "string" in a[1]: return True
    if a[0] == b[0] == "empty": return True
    if {a[0], b[0]} == {"num", "bool"}: return float(a[1]) == float(b[1])
    return False
def tlist(s):
    """parameter types of a function type string"""
    s = norm_type(s); s = re.sub(r"\(\w+::\*\)|\([\w:]+ ?::\*\)", "", s)
    m = re.search(r"\((.*)\)\s*(?:noexcept)?$", s.strip())
    return split(m.group(1)) if m else None
def split(s):
    out, d, cur = [], 0, ""
    for c in s:
        if c in "<(": d += 1
        if c in ">)": d -= 1
        if c == "," and d == 0: out.append(cur); cur = ""
        else: cur += c
    if cur.strip(): out.append(cur)
    return [re.sub(r"\s", "", x) for x in out if x.strip() and x.strip() != "void"]
class Bound:
    def __init__(self): self.cls = {}
class Entry: pass
def entries(fn):
    """the .def* calls of a bind function, in order"""
    for n in walk(fn):
        if n.get("kind") != "CXXMemberCallExpr": continue
        ks = kids(n); m = ks[0]
        if m.get("kind") != "MemberExpr": continue
        t = norm_type((kids(m)[0].get("type") if kids(m) else None))
        c = re.search(r"class_<([\w:]+)", t)
        if not c or not (m.get("name") or "").startswith("def"): continue
        yield c.group(1), m["name"], ks[1:], n
def argspec(n):
    """(name, default) of a py::arg argument; None when it is something else"""
    t = norm_type(n.get("type")); p = peel(n)
    if p.get("kind") == "CXXOperatorCallExpr":
        ks = kids(p)
        a = argspec(ks[1]) if len(ks) >= 3 else None
        if a is None: return None
        return (a[0], ks[2])
    if p.get("kind") == "UserDefinedLiteral" or p.get("kind") in ("CXXConstructExpr", "CXXTemporaryObjectExpr", "StringLiteral") and re.search(r"\barg\b", t):
        s = [x for x in walk(p) if x.get("kind") == "StringLiteral"]
        return (s[0]["value"].strip('"'), None) if s else None
    return None
def memberref(n):
    for x in walk(n):
        if x.get("kind") == "DeclRefExpr" and (x.get("referencedDecl") or {}).get("kind") in ("CXXMethodDecl", "FieldDecl"): return x
    return None
def raw(m): return [(p.get("type") or {}).get("qualType", "") for p in params(m)]
def norm_keep(t): return t.strip()
def pyname(s): return s.rstrip("_")
def c51(ctx):
    """Table check over the syntax trees of the binding sources (type-checked against declarations standing in for pybind11): every def refers to the member of its own name in its own class, gives as many argument names as the overload has parameters, with the C++ names and the C++ default values; every overload of a bound function, every constructor and every class of the manifest of the interface is bound, and bound once; bind functions are all declared and called; every library source is included by exactly one of them."""
    ctx.load(ALL, flags=("-DPYBIND",))
    prog = ctx.prog
    bd = os.path.join(front.REPO, "python", "bindings")
    files = sorted(glob.glob(os.path.join(bd, "*.cpp")))
    if not files: ctx.und("no binding sources"); return
    flags = ["-DPYBIND", "-I" + STUBS]
    # declarations of the library: (class, name) -> [(types, names, defaults, access, node)]
    decl = {}; fields = {}
    for cls, r in prog.records.items():
        for m in r["methods"]:
            if m.get("isImplicit") or m.get("kind") == "CXXDestructorDecl": continue
            nm = m["name"] if m.get("kind") != "CXXConstructorDecl" else "(init)"
            ps = params(m)
            d = prog.funcs.get("%s::%s|%s" % (cls, m["name"], norm_type({"qualType": m["type"]["qualType"]})))
            pn = [p.get("name") for p in ps]
            if d is not None and len(params(d)) == len(ps): pn = [a or b.get("name") for a, b in zip(pn, params(d))]
            decl.setdefault((cls, nm), []).append((tlist(m["type"]["qualType"]), pn, [kids(p)[-1] if kids(p) else None for p in ps], m.get("_access", "public"), m))
        for nm, t, node in r["fields"]: fields[(cls, nm)] = (t, node)
    bound = {}; nd = 0
    base = json.load(open(os.path.join(os.path.dirname(os.path.abspath(front.__file__)), "python_names.json")))
    BASE.clear(); BASE.update({tuple(k): v for k, v in base["keywords"]})
    docs = {}
    from concurrent.futures import ThreadPoolExecutor
    def go(f):
        try: return front.run_clang(f, flags, filt="bind_")
        except front.AnalysisBroken as e: return e
    with ThreadPoolExecutor(8) as ex: outs = list(ex.map(go, files))
    for f, out in zip(files, outs):
        if isinstance(out, Exception):
            e = out; msg = str(e); errs = re.findall(r"error: (.*)", msg)
            if errs and all(re.search(r"pybind11|py::|namespace 'py'", x) for x in errs): ctx.und("%s uses pybind11 features not modelled: %s" % (os.path.basename(f), errs[:1]))
            elif errs: ctx.fail("the bindings do not type-check against the library: %s" % errs[0], "python/bindings/" + os.path.basename(f), os.path.basename(f))
            else: ctx.und(msg[:300])
            continue
        docs[f] = front.parse_docs(out)
        st = front._Loc()
        for d in docs[f]: front.fix_locs(d, st)
    called = {}; defined = {}
    for f, ds in docs.items():
        for fn in ds:
            if fn.get("kind") != "FunctionDecl" or front.body(fn) is None: continue
            where = fn.get("name")
            if where.startswith("bind_") and (fn.get("_loc") or ("",))[0] and bd in (fn["_loc"][0] or ""): defined[where] = f
            for x in walk(fn):
                if x.get("kind") == "DeclRefExpr" and (x.get("referencedDecl") or {}).get("name") == "bind_vector":
                    pass
            for cls, kind, args, call in entries(fn):
                nd += 1
                loc = "python/bindings/%s:%s" % (os.path.basename(f), (call.get("_loc") or (0, "?"))[1])
                a0 = peel(args[0]) if args else {}
                names = [s for s in (argspec(a) for a in args) if s is not None]
                t0 = norm_type(args[0].get("type")) if args else ""
                L = lastline(call, f) or loc
                if "init_t<" in t0:
                    tl = split(re.search(r"init_t<(.*)>", t0, re.S).group(1))
                    check_fn(ctx, bound, decl, cls, "(init)", "(init)", tl, names, L)
                    continue
                s = literal(args[0]) if args else None
                if s is None or s[0] != "str" or len(args) < 2: ctx.und("%s: %s of %s not understood" % (L, kind, cls)); continue
                py = s[1].strip('"')
                r = memberref(args[1])
                if r is None: ctx.und("%s: %s.%s is bound to something other than a member" % (L, cls, py)); bound.setdefault((cls, py), []).append(None); continue
                rd = r["referencedDecl"]; cname = rd["name"]
                want = "operator()" if py == "__call__" else py
                mt = norm_type(args[1].get("type"))
                owner = re.search(r"(\w+)(?:::\*| ::\*)", mt)
                if owner and owner.group(1) != cls: ctx.fail("%s.%s is bound to a member of %s" % (cls, py, owner.group(1)), L, "%s.%s" % (cls, py)); continue
                if cname != want: ctx.fail("%s.%s is bound to %s::%s" % (cls, py, cls, cname), L, "%s.%s" % (cls, py)); continue
                if rd["kind"] == "FieldDecl":
                    if (cls, py) in bound: ctx.fail("%s.%s is bound twice" % (cls, py), L, "%s.%s" % (cls, py))
                    else: ctx.ok()
                    bound.setdefault((cls, py), []).append(kind)
                    c = re.search(r"\bconst\b", ((fields.get((cls, py)) or (0, {}))[1].get("type") or {}).get("qualType", ""))
                else: check_fn(ctx, bound, decl, cls, cname, py, tlist(rd["type"]["qualType"]), names, L)
    if os.environ.get("C51_DUMP"):
        json.dump({"names": sorted([list(k) for k in bound]), "keywords": sorted([list(k), v] for k, v in KW.items())}, open(os.environ["C51_DUMP"], "w"), indent=0)
    # completeness
    classes = {c for c, _ in bound}
    for (cls, nm), l in sorted(decl.items()):
        if cls not in classes: continue
        py = "__call__" if nm == "operator()" else nm
        if nm != "(init)" and (cls, py) not in bound: continue
        got = [b for b in bound.get((cls, py), []) if b is not None]
        for tl, names, defs, acc, m in l:
            if acc != "public" or nm == "operator=": continue
            if nm == "(init)" and len(tl) == 1 and strip_ref(tl[0]) == cls: continue       # copies
            if any(re.match(r"^(double|bool|int|unsigned int) ?&$", norm_keep(p)) for p in raw(m)): continue      # no references to scalars in Python
            if any("nlopt::" in x for x in tl): continue
            if any([strip_ref(y) for y in g] == [strip_ref(y) for y in tl] for g in got if isinstance(g, list)): ctx.ok()
            elif None in bound.get((cls, py), []): ctx.und("%s.%s: some overloads are bound to wrappers" % (cls, py))
            else: ctx.fail("the overload %s::%s(%s) is not available from Python" % (cls, cls if nm == "(init)" else nm, ", ".join(tl)), "src/%s" % cls, "%s.%s" % (cls, py))
    for c, n in base["names"]:
        if (c, n) in bound or c not in {r for r in prog.records}: ctx.ok()
        elif n != "(init)" and (c, n) not in fields and (c, "operator()" if n == "__call__" else n) not in decl: ctx.und("%s::%s is gone" % (c, n))
        else: ctx.fail("%s.%s is no longer available from Python" % (c, n), "python/bindings", "%s.%s" % (c, n))
    ctx.sites = nd
    # registration
    texts = {f: open(f).read() for f in files}
    inc = {}
    for f in files:
        for m in re.finditer(r'^\s*#\s*include\s*"([\w/.]+\.cpp)"', texts[f], re.M): inc.setdefault(os.path.basename(m.group(1)), []).append(os.path.basename(f))
    for s in sorted(glob.glob(os.path.join(front.REPO, "src", "*.cpp"))):
        b = os.path.basename(s)
        if inc and len(inc.get(b, [])) > 1: ctx.fail("%s is compiled into the module %d times (%s)" % (b, len(inc[b]), ", ".join(inc[b])), "python/bindings", b)
        elif inc and b not in inc and b[:-4] in ALL: ctx.fail("%s is compiled into no part of the module" % b, "python/bindings", b)
        else: ctx.ok()
    main = next((f for f in files if os.path.basename(f) == "pyslsm.cpp"), None)
    if main:
        try: out = front.parse_docs(front.run_clang(main, flags, filt="pybind11_init_"))
        except front.AnalysisBroken as e: out = []
        calls = [ (x.get("referencedDecl") or {}).get("name") for d in out for x in walk(d) if x.get("kind") == "DeclRefExpr"]
        for b in sorted(defined):
            c = calls.count(b)
            if out and c != 1: ctx.fail("%s is called %d times when the module is initialised" % (b, c), "python/bindings/pyslsm.cpp", "pyslsm")
            else: ctx.ok()
    # the programs of /repo/python may only use what exists
    pynames = {}
    for c, n in bound: pynames.setdefault(c, set()).add(n)
    modnames = set(re.findall(r'class_<\w+>\s*\(\s*m\s*,\s*"(\w+)"', "".join(texts.values()))) | set(re.findall(r'bind_vector<.*?>\s*\(\s*m\s*,\s*"(\w+)"', "".join(texts.values())))
    anyattr = {n for c, n in bound}
    for p in sorted(glob.glob(os.path.join(front.REPO, "python", "*.py"))):
        try: tree = ast.parse(open(p).read())
        except SyntaxError as e: ctx.fail("does not parse: %s" % e, "python/" + os.path.basename(p), os.path.basename(p)); continue
        for x in ast.walk(tree):
            if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == "pyslsm":
                if x.attr in modnames or not modnames: ctx.ok()
                else: ctx.fail("uses pyslsm.%s, which the module does not define" % x.attr, "python/%s:%d" % (os.path.basename(p), x.lineno), os.path.basename(p))
def lastline(call, f):
    # the chained calls of one class share their beginning: report the line of the first string literal
    for a in kids(call)[1:]:
        for x in walk(a):
            if x.get("_loc") and x["_loc"][1] and x["_loc"][0] and "bindings" in str(x["_loc"][0]): return "python/bindings/%s:%s" % (os.path.basename(f), x["_loc"][1])
    return None
KW = {}; BASE = {}
def sig(tl): return ",".join(strip_ref(x) for x in tl or [])
def check_fn(ctx, bound, decl, cls, cname, py, tl, names, L):
    at = "%s.%s" % (cls, py)
    if tl in bound.get((cls, py), []): ctx.fail("this overload of %s is bound twice" % at, L, at)
    bound.setdefault((cls, py), []).append(tl)
    l = [d for d in decl.get((cls, cname), []) if d[0] == tl]
    if cname == "(init)" and not l: l = [d for d in decl.get((cls, cname), []) if [strip_ref(x) for x in d[0]] == [strip_ref(x) for x in tl]]
    if len(l) > 1: l = [d for d in l if d[3] == "public"] or l
    if cname == "(init)" and not l and tl == []: ctx.ok(); return         # implicit default constructor
    if len(l) != 1: ctx.und("%s: no unique declaration of %s(%s)" % (L, at, ", ".join(tl or []))); return
    tl, pn, pd, acc, m = l[0]
    if names and len(names) != len(pn): ctx.fail("%s names %d arguments but the function takes %d" % (at, len(names), len(pn)), L, at); return
    b = BASE.get((cls, py, sig(tl)))
    KW[(cls, py, sig(tl))] = [n for n, _ in names]
    if b is not None and names and b and [n for n, _ in names] != b: ctx.fail("the keywords of %s are %s, must be %s" % (at, ", ".join(n for n, _ in names), ", ".join(b)), L, at)
    elif b and not names: ctx.fail("%s no longer takes keywords" % at, L, at)
    if not names:
        if any(d is not None for d in pd): ctx.fail("%s gives no default values although the C++ function has them" % at, L, at)
        else: ctx.ok()
        return
    for i, (nm, df) in enumerate(names):
        close = lambda a, b: bool(a and b) and (pyname(a).lower() in pyname(b).lower() or pyname(b).lower() in pyname(a).lower())
        if not close(nm, pn[i]) and any(j != i and pn[j] and pyname(pn[j]) == pyname(nm) for j in range(len(pn))): ctx.fail("argument %d of %s is called %s, which in C++ is another argument" % (i + 1, at, nm), L, at)
        else: ctx.ok()
        if (df is None) != (pd[i] is None): ctx.fail("argument %s of %s %s" % (nm, at, "has a default value in C++ only" if df is None else "has a default value in Python only"), L, at); continue
        if df is None: continue
        s = same_value(literal(df), literal(pd[i]))
        if s is None: ctx.und("%s: default of %s not comparable" % (at, nm))
        elif not s: ctx.fail("the default of argument %s of %s is %s, in C++ %s" % (nm, at, literal(df)[1], literal(pd[i])[1]), L, at)
        else: ctx.ok()
RULES = {"C51": c51}
